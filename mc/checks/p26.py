"""P26: schematics, flow summaries and progress notices depict the model."""
import ast
import itertools
import json
import os
import re
import warnings

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import NodeMeta, Input, Output, Link
from pywr.recorders import TablesRecorder
from pywr.recorders.progress import ProgressRecorder
from pywr.recorders._tables_recorders import TablesRecorder2
from mc.harness import require
from mc.probe import Fn

TECHNIQUE = ("exhaustive enumeration of small networks over all kinds of node, of settings and of edits, of selections of recorded route flows and of lengths of runs; the real schematics, "
             "summaries and notices are compared with the document, the recorded routes and the timesteps they must depict")
BOUNDS = ("every ordered pair of 18 kinds of node between a source and an outlet, with 9 kinds of virtual node; all 64 sets of edges between 4 nodes x 3 orders of the nodes; all histories of 3 edits out of 8; "
          "14 settings of a node in every pair; Sankey links of 3 networks for 8 time x 5 scenario selections x 3 x 3 aggregations x 8 options; series aligned over all pairs of 5 spans; "
          "runs of 1 to 250 steps, each run twice")


def quiet(f):
    def g(cfg, tr):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(cfg, tr)
    return g


KIND = {
    "input": {}, "output": {}, "link": {"max_flow": 3.0}, "storage": {"max_volume": 5.0, "initial_volume": 1.0}, "reservoir": {"max_volume": 5.0, "initial_volume": 1.0}, "catchment": {"flow": 1.0},
    "Link": {}, "river": {}, "discharge": {"flow": 1.0}, "rivergauge": {"mrf": 1.0}, "piecewiselink": {"nsteps": 2, "max_flows": [1.0, None], "costs": [1.0, 2.0]}, "losslink": {"loss_factor": 0.1},
    "breaklink": {}, "delaynode": {"timesteps": 1}, "BreakLink": {"max_flow": 2.0}, "riversplit": {"factors": [1.0, 2.0], "slot_names": ["x", "y"]},
    "riversplitwithgauge": {"factors": [1.0, 2.0], "slot_names": ["x", "y"], "mrf": 1.0},
    "multisplitlink": {"nsteps": 1, "factors": [1.0, 2.0], "slot_names": ["x", "y"], "extra_slots": 1, "max_flows": [None], "costs": [0.0]},
}
SPLIT = ("riversplit", "riversplitwithgauge", "multisplitlink")
HEAD = ("input", "catchment", "discharge")
VIRT = [
    {"type": "virtualstorage", "name": "v0", "nodes": ["end"], "max_volume": 5.0, "initial_volume": 5.0},
    {"type": "annualvirtualstorage", "name": "v1", "nodes": ["end"], "max_volume": 5.0, "initial_volume": 5.0},
    {"type": "SeasonalVirtualStorage", "name": "v2", "nodes": ["end"], "max_volume": 5.0, "initial_volume": 5.0},
    {"type": "monthlyvirtualstorage", "name": "v3", "nodes": ["end"], "max_volume": 5.0, "initial_volume": 5.0},
    {"type": "RollingVirtualStorage", "name": "v4", "nodes": ["end"], "max_volume": 5.0, "initial_volume": 5.0, "timesteps": 3},
    {"type": "aggregatednode", "name": "v5", "nodes": ["end", "top"]},
    {"type": "aggregatedstorage", "name": "v6", "storage_nodes": ["S"]},
]


def base_doc(nodes, edges, **kw):
    d = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-03", "timestep": 1}, "nodes": nodes, "edges": edges}
    d.update(kw)
    return d


def place(i):
    return {} if i % 3 == 2 else {"position": {"schematic": [i, -i + 0.5]}} if i % 3 == 0 else {"position": {"geographic": [1, 2], "schematic": [2 * i, 3]}}


def depicts(g, names, kinds, links, places, note):
    """the schematic g has just these nodes and links"""
    got = [n["name"] for n in g["nodes"]]
    require(sorted(got) == sorted(names), lambda: "%s: shows the nodes %s, not %s" % (note, sorted(got), sorted(names)), "nodes")
    for n in g["nodes"]:
        k = kinds[n["name"]].lower()
        require(n["clss"][-1] == k, lambda: "%s: %s is shown as %s, not %s" % (note, n["name"], n["clss"], k), "kind")
        bases = [c.__name__.lower() for c in NodeMeta.node_registry[k].__mro__]
        require(set(n["clss"]) <= set(bases), lambda: "%s: %s is not a %s" % (note, n["name"], n["clss"]), "kind")
        want = places.get(n["name"])
        have = n.get("position")
        require((have is None) == (want is None) and (want is None or list(have) == list(want)), lambda: "%s: position of %s is %s, not %s" % (note, n["name"], have, want), "position")
    have = {(got[e["source"]], got[e["target"]]) for e in g["links"]}
    require(have == set(links), lambda: "%s: shows the connections %s, not %s" % (note, sorted(have), sorted(set(links))), "links")


def check_doc(d, tr, note, virtual=(), html=False):
    from pywr.notebook import pywr_json_to_d3_json, pywr_model_to_d3_json, PywrSchematic
    real = [n for n in d["nodes"] if n["name"] not in virtual]
    names, kinds = [n["name"] for n in real], {n["name"]: n["type"] for n in real}
    links = [(e[0], e[1]) for e in d["edges"]]
    places = {n["name"]: n["position"]["schematic"] for n in real if "schematic" in n.get("position", {})}
    before = json.dumps(d)
    m = Model.loads(before)
    for attributes in (False, True):
        j = pywr_json_to_d3_json(d, attributes)
        depicts(j, names, kinds, links, places, note + " (document)")
        g = pywr_model_to_d3_json(m, attributes)
        depicts(g, names, kinds, links, places, note + " (model)")
        for x in (j, g):
            require(all(("attributes" in n) == attributes for n in x["nodes"]), "%s: attributes" % note, "attributes")
        a, b = ({n["name"]: {k: v for k, v in n.items() if k not in ("attributes",)} for n in x["nodes"]} for x in (j, g))
        require(a == b, lambda: "%s: the model is shown as %s, its document as %s" % (note, b, a), "agree")
    require(json.dumps(d) == before, "%s: the document has been changed" % note, "changed")
    if html:
        with open("d.json", "w") as f:
            f.write(before)
        for src, g in ((d, pywr_json_to_d3_json(d, True)), ("d.json", pywr_json_to_d3_json(d, True)), (m, pywr_model_to_d3_json(m, True))):
            s = PywrSchematic(src, attributes=True, width=321, height=123)
            require(s.graph == g, "%s: PywrSchematic" % note, "html")
            s.to_html("x.html", title="The title")
            t = open("x.html").read()
            w = re.search(r"const graph = (.*);$", t, re.M)
            require(w is not None and ast.literal_eval(w.group(1)) == g, "%s: the page shows another graph" % note, "html")
            require("The title" in t and "321" in t and "123" in t, "%s: the page's title and size" % note, "html")
            os.remove("x.html")
        require(s.json is None and PywrSchematic("d.json").json == d and PywrSchematic(d).json == d, "%s: the document to be saved" % note, "html")
    tr.step(4)


def legal(a, b):
    return b not in HEAD and a != "output"


def gen_pairs(tier):
    for a in KIND:
        yield {"a": a}


@quiet
def run_pairs(cfg, tr):
    a = cfg["a"]
    for b in KIND:
        if not legal(a, b):
            continue
        nodes = [{"name": "S", "type": "storage", "max_volume": 9.0, "initial_volume": 2.0}, dict(KIND[a], name="A", type=a), dict(KIND[b], name="B", type=b),
                 {"name": "end", "type": "output", "cost": -1.0}, {"name": "top", "type": "input", "max_flow": 2.0}]
        edges = [["top", "S"], ["S", "end"]]
        if a not in HEAD:
            edges.append(["S", "A"])
        edges.append(["A", "B"] + (["x", None] if a in SPLIT else []))
        if a in SPLIT:
            edges.append(["A", "end", "y", None])
        if b in SPLIT:
            edges += [["B", "end", "x", None], ["B", "S", "y", None]]
        elif b != "output":
            edges.append(["B", "end"])
        for n, p in zip(nodes, range(5)):
            n.update(place(p + len(b)))
        for virt in ([], VIRT):
            d = base_doc(nodes + (virt if b != "link" else virt[::-1]), edges)
            if len(a) % 2:
                d["nodes"].reverse()
            check_doc(d, tr, "%s to %s" % (a, b), [v["name"] for v in virt], html=not virt)
            tr.state(a, b, len(virt))
    tr.run()
    tr.outcome = a


def gen_graphs(tier):
    for mask in range(64):
        yield {"mask": mask}


@quiet
def run_graphs(cfg, tr):
    pairs = list(itertools.combinations("abcd", 2))
    edges = [list(p) for k, p in enumerate(pairs) if cfg["mask"] >> k & 1]
    kinds = {"a": "link", "b": "breaklink", "c": "link", "d": "losslink"}
    for order in ("abcd", "dcba", "bdac"):
        for flip in (0, 1):
            nodes = [{"name": "it's " + n, "type": kinds[n]} for n in order]
            es = [["it's " + x for x in e] for e in (edges[::-1] if flip else edges)]
            ins, outs = {e[1] for e in es}, {e[0] for e in es}
            for n in list(nodes):
                if n["name"] not in ins:
                    nodes.append({"name": n["name"] + " in", "type": "input"})
                    es.append([n["name"] + " in", n["name"]])
                if n["name"] not in outs:
                    nodes.append({"name": n["name"] + " out", "type": "output"})
                    es.append([n["name"], n["name"] + " out"])
            check_doc(base_doc(nodes, es), tr, "edges %s in order %s" % (edges, order), html=not flip and order == "abcd")
            tr.state(cfg["mask"], order, flip)
    tr.run()
    tr.outcome = len(edges)


# ---- attributes --------------------------------------------------------------

SETTINGS = {
    "max_flow": 3.0, "min_flow": "p agg", "cost": {"type": "constant", "value": 2.0}, "comment": "p agg!", "color": "#ff0000", "conversion_factor": 1.0,
}
LISTED = {"max_flows": [1.0, "p one"], "costs": [0.5, {"type": "constant", "value": 1.0}], "nsteps": 2}
PARAMS = {"p agg": {"type": "aggregated", "agg_func": "sum", "parameters": ["p one"]}, "p one": {"type": "constant", "value": 0.0}}
SHOWN = {"p agg": "p agg - AggregatedParameter", "p one": "p one - ConstantParameter"}


def gen_attrs(tier):
    for r in range(len(SETTINGS) + 1):
        for c in itertools.combinations(SETTINGS, r):
            yield {"set": c}


@quiet
def run_attrs(cfg, tr):
    from pywr.notebook import pywr_json_to_d3_json, pywr_model_to_d3_json
    s = {k: SETTINGS[k] for k in cfg["set"] if k not in ("comment", "color", "conversion_factor")}
    extra = {k: SETTINGS[k] for k in cfg["set"]}
    for with_params in ((True, False) if "min_flow" not in s else (True,)):
        a = dict(extra, name="a", type="link")
        b = {"name": "b", "type": "piecewiselink", **LISTED}
        if not with_params:
            b["max_flows"] = [1.0, 2.0]
        x, y = {"name": "x", "type": "input", "max_flow": 1.0}, {"name": "y", "type": "output"}
        d = base_doc([x, a, b, y], [["x", "a"], ["a", "b"], ["b", "y"]])
        if with_params:
            d["parameters"] = PARAMS
        g = {n["name"]: n["attributes"] for n in pywr_json_to_d3_json(d, True)["nodes"]}
        for n in (a, b, x, y):
            got = {t["attribute"]: t["value"] for t in g[n["name"]]}
            require(len(got) == len(g[n["name"]]) and set(got) == set(n) - {"type"}, "attributes shown of %s: %s" % (n, g[n["name"]]), "attributes")
            for k, v in n.items():
                if k == "type":
                    continue
                want = "ConstantParameter" if isinstance(v, dict) else SHOWN.get(v, v) if isinstance(v, str) else str(v)
                require(got[k] == want, lambda: "%s of %s is shown as %r, not %r" % (k, n["name"], got[k], want), "attributes")
        m = Model.loads(json.dumps({**d, "nodes": [x, dict(s, name="a", type="link"), b, y]}))
        g = {n["name"]: n["attributes"] for n in pywr_model_to_d3_json(m, True)["nodes"]}
        got = {t["attribute"]: t["value"] for t in g["a"]}
        require(got["name"] == "a", "name of a is shown as %r" % got["name"], "attributes")
        for k, default in (("max_flow", "inf"), ("min_flow", "0.0"), ("cost", "0.0")):
            v = s.get(k)
            shown = got.get(k, default)
            if v is None:
                ok = shown == default
            elif isinstance(v, str):
                ok = shown == SHOWN[v]
            elif isinstance(v, dict):
                ok = shown.endswith("ConstantParameter")
            else:
                ok = float(shown) == v
            require(ok, lambda: "%s of the model's node is shown as %r, it was given as %r" % (k, got.get(k), v), "attributes")
        tr.step(2)
        tr.state(cfg["set"], with_params)
    tr.run()
    tr.outcome = len(cfg["set"])


# ---- edits -------------------------------------------------------------------

EDITS = ("connect ac", "connect pd", "cut ab", "cut bc", "cut all c", "add", "add break", "drop")


def gen_edits(tier):
    L = 3 if tier == "quick" else 4
    for h in itertools.product(EDITS, repeat=L):
        if len(set(h)) == L and h[0] <= h[1] or tier != "quick":
            yield {"ops": h}


@quiet
def run_edits(cfg, tr):
    from pywr.notebook import pywr_model_to_d3_json
    from pywr.nodes import PiecewiseLink, BreakLink, LossLink, Storage
    m = Model()
    a, b, c, d = Input(m, "a"), Link(m, "b"), Link(m, "c"), Output(m, "d")
    p = PiecewiseLink(m, name="p", nsteps=2, max_flows=[1, 2], costs=[1, 2])
    N = {"a": a, "b": b, "c": c, "d": d, "p": p}
    kinds = {"a": "input", "b": "link", "c": "link", "d": "output", "p": "piecewiselink"}
    links = set()

    def join(x, y):
        N[x].connect(N[y])
        links.add((x, y))
    for x, y in ("ab", "bc", "cd", "bp", "pd"):
        if (x, y) != ("p", "d"):
            join(x, y)
    count = 0
    for k, op in enumerate(cfg["ops"]):
        if op == "connect ac":
            join("a", "c")
        elif op == "connect pd":
            join("p", "d")
        elif op == "cut ab" and ("a", "b") in links:
            a.disconnect(b)
            links.discard(("a", "b"))
        elif op == "cut bc" and ("b", "c") in links:
            b.disconnect(c)
            links.discard(("b", "c"))
        elif op == "cut all c" and "c" in N:
            c.disconnect()
            links = {e for e in links if e[0] != "c"}
        elif op.startswith("add"):
            count += 1
            nm = "n%d" % count
            N[nm] = BreakLink(m, nm) if op == "add break" else LossLink(m, nm, loss_factor=0.5)
            kinds[nm] = "breaklink" if op == "add break" else "losslink"
            join("a", nm)
            join(nm, "d")
        elif op == "drop" and "b" in N:
            del m.nodes["b"]
            del N["b"]
            links = {e for e in links if "b" not in e}
        if "b" not in N and ("cut ab" in cfg["ops"][k + 1:] or "cut bc" in cfg["ops"][k + 1:]):
            break
        depicts(pywr_model_to_d3_json(m), list(N), kinds, links, {}, "after %s" % (cfg["ops"][:k + 1],))
        tr.step()
        tr.state(sorted(links))
    tr.run()
    tr.outcome = sorted(links)


# ---- sankey ------------------------------------------------------------------

TSL = (None, 0, 3, [0, 2], [1, None], [None, None, 2], [2, 3], [-1, None])
SSL = (None, 0, [0, 2], [1, None], [None, None, 2])
AGG = ("mean", "max", "sum")
OPTS = ("plain", "rename", "swap", "circular", "threshold", "callback", "loop", "where")


def gen_sankey(tier):
    for v in (1, 2):
        for net in range(3):
            for sc in ([1], [4], [3, 2]):
                for ta in AGG:
                    for sa in AGG:
                        yield {"v": v, "net": net, "sc": sc, "ta": ta, "sa": sa}


def cut(x):
    return slice(*x) if isinstance(x, list) else x


@quiet
def run_sankey(cfg, tr):
    from pywr.notebook.sankey import routes_to_sankey_links
    T, S = 4, int(np.prod(cfg["sc"]))
    m = Model(start="2000-01-01", end="2000-01-%02d" % T, timestep=1)
    for k, n in enumerate(cfg["sc"]):
        Scenario(m, "s%d" % k, size=n)
    f = lambda j: Fn(m, lambda t, si: ((t + 2) * (3 * j + 2) + 5 * si[0] + 3 * sum(si[1:])) % 7 / 2.0)
    a, b, x, y, z = Input(m, "a", max_flow=f(1)), Input(m, "b", max_flow=f(2), cost=1.0), Output(m, "x", max_flow=f(3), cost=-9.0), Output(m, "y", max_flow=f(4), cost=-5.0), Output(m, "z", cost=2.0)
    if cfg["net"] == 0:
        for i, j in ((a, x), (a, y), (b, y), (b, z)):
            i.connect(j)
    elif cfg["net"] == 1:      # several routes between two ends
        l1, l2 = Link(m, "l1", max_flow=1.0), Link(m, "l2", cost=0.5)
        for l in (l1, l2):
            a.connect(l), l.connect(x), l.connect(y)
        b.connect(l2), b.connect(z)
    else:                       # a storage is both end and start
        from pywr.nodes import Storage
        st = Storage(m, "st", max_volume=20.0, initial_volume=5.0, cost=-3.0)
        a.connect(st), b.connect(st), st.connect(x), st.connect(y), a.connect(z)
    where = "/deep" if cfg["v"] == 2 else "/"
    cls = TablesRecorder if cfg["v"] == 1 else TablesRecorder2
    cls(m, "s.h5", nodes=["x"], routes_flows="flows", routes=where.rstrip("/") + "/routes" if cfg["v"] == 1 else "/routes", where=where)
    rows = []

    from pywr.recorders import Recorder

    class See(Recorder):
        def after(self):
            rows.append(np.array(m.solver.routes_flows_array).T)        # route, scenario
    See(m, name="see")
    m.run()
    F = np.array(rows)
    top = lambda n: n if n.parent is None else n.parent
    ends = [(top(r[0]).name, top(r[-1]).name) for r in m.solver.routes]
    funcs = {"mean": np.mean, "max": np.max, "sum": np.sum}
    ren = lambda nm, first: nm.upper() if first else nm + "!"
    swap = lambda nm, first: {"st": "a"}.get(nm, nm)
    for ts, ss, opt in itertools.product(TSL, SSL, OPTS):
        if S == 1 and ss not in (None, 0) or ss == [None, None, 2] and S > 4 and opt != "plain":
            continue
        # reference, route by route
        want = {}
        for r, (p, q) in enumerate(ends):
            t = list(range(T))[cut(ts)] if ts is not None and not isinstance(ts, int) else ([ts] if ts is not None else list(range(T)))
            n = cfg["sc"][0]
            s = list(range(n))[cut(ss)] if ss is not None and not isinstance(ss, int) else ([ss] if ss is not None else list(range(n)))
            s = [i * (S // n) + j for i in s for j in range(S // n)]
            pick = lambda how, v: {"mean": sum(v) / len(v), "max": max(v), "sum": sum(v)}[how]
            v = pick(cfg["sa"], [pick(cfg["ta"], [F[i, r, j] for i in t]) if not isinstance(ts, int) else F[ts, r, j] for j in s])
            if opt == "callback" and p == "a":
                continue
            if opt == "rename":
                p, q = ren(p, True), ren(q, False)
            elif opt in ("swap", "loop"):
                p, q = swap(p, True), swap(q, False)
            elif opt == "circular":
                p = q = "all" if r % 2 else "some"
            if opt in ("loop", "circular") and p == q:
                continue
            want[p, q] = want.get((p, q), 0.0) + v
        kw = {"time_agg_func": funcs[cfg["ta"]], "scenario_agg_func": funcs[cfg["sa"]]}
        if ts is not None:
            kw["time_slice"] = cut(ts)
        if ss is not None:
            kw["scenario_slice"] = cut(ss)
        if cfg["ta"] == "mean" and opt == "plain":
            del kw["time_agg_func"]
        if cfg["sa"] == "mean" and opt == "plain":
            del kw["scenario_agg_func"]
        seen = []
        if opt == "rename":
            kw["rename_func"] = ren
        elif opt in ("swap", "loop"):
            kw.update(rename_func=swap, ignore_circular=opt == "loop")
        elif opt == "circular":
            n = iter(range(2 * len(ends)))
            kw.update(rename_func=lambda nm, first: "all" if (next(n) // 2) % 2 else "some", ignore_circular=True)
        elif opt == "threshold":
            kw["flow_threshold"] = 1.25
            want = {k: v for k, v in want.items() if v >= 1.25 - 1e-12}
        elif opt == "callback":
            kw["callback_func"] = lambda p, q, v: (seen.append((p, q)), None if p == "a" else 1)[1]
        if cfg["v"] == 2:
            kw["where"] = where
        else:
            kw["routes"] = "/routes"
        got = routes_to_sankey_links("s.h5", "flows", **kw)
        note = "time %s, scenarios %s, %s, %s over scenarios, %s over time" % (ts, ss, opt, cfg["sa"], cfg["ta"])
        have = {(g["source"], g["target"]): g["value"] for g in got}
        require(len(have) == len(got), "%s: a pair of ends has several links" % note, "sankey")
        near = {k for k, v in want.items() if abs(v - 1.25) < 1e-9} if opt == "threshold" else set()
        require(set(have) ^ set(want) <= near, lambda: "%s: links %s, not %s" % (note, sorted(have), sorted(want)), "sankey")
        for k, v in have.items():
            require(abs(v - want.get(k, 1.25)) < 1e-9, lambda: "%s: the flow from %s to %s is %r, not %r" % (note, k[0], k[1], v, want[k]), "sankey")
        if opt == "callback":
            require(seen == ends, "%s: called for %s, not %s" % (note, seen, ends), "sankey")
        tr.step()
        tr.state(cfg["net"], cfg["sc"], cfg["ta"], cfg["sa"], ts, ss, opt)
    os.remove("s.h5")
    tr.run(S)
    tr.outcome = (cfg["net"], S, cfg["ta"], cfg["sa"])


# ---- series side by side -----------------------------------------------------

SPANS = [(0, 10), (2, 6), (5, 15), (0, 3), (4, 5)]


def gen_align(tier):
    for a, b in itertools.product(SPANS, repeat=2):
        yield {"a": a, "b": b}


@quiet
def run_align(cfg, tr):
    from pywr.notebook.figures import align_series
    day = lambda k: pd.Timestamp("2000-02-24") + pd.Timedelta(days=k)
    mk = lambda s, f, nm: pd.Series([f(k) for k in range(*s)], index=pd.DatetimeIndex([day(k) for k in range(*s)]), name=nm)
    A, B = mk(cfg["a"], lambda k: 1.0 + k, "one"), mk(cfg["b"], lambda k: 100.0 - k, "two")
    common = [k for k in range(*cfg["a"]) if k in range(*cfg["b"])]
    for names, start, end in itertools.product((None, ["x", "y"]), (None, 3, 5), (None, 4, 7)):
        if not common or (start is not None and end is not None and start > end):
            continue
        for text in (0, 1):
            f = (lambda k: None if k is None else str(day(k).date())) if text else (lambda k: None if k is None else day(k))
            X, Y = align_series(A, B, names, start=f(start), end=f(end))
            keep = [k for k in common if (start is None or k >= start) and (end is None or k <= end)]
            nm = names or ["one", "two"]
            for s, fn, n in ((X, lambda k: 1.0 + k, nm[0]), (Y, lambda k: 100.0 - k, nm[1])):
                require(s.name == n and list(s.index) == [day(k) for k in keep] and list(s) == [fn(k) for k in keep],
                        lambda: "series over %s and %s from %s to %s: %s" % (cfg["a"], cfg["b"], start, end, s.to_dict()), "align")
            tr.step()
            tr.state(cfg["a"], cfg["b"], names, start, end)
    tr.run()
    tr.outcome = len(common)


# ---- progress ----------------------------------------------------------------

def gen_progress(tier):
    for a in range(1, 251, 10):
        yield {"from": a, "to": a + 10}


@quiet
def run_progress(cfg, tr):
    for n in range(cfg["from"], cfg["to"]):
        said = []
        m = Model(start="2000-01-01", end=pd.Timestamp("2000-01-01") + pd.Timedelta(days=n - 1), timestep=1)
        Input(m, "a", max_flow=1.0).connect(Output(m, "b", max_flow=1.0, cost=-1.0))
        ProgressRecorder(m, print_func=lambda s: said.append((m.timestepper.current.index, s)))
        for turn in range(2):
            del said[:]
            m.run()
            got = [(t, int(re.match(r"Completed (\d+)%", s).group(1))) for t, s in said]
            # rounding is allowed for
            by = dict(got)
            last, ok = 0, len(by) == len(got) and bool(got) and got[-1] == (n - 1, 100)
            for t in range(n):
                true = (t + 1) * 100 / n
                if t in by:
                    ok = ok and (by[t] > last or t == 0)
                    last = by[t]
                ok = ok and true - 2 < last <= true + 1e-9
            require(ok, lambda: "run %d of %d steps: notices (step, per cent) %s" % (turn, n, got), "progress")
        tr.step(n)
        tr.state(n)
    tr.run(2)
    tr.outcome = cfg["from"]


GROUPS = {"pairs": (gen_pairs, run_pairs), "graphs": (gen_graphs, run_graphs), "attrs": (gen_attrs, run_attrs), "edits": (gen_edits, run_edits), "sankey": (gen_sankey, run_sankey),
          "align": (gen_align, run_align), "progress": (gen_progress, run_progress)}
