"""P22: invalid models are rejected, sound models are not."""
import copy
import itertools
import json
import warnings

import numpy as np

from pywr import nodes as N
from pywr.core import Model
from pywr.domains import groundwater  # noqa: F401 (its types can be loaded)
from pywr.model import ModelStructureError
from mc.harness import require

TECHNIQUE = ("exhaustive enumeration of all small directed graphs over the node types (and domains), of all connections between node classes and slots, and of all settings around every documented limit, "
             "each built and run on the real code up to the first step (the whole run where the value is only needed later); the verdict is compared with an independent predicate of soundness")
BOUNDS = ("all graphs of up to 3 nodes and all 4-node graphs with up to 4 edges (thorough: all edges), up to renaming of equal nodes, of input/output/link/storage on 3 solvers, and all 3-node graphs over 2 domains; "
          "19 node classes x slots both ways; 61 families of settings with every value around the limit")

INF = float("inf")
SOLVERS = ("glpk", "lpsolve", "glpk-edge")
BASE = {"metadata": {"title": "x", "minimum_version": "0.1"},
        "timestepper": {"start": "2015-01-01", "end": "2016-12-31", "timestep": 30},
        "nodes": [{"type": "input", "name": "in", "max_flow": 5.0}, {"type": "link", "name": "lnk"},
                  {"type": "storage", "name": "res", "max_volume": 100.0, "initial_volume": 50.0},
                  {"type": "output", "name": "out", "max_flow": 3.0, "cost": -1.0}],
        "edges": [["in", "lnk"], ["lnk", "res"], ["res", "out"]],
        "parameters": {}, "recorders": {}, "scenarios": [{"name": "A", "size": 2}, {"name": "B", "size": 3}]}


# ---------------------------------------------------------------- graphs
KINDS = "IOLS"


def canonical(kinds, edges):
    """the edge set is the least among the renamings of nodes of the same kind"""
    groups = []
    for k in sorted(set(kinds)):
        idx = [i for i, x in enumerate(kinds) if x == k]
        groups.append([dict(zip(idx, p)) for p in itertools.permutations(idx)])
    me = sorted(edges)
    for maps in itertools.product(*groups):
        m = {}
        for d in maps:
            m.update(d)
        if sorted((m[a], m[b]) for a, b in edges) < me:
            return False
    return True


def sound(kinds, domains, edges):
    """nodes on a route; and the nodes with an inline input/output or dead end, which an edge-based solver refuses"""
    V, E = [], []
    for i, k in enumerate(kinds):
        V += [(i, "in"), (i, "out")] if k == "S" else [(i, k)]

    def tail(i):
        return (i, "out") if kinds[i] == "S" else (i, kinds[i])

    def head(i):
        return (i, "in") if kinds[i] == "S" else (i, kinds[i])
    succ = {v: [] for v in V}
    pred = {v: [] for v in V}
    for a, b in edges:
        if domains[a] == domains[b]:
            succ[tail(a)].append(head(b))
            pred[head(b)].append(tail(a))
    seen = set()
    stores = {v: set() for v in V if v[1] in ("in", "out")}

    def walk(path):
        v = path[-1]
        if len(path) > 1 and v[1] in ("O", "in"):
            seen.update(path)
            if path[0][0] != v[0]:
                for e in (path[0], v):
                    stores.get(e, set()).add(len(path))
        if v[1] == "in":
            return
        for w in succ[v]:
            # (a route only passes through ordinary nodes)
            if w not in path:
                walk(path + [w])
    for v in V:
        if v[1] in ("I", "out"):
            walk([v])
    ok = seen == set(V)
    inline = [v for v in V if (v[1] == "I" and pred[v]) or (v[1] == "O" and succ[v])]
    dead = [v for v in V if (v[1] in ("I", "L", "out") and not succ[v]) or (v[1] in ("O", "in") and not pred[v])]
    # a storage that is only connected to itself
    loop = any(not stores[(i, "in")] and not stores[(i, "out")] for i, k in enumerate(kinds) if k == "S")
    return ok, bool(inline), bool(dead), loop


def build(kinds, domains, edges, solver):
    m = Model(solver=solver, start="2015-01-01", end="2015-01-03", timestep=1)
    doms = {}
    if any(domains):
        doms = {d: N._core.Domain("D%d" % d) for d in set(domains)}
    out = []
    for i, k in enumerate(kinds):
        kw = {"domain": doms[domains[i]]} if doms else {}
        if k == "S":
            out.append(N.Storage(m, "n%d" % i, max_volume=10.0, initial_volume=5.0, **kw))
        else:
            out.append({"I": N.Input, "O": N.Output, "L": N.Link}[k](m, "n%d" % i, max_flow=2.0 + i, **kw))
    for a, b in edges:
        out[a].connect(out[b])
    return m


def attempt(fn):
    try:
        fn()
    except Exception as e:     # any refusal counts
        return e
    return None


def graph(cfg, tr):
    kinds, domains, lo, hi = cfg
    n = len(kinds)
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    done = 0
    for size in range(lo, hi + 1):
        for edges in itertools.combinations(pairs, size):
            if not canonical([k + str(d) for k, d in zip(kinds, domains)], edges):
                continue
            done += 1
            ok, inline, dead, loop = sound(kinds, domains, edges)
            what = "nodes %s domains %s edges %s" % (kinds, domains, edges)
            m = build(kinds, domains, edges, "glpk")
            e = attempt(m.check)
            require((e is None) == ok, "%s: check() %s" % (what, "refuses: %r" % (e,) if e else "accepts"), "graph:check")
            require(e is None or isinstance(e, ModelStructureError), "%s: check() raises %r" % (what, e), "graph:type")
            for solver in SOLVERS:
                m = build(kinds, domains, edges, solver)
                e = attempt(m.setup)
                if solver == "glpk-edge":
                    if inline or dead:
                        expect = False
                    elif ok and not loop:
                        expect = True
                    else:
                        expect = None       # a node without upstream: no flow is possible
                else:
                    expect = ok if not (ok and loop) else None
                if expect is not None:
                    require((e is None) == expect, "%s on %s: setup %s" % (what, solver, "refuses: %r" % (e,) if e else "accepts"), "graph:" + solver)
                if e is not None and expect is not None:
                    require(isinstance(e, ModelStructureError), "%s on %s: setup raises %r" % (what, solver, e), "graph:type:" + solver)
                elif expect:
                    e = attempt(m.run)
                    require(e is None, "%s on %s: the run fails: %r" % (what, solver, e), "graph:run:" + solver)
                tr.step(1)
    tr.state("graph", kinds, domains, lo, hi, done)
    tr.run(done)


def graphs(tier):
    for n in (1, 2, 3):
        for kinds in itertools.combinations_with_replacement(KINDS, n):
            yield ["".join(kinds), [0] * n, 0, n * (n - 1)]
    for kinds in itertools.combinations_with_replacement(KINDS, 4):
        for size in range(2, 13 if tier == "thorough" else 5):
            yield ["".join(kinds), [0] * 4, size, size]
    for kinds in itertools.combinations_with_replacement(KINDS, 3):
        for doms in itertools.product((0, 1), repeat=3):
            if 1 in doms and 0 in doms:
                yield ["".join(kinds), list(doms), 0, 6]


# ---------------------------------------------------------------- connections
def classes(m, other):
    """name -> (node, [slots accepted as the source], [slots accepted as the target]); None: not connectable"""
    out = {}

    def add(name, node, src, tgt):
        out[name] = (node, src, tgt)
    add("input", N.Input(m, "input"), [None], [None])
    add("output", N.Output(m, "output"), [None], [None])
    add("link", N.Link(m, "link"), [None], [None])
    add("storage", N.Storage(m, "storage", max_volume=1.0, initial_volume=0.5), [None, 0], [None, 0])
    add("storage22", N.Storage(m, "storage22", inputs=2, outputs=2, max_volume=1.0, initial_volume=0.5), [0, 1], [0, 1])
    add("storage03", N.Storage(m, "storage03", inputs=0, outputs=3, max_volume=1.0, initial_volume=0.5), [], [0, 1, 2])
    add("storage10", N.Storage(m, "storage10", inputs=1, outputs=0, max_volume=1.0, initial_volume=0.5), [None, 0], [])
    add("catchment", N.Catchment(m, "catchment", flow=1.0), [None], [None])
    add("discharge", N.Discharge(m, "discharge", flow=1.0), [None], [None])
    add("river", N.River(m, "river"), [None], [None])
    add("reservoir", N.Reservoir(m, "reservoir", max_volume=1.0, initial_volume=0.5), [None, 0], [None, 0])
    # (the slot is of no meaning to the nodes with a single slot each way)
    for cls in (N.BreakLink, N.LossLink):
        add(cls.__name__, cls(m, cls.__name__), "any", "any")
    add("DelayNode", N.DelayNode(m, "DelayNode", timesteps=1), "any", "any")
    add("PiecewiseLink", N.PiecewiseLink(m, 2, name="PiecewiseLink"), "any", "any")
    add("RiverGauge", N.RiverGauge(m, name="RiverGauge", mrf=1.0), "any", "any")
    add("split2", N.MultiSplitLink(m, 1, name="split2", extra_slots=1), [0, 1], "any")
    add("split3", N.MultiSplitLink(m, 1, name="split3", extra_slots=2, slot_names=["a", "b", 7]), ["a", "b", 7], "any")
    for cls in (N.VirtualStorage, N.AnnualVirtualStorage, N.SeasonalVirtualStorage, N.MonthlyVirtualStorage):
        add(cls.__name__, cls(m, cls.__name__, nodes=[out["link"][0]], max_volume=1.0, initial_volume=0.5), None, None)
    add("rolling", N.RollingVirtualStorage(m, "rolling", nodes=[out["link"][0]], timesteps=3, max_volume=1.0, initial_volume=0.5), None, None)
    add("aggregated", N.AggregatedNode(m, "aggregated", [out["link"][0]]), None, None)
    add("aggstorage", N.AggregatedStorage(m, "aggstorage", [out["storage"][0]]), None, None)
    add("shadow", N.ShadowNode(m, "other", "link", "shadow"), None, None)
    add("shadowstorage", N.ShadowStorage(m, "other", "storage", "shadowstorage"), None, None)
    return out


SLOTS = (None, 0, 1, 2, 3, 7, "a", "b", "nope", 1.5)


def snap(m):
    return sorted((u.fully_qualified_name, v.fully_qualified_name) for u, v in m.graph.edges()), sorted(x.fully_qualified_name for x in m.graph.nodes())


def connections(cfg, tr):
    src, other = cfg
    m = Model()
    C = classes(m, False)
    m2 = Model()
    C2 = classes(m2, False)
    a, srcs, _ = C[src]
    for tgt in C:
        for fs in SLOTS:
            for ts in SLOTS:
                b, _, tgts = (C2 if other else C)[tgt]
                good = (not other and srcs is not None and tgts is not None
                        and (srcs == "any" or any(fs is s or (fs == s and type(fs) is type(s)) for s in srcs))
                        and (tgts == "any" or any(ts is s or (ts == s and type(ts) is type(s)) for s in tgts)))
                if srcs == "any" and fs is not None or tgts == "any" and ts is not None:
                    if good:
                        continue        # accepted at present; not judged
                before = snap(m)
                before2 = snap(m2)
                what = "%s.connect(%s%s, from_slot=%r, to_slot=%r)" % (src, "another model's " if other else "", tgt, fs, ts)
                e = attempt(lambda: a.connect(b, from_slot=fs, to_slot=ts))
                require((e is None) == good, "%s %s" % (what, "is refused: %r" % (e,) if e else "is accepted"), "connect:" + ("good" if good else "bad"))
                after = snap(m)
                require(after[1] == before[1] and snap(m2) == before2, "%s changes the nodes, or the other model" % what, "connect:nodes")
                new = [x for x in after[0] if x not in before[0]]
                if good:
                    require(len(new) <= 1 and (new or True), "%s makes %d connections" % (what, len(new)), "connect:count")
                    tr.count("accepted")
                    # undone, for the next one
                    m.graph.remove_edges_from([(u, v) for u, v in list(m.graph.edges()) if (u.fully_qualified_name, v.fully_qualified_name) in new])
                else:
                    require(after == before, "the refused %s leaves %r" % (what, new), "connect:refused")
                    tr.count("refused")
                tr.step(1)
    tr.run(1)
    tr.state("connect", src, other)


def connecting(tier):
    names = list(classes(Model(), False))
    for n in names:
        for other in (False, True):
            yield [n, other]


# ---------------------------------------------------------------- settings
OK, BAD, LATE, CHECK = "ok", "bad", "late", "check"
TABLE = {}


def family(fn):
    TABLE[fn.__name__] = fn
    return fn


def node(d, n):
    return [x for x in d["nodes"] if x["name"] == n][0]


def par(frag, **more):
    def edit(d):
        d["parameters"]["p"] = frag
        node(d, "out")["max_flow"] = "p"
        d["parameters"].update(more)
    return edit


def rec(frag, **more):
    def edit(d):
        d["recorders"]["r"] = frag
        d["parameters"].update(more)
    return edit


def add(**kw):
    return lambda d: d["nodes"].append(kw)


def setn(n, **kw):
    def edit(d):
        x = node(d, n)
        for k, v in kw.items():
            if v == "DEL":
                x.pop(k, None)
            else:
                x[k] = v
    return edit


def swap(ty, **kw):
    """the link is replaced with a node of another type"""
    def edit(d):
        n = node(d, "lnk")
        n.clear()
        n.update({"type": ty, "name": "lnk"})
        n.update({k: v for k, v in kw.items() if k not in ("s0", "s1")})
        if "s0" in kw:
            d["nodes"].append({"type": "output", "name": "o2"})
            d["edges"] = [["in", "lnk"], ["lnk", "res", kw["s0"], None], ["res", "out"], ["lnk", "o2", kw["s1"], None]]
    return edit


def v(cond, bad=BAD):
    return OK if cond else bad


ones = lambda n, x=1.0: [x] * n     # noqa: E731


@family
def monthly():
    for n in range(0, 16):
        yield "monthly profile of %d" % n, par({"type": "monthlyprofile", "values": ones(n)}), v(n == 12)
        yield "lower bounds %d" % n, par({"type": "monthlyprofile", "values": ones(12), "lower_bounds": ones(n, 0.0)}), v(n == 12)
        yield "upper bounds %d" % n, par({"type": "monthlyprofile", "values": ones(12), "upper_bounds": ones(n, 9.0)}), v(n == 12)
    for s in ("first", "last", None, "middle", "", "First"):
        yield "interp_day %r" % s, par({"type": "monthlyprofile", "values": ones(12), "interp_day": s}), v(s in ("first", "last", None))


@family
def daily():
    for n in (0, 1, 12, 364, 365, 366, 367, 732):
        yield "daily profile of %d" % n, par({"type": "dailyprofile", "values": ones(n)}), v(n == 366)


@family
def weekly():
    for n in range(49, 57):
        yield "weekly profile of %d" % n, par({"type": "weeklyprofile", "values": ones(n)}), v(n in (52, 53))


@family
def scenario_values():
    for name, size in (("A", 2), ("B", 3), ("Z", None)):
        for n in range(0, 6):
            yield "%s %d values" % (name, n), par({"type": "constantscenario", "scenario": name, "values": ones(n)}), v(n == size)
            yield "index %s %d values" % (name, n), par({"type": "indexedarray", "params": [1.0, 2.0], "index_parameter": {"type": "constantscenarioindex", "scenario": name, "values": [1] * n}}), v(n == size)


@family
def scenario_profiles():
    for name, size in (("A", 2), ("B", 3)):
        for r in range(1, 5):
            for c in (11, 12, 13):
                yield "monthly %s %d x %d" % (name, r, c), par({"type": "scenariomonthlyprofile", "scenario": name, "values": [ones(c)] * r}), v(r == size and c == 12)
            for c in (51, 52):
                yield "weekly %s %d x %d" % (name, r, c), par({"type": "scenarioweeklyprofile", "scenario": name, "values": [ones(c)] * r}), v(r == size and c == 52)
            for c in (364, 365, 366, 367):
                yield "daily %s %d x %d" % (name, r, c), par({"type": "scenariodailyprofile", "scenario": name, "values": [ones(c)] * r}), v(r == size and c == 366)
            for c in (10, 11, 12, 13):
                yield "factors %s %d x %d" % (name, r, c), par({"type": "arrayindexedscenariomonthlyfactors", "scenario": name, "values": ones(25), "factors": [ones(c)] * r}), v(r == size and c == 12)


@family
def arrays():
    for t in (0, 1, 2, 24, 25, 26):
        yield "array of %d" % t, par({"type": "arrayindexed", "values": ones(t)}), v(t >= 25, LATE)
        yield "factors array of %d" % t, par({"type": "arrayindexedscenariomonthlyfactors", "scenario": "A", "values": ones(t), "factors": [ones(12)] * 2}), v(t >= 25, LATE)
        for s in (1, 2, 3):
            if t:
                yield "scenario array of %d x %d" % (t, s), par({"type": "arrayindexedscenario", "scenario": "A", "values": [ones(s)] * t}), v(t >= 25, LATE) if s == 2 else BAD


@family
def control_curves():
    curves = [0.8, 0.6, 0.3]
    for c in (1, 2, 3):
        for n in range(0, 7):
            base = {"storage_node": "res", "control_curves": curves[:c]}
            yield "%d curves %d values" % (c, n), par(dict(base, type="controlcurve", values=ones(n))), v(n == c + 1)
            yield "%d curves %d parameters" % (c, n), par(dict(base, type="controlcurve", parameters=[{"type": "constant", "value": 1.0}] * n)), v(n == c + 1)
            yield "interpolated %d curves %d values" % (c, n), par(dict(base, type="controlcurveinterpolated", values=ones(n))), v(n == c + 2)
            yield "interpolated %d curves %d parameters" % (c, n), par(dict(base, type="controlcurveinterpolated", parameters=[{"type": "constant", "value": 1.0}] * n)), v(n == c + 2)
            for w in (1, 2, 3):
                yield "piecewise %d curves %d x %d" % (c, n, w), par(dict(base, type="controlcurvepiecewiseinterpolated", values=[ones(w)] * n)), v(n == c + 1 and w == 2)
    for store, good in (("res", True), ("zz", False), ("lnk", False)):
        yield "curve of %s" % store, par({"type": "controlcurve", "storage_node": store, "control_curves": [0.5], "values": [1.0, 2.0]}), v(good)
    yield "no store", par({"type": "controlcurve", "control_curves": [0.5], "values": [1.0, 2.0]}), BAD


@family
def aggregation():
    for f in ("sum", "min", "max", "mean", "product", "median", "any", "all", "avg", "SUM", "", "foo"):
        yield "aggregated %r" % f, par({"type": "aggregated", "agg_func": f, "parameters": [1.0, 2.0]}), None if f == "SUM" else v(f in ("sum", "min", "max", "mean", "product", "median"))
        yield "aggregatedindex %r" % f, par({"type": "indexedarray", "params": [1.0, 2.0], "index_parameter": {"type": "aggregatedindex", "agg_func": f, "parameters": [
            {"type": "constantscenarioindex", "scenario": "A", "values": [0, 1]}]}}), None if f == "SUM" else v(f in ("sum", "min", "max", "any", "all", "product"))
        yield "array recorder %r" % f, rec({"type": "numpyarraynode", "node": "out", "agg_func": f}), None if f == "SUM" else v(f in ("sum", "min", "max", "mean", "product", "median"), LATE) if f != "any" and f != "all" else None
        yield "aggregated recorder %r" % f, rec({"type": "aggregated", "recorders": [{"type": "totalflownode", "node": "out"}], "recorder_agg_func": f}), \
            None if f in ("SUM", "any", "all") else v(f in ("sum", "min", "max", "mean", "product", "median"), LATE)


@family
def predicates():
    for p in ("LT", "GT", "EQ", "GE", "LE", "lt", "ge", "<", ">", "=", "==", "<=", ">=", "!=", "NE", "foo", ""):
        good = None if p in ("==", "=") else (p.upper() in ("LT", "GT", "EQ", "GE", "LE", "<", ">", "<=", ">="))
        for ty, kw in (("storagethreshold", {"storage_node": "res"}), ("nodethreshold", {"node": "out"}), ("parameterthreshold", {"parameter": "q"}), ("currentyearthreshold", {})):
            yield "%s %r" % (ty, p), par(dict(kw, type=ty, threshold=1.0, values=[1.0, 2.0], predicate=p), q={"type": "constant", "value": 1.0}), None if good is None else v(good)
    for n in range(0, 5):
        for ty, kw in (("storagethreshold", {"storage_node": "res"}), ("nodethreshold", {"node": "out"}), ("parameterthreshold", {"parameter": "q"}), ("currentyearthreshold", {})):
            yield "%s with %d values" % (ty, n), par(dict(kw, type=ty, threshold=1.0, values=ones(n), predicate="LT"), q={"type": "constant", "value": 1.0}), v(n == 2)


@family
def initial_volumes():
    for iv in ("DEL", 0.0, 10.0, 100.0):
        for pc in ("DEL", 0.0, 0.5, 1.0):
            for mv in (100.0, "const", "dynamic"):
                frag = {"const": {"type": "constant", "value": 100.0}, "dynamic": {"type": "monthlyprofile", "values": ones(12, 100.0)}}.get(mv, mv)
                have = (iv != "DEL") + (pc != "DEL")
                # a constant maximum is known before the first step
                good = have == 2 if mv == "dynamic" else have >= 1
                yield "storage initial %s pc %s max %s" % (iv, pc, mv), setn("res", initial_volume=iv, initial_volume_pc=pc, max_volume=frag), v(good)
                frag2 = {"const": {"type": "constant", "value": 1e5}, "dynamic": {"type": "monthlyprofile", "values": ones(12, 1e5)}}.get(mv, 1e5)
                kw = {k: x for k, x in (("initial_volume", iv if iv == "DEL" else iv * 1e3), ("initial_volume_pc", pc)) if x != "DEL"}
                yield "virtual initial %s pc %s max %s" % (iv, pc, mv), add(type="virtualstorage", name="vs", nodes=["out"], factors=[1.0], max_volume=frag2, **kw), \
                    v(good) if iv not in (0.0,) and pc != 0.0 else None


@family
def virtual_nodes():
    alph = ["lnk", "out", "in"]
    for ty, kw in (("virtualstorage", {}), ("annualvirtualstorage", {}), ("seasonalvirtualstorage", {}), ("monthlyvirtualstorage", {}), ("rollingvirtualstorage", {"timesteps": 3})):
        for n in range(0, 4):
            for f in range(0, 5):
                yield "%s %d nodes %d factors" % (ty, n, f), add(type=ty, name="vs", nodes=alph[:n], factors=ones(f), max_volume=1e5, initial_volume=1e4, **kw), v(n == f and n)
            yield "%s %d nodes" % (ty, n), add(type=ty, name="vs", nodes=alph[:n], max_volume=1e5, initial_volume=1e4, **kw), v(n)
        yield "%s unknown node" % ty, add(type=ty, name="vs", nodes=["out", "zz"], max_volume=1e5, initial_volume=1e4, **kw), BAD
        yield "%s no initial volume" % ty, add(type=ty, name="vs", nodes=["out"], max_volume=1e5, **kw), None if ty == "rollingvirtualstorage" else BAD
        yield "%s cost" % ty, add(type=ty, name="vs", nodes=["out"], max_volume=1e5, initial_volume=1e4, cost=1.0, **kw), CHECK


@family
def reset_dates():
    base = dict(name="vs", nodes=["out"], max_volume=1e5, initial_volume=1e4)
    days = (-1, 0, 1, 2, 28, 29, 30, 31, 32, 40)
    months = (-1, 0, 1, 2, 4, 11, 12, 13)
    length = {1: 31, 2: 29, 4: 30, 11: 30, 12: 31}
    for d in days:
        for m in months:
            rng = 1 <= d <= 31 and 1 <= m <= 12
            exact = rng and d <= length[m]
            # (a day that is never in the month but within 31 is not judged)
            verdict = BAD if not rng else (OK if exact else None)
            yield "annual reset %d/%d" % (d, m), add(type="annualvirtualstorage", reset_day=d, reset_month=m, **base), verdict
            yield "seasonal reset %d/%d" % (d, m), add(type="seasonalvirtualstorage", reset_day=d, reset_month=m, end_day=15, end_month=6, **base), verdict
            yield "seasonal end %d/%d" % (d, m), add(type="seasonalvirtualstorage", reset_day=15, reset_month=6, end_day=d, end_month=m, **base), verdict
            yield "drawdown reset %d/%d" % (d, m), par({"type": "uniformdrawdownprofile", "reset_day": d, "reset_month": m}), v(exact)


@family
def periods():
    base = dict(name="vs", nodes=["out"], max_volume=1e5, initial_volume=1e4)
    for k in (-12, -1, 0, 1, 2, 12, 24):
        yield "months %d" % k, add(type="monthlyvirtualstorage", months=k, **base), v(k >= 1)
        yield "rolling timesteps %d" % k, add(type="rollingvirtualstorage", timesteps=k, **base), v(k >= 2)
        yield "delay timesteps %d" % k, swap("delaynode", timesteps=k), v(k >= 1)
        yield "flow delay timesteps %d" % k, par({"type": "flowdelay", "node": "lnk", "timesteps": k}), v(k >= 1)
        yield "rolling mean timesteps %d" % k, par({"type": "rollingmeanflownode", "node": "lnk", "name": "p", "timesteps": k}), v(k >= 1)
        yield "rolling mean recorder %d" % k, rec({"type": "rollingmeanflownode", "node": "lnk", "timesteps": k}), v(k >= 1)
    for k in (-30, 0, 1, 29, 30, 31, 45, 59, 60, 61, 90):
        # (for the rolling ones a part of a step is dropped)
        yield "rolling days %d" % k, add(type="rollingvirtualstorage", days=k, **base), v(k >= 60)
        yield "delay days %d" % k, swap("delaynode", days=k), v(k >= 30 and k % 30 == 0)
        yield "flow delay days %d" % k, par({"type": "flowdelay", "node": "lnk", "days": k}), v(k >= 30 and k % 30 == 0)
        yield "rolling mean days %d" % k, par({"type": "rollingmeanflownode", "node": "lnk", "name": "p", "days": k}), v(k >= 30)
        yield "rolling mean recorder days %d" % k, rec({"type": "rollingmeanflownode", "node": "lnk", "days": k}), v(k >= 30)
    yield "rolling nothing", add(type="rollingvirtualstorage", **base), BAD
    yield "delay nothing", swap("delaynode"), BAD
    yield "flow delay nothing", par({"type": "flowdelay", "node": "lnk"}), BAD
    yield "rolling mean nothing", par({"type": "rollingmeanflownode", "node": "lnk", "name": "p"}), BAD
    yield "rolling mean recorder nothing", rec({"type": "rollingmeanflownode", "node": "lnk"}), BAD


@family
def aggregated_nodes():
    alph = ["lnk", "out", "in"]

    def ag(**kw):
        return add(type="aggregatednode", name="ag", **kw)
    for n in range(1, 4):
        for f in range(0, 5):
            if n > 1:
                # (the ratio of nodes that share a route is not judged)
                yield "%d nodes %d factors" % (n, f), ag(nodes=alph[:n], factors=ones(f)), (None if n == f == 3 else v(n == f))
            yield "%d nodes %d weights" % (n, f), ag(nodes=alph[:n], flow_weights=ones(f), max_flow=30.0), v(n == f)
    yield "unknown", ag(nodes=["out", "zz"]), BAD
    yield "no nodes with a limit", ag(nodes=[], max_flow=1.0), BAD
    for f in ([1.0, 0.0], [0.0, 1.0], [0.0, 0.0]):
        yield "factors %r" % f, ag(nodes=["lnk", "out"], factors=f), BAD
    for lo in (0.0, 1.0, 2.0, 3.0):
        for hi in (-1.0, 0.0, 1.0, 2.0, 3.0):
            yield "limits %s %s" % (lo, hi), ag(nodes=["out"], min_flow=lo, max_flow=hi), v(lo <= hi and hi >= 0.0)
            yield "link limits %s %s" % (lo, hi), setn("lnk", min_flow=lo, max_flow=hi), v(lo <= hi and hi >= 0.0)
            yield "output limits %s %s" % (lo, hi), setn("out", min_flow=lo, max_flow=hi), v(lo <= hi and hi >= 0.0)
            yield "input limits %s %s" % (lo, hi), setn("in", min_flow=0.0 if lo > 1 else lo, max_flow=hi), v((0.0 if lo > 1 else lo) <= hi and hi >= 0.0)


@family
def not_numbers():
    nan = float("nan")
    for n in ("in", "lnk", "out"):
        for a in ("max_flow", "min_flow", "cost"):
            yield "%s %s nan" % (n, a), setn(n, **{a: nan}), BAD
            yield "%s %s nan constant" % (n, a), setn(n, **{a: {"type": "constant", "value": nan}}), BAD
            yield "%s %s text" % (n, a), setn(n, **{a: "zz"}), BAD
            yield "%s %s list" % (n, a), setn(n, **{a: [1.0]}), BAD
    for a in ("max_volume", "min_volume", "cost"):
        yield "res %s text" % a, setn("res", **{a: "zz"}), BAD
    yield "res cost nan", setn("res", cost=nan), BAD
    yield "text value", par({"type": "constant", "value": "abc"}), BAD
    for n in ("in", "lnk", "out", "res"):
        yield "%s unknown setting" % n, setn(n, foo=1), BAD


@family
def piecewise():
    for nsteps in (1, 2, 3):
        for n in range(0, 5):
            yield "%d steps %d max_flows" % (nsteps, n), swap("piecewiselink", nsteps=nsteps, max_flows=ones(n)), v(n == nsteps)
            yield "%d steps %d costs" % (nsteps, n), swap("piecewiselink", nsteps=nsteps, costs=ones(n)), v(n == nsteps)
            for x in (1, 2):
                yield "split %d steps %d extra %d factors" % (nsteps, x, n), splits(nsteps, x, n), v(n == x + 1)
                yield "split %d steps %d extra %d names" % (nsteps, x, n), splits(nsteps, x, None, n), v(n == x + 1)
    yield "no steps given", swap("piecewiselink"), BAD
    for n in range(0, 5):
        yield "riversplit %d factors" % n, swap("riversplit", factors=ones(n), s0=0, s1=1), v(n == 2)
        yield "riversplit names %d" % n, swap("riversplit", factors=[1.0, 1.0], slot_names=["a", "b", "c", "d"][:n], s0="a", s1="b"), v(n == 2)
    for s0, s1 in itertools.product((None, 0, 1, 2, "a"), repeat=2):
        yield "split slots %r %r" % (s0, s1), swap("multisplitlink", nsteps=1, s0=s0, s1=s1), v({s0, s1} == {0, 1})
    for x in (0, -1, 1):
        yield "split extra %d" % x, swap("multisplitlink", nsteps=1, extra_slots=x, s0=0, s1=1), v(x == 1)


def splits(nsteps, extra, nf, names=None):
    def edit(d):
        n = node(d, "lnk")
        n.clear()
        n.update({"type": "multisplitlink", "name": "lnk", "nsteps": nsteps, "extra_slots": extra})
        if nf is not None:
            n["factors"] = ones(nf)
        slots = list(range(extra + 1))
        if names is not None:
            n["slot_names"] = ["a", "b", "c", "d", "e"][:names]
            slots = ["a", "b", "c", "d", "e"][:extra + 1]
        d["edges"] = [["in", "lnk"], ["lnk", "res", slots[0], None], ["res", "out"]]
        for k in range(extra):
            d["nodes"].append({"type": "output", "name": "x%d" % k})
            d["edges"].append(["lnk", "x%d" % k, slots[1 + k], None])
    return edit


@family
def losses():
    for f in (-1.0, -0.1, 0.0, 0.1, 0.5, 1.0, 1.1, 2.0):
        for ty in ("net", "gross", "foo", "", "Net", None):
            kw = {} if ty is None else {"loss_factor_type": ty}
            good = f >= 0 and (ty in ("net", None) or ty == "gross" and f <= 1.0)
            yield "loss %s %s" % (f, ty), swap("losslink", loss_factor=f, **kw), v(good)


@family
def radial():
    def rbf(**kw):
        return par(dict({"type": "rbfprofile", "days_of_year": [1, 100, 200], "values": ones(3)}, **kw))
    for n in (0, 1, 2, 3, 4):
        for days in itertools.product((0, 1, 100, 200, 365, 366), repeat=n):
            good = n >= 3 and days[0] == 1 and all(a < b for a, b in zip(days, days[1:])) and days[-1] <= 365
            if n == 4 and not good and days[:2] != (1, 100):
                continue
            yield "days %r" % (days,), rbf(days_of_year=list(days), values=ones(n)), v(good)
        yield "%d values" % n, rbf(values=ones(n)), v(n == 3)
        yield "%d lower" % n, rbf(lower_bounds=ones(n, 0.0)), v(n == 3)
        yield "%d upper" % n, rbf(upper_bounds=ones(n, 9.0)), v(n == 3)
    for r in (0, 1, 30, 49, 50, 51):
        yield "range %d" % r, rbf(variable_days_of_year_range=r), v(2 * r < 99)
    alph = (1, 2, 150, 151, 365, 366)
    for a, b, c, d in itertools.product(alph, repeat=4):
        good = 1 < a <= b < c <= d <= 365
        yield "day bounds %d-%d %d-%d" % (a, b, c, d), rbf(variable_days_lower_bounds=[a, c], variable_days_upper_bounds=[b, d]), v(good)
    for nl in range(0, 4):
        for nu in range(0, 4):
            yield "%d and %d day bounds" % (nl, nu), rbf(variable_days_lower_bounds=[20, 120, 220][:nl], variable_days_upper_bounds=[90, 190, 290][:nu]), v(nl == 2 and nu == 2)


@family
def lengths():
    for a in range(0, 4):
        for b in range(0, 4):
            yield "harmonics %d %d" % (a, b), par({"type": "annualharmonicseries", "mean": 1.0, "amplitudes": ones(a, 0.1), "phases": ones(b)}), v(a == b) if a and b else None
            x, y = [float(i) for i in range(a)], ones(b)
            good = a == b and a >= 2
            judged = None if a == b and a < 2 else v(good)
            yield "interpolated %d %d" % (a, b), par({"type": "interpolated", "parameter": {"type": "constant", "value": 0.5}, "x": x, "y": y}), judged
            xs = [50.0 * i for i in range(a)]
            yield "interpolated volume %d %d" % (a, b), par({"type": "interpolatedvolume", "node": "res", "volumes": [0.0, 60.0, 100.0][:a], "values": y, "interp_kwargs": {"bounds_error": False, "fill_value": 1.0}}), judged
            yield "interpolated flow %d %d" % (a, b), par({"type": "interpolatedflow", "node": "lnk", "flows": xs, "values": y, "interp_kwargs": {"bounds_error": False, "fill_value": 1.0}}), judged
    yield "two inputs", par({"type": "polynomial1d", "coefficients": [1.0], "storage_node": "res", "parameter": "q"}, q={"type": "constant", "value": 1.0}), BAD
    yield "no input", par({"type": "polynomial1d", "coefficients": [1.0]}), BAD
    yield "one input", par({"type": "polynomial1d", "coefficients": [1.0], "storage_node": "res"}), OK
    for n in range(0, 4):
        yield "indexed array %d" % n, par({"type": "indexedarray", "params": ones(n), "index_parameter": {"type": "constantscenarioindex", "scenario": "A", "values": [0, 1]}}), v(n >= 2)


@family
def unknown():
    yield "node type", setn("lnk", type="foo"), BAD
    yield "parameter type", par({"type": "foo"}), BAD
    yield "recorder type", rec({"type": "foo"}), BAD
    yield "no parameter type", par({"value": 1.0}), BAD
    yield "no node type", setn("lnk", type="DEL"), BAD
    yield "no node name", add(type="link"), BAD
    for n in ("in", "lnk", "res", "out"):
        yield "second %s" % n, add(type="link", name=n), BAD
    for e in (["in", "zz"], ["zz", "out"], ["in"], [], ["in", "res", "foo", None], ["in", "res", None, 1], ["res", "out", 1, None], ["in", "vs"], ["vs", "out"], ["in", "ag"], ["ag", "out"]):
        def edit(d, e=e):
            d["nodes"] += [{"type": "virtualstorage", "name": "vs", "nodes": ["out"], "max_volume": 1e5, "initial_volume": 1e4}, {"type": "aggregatednode", "name": "ag", "nodes": ["out"]}]
            d["edges"].append(e)
        yield "edge %r" % e, edit, BAD
    for k in ("nodes", "edges", "timestepper", "metadata"):
        yield "no %s" % k, (lambda d, k=k: d.pop(k)), BAD
    yield "no nodes at all", (lambda d: d.update(nodes=[], edges=[])), BAD
    yield "itself", par({"type": "max", "parameter": "p"}), BAD
    yield "two of each other", par({"type": "max", "parameter": "q"}, q={"type": "max", "parameter": "p"}), BAD
    for ty, k in (("max", "parameter"), ("min", "parameter")):
        for ref, good in (("q", True), ("zz", False), ("lnk", False)):
            yield "%s of %s" % (ty, ref), par({"type": ty, k: ref}, q={"type": "constant", "value": 1.0}), v(good)
    for ty, k, ref, good in (("flow", "node", "lnk", True), ("flow", "node", "zz", False), ("storage", "storage_node", "res", True), ("storage", "storage_node", "zz", False)):
        yield "%s of %s" % (ty, ref), par({"type": ty, k: ref}), v(good)
    for ty, ref, good in (("numpyarraynode", "out", True), ("numpyarraynode", "zz", False), ("numpyarraystorage", "res", True), ("numpyarraystorage", "lnk", False), ("numpyarraystorage", "zz", False),
                          ("totalflownode", "zz", False), ("meanflownode", "out", True)):
        yield "recorder %s of %s" % (ty, ref), rec({"type": ty, "node": ref}), v(good)
    yield "recorder of a recorder", rec({"type": "aggregated", "recorders": ["zz"]}), BAD
    yield "recorder of a parameter", rec({"type": "numpyarrayparameter", "parameter": "zz"}), BAD
    for s, good in (("glpk", True), ("lpsolve", True), ("glpk-edge", True), ("foo", False), ("", False)):
        yield "solver %s" % s, (lambda d, s=s: d.update(solver={"name": s})), v(good) if s else None
    yield "solver setting", (lambda d: d.update(solver={"name": "glpk", "foo": 1})), BAD


@family
def constraints():
    tot = {"type": "totalflownode", "node": "out"}
    for lo, hi in itertools.product((None, 1.0, 2.0, 3.0), repeat=2):
        kw = {k: x for k, x in (("constraint_lower_bounds", lo), ("constraint_upper_bounds", hi)) if x is not None}
        yield "constraint %s %s" % (lo, hi), rec(dict(tot, **kw)), v(lo is None or hi is None or lo <= hi)
    for s in ("minimise", "minimize", "min", "maximise", "maximize", "max", None, "up", "", "both"):
        yield "objective %r" % s, rec(dict(tot, is_objective=s)), v(s in ("minimise", "minimize", "min", "maximise", "maximize", "max", None)) if s else None
    thr = {"type": "nodethreshold", "node": "out", "threshold": 1.0, "predicate": "LT", "values": [0.0, 1.0]}
    for n in (-1, 0, 1, 2):
        yield "event length %d" % n, rec({"type": "event", "threshold": thr, "minimum_event_length": n}), v(n >= 1)
    for p in ([0, 50, 100], [50], [-0.1], [100.1], [50, 101], [-1, 50]):
        yield "percentiles %r" % p, rec({"type": "flowdurationcurve", "node": "out", "percentiles": p}), v(0 <= min(p) and max(p) <= 100, LATE)
    for mths in ([1], [12], [1, 12], [0], [13]):
        yield "months %r" % mths, rec({"type": "seasonalflowdurationcurve", "node": "out", "percentiles": [50], "months": mths}), v(all(1 <= x <= 12 for x in mths), LATE)
    for n in range(1, 5):
        for which in ("lower_target_fdc", "upper_target_fdc"):
            yield "%s %d" % (which, n), rec({"type": "flowdurationcurvedeviation", "node": "out", "percentiles": [10, 50], which: ones(n)}), v(n == 2, LATE)
            for c in (1, 2, 3):
                yield "%s %d x %d" % (which, n, c), rec({"type": "flowdurationcurvedeviation", "node": "out", "percentiles": [10, 50], which: [ones(c)] * n, "scenario": "A"}), v(n == 2 and c in (1, 2), LATE)
    yield "no target", rec({"type": "flowdurationcurvedeviation", "node": "out", "percentiles": [10, 50]}), LATE


@family
def time_and_scenarios():
    def T(**kw):
        return lambda d: d["timestepper"].update(kw)
    for k in (-30, -1, 0, 1, 7, 30, 365, 1000):
        yield "timestep %d" % k, T(timestep=k), v(k >= 1)
        yield "timestep %dD" % k, T(timestep="%dD" % k), v(k >= 1)
    for k in ("foo", "", "30X", "M", "W", "D", "Q", "A", "2M"):
        yield "timestep %r" % k, T(timestep=k), None if k == "" else v(k in ("M", "W", "D", "Q", "A", "2M"))
    for y, m, d in itertools.product((2015, 2016), (0, 1, 2, 4, 12, 13), (0, 1, 28, 29, 30, 31, 32)):
        try:
            np.datetime64("%04d-%02d-%02d" % (y, m, d))
            exists = True
        except ValueError:
            exists = False
        s = "%04d-%02d-%02d" % (y, m, d)
        yield "start %s" % s, T(start=s, end="2017-01-31"), v(exists)
        yield "end %s" % s, T(start="2015-01-01", end=s), v(exists)
    for e in ("2014-12-31", "2014-01-01", "2010-06-30"):
        yield "end before start %s" % e, T(end=e), BAD
    yield "no end", (lambda d: d["timestepper"].pop("end")), BAD
    yield "no start", (lambda d: d["timestepper"].pop("start")), BAD
    for s in (-2, -1, 0, 1, 2, 5):
        yield "scenario size %d" % s, (lambda d, s=s: d["scenarios"].append({"name": "C", "size": s})), v(s >= 1)
    for n in range(0, 6):
        yield "%d ensemble names" % n, (lambda d, n=n: d["scenarios"][1].update(ensemble_names=list("abcdef")[:n])), v(n == 3) if n else None
    for a, b in itertools.product(range(0, 5), repeat=2):
        empty = not [i for i in range(3) if a <= i < b]
        yield "slice %d %d" % (a, b), (lambda d, a=a, b=b: d["scenarios"][1].update(slice=[a, b])), v(not empty)
    for a, b in itertools.product(range(-1, 4), repeat=2):
        good = 0 <= a < 2 and 0 <= b < 3
        yield "combination %d %d" % (a, b), (lambda d, a=a, b=b: d.update(scenario_combinations=[[0, 0], [a, b]])), v(good)
    for n in range(1, 6):
        for r, c in itertools.product(range(n), range(2)):
            for x in (-2, -1, 0, 1, 2, 3):
                def combine(d, n=n, r=r, c=c, x=x):
                    rows = [[i % 2, (i + 1) % 3] for i in range(n)]
                    rows[r][c] = x
                    d.update(scenario_combinations=rows)
                yield "%d combinations, %d at row %d column %d" % (n, x, r, c), combine, v(0 <= x < (2, 3)[c])
    for w in (0, 1, 2, 3, 4):
        yield "combinations of %d" % w, (lambda d, w=w: d.update(scenario_combinations=[[0] * w, [0] * w])), v(w == 2)


def outcome(edit, solver=None):
    """the stage at which the model is refused, or None"""
    d = copy.deepcopy(BASE)
    if solver:
        d["solver"] = {"name": solver}
    edit(d)
    try:
        m = Model.load(json.loads(json.dumps(d)))
    except Exception as e:
        return "load", e, None
    checked = attempt(m.check)
    try:
        m.setup()
        m.step()
    except Exception as e:
        return "start", e, checked
    try:
        m.run()
    except Exception as e:
        return "run", e, checked
    return None, None, checked


def aquifer(streams=1, extra=1, **kw):
    def edit(d):
        x = {"type": "keatingaquifer", "name": "aq", "num_streams": streams, "num_additional_inputs": extra, "stream_flow_levels": [[4.0, 5.0]] * streams, "transmissivity": [0.0625, 0.25],
             "coefficient": 0.125, "levels": [0.0, 10.0, 20.0], "volumes": [0.0, 20.0, 60.0], "initial_volume": 15.0}
        x.update(kw)
        d["nodes"].append({k: w for k, w in x.items() if w != "DEL"})
        d["edges"].append(["in", "aq"])
        for i in range(max(streams, 0) + extra):
            d["nodes"].append({"type": "output", "name": "aqo%d" % i})
            d["edges"].append(["aq", "aqo%d" % i, i, None])
    return edit


@family
def aquifers():
    L = lambda n: [3.0 + i for i in range(n)]     # noqa: E731
    for n in range(0, 4):
        yield "aquifer of %d streams" % n, aquifer(n), v(n >= 1)
        yield "aquifer, levels of %d streams of 2" % n, aquifer(2, stream_flow_levels=[L(2)] * n), v(n == 2)
        yield "aquifer of %d further outlets" % n, aquifer(1, n), v(True)
        for k in range(0, 4):
            yield "%d levels and %d transmissivities" % (n, k), aquifer(1, stream_flow_levels=[L(n)], transmissivity=[0.1] * k), v(n == k)
            yield "%d levels and %d, %d transmissivities" % (n, k, n), aquifer(2, stream_flow_levels=[L(n), L(k)], transmissivity=[0.1] * n), v(n == k)
        for k in range(2, 5):
            yield "%d volumes of %d levels" % (n, k), aquifer(levels=[10.0 * i for i in range(k)], volumes=[20.0 * i for i in range(n)]), v(n == k)
            yield "%d storativities of %d levels" % (n, k), aquifer(levels=[10.0 * i for i in range(k)], volumes="DEL", area=4000.0, storativity=[0.5] * n), v(n == k - 1)
    yield "coefficient of several", aquifer(coefficient=[0.1, 0.2]), BAD
    yield "coefficient named", aquifer(coefficient="p"), BAD
    yield "area of several", aquifer(volumes="DEL", area=[1.0, 2.0], storativity=[0.5, 0.5]), BAD
    yield "neither volumes nor area", aquifer(volumes="DEL"), BAD
    yield "area alone", aquifer(volumes="DEL", area=4000.0), BAD
    yield "storativity alone", aquifer(volumes="DEL", storativity=[0.5, 0.5]), BAD


def settings(cfg, tr):
    name, i, j = cfg
    for label, edit, verdict in list(TABLE[name]())[i:j]:
        if verdict is None:
            continue
        stage, e, checked = outcome(edit)
        tr.step(1)
        what = "%s: %s" % (name, label)
        key = "settings:%s" % name
        if verdict == OK:
            require(stage is None and checked is None, "%s is sound but refused at %s: %r" % (what, stage or "check", e or checked), key + ":refused")
            tr.count("sound")
        elif verdict == CHECK:
            require(stage is not None or checked is not None, "%s is not supported but check() accepts it" % what, key + ":accepted")
            tr.count("refused")
        else:
            require(stage in (("load", "start", "run") if verdict == LATE else ("load", "start")), "%s is %s" % (what, "accepted" if stage is None else "refused only at " + stage), key + ":accepted")
            tr.count("refused")
    tr.run(1)
    tr.state(name, i)


def families(tier):
    for name, fn in TABLE.items():
        n = len(list(fn()))
        for i in range(0, n, 40):
            yield [name, i, i + 40]


# ---------------------------------------------------------------- what has no JSON
def stream(levels, trans):
    from pywr.parameters.groundwater import KeatingStreamFlowParameter

    def make(m):
        m.nodes["out"].max_flow = KeatingStreamFlowParameter(m, m.nodes["res"], [0.1] * levels, [0.2] * trans)
    return make


def directly():
    for a in range(4):
        for b in range(4):
            yield "stream of %d levels and %d transmissivities" % (a, b), stream(a, b), a == b


def direct(cfg, tr):
    label, make, good = list(directly())[cfg[0]]
    m = Model.loads(json.dumps(BASE))

    def go():
        make(m)
        m.setup()
    e = attempt(go)
    require((e is None) == good, "%s is %s" % (label, "accepted" if e is None else "refused: %r" % (e,)), "direct")
    if good:
        e = attempt(m.run)
        require(e is None, "%s: the run fails: %r" % (label, e), "direct:run")
    tr.state("direct", label)
    tr.run(1)


def directs(tier):
    for i in range(len(list(directly()))):
        yield [i]


GROUPS = {"graphs": (graphs, graph), "connections": (connecting, connections), "settings": (families, settings), "direct": (directs, direct)}
