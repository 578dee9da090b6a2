"""P07: scenarios are independent of each other and correctly combined and labelled."""
import itertools
import json
import os

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.recorders import Recorder
from mc.harness import require, Violation
from mc.zoo import ZOO, build, doc, N, cyc, FLOW, reservoir_part
from mc.checks.p06 import Spy, same, diff

TECHNIQUE = ("explicit-state exploration of every selection of scenario combinations (slices and lists, in every order and with repeats) "
             "on the real code; every combination's rows and labels are compared with that combination simulated alone")
BOUNDS = ("18 models holding every kind of stateful component and scenario input, two scenarios of 2 and 3 members: the full product, all "
          "slices of a start/stop/step alphabet, every list of one or two combinations (three in the thorough tier) and a selection of "
          "longer ones, 3 solvers; every ordered pair of selections in consecutive runs of one model; the combinations, shape, index and "
          "names of every set of up to 3 scenarios of sizes 1 to 3 with every slice of an alphabet or list of up to 3 combinations")

KIN = [1.0, 0.5]
KDEM = [1.0, 1.6, 0.3]
NA, NB = ["dry", "wet"], ["x", "y", "z"]


# ---- models whose inputs are scenario-indexed in every way ------------------
# the alone form of each is the same document with one member's data

def z_inputs(sel=None):
    """sel: None for both scenarios, or the (a, b) member alone"""
    n, e = reservoir_part(cost="cst", max_volume="mx", initial_volume_pc=0.5)
    n += [N("g", "input", max_flow="gsum", cost=3.0), N("tap", "output", max_flow="tapq", cost=-6.0), N("tr3", "link", cost=0.017), N("res3", "storage", max_volume=20.0, initial_volume=8.0, cost=-1.5)]
    e += [["g", "tap"], ["res", "tr3"], ["tr3", "res3"], ["res3", "dem"]]
    days = pd.date_range("2000-12-24", "2001-01-07")
    arr = [[FLOW[(t * (j + 2) + j) % 16] for j in range(3)] for t in range(15)]
    tab = {NB[j]: {str(d.date()): 0.5 + (t * (j + 1)) % 4 for t, d in enumerate(days)} for j in range(3)}
    prof = [[1.0 + (7 * k + 3 * j) % 5 for k in range(366)] for j in range(3)]

    def b(type, key, values, **kw):
        if sel is None:
            return dict({"type": type, "scenario": "b", key: values}, **kw)
        return dict({"type": type, "scenario": "b", key: [values[sel[1]]]}, **kw)

    P = {"cs": {"type": "constantscenario", "scenario": "a", "values": [1.5, 2.5] if sel is None else [[1.5, 2.5][sel[0]]]},
         "ci": {"type": "constantscenarioindex", "scenario": "a", "values": [2, 0] if sel is None else [[2, 0][sel[0]]]},
         "pick": {"type": "indexedarray", "index_parameter": "ci", "params": ["sm", 0.75, "as"]},
         "as": {"type": "arrayindexedscenario", "scenario": "b", "values": arr if sel is None else [[r[sel[1]]] for r in arr]},
         "mf": {"type": "arrayindexedscenariomonthlyfactors", "scenario": "b", "values": [r[0] for r in arr],
                "factors": [[1.0 + 0.25 * j] * 11 + [0.5 + j] for j in range(3)] if sel is None else [[1.0 + 0.25 * sel[1]] * 11 + [0.5 + sel[1]]]},
         "sm": b("scenariomonthlyprofile", "values", [[1.0 + j] + [0.0] * 10 + [2.0 - 0.5 * j] for j in range(3)]),
         "sd": b("scenariodailyprofile", "values", prof),
         "sw": b("scenarioweeklyprofile", "values", [[1.0 + 0.1 * j] + [0.0] * 50 + [2.0 + j] for j in range(3)]),
         "df": {"type": "dataframe", "scenario": "b", "data": tab if sel is None else {NB[sel[1]]: tab[NB[sel[1]]]}, "parse_dates": True},
         "cc1": {"type": "controlcurve", "storage_node": "res", "control_curves": [0.5137], "values": [-1.0, -7.0]},
         "cc2": {"type": "constant", "value": -3.0},
         "cst": {"type": "scenariowrapper", "scenario": "a", "parameters": ["cc1", "cc2"] if sel is None else [["cc1", "cc2"][sel[0]]]},
         "mx": {"type": "constantscenario", "scenario": "b", "values": [30.0, 34.0, 40.0] if sel is None else [[30.0, 34.0, 40.0][sel[1]]]},
         "rz": {"type": "rollingmeanflownode", "node": "dem", "timesteps": 3, "initial_flow": 1.0},
         "gsum": {"type": "aggregated", "agg_func": "sum", "parameters": ["pick", "sd", "df"]},
         "tapq": {"type": "aggregated", "agg_func": "max", "parameters": ["sw", "mf", "cs", "rz"]}}
    return doc(nodes=n, edges=e, parameters=P)


def z_tables(sel=None):
    n, e = reservoir_part()
    n += [N("g", "input", max_flow="tb", cost=-1.0), N("tap", "output", max_flow=9.0, cost=-6.0)]
    e += [["g", "tap"]]
    url = os.path.abspath("p07-%s.h5" % ("all" if sel is None else sel[1]))
    import tables
    arr = np.array([[FLOW[(t * (j + 2) + j) % 16] for j in range(3)] for t in range(15)])
    with tables.open_file(url, "w") as fh:
        fh.create_array("/", "flow", arr if sel is None else arr[:, [sel[1]]])
        fh.create_array("/", "num", (arr if sel is None else arr[:, [sel[1]]]).astype(np.int32))
    return doc(nodes=n, edges=e, parameters={"tb": {"type": "tablesarray", "scenario": "b", "url": url, "node": "flow"},
                                             "ti": {"type": "tablesarray", "scenario": "b", "url": url, "node": "num"}})


OWN = {"inputs": z_inputs, "tables": z_tables}
MODELS = list(ZOO) + list(OWN)
DATA = os.getpid()


def recs(d):
    """plain recorders of nodes and parameters, and events, on top of the model's own"""
    r = d["recorders"]
    for n in d["nodes"]:
        if n["type"] in ("storage", "reservoir"):
            r["~st " + n["name"]] = {"type": "numpyarraystorage", "node": n["name"], "agg_func": "max"}
        elif n["type"] == "output" or n["type"] == "input":
            r["~nf " + n["name"]] = {"type": "numpyarraynode", "node": n["name"], "temporal_agg_func": "sum", "agg_func": "sum"}
    r["~pa"] = {"type": "numpyarrayparameter", "parameter": "inflow"}
    d["parameters"]["~thr"] = {"type": "parameterthreshold", "parameter": "demand", "threshold": 3.0, "predicate": "GT"}
    r["~ev"] = {"type": "event", "threshold": "~thr", "tracked_parameter": "inflow"}
    for k in [k for k, v in r.items() if v.get("type") == "event" and "minimum_event_length" not in v]:
        r[k]["minimum_event_length"] = 1


def together(name, solver="glpk"):
    def edit(d):
        d["scenarios"] = [{"name": "a", "size": 2, "ensemble_names": NA}, {"name": "b", "size": 3, "ensemble_names": NB}]
        d["parameters"]["kin"] = {"type": "constantscenario", "scenario": "a", "values": KIN}
        d["parameters"]["kdem"] = {"type": "constantscenario", "scenario": "b", "values": KDEM}
        recs(d)
    return make(name, edit, None, solver)


def alone(name, a, b, solver="glpk"):
    def edit(d):
        d["scenarios"] = [{"name": "a", "size": 1}, {"name": "b", "size": 1}]
        d["parameters"]["kin"] = {"type": "constant", "value": KIN[a]}
        d["parameters"]["kdem"] = {"type": "constant", "value": KDEM[b]}
        recs(d)
    return make(name, edit, (a, b), solver)


def make(name, edit, sel, solver):
    if name in ZOO:
        m = build(name, edit, solver=solver)
    else:
        d = json.loads(json.dumps(OWN[name](sel)))
        edit(d)
        m = Model.loads(json.dumps(d), solver=solver)
    m.spy = Spy(m)
    return m


_alone = {}


def observe(m, n):
    """what was seen of each of the n combinations"""
    out = [[] for _ in range(n)]
    for t, row in enumerate(m.spy.rows):
        for what, v in sorted(row[1:], key=lambda w: str(w[0])):
            require(v is None or len(v) == n, lambda: "%s has %d values for %d combinations" % (what, len(v), n), "width")
            if v is not None:
                for k in range(n):
                    out[k].append((t, what, v[k]))
    for r in m.recorders:
        if isinstance(r, Spy) or "KDE" in type(r).__name__:  # one density over all combinations
            continue
        try:
            v = np.asarray(r.values(), float)
        except NotImplementedError:
            v = None
        if v is not None and v.shape != (n,):
            raise Violation("%s.values() has shape %r for %d combinations" % (r.name, v.shape, n), "width")
        for k in range(n):
            if v is not None:
                out[k].append((r.name, "values", float(v[k])))
        for a in ("data", "sdc", "fdc"):
            x = getattr(r, a, None)
            if isinstance(x, np.ndarray) and x.ndim == 2:
                require(x.shape[1] == n, lambda: "%s.%s has shape %r for %d combinations" % (r.name, a, x.shape, n), "width")
                for k in range(n):
                    out[k].append((r.name, a, tuple(float(q) for q in x[:, k])))
    return out


def labels(m, sel):
    """every table is labelled by the combinations selected, in order"""
    want = [(NA[a], NB[b]) for a, b in sel]
    mi = m.scenarios.multiindex
    require(list(mi) == want and list(mi.names) == ["a", "b"], lambda: "multiindex %r, want %r" % (list(mi), want), "labels")
    require([tuple(c.indices) for c in m.scenarios.combinations] == list(sel), lambda: "combinations %r, want %r" % (m.scenarios.combinations, sel), "combinations")
    require([c.global_id for c in m.scenarios.combinations] == list(range(len(sel))), "global ids", "combinations")
    names = ["a.%03d-b.%03d" % (a, b) for a, b in sel]
    require(list(m.scenarios.combination_names) == names, lambda: "combination names %r" % list(m.scenarios.combination_names), "labels")
    tables = 0
    for r in m.recorders:
        if not hasattr(r, "to_dataframe") or isinstance(r, Spy):
            continue
        try:
            df = r.to_dataframe()
        except (NotImplementedError, AttributeError):
            continue
        data = getattr(r, "data", None)
        if list(getattr(df.columns, "names", [])) == ["a", "b"]:
            require(list(df.columns) == want, lambda: "columns of %s: %r, want %r" % (r.name, list(df.columns), want), "labels")
            tables += 1
            if isinstance(data, np.ndarray) and data.shape == df.shape:
                require(np.array_equal(np.asarray(data), df.values, equal_nan=True), lambda: "table of %s is not its data" % r.name, "labels")
        elif "scenario_id" in df.columns:
            tables += 1
            for _, row in df.iterrows():
                k = int(row["scenario_id"])
                require(tuple(int(row[c]) for c in ("a", "b") if c in df.columns) in ((), sel[k]),
                        lambda: "event of combination %d labelled %r" % (k, row.to_dict()), "labels")
    return tables


def events(m, n):
    out = [[] for _ in range(n)]
    for r in m.recorders:
        if type(r).__name__ == "EventRecorder":
            for e in r.events:
                out[e.scenario_index.global_id].append((r.name, str(e.start.datetime), str(e.end.datetime), e.duration, tuple(np.asarray(e.values if e.values is not None else (), float).ravel().tolist())))
    return [sorted(o) for o in out]


def compare(m, name, sel, solver, what):
    n = len(sel)
    got = observe(m, n)
    ev = events(m, n)
    for k, (a, b) in enumerate(sel):
        want, wev = alone_all(name, a, b, solver)
        if not same(got[k], want):
            raise Violation("%s: combination %d (a=%d b=%d) of %r differs from it alone: %s" % (what, k, a, b, sel, diff(got[k], want)), "isolation")
        require(same(ev[k], wev), lambda: "%s: events of combination %d of %r: %r, alone %r" % (what, k, sel, ev[k], wev), "isolation")
    labels(m, sel)


def alone_all(name, a, b, solver):
    k = (name, a, b, solver)
    if k not in _alone:
        m = alone(name, a, b, solver)
        m.run()
        _alone[k] = (observe(m, 1)[0], events(m, 1)[0])
    return _alone[k]


# ---- selections -------------------------------------------------------------

ALL = list(itertools.product(range(2), range(3)))
SL_A = [None, [1, None, None], [None, None, -1]]
SL_B = [None, [0, 1, None], [1, None, None], [None, None, 2], [-1, None, None], [None, None, -1], [0, 3, 2]]


def members(size, sl):
    return list(range(size)) if sl is None else list(range(size))[slice(*sl)]


def chosen(how):
    if "list" in how:
        return [tuple(c) for c in how["list"]]
    return list(itertools.product(members(2, how["a"]), members(3, how["b"])))


def put(m, how):
    sa, sb = m.scenarios["a"], m.scenarios["b"]
    if "list" in how:
        m.scenarios.user_combinations = how["list"]
    else:
        m.scenarios.user_combinations = None
        sa.slice = None if how["a"] is None else slice(*how["a"])
        sb.slice = None if how["b"] is None else slice(*how["b"])


def selections(tier):
    for a in SL_A:
        for b in SL_B:
            yield {"a": a, "b": b}
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for c in itertools.product(ALL, repeat=k):
            yield {"list": [list(x) for x in c]}
    yield {"list": [list(x) for x in reversed(ALL)]}
    yield {"list": [list(x) for x in ALL[1:] + ALL[:3] + ALL[5:]]}


def gen_select(tier):
    for name in MODELS:
        hows = list(selections(tier))
        for solver in ("glpk", "glpk-edge", "lpsolve"):
            some = hows if solver == "glpk" or tier == "thorough" else hows[:1] + hows[-1:]
            for i in range(0, len(some), 16):
                yield {"model": name, "solver": solver, "how": some[i:i + 16]}


def run_select(cfg, tr):
    for how in cfg["how"]:
        m = together(cfg["model"], cfg["solver"])
        put(m, how)
        sel = chosen(how)
        m.run()
        tr.run()
        tr.step(len(m.timestepper) * len(sel))
        compare(m, cfg["model"], sel, cfg["solver"], "%s/%s %s" % (cfg["model"], cfg["solver"], how))
        for k, c in enumerate(sel):
            tr.state(cfg["model"], cfg["solver"], c, k, len(sel))
        tr.outcome = (cfg["model"], sel)


# ---- one model, several selections in turn ----------------------------------

TURNS = [{"a": None, "b": None}, {"a": [1, None, None], "b": None}, {"a": None, "b": [None, None, 2]}, {"a": [0, 1, None], "b": [1, 2, None]},
         {"list": [[1, 2]]}, {"list": [[0, 1], [1, 0], [0, 1]]}, {"list": [[1, 0], [1, 1], [0, 0], [0, 2], [1, 2], [0, 1], [0, 0]]}]


def gen_turns(tier):
    for name in MODELS:
        if tier == "quick":
            yield {"model": name, "seqs": [list(p) for p in itertools.permutations(range(len(TURNS)), 2)][::2 if name in ZOO else 1]}
        else:
            for first in range(len(TURNS)):
                yield {"model": name, "seqs": [[first] + list(p) for p in itertools.product(range(len(TURNS)), repeat=2)]}


def run_turns(cfg, tr):
    for seq in cfg["seqs"]:
        m = together(cfg["model"])
        for i, k in enumerate(seq):
            put(m, TURNS[k])
            sel = chosen(TURNS[k])
            m.run()
            tr.run()
            tr.step(len(m.timestepper) * len(sel))
            tr.state(cfg["model"], seq[:i + 1])
            compare(m, cfg["model"], sel, "glpk", "%s after %r" % (cfg["model"], [TURNS[j] for j in seq[:i + 1]]))
    tr.outcome = (cfg["model"], len(cfg["seqs"]))


# ---- the combinations themselves --------------------------------------------

def gen_combos(tier):
    slices = [None, [1, None, None], [None, -1, None], [None, None, 2], [None, None, -1], [2, 3, None]]
    top = 3 if tier == "quick" else 4
    for n in range(0, 4):
        for sizes in itertools.product(range(1, top + 1), repeat=n):
            yield {"sizes": sizes, "slices": [s for s in itertools.product(slices, repeat=n)]}


def check_collection(m, sizes, sel, shape, slicelist):
    sc = m.scenarios
    names = [chr(97 + i) for i in range(len(sizes))]
    m.setup()
    got = [tuple(int(i) for i in c.indices) for c in sc.combinations]
    require(got == sel, lambda: "sizes %r %r: combinations %r, want %r" % (sizes, slicelist, got, sel), "combos")
    require([c.global_id for c in sc.combinations] == list(range(len(sel))), "global ids of %r" % (sizes,), "combos")
    require([tuple(int(i) for i in c.indices) for c in sc.get_combinations()] == sel, "get_combinations of %r" % (sizes,), "combos")
    if sizes:
        ens = [(["%s%d" % (nm, i) for i in range(z)] if k % 2 == 0 else list(range(z))) for k, (nm, z) in enumerate(zip(names, sizes))]
        want = [tuple(e[i] for e, i in zip(ens, c)) for c in sel]
        mi = sc.multiindex
        require([tuple(x) if isinstance(x, tuple) else (x,) for x in mi.to_flat_index()] == want, lambda: "multiindex of %r: %r, want %r" % (sizes, list(mi), want), "labels")
        require(list(mi.names) == names, "index names of %r" % (sizes,), "labels")
        require(list(sc.combination_names) == ["-".join("%s.%03d" % (nm, i) for nm, i in zip(names, c)) for c in sel],
                lambda: "names of %r: %r" % (sizes, list(sc.combination_names)), "labels")
        for k, nm in enumerate(names):
            s = sc[nm]
            require(sc.get_scenario_index(s) == k and s.size == sizes[k] and s.name == nm and list(s.ensemble_names) == ens[k], "scenario %s" % nm, "labels")
    else:
        require(len(sc.multiindex) == 1, "no scenarios: one column", "labels")
    require(tuple(sc.shape) == shape, lambda: "shape of %r %r: %r, want %r" % (sizes, slicelist, sc.shape, shape), "shape")
    require(len(sc) == len(sizes), "len", "combos")


def run_combos(cfg, tr):
    sizes = tuple(cfg["sizes"])
    names = [chr(97 + i) for i in range(len(sizes))]

    def model(slices):
        m = Model(start="2000-01-01", end="2000-01-01")
        from pywr.nodes import Input, Output
        i, o = Input(m, "i"), Output(m, "o")
        i.connect(o)
        for k, (nm, z) in enumerate(zip(names, sizes)):
            Scenario(m, nm, size=z, slice=None if slices[k] is None else slice(*slices[k]),
                     ensemble_names=["%s%d" % (nm, i) for i in range(z)] if k % 2 == 0 else None)
        return m

    for slices in cfg["slices"]:
        lists = [members(z, s) for z, s in zip(sizes, slices)]
        tr.step()
        tr.state(sizes, slices)
        m = model(slices)
        sel = list(itertools.product(*lists)) if sizes else [(0,)]
        if not sel:
            try:
                m.setup()
            except ValueError:
                continue
            raise Violation("sizes %r slices %r select nothing but set up" % (sizes, slices), "empty")
        check_collection(m, sizes, sel, tuple(len(x) for x in lists) if sizes else (1,), slices)
        if any(slices):
            continue
        # lists, which override any slice
        full = list(itertools.product(*[range(z) for z in sizes]))
        lens = (1, 2, 3) if len(full) <= 6 else (1, 2) if len(full) <= 12 else (1,)
        if not sizes:
            continue
        for k in lens:
            for c in itertools.product(full, repeat=k):
                tr.step()
                m.scenarios.user_combinations = [list(x) for x in c]
                check_collection(m, sizes, [tuple(x) for x in c], (k,), c)
        m.scenarios[names[0]].slice = slice(0, 1)
        m.scenarios.user_combinations = [list(full[-1])]
        check_collection(m, sizes, [full[-1]], (1,), "list over slice")
        m.scenarios.user_combinations = None
        s2 = list(itertools.product([0], *[range(z) for z in sizes[1:]]))
        check_collection(m, sizes, s2, (1,) + sizes[1:], "list removed")
        # what is out of range is refused and changes nothing
        bad = [[list(full[0]), [sizes[0]] + list(full[0])[1:]], [[-1] + list(full[0])[1:]], [list(full[0]) + [0]], list(full[0])]
        for x in bad:
            try:
                m.scenarios.user_combinations = x
            except (ValueError, IndexError):
                pass
            else:
                raise Violation("user_combinations %r accepted for sizes %r" % (x, sizes), "range")
            check_collection(m, sizes, s2, (1,) + sizes[1:], "after a refused list")
    tr.run()
    tr.outcome = sizes


GROUPS = {"select": (gen_select, run_select), "turns": (gen_turns, run_turns), "combos": (gen_combos, run_combos)}
