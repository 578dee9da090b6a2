"""P21: coupled models exchange the right values in step."""
import itertools
import json
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from pywr.core import Model
from pywr.model import MultiModel
from pywr.parameters import Parameter, IndexParameter, load_parameter
from pywr.recorders import Recorder
from mc.harness import require
from mc.probe import same
from mc import zoo
from mc.checks.p20 import EyeAll, differ, recorded, zoo_doc, refused

TECHNIQUE = ("exhaustive enumeration of coupling graphs, kinds of coupling, orders, scenario sets and histories of small groups of real models; every exchanged value is compared with the trace "
             "of its source, and every member with the same model run alone on the recorded exchange")
BOUNDS = ("2 models: every pair of couplings out of 10 kinds each way, in both orders, 4 scenario sets; 3 models: all 64 coupling graphs with rotating kinds (thorough: 4 models, all 4096 graphs); histories of up to "
          "3 out of run, reset, run of one member, failing run; all pairs of 8 timesteppers, 9 scenario layouts and the settings of the document (members in other folders included); every zoo document next to another model")

T = 5
# what is read from a shadow: its type, of which node, what
PEEK = {"pnode": ("node", "lnk", "prev_flow"), "pstore": ("storage", "res", "prev_flow"), "fstore": ("storage", "res", "flow")}
KINDS = (None, "param", "index", "flow", "volume", "snode", "sstore", "constant", "pnode", "pstore", "fstore")


def wave(k, n=T, top=6.0):
    return [round(top * ((k * i * i + 3 * i + 2 * k) % 7) / 6, 6) for i in range(n)]


SCEN = {"one": ([], None), "two": ([("sa", 2)], None), "grid": ([("sa", 2), ("sb", 2)], None), "picked": ([("sa", 2), ("sb", 3)], [[1, 2], [0, 1], [1, 0]])}


def member(i, scen, sources):
    """a model document; sources: [(other model, kind)]"""
    scenarios, combos = SCEN[scen]
    d = {"metadata": {"title": "m%d" % i, "minimum_version": "0.1"}, "timestepper": {"start": "2020-01-30", "end": "2020-02-03", "timestep": 1},
         "scenarios": [{"name": n, "size": k} for n, k in scenarios],
         "nodes": [{"type": "input", "name": "in", "max_flow": "inflow"}, {"type": "storage", "name": "res", "max_volume": 30.0, "initial_volume": 8.0 + i, "cost": -1.0},
                   {"type": "link", "name": "lnk"}, {"type": "output", "name": "out", "max_flow": "want", "cost": -5.0}],
         "edges": [["in", "res"], ["res", "lnk"], ["lnk", "out"]],
         "parameters": {"base": {"type": "arrayindexed", "values": wave(i + 1)}, "rain": {"type": "arrayindexed", "values": wave(i + 3)},
                        "want": {"type": "aggregated", "agg_func": "sum", "parameters": ["base"]},
                        "inflow": {"type": "aggregated", "agg_func": "product", "parameters": ["rain"]},
                        "sig": {"type": "interpolatedvolume", "node": "res", "volumes": [0.0, 10.0, 40.0], "values": [0.5, 2.0, 3.5]},
                        "both": {"type": "bothvalues", "of": "lev"},
                        "lev": {"type": "controlcurveindex", "storage_node": "res", "control_curves": [0.4, 0.2]},
                        "fix": {"type": "constant", "value": 0.75 + i}},
         "recorders": {"r out": {"type": "numpyarraynode", "node": "out"}, "r res": {"type": "numpyarraystorage", "node": "res"}, "r tot": {"type": "totalflownode", "node": "lnk"}}}
    if scenarios:
        d["parameters"]["kin"] = {"type": "constantscenario", "scenario": scenarios[0][0], "values": [1.0, 0.5]}
        d["parameters"]["inflow"]["parameters"].append("kin")
    if len(scenarios) > 1:
        n = scenarios[1][1]
        d["parameters"]["kout"] = {"type": "constantscenario", "scenario": scenarios[1][0], "values": [0.25 * (k + 1) for k in range(n)]}
        d["parameters"]["want"]["parameters"].append("kout")
    if combos:
        d["scenario_combinations"] = combos
    P = d["parameters"]
    for k, (j, kind) in enumerate(sources):
        c = "c%d" % k
        other = "m%d" % j
        if kind in ("param", "constant"):
            P[c] = {"type": "othermodelparametervalue", "other_model": other, "parameter": "sig" if kind == "param" else "fix"}
        elif kind == "index":
            P[c] = {"type": "othermodelindexparametervalueindex", "other_model": other, "parameter": "both"}
        elif kind == "flow":
            P[c] = {"type": "othermodelnodeflow", "other_model": other, "node": "out"}
        elif kind == "volume":
            P[c] = {"type": "othermodelnodestorage", "other_model": other, "node": "res"}
        elif kind == "snode":
            d["nodes"].append({"type": "shadownode", "name": "s" + c, "other_model": other, "node": "lnk"})
            P[c] = {"type": "peek", "node": "s" + c, "attr": "flow"}
        elif kind == "sstore":
            d["nodes"].append({"type": "shadowstorage", "name": "s" + c, "other_model": other, "node": "res"})
            P[c] = {"type": "controlcurve", "storage_node": "s" + c, "control_curves": [0.5, 0.3, 0.1], "values": [0.25, 1.0, 2.0, 3.0]}
        elif kind in PEEK:
            d["nodes"].append({"type": "shadow" + PEEK[kind][0], "name": "s" + c, "other_model": other, "node": PEEK[kind][1]})
            P[c] = {"type": "peek", "node": "s" + c, "attr": PEEK[kind][2], "scale": 0.125, "plus": 3.0}
        P["f" + c] = {"type": "aggregated", "agg_func": "min", "parameters": [c, {"type": "constant", "value": 4.5}]}
        P["want"]["parameters"].append("f" + c)
    return d


class Peek(Parameter):
    """a value of a node"""

    def __init__(self, model, node, attr, scale=1.0, plus=0.0, **kw):
        super().__init__(model, **kw)
        self.node, self.attr, self.scale, self.plus = node, attr, scale, plus

    def value(self, ts, si):
        return self.plus + self.scale * getattr(self.node, self.attr)[si.global_id]

    @classmethod
    def load(cls, model, data):
        return cls(model, model.nodes[data.pop("node")], **data)


Peek.register()


class BothValues(IndexParameter):
    """an index, and a value that is something else"""

    def __init__(self, model, of, **kw):
        super().__init__(model, **kw)
        self.of = of
        self.children.add(of)

    def index(self, ts, si):
        return 2 * self.of.get_index(si) + ts.index % 2

    def value(self, ts, si):
        return 7.5 - self.of.get_index(si)

    @classmethod
    def load(cls, model, data):
        return cls(model, load_parameter(model, data.pop("of")), **data)


BothValues.register()


class Alone(Parameter):
    """recorded values played back"""

    def __init__(self, model, values, **kw):
        super().__init__(model, **kw)
        self.values = values

    def value(self, ts, si):
        return self.values[ts.index][si.global_id]


def group(n, scen, links, order=None):
    """links: {(reader, source): kind}"""
    docs = {}
    for i in range(n):
        docs[i] = member(i, scen, [(j, k) for (r, j), k in sorted(links.items()) if r == i and k])
    data = {"timestepper": {"start": "2020-01-30", "end": "2020-02-03", "timestep": 1}, "models": [{"name": "m%d" % i, "data": docs[i]} for i in (order or range(n))]}
    mm = MultiModel.loads(json.dumps(data))
    for m in mm.models.values():
        m._eye = EyeAll(m, name="_eye")
    return mm, docs


def results(m):
    out = {"rows": m._eye.rows}
    for r in m.recorders:
        if r.name != "_eye":
            out["r " + r.name] = recorded(r)
    return out


def examine(mm, docs, links, order, tr, what):
    """every exchanged value against the trace of its source; every member against the model alone"""
    pos = {i: k for k, i in enumerate(order)}
    traces = {i: results(mm.models["m%d" % i]) for i in docs}
    nsc = len(mm.models["m0"].scenarios.combinations)
    for i in docs:
        own = traces[i]["rows"]
        require(len(own) == T, "%s: %d steps of m%d were run" % (what, len(own), i), "steps")
        play = {}
        for k, (j, kind) in enumerate([(j, kd) for (r, j), kd in sorted(links.items()) if r == i and kd]):
            src = traces[j]["rows"]
            lag = 0 if pos[j] < pos[i] else 1
            for t in range(T):
                got = own[t]["p c%d" % k]
                if kind == "constant":
                    want = np.full(nsc, 0.75 + j)
                elif kind in PEEK:
                    # between steps the previous flow of a node is that of the last step it made
                    u = t - lag
                    # a store that gains less than it loses has a negative flow
                    want = 3.0 + 0.125 * (src[u]["n %s flow" % PEEK[kind][1]] if u >= 0 else np.zeros(nsc))
                elif t - lag < 0:
                    want = np.full(nsc, 8.0 + j if kind in ("volume", "sstore") else 0.0)
                else:
                    want = src[t - lag][{"param": "p sig", "index": "i both", "flow": "n out flow", "volume": "n res volume", "snode": "n lnk flow", "sstore": "n res volume"}[kind]]
                if kind == "sstore":
                    pc = want / 30.0
                    if np.any(np.abs(pc[:, None] - np.array([[0.5, 0.3, 0.1]])) < 1e-9):
                        want = got
                    else:
                        want = np.select([pc >= 0.5, pc >= 0.3, pc >= 0.1], [0.25, 1.0, 2.0], 3.0)
                    shadow = own[t]["n sc%d volume" % k]
                    # at the end of the step it still has the value it took at the start of it
                    vol = src[t - lag]["n res volume"] if t >= lag else np.full(nsc, 8.0 + j)
                    require(same(shadow, vol), "%s: shadow of res of m%d in m%d has volume %s, not %s at step %d" % (what, j, i, shadow, vol, t), "shadow")
                if kind == "index":
                    require(same(own[t]["i c%d" % k], want), "%s: index read from m%d by m%d is %s, not %s at step %d" % (what, j, i, own[t]["i c%d" % k], want, t), "coupling index")
                if kind == "snode":
                    require(same(own[t]["n sc%d flow" % k], want), "%s: shadow of lnk of m%d in m%d has flow %s, not %s at step %d" % (what, j, i, own[t]["n sc%d flow" % k], want, t), "shadow")
                require(same(got, want), "%s: %s read from m%d by m%d is %s, not %s at step %d (order %s)" % (what, kind, j, i, got, want, t, order), "coupling " + kind)
                tr.state((i, j, kind, lag, t))
            play["c%d" % k] = [row["p c%d" % k] for row in own]
        # the same model alone
        d = json.loads(json.dumps(docs[i]))
        d["nodes"] = [n for n in d["nodes"] if not n["type"].startswith("shadow")]
        for c in play:
            d["parameters"][c] = {"type": "constant", "value": 0.0}
            d["parameters"]["want"]["parameters"].remove("f" + c)
            del d["parameters"]["f" + c]
        m = Model.loads(json.dumps(d))
        m._eye = EyeAll(m, name="_eye")
        from pywr.parameters import AggregatedParameter, load_parameter
        want = m.parameters["want"]
        for c in play:
            a = Alone(m, play[c], name="x" + c)
            want.add(AggregatedParameter(m, [a, load_parameter(m, {"type": "constant", "value": 4.5})], agg_func="min", name="xf" + c))
        m.run()
        alone = results(m)
        for t in range(T):
            a = {k: v for k, v in alone["rows"][t].items() if k[2:].startswith(("x", "c")) is False}
            b = {k: own[t][k] for k in a}
            w = differ(b, a)
            require(w is None, "%s: m%d in the group differs from the model alone at step %d %s" % (what, i, t, w), "alone")
        for r in alone:
            if r != "rows":
                w = differ(traces[i][r], alone[r])
                require(w is None, "%s: %s of m%d in the group differs from that of the model alone at %s" % (what, r, i, w), "alone recorder")
        tr.step(2 * T)
    return traces


def gen_pairs(tier):
    for scen in SCEN:
        for a in range(len(KINDS)):
            yield [scen, a]


def run_pairs(cfg, tr):
    scen, a = cfg
    for b in range(len(KINDS)):
        links = {(0, 1): KINDS[a], (1, 0): KINDS[b]}
        for order in ((0, 1), (1, 0)):
            mm, docs = group(2, scen, links, order)
            mm.run()
            first = examine(mm, docs, links, order, tr, "first run of %s" % (links,))
            mm.run()
            second = examine(mm, docs, links, order, tr, "second run of %s" % (links,))
            w = differ(first, second)
            require(w is None, "the second run of %s differs from the first at %s" % (links, w), "rerun")
            tr.state((scen, a, b, order))
    tr.outcome = (scen, a)


def gen_graphs(tier):
    n = 3
    for bits in range(2 ** 6):
        for k in range(1, len(KINDS)):
            yield [n, bits, k]
    if tier == "thorough":
        for bits in range(2 ** 12):
            yield [4, bits, 1 + bits % (len(KINDS) - 1)]


def run_graphs(cfg, tr):
    n, bits, k = cfg
    links = {}
    for q, pair in enumerate(itertools.permutations(range(n), 2)):
        if bits >> q & 1:
            links[pair] = KINDS[1 + (k + q) % (len(KINDS) - 1)]
    order = tuple(range(n))
    mm, docs = group(n, "two" if bits % 2 else "one", links, order)
    mm.run()
    examine(mm, docs, links, order, tr, "run of %s" % (links,))
    tr.outcome = (n, bits)


# ---------------------------------------------------------------------------------- histories
class Bomb(Parameter):
    armed = False

    def value(self, ts, si):
        if self.armed and ts.index == self.at:
            raise RuntimeError("boom")
        return 0.0


OPS = ("run", "reset", "member", "fail", "dirty", "setup", "change")


def gen_histories(tier):
    for links in ({}, {(0, 1): "param", (1, 0): "flow"}, {(0, 1): "volume", (1, 2): "index", (2, 0): "sstore"}, {(2, 1): "snode", (1, 0): "param", (0, 2): "constant"}):
        for h in itertools.product(range(len(OPS)), repeat=2 if tier != "thorough" else 3):
            yield [[[a, b, k] for (a, b), k in links.items()], list(h)]


def run_histories(cfg, tr):
    """after any history a run gives what the first run of the same models gives"""
    links = {(a, b): k for a, b, k in cfg[0]}
    order = (0, 1, 2)

    def fresh(value=None):
        mm, docs = group(3, "two", links, order)
        for m in mm.models.values():
            m._bomb = Bomb(m, name="bomb")
            m.parameters["want"].add(m._bomb)
        if value is not None:
            mm.models["m1"].parameters["fix"].set_double_variables(np.array([value]))
        return mm, docs

    for where in itertools.product((0, 2), (0, 3)):
        mm, docs = fresh()
        value = None
        for op in [OPS[o] for o in cfg[1]]:
            if op == "run":
                mm.run()
            elif op == "reset":
                if not mm.dirty:
                    mm.reset()
            elif op == "setup":
                mm.setup()
            elif op == "dirty":
                mm.models["m1"].dirty = True
            elif op == "member":
                if not links:
                    mm.models["m1"].run()
            elif op == "change":
                value = 7.25
                mm.models["m1"].parameters["fix"].set_double_variables(np.array([value]))
                mm.models["m1"].nodes["res"].initial_volume = 3.0
            elif op == "fail":
                b = mm.models["m%d" % where[0]]._bomb
                b.armed, b.at = True, where[1]
                try:
                    mm.run()
                except RuntimeError as e:
                    require("boom" in str(e), "the error of a member is replaced by %r" % e, "fail")
                else:
                    require(False, "the error of a member is lost", "fail")
                b.armed = False
        ref, _ = fresh(value)
        if value is not None:
            ref.models["m1"].nodes["res"].initial_volume = 3.0
        ref.run()
        mm.run()
        for i in range(3):
            w = differ(results(mm.models["m%d" % i]), results(ref.models["m%d" % i]))
            require(w is None, "after %s a run of m%d differs from the first one at %s" % ([OPS[o] for o in cfg[1]], i, w), "history")
        tr.step(2 * 3 * T)
        tr.state((tuple(cfg[1]), where, len(links)))
    tr.outcome = tuple(cfg[1])


# ---------------------------------------------------------------------------------- timesteps and scenarios
STEPPERS = (("2020-01-30", "2020-02-03", 1), ("2020-01-30", "2020-02-02", 1), ("2020-01-29", "2020-02-03", 1), ("2020-01-30", "2020-02-20", 7), ("2020-01-30", "2020-02-10", 2), ("2020-01-01", "2020-04-30", "M"),
            ("2020-01-30", "2020-01-30", 1), ("2020-01-30", "2020-02-03", "12h"), ("2020-01-30", "2020-02-03", "1D"), ("2020-01-30", "2020-02-05", 7))


def tiny(stepper, scenarios=(), combos=None, slices=None):
    d = member(0, "one", [])
    d["timestepper"] = dict(zip(("start", "end", "timestep"), stepper))
    d["scenarios"] = [dict({"name": n, "size": k}, **({"slice": s} if s else {})) for (n, k), s in zip(scenarios, slices or [None] * len(scenarios))]
    for p in ("base", "rain"):
        d["parameters"][p] = {"type": "monthlyprofile", "values": [1.0 + i for i in range(12)]}
    if combos:
        d["scenario_combinations"] = combos
    return d


def gen_steppers(tier):
    for a in range(len(STEPPERS)):
        for b in range(len(STEPPERS)):
            yield [a, b]


def steps_of(m):
    return [(p.start_time, p.end_time) for p in m.timestepper.datetime_index]


def run_steppers(cfg, tr):
    a, b = cfg
    models = []
    mm = MultiModel()
    for k, s in enumerate((STEPPERS[a], STEPPERS[b])):
        m = Model.loads(json.dumps(tiny(s)))
        m._eye = EyeAll(m, name="_eye")
        mm.add_model("m%d" % k, m)
        models.append(m)
    solo = []
    for s in (STEPPERS[a], STEPPERS[b]):
        m = Model.loads(json.dumps(tiny(s)))
        m._eye = EyeAll(m, name="_eye")
        m.run()
        solo.append(m)
    equal = steps_of(solo[0]) == steps_of(solo[1])
    try:
        mm.run()
    except RuntimeError as e:
        require(not equal, "models with the same timesteps are refused: %s" % e, "steps equal")
    else:
        require(equal, "models with steppers %s and %s are run together" % (STEPPERS[a], STEPPERS[b]), "steps differ")
        for m, s in zip(models, solo):
            w = differ(results(m), results(s))
            require(w is None, "a member with stepper %s differs from the model alone at %s" % (STEPPERS[a], w), "steps alone")
    # the stepper of the group is that of all members
    data = {"timestepper": dict(zip(("start", "end", "timestep"), STEPPERS[b])), "models": [{"name": "x", "data": tiny(STEPPERS[a])}, {"name": "y", "data": tiny(STEPPERS[0])}]}
    mm = MultiModel.loads(json.dumps(data))
    for m in mm.models.values():
        m._eye = EyeAll(m, name="_eye")
    mm.run()
    for m in mm.models.values():
        require(steps_of(m) == steps_of(solo[1]), "timesteps of a member are not those of the group", "group steps")
        w = differ(results(m), results(solo[1]))
        require(w is None, "a member with the stepper %s of the group differs from the model alone at %s" % (STEPPERS[b], w), "group steps")
    tr.step(sum(len(s._eye.rows) for s in solo) * 2)
    tr.state((a, b))
    tr.outcome = (a, b)


LAYOUTS = (((), None, None), ((("sa", 2),), None, None), ((("sb", 2),), None, None), ((("sa", 3),), None, None), ((("sa", 2), ("sb", 2)), None, None), ((("sa", 4),), None, None),
           ((("sa", 3),), None, [[0, 2]]), ((("sa", 3),), None, [[1, 3]]), ((("sa", 2), ("sb", 2)), [[0, 0], [1, 1]], None), ((("sa", 2), ("sb", 2)), [[1, 1], [0, 0]], None))


def gen_scenarios(tier):
    for a in range(len(LAYOUTS)):
        for b in range(len(LAYOUTS)):
            yield [a, b]


def run_scenarios(cfg, tr):
    a, b = cfg
    mm = MultiModel()
    for k, (s, c, sl) in enumerate((LAYOUTS[a], LAYOUTS[b])):
        mm.add_model("m%d" % k, Model.loads(json.dumps(tiny(STEPPERS[0], s, c, sl))))
    m0, m1 = mm.models.values()
    for m in (m0, m1):
        m.scenarios.setup()
    like = [[s.size for s in m.scenarios.scenarios] for m in (m0, m1)]
    combos = [[list(c.indices) for c in m.scenarios.combinations] for m in (m0, m1)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            mm.run()
        except ValueError as e:
            require(like[0] != like[1] or combos[0] != combos[1], "models with the same scenarios are refused: %s" % e, "scenarios equal")
        else:
            require(like[0] == like[1] and combos[0] == combos[1], "models with scenarios %s and %s are run together" % (LAYOUTS[a], LAYOUTS[b]), "scenarios differ")
            names = [[s.name for s in m.scenarios.scenarios] for m in (m0, m1)]
            require((names[0] != names[1]) == any("inconsistent scenario names" in str(x.message) for x in w), "scenario names %s: warnings %s" % (names, [str(x.message) for x in w]), "scenario names")
    tr.step(10)
    tr.state((a, b))
    tr.outcome = (a, b)


# ---------------------------------------------------------------------------------- settings of the document
def gen_settings(tier):
    for where in ("data", "filename"):
        for own in (None, "glpk", "lpsolve", "glpk-edge"):
            for default in (None, "glpk", "lpsolve", "glpk-edge"):
                for path in ("none", "group", "own") + (("sub",) if where == "filename" else ()):
                    yield [where, own, default, path]
    yield ["bad", None, None, "none"]


def run_settings(cfg, tr):
    where, own, default, path = cfg
    folder = tempfile.mkdtemp(dir=os.getcwd())
    cwd = os.getcwd()
    try:
        if where == "bad":
            base = {"timestepper": dict(zip(("start", "end", "timestep"), STEPPERS[0]))}
            for models in ([{"name": "x"}], [{"name": "x", "data": tiny(STEPPERS[0]), "filename": "x.json"}], [{"data": tiny(STEPPERS[0])}], [{"name": "x", "filename": "none.json"}]):
                try:
                    MultiModel.loads(json.dumps(dict(base, models=models)))
                except (ValueError, KeyError, OSError):
                    tr.state(repr(models)[:60])
                else:
                    require(False, "group %s is loaded" % models, "bad")
            for missing in ("timestepper", "models"):
                try:
                    MultiModel.loads(json.dumps({k: v for k, v in dict(base, models=[]).items() if k != missing}))
                except KeyError:
                    tr.state(missing)
                else:
                    require(False, "group without %s is loaded" % missing, "bad")
            return
        for sub in ("group", "own", "here"):
            os.mkdir(os.path.join(folder, sub))
        for sub, f in (("group", 3.0), ("group/own", 4.0), ("own", 5.0), ("here", 6.0), ("group/sub", 7.0)):
            p = os.path.join(folder, sub)
            os.makedirs(p, exist_ok=True)
            pd.DataFrame({"v": [f] * 12}, index=pd.Index(range(12), name="m")).to_csv(os.path.join(p, "data.csv"))
        d = tiny(STEPPERS[0])
        d["parameters"]["base"] = {"type": "monthlyprofile", "url": "data.csv", "index_col": "m", "column": "v"}
        entry = {"name": "x"}
        if own:
            entry["solver"] = own
        if path == "own":
            entry["path"] = os.path.join(folder, "own")
        if where == "data":
            entry["data"] = d
        else:
            entry["filename"] = "sub/x.json" if path == "sub" else "x.json"
            for sub in ("group", "here", "group/sub"):
                with open(os.path.join(folder, sub, "x.json"), "w") as fh:
                    json.dump(d, fh)
        data = {"timestepper": dict(zip(("start", "end", "timestep"), STEPPERS[0])), "models": [entry, {"name": "y", "data": tiny(STEPPERS[0])}]}
        kw = {"solver": default} if default else {}
        os.chdir(os.path.join(folder, "here"))
        gpath = os.path.join(folder, "group", "group.json")
        with open(gpath, "w") as fh:
            json.dump(data, fh)
        # (path of the group) group: given as the folder; own: group loaded from a file whose member has its own path
        if path == "none":
            mm = MultiModel.loads(json.dumps(data), **kw)
            want = 6.0
        elif path == "group":
            mm = MultiModel.load(gpath, **kw)
            mm2 = MultiModel.loads(json.dumps(data), path=os.path.join(folder, "group"), **kw)
            with open(gpath) as fh:
                mm3 = MultiModel.load(fh, path=gpath, **kw)
            for k in (mm2, mm3):
                require([v.parameters["base"].get_double_variables()[0] for v in list(k.models.values())[:1]] == [3.0], "data of the member from another place", "path")
            want = 3.0
        elif path == "sub":  # a member's data is found from the member's file
            mm = MultiModel.load(gpath, **kw)
            want = 7.0
        else:
            mm = MultiModel.load(gpath, **kw)
            want = 5.0
        got = mm.models["x"].parameters["base"].get_double_variables()[0]
        require(got == want, "%s: data of the member from another place (%s, not %s)" % (cfg, got, want), "path")
        require(list(mm.models) == ["x", "y"], "order of the members", "order")
        solver = own or default
        if solver:
            require(mm.models["x"].solver.name == solver, "solver of the member is %s, not %s" % (mm.models["x"].solver.name, solver), "solver")
        if default:
            require(mm.models["y"].solver.name == default, "solver of the member is %s, not %s" % (mm.models["y"].solver.name, default), "solver")
        mm.run()
        tr.step(10)
        tr.state(tuple(cfg))
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder)
    tr.outcome = tuple(cfg)


# ---------------------------------------------------------------------------------- results of all members
def gen_zoo(tier):
    for name in zoo.ZOO:
        for order in (0, 1):
            yield [name, order]


def run_zoo(cfg, tr):
    name, order = cfg
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m0 = Model.loads(json.dumps(zoo_doc(name)))
        m0._eye = EyeAll(m0, name="_eye")
        m0.run()
        d = tiny(STEPPERS[0])
        d["timestepper"] = zoo_doc(name)["timestepper"]
        d["scenarios"] = zoo_doc(name).get("scenarios", [])
        if "scenario_combinations" in zoo_doc(name):
            d["scenario_combinations"] = zoo_doc(name)["scenario_combinations"]
        mm = MultiModel()
        a, b = Model.loads(json.dumps(zoo_doc(name))), Model.loads(json.dumps(d))
        for m in (a, b):
            m._eye = EyeAll(m, name="_eye")
        for k, m in (("a", a), ("b", b)) if order == 0 else (("b", b), ("a", a)):
            mm.add_model(k, m)
        for k in range(2):
            mm.run()
            w = differ(results(a), results(m0))
            require(w is None, "%s in run %d of a group differs from the model alone at %s" % (name, k, w), "zoo")
            tr.step(len(m0._eye.rows))
        tr.state((name, order))
    tr.outcome = (name, order)


GROUPS = {"pairs": (gen_pairs, run_pairs), "graphs": (gen_graphs, run_graphs), "histories": (gen_histories, run_histories), "steppers": (gen_steppers, run_steppers),
          "scenarios": (gen_scenarios, run_scenarios), "settings": (gen_settings, run_settings), "zoo": (gen_zoo, run_zoo)}
