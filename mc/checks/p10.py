"""P10: components are evaluated once, after everything they depend on."""
import itertools

import numpy as np

from pywr.core import Model, Scenario
from pywr.model import ModelStructureError
from pywr.nodes import Input, Output, Storage
from pywr import parameters as pp
from pywr import recorders as rr
from pywr.parameters import Parameter, IndexParameter, ConstantParameter
from pywr.parameters.groundwater import KeatingStreamFlowParameter
from pywr.recorders import Recorder
from mc.harness import require
from mc.probe import Fn, FnIndex, Grab, base, require_same

TECHNIQUE = ("exhaustive enumeration of all labelled dependency graphs over up to four (five) components, of every way to attach a dependency, and of all chains of built-in "
             "parameters through every slot that takes a parameter, run on the real code under logging components and compared with a recursive evaluation of the graph")
BOUNDS = ("all 573 labelled acyclic graphs on 1 to 4 components (29281 more on 5 in the thorough tier) with kinds of component mixed and edges attached through children or parents, "
          "twice, and removed again; all 512 digraphs with self-loops on 3 components, of which the cyclic ones must be refused; 60 slots of 27 kinds of parameter, all ordered pairs "
          "(thorough: triples), the child declared first or last; all sequences of two replacements of each replaceable slot; 3 steps, 9 scenario combinations")


# ---- dependency graphs -------------------------------------------------------

class Log:
    def __init__(self):
        self.rows = []

    def __call__(self, what, who, *a):
        self.rows.append((what, who) + a)

    def take(self):
        r, self.rows = self.rows, []
        return r


def formula(i, t, s, kids):
    """kids: values of the children by label"""
    return (i + 1) * (t + 2) + 3 * s + sum((j + 2) * v for j, v in sorted(kids.items())) % 97


def make(kind, m, log, i):
    base_ = {"P": Parameter, "I": IndexParameter, "R": Recorder}[kind]

    class C(base_):
        def kids(self, si):
            out = {}
            for c in self.children:
                if isinstance(c, IndexParameter):
                    out[c.label] = c.get_index(si)
                elif isinstance(c, Parameter):
                    out[c.label] = c.get_value(si)
            return out

        def setup(self):
            super().setup()
            log("setup", self.label)

        def reset(self):
            super().reset()
            log("reset", self.label)

        def before(self):
            super().before()
            log("before", self.label)

        def after(self):
            super().after()
            log("after", self.label)

        def finish(self):
            super().finish()
            log("finish", self.label)

        def value(self, ts, si):
            log("calc", self.label, ts.index, si.global_id)
            return float(formula(self.label, ts.index, si.global_id, self.kids(si)))

        def index(self, ts, si):
            log("calc", self.label, ts.index, si.global_id)
            return int(formula(self.label, ts.index, si.global_id, self.kids(si)))

    c = C(m, name="c%d" % i)
    c.label = i
    if kind == "I":  # the value of an index parameter is of no interest here
        C.value = lambda self, ts, si: 0.0
    return c


def dags(n):
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    def acyclic(E):
        left = set(range(n))
        while left:
            free = [v for v in left if not any(a in left for a, b in E if b == v)]
            if not free:
                return False
            left -= set(free)
        return True
    seen = []
    # choose for each unordered pair: none, a<b, b<a
    un = list(itertools.combinations(range(n), 2))
    for c in itertools.product((0, 1, 2), repeat=len(un)):
        E = [(a, b) if k == 1 else (b, a) for k, (a, b) in zip(c, un) if k]
        if acyclic(E):
            seen.append(E)
    return seen


ATTACH = ["children", "parents", "twice", "late", "removed"]


def gen_dag(tier):
    for n in (1, 2, 3):
        D = dags(n)
        for k, E in enumerate(D):
            for kinds in itertools.product("PIR", repeat=n):
                yield {"n": n, "edges": E, "kinds": "".join(kinds), "how": ATTACH[(k + kinds.count("P")) % len(ATTACH)]}
            for how in ATTACH:
                yield {"n": n, "edges": E, "kinds": "PPP"[:n], "how": how}
    for k, E in enumerate(dags(4)):
        for kinds in (("PPPP", "PIPI") if tier == "quick" else ("PPPP", "PIPI", "IPRP", "IIII", "RPIR", "PRPI")):
            for how in ((ATTACH[k % 5],) if tier == "quick" else ATTACH):
                yield {"n": 4, "edges": E, "kinds": kinds, "how": how}
    if tier != "quick":
        for k, E in enumerate(dags(5)):
            yield {"n": 5, "edges": E, "kinds": "PIPPI", "how": ATTACH[k % 5]}


def attach(cs, E, how):
    if how == "removed":  # everything was once attached to everything after it
        have = set(map(tuple, E))
        for a in range(len(cs)):
            for b in range(a + 1, len(cs)):
                if (a, b) not in have:
                    cs[b].children.add(cs[a])
                    have.add((a, b))
        for a, b in sorted(have - set(map(tuple, E))):
            (cs[b].children.remove(cs[a]) if (a + b) % 2 else cs[a].parents.remove(cs[b]))
        for a, b in E:
            cs[a].parents.add(cs[b])
        return
    for k, (a, b) in enumerate(E if how != "late" else E[::-1]):
        if how == "parents" or (how == "late" and k % 2):
            cs[a].parents.add(cs[b])
        else:
            cs[b].children.add(cs[a])
        if how == "twice":
            cs[a].parents.add(cs[b])


def check_rows(rows, phase, n, E, note):
    order = [r[1] for r in rows if r[0] == phase]
    require(sorted(order) == list(range(n)), lambda: "%s: %s called on %r, not once on each of %d" % (note, phase, order, n), "once")
    pos = {c: k for k, c in enumerate(order)}
    for a, b in E:
        require(pos[a] < pos[b], lambda: "%s: %s of c%d, which depends on c%d, came first (%r)" % (note, phase, b, a, order), "order")


def run_dag(cfg, tr):
    n, E, kinds = cfg["n"], [tuple(e) for e in cfg["edges"]], cfg["kinds"]
    T, S = 2, 2
    m = base(steps=T, S=[S])
    log = Log()
    cs = [make(kinds[i], m, log, i) for i in range(n)]
    attach(cs, E, cfg["how"])
    for i, c in enumerate(cs):
        require({x.label for x in c.children} == {a for a, b in E if b == i}, "children of c%d" % i, "graph")
        require({x.label for x in c.parents if hasattr(x, "label")} == {b for a, b in E if a == i}, "parents of c%d" % i, "graph")
    calc = [i for i in range(n) if kinds[i] != "R"]
    g = Grab(m, params=[cs[i] for i in calc], name="grab")

    def expected(t, s):
        done = {}
        def val(i):
            if i not in done:
                done[i] = formula(i, t, s, {a: val(a) for a, b in E if b == i and kinds[a] != "R"})
            return done[i]
        return [val(i) for i in calc]

    def steps(note, first=0):
        for t in range(first, T):
            log.take()
            m.step()
            rows = log.take()
            check_rows(rows, "before", n, E, note)
            check_rows(rows, "after", n, E, note)
            seq = [r for r in rows if r[0] == "calc"]
            require(len(seq) == len(calc) * S and len(set(seq)) == len(seq), lambda: "%s: in step %d evaluated %r" % (note, t, seq), "once")
            require(all(r[2] == t for r in seq), "%s: evaluated for another step" % note, "step")
            at = {}
            for k, r in enumerate(seq):
                at.setdefault(r[1], []).append(k)
            for a, b in E:
                if a in at and b in at:
                    require(max(at[a]) < min(at[b]), lambda: "%s: step %d: c%d evaluated before c%d was" % (note, t, b, a), "order")
            last = max(k for k, r in enumerate(rows) if r[0] == "before")
            if seq:
                require(last < rows.index(seq[0]), "%s: evaluation began before every component was prepared" % note, "order")
            got = g.rows[-1]
            for j, i in enumerate(calc):
                v = got[1][j] if kinds[i] == "I" else got[0][j]
                for s in range(S):
                    require(v[s] == expected(t, s)[j], lambda: "%s: step %d, scenario %d: c%d is %r, want %r" % (note, t, s, i, v[s], expected(t, s)[j]), "value")
            tr.step(len(seq))

    m.setup()
    rows = log.take()
    check_rows(rows, "setup", n, E, "setup")
    check_rows(rows, "reset", n, E, "setup")
    steps("first run")
    log.take()
    m.finish()
    check_rows(log.take(), "finish", n, E, "finish")
    m.reset()
    check_rows(log.take(), "reset", n, E, "reset")
    steps("second run")
    # change of mind: turn one dependency around, or drop it
    if E and n <= 4:
        for drop in range(len(E)):
            a, b = E[drop]
            for _ in range(2 if cfg["how"] == "twice" else 1):
                if cs[a] in list(cs[b].children):
                    cs[b].children.remove(cs[a])
            E2 = E[:drop] + E[drop + 1:]
            old, E = E, E2
            m.setup()
            rows = log.take()
            check_rows(rows, "setup", n, E, "without c%d -> c%d" % (a, b))
            steps("without c%d -> c%d" % (a, b))
            E = old
            cs[b].children.add(cs[a])
            if n == 4:
                break
    tr.state(n, E, kinds)
    tr.run(2)
    tr.outcome = (n, len(E), kinds)


# ---- cycles ------------------------------------------------------------------

def gen_cyc(tier):
    pairs = [(a, b) for a in range(3) for b in range(3)]
    for mask in range(512):
        E = [p for k, p in enumerate(pairs) if mask >> k & 1]
        for kinds in ("PPP", "IPR") if tier == "quick" else ("PPP", "IPR", "RIP", "RRR"):
            yield {"edges": E, "kinds": kinds}


def cyclic(n, E):
    reach = [[(a, b) in E for b in range(n)] for a in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                reach[i][j] = reach[i][j] or (reach[i][k] and reach[k][j])
    return any(reach[i][i] for i in range(n))


def run_cyc(cfg, tr):
    E = [tuple(e) for e in cfg["edges"]]
    m = base(steps=2, S=[2])
    log = Log()
    cs = [make(k, m, log, i) for i, k in enumerate(cfg["kinds"])]
    for k, (a, b) in enumerate(E):
        (cs[a].parents.add(cs[b]) if k % 2 else cs[b].children.add(cs[a]))
    bad = cyclic(3, E)
    calls = {"setup": lambda: m.setup(), "again": lambda: m.setup(), "run": lambda: m.run()}
    for what in ("setup", "again", "run") if len(E) % 2 else ("run", "setup", "again"):
        try:
            calls[what]()
        except ModelStructureError:
            require(bad, "%s refused an acyclic graph" % what, "cycle")
        else:
            require(not bad, "%s accepted a cycle" % what, "cycle")
        rows = log.take()
        if bad:
            require(not rows, lambda: "%s: components of a cycle were used: %r" % (what, rows[:5]), "cycle")
        else:
            require(rows, "nothing was used", "cycle")
        tr.step()
    # once the loop is cut the model works
    if bad:
        for c in cs:
            c.children.clear()
        require(all(len(list(c.children)) == 0 for c in cs), "cleared children", "graph")
        m.run()
        require(sum(1 for r in log.take() if r[0] == "calc") == 2 * 2 * sum(k != "R" for k in cfg["kinds"]), "run after the loops were cut", "once")
    tr.state(E, cfg["kinds"])
    tr.run()
    tr.outcome = (bad, len(E))


# ---- slots -------------------------------------------------------------------

VALS = [0.25, 0.5, 0.8]


class Env:
    def __init__(self, T=3, S=(9,), steps=None):
        m = base(steps=T, S=list(S))
        self.m, self.T = m, T
        x, y = Input(m, "sx", max_flow=0.0), Output(m, "sy", max_flow=0.0)
        self.st = Storage(m, "st", max_volume=10.0, initial_volume=6.0)
        x.connect(self.st), self.st.connect(y)
        self.out = m.nodes["out"]

    def const(self, v):
        return ConstantParameter(self.m, v)


XY = dict(x=[-5.0, 0.0, 0.4, 0.7, 5.0], y=[0.0, 0.2, 0.9, 0.3, 2.0])
LIN = {"kind": "linear", "bounds_error": False, "fill_value": 0.5}
SLOTS = {}      # name -> fn(env, p) -> parameter
ISLOTS = {}     # takes an index parameter
SETTERS = {}    # name -> fn(parameter, p): put p in the slot in place of what is there


def slot(name, setter=None, index=False):
    def deco(f):
        (ISLOTS if index else SLOTS)[name] = f
        if setter:
            SETTERS[name] = setter
        return f
    return deco


for _f in ("sum", "min", "max", "mean", "median", "product", "custom"):
    for _k in range(3):
        SLOTS["aggregated %s %d" % (_f, _k)] = lambda e, p, f=_f, k=_k: pp.AggregatedParameter(
            e.m, [p if j == k else e.const([0.3, 0.7, 0.45][j]) for j in range(3)], agg_func=(lambda v: 2 * v[0] + 3 * v[1] + 5 * v[2]) if f == "custom" else f)
    def _add(e, p, f=_f):
        a = pp.AggregatedParameter(e.m, [e.const(0.4)], agg_func=(lambda v: v[0] + 7 * v[-1]) if f == "custom" else f)
        a.add(p)
        return a
    SLOTS["aggregated %s add" % _f] = _add


def _replace(q, p):
    q.remove(q.parameters[0])
    q.add(p)


SLOTS["aggregated sum one"] = lambda e, p: pp.AggregatedParameter(e.m, [p], agg_func="sum")
SETTERS["aggregated sum one"] = _replace
SLOTS["division top"] = lambda e, p: pp.DivisionParameter(e.m, p, e.const(0.75))
SETTERS["division top"] = lambda q, p: setattr(q, "numerator", p)
SLOTS["division bottom"] = lambda e, p: pp.DivisionParameter(e.m, e.const(0.75), p)
SETTERS["division bottom"] = lambda q, p: setattr(q, "denominator", p)
for _c in ("Negative", "Max", "NegativeMax", "Min", "NegativeMin", "Offset"):
    _kw = {"Negative": {}, "Max": {"threshold": 0.4}, "NegativeMax": {"threshold": -0.4}, "Min": {"threshold": 0.6}, "NegativeMin": {"threshold": -0.6}, "Offset": {"offset": 0.125}}[_c]
    SLOTS[_c.lower()] = lambda e, p, c=_c, kw=_kw: getattr(pp, c + "Parameter")(e.m, p, **kw)
    SETTERS[_c.lower()] = lambda q, p: setattr(q, 'parameter', p)
for _k in range(2):
    SLOTS["indexedarray %d" % _k] = lambda e, p, k=_k: pp.IndexedArrayParameter(e.m, FnIndex(e.m, lambda t, si, k=k: k), [p if j == k else e.const(9.0) for j in range(2)])
SLOTS["interpolated"] = lambda e, p: pp.InterpolatedParameter(e.m, p, XY["x"], XY["y"], interp_kwargs=LIN)
SETTERS["interpolated"] = lambda q, p: setattr(q, "parameter", p)
SLOTS["quadrature upper"] = lambda e, p: pp.InterpolatedQuadratureParameter(e.m, p, XY["x"], XY["y"], interp_kwargs=LIN)
SETTERS["quadrature upper"] = lambda q, p: setattr(q, "upper_parameter", p)
SLOTS["quadrature lower"] = lambda e, p: pp.InterpolatedQuadratureParameter(e.m, e.const(0.9), XY["x"], XY["y"], lower_parameter=p, interp_kwargs=LIN)
SETTERS["quadrature lower"] = lambda q, p: setattr(q, "lower_parameter", p)
SLOTS["integral"] = lambda e, p: pp.PiecewiseIntegralParameter(e.m, p, [0.3, 0.6, 2.0], [1.0, 3.0, 0.5])
SETTERS["integral"] = lambda q, p: setattr(q, 'parameter', p)
SLOTS["polynomial1d"] = lambda e, p: pp.Polynomial1DParameter(e.m, [0.1, 0.5, 0.25], parameter=p)
SLOTS["polynomial2d"] = lambda e, p: pp.Polynomial2DStorageParameter(e.m, [[0.1, 0.5], [0.05, 0.02]], e.st, p)
SLOTS["scenario wrapper"] = lambda e, p: pp.ScenarioWrapperParameter(e.m, list(e.m.scenarios.scenarios)[0], [p] * 9)
SLOTS["scaled profile"] = lambda e, p: pp.ScaledProfileParameter(e.m, 0.6, p)
SETTERS["scaled profile"] = lambda q, p: setattr(q, 'profile', p)
for _k in range(2):  # at 60 %
    SLOTS["control curve %d" % _k] = lambda e, p, k=_k: pp.ControlCurveParameter(e.m, e.st, [p, e.const(0.1)] if k == 0 else [e.const(0.95), p], values=[0.3, 0.55, 0.8])
    SETTERS["control curve %d" % _k] = lambda q, p, k=_k: setattr(q, "control_curves", [p, q.control_curves[1]] if k == 0 else [q.control_curves[0], p])
    SLOTS["interpolated curve %d" % _k] = lambda e, p, k=_k: pp.ControlCurveInterpolatedParameter(
        e.m, e.st, [p, e.const(0.1)] if k == 0 else [e.const(0.95), p], values=[0.3, 0.55, 0.8, 0.1])
    SETTERS["interpolated curve %d" % _k] = SETTERS["control curve %d" % _k]
    SLOTS["index curve %d" % _k] = lambda e, p, k=_k: pp.ControlCurveIndexParameter(e.m, e.st, [p, e.const(0.1)] if k == 0 else [e.const(0.95), p])
    SETTERS["index curve %d" % _k] = SETTERS["control curve %d" % _k]
    SLOTS["piecewise curve %d" % _k] = lambda e, p, k=_k: pp.ControlCurvePiecewiseInterpolatedParameter(
        e.m, e.st, [p, e.const(0.1)] if k == 0 else [e.const(0.95), p], [[0.9, 0.6], [0.5, 0.4], [0.3, 0.1]])
    SETTERS["piecewise curve %d" % _k] = SETTERS["control curve %d" % _k]
SLOTS["control curve alone"] = lambda e, p: pp.ControlCurveParameter(e.m, e.st, p, values=[0.3, 0.8])
SLOTS["curve value 0"] = lambda e, p: pp.ControlCurveParameter(e.m, e.st, [0.5], parameters=[p, e.const(0.1)])
SLOTS["curve value 1"] = lambda e, p: pp.ControlCurveParameter(e.m, e.st, [0.7], parameters=[e.const(0.1), p])
SLOTS["interpolated curve value 0"] = lambda e, p: pp.ControlCurveInterpolatedParameter(e.m, e.st, [0.5], parameters=[p, e.const(0.1), e.const(0.3)])
SLOTS["interpolated curve value 1"] = lambda e, p: pp.ControlCurveInterpolatedParameter(e.m, e.st, [0.5], parameters=[e.const(0.1), p, e.const(0.3)])
SLOTS["interpolated curve value 2"] = lambda e, p: pp.ControlCurveInterpolatedParameter(e.m, e.st, [0.7], parameters=[e.const(0.1), e.const(0.4), p])
_th = lambda q, p: setattr(q, "threshold", p)
SLOTS["storage threshold"] = lambda e, p: pp.StorageThresholdParameter(e.m, e.st, pp.OffsetParameter(e.m, p, offset=5.5), values=[0.3, 0.8], predicate="GT")
SLOTS["node threshold"] = lambda e, p: pp.NodeThresholdParameter(e.m, e.out, p, values=[0.3, 0.8], predicate="LT")
SETTERS["node threshold"] = _th
SLOTS["year threshold"] = lambda e, p: pp.CurrentYearThresholdParameter(e.m, pp.OffsetParameter(e.m, p, offset=1999.5), values=[0.3, 0.8], predicate="GE")
SLOTS["day threshold"] = lambda e, p: pp.CurrentOrdinalDayThresholdParameter(e.m, pp.OffsetParameter(e.m, p, offset=0.0), values=[0.3, 0.8], predicate="GE")
SLOTS["threshold of"] = lambda e, p: pp.ParameterThresholdParameter(e.m, p, 0.45, values=[0.3, 0.8], predicate="GT")
SETTERS["threshold of"] = lambda q, p: setattr(q, 'param', p)
SLOTS["threshold at"] = lambda e, p: pp.ParameterThresholdParameter(e.m, e.const(0.45), p, values=[0.3, 0.8], predicate="GT")
SETTERS["threshold at"] = _th
SLOTS["threshold to itself"] = lambda e, p: pp.ParameterThresholdParameter(e.m, p, p, values=[0.3, 0.8], predicate="GE")
SLOTS["many thresholds"] = lambda e, p: pp.MultipleThresholdIndexParameter(e.m, e.out, [e.const(5.0), p, e.const(-3.0)])
SLOTS["many thresholds of"] = lambda e, p: pp.MultipleThresholdParameterIndexParameter(e.m, p, [0.6, 0.3])
SETTERS["many thresholds of"] = lambda q, p: setattr(q, 'parameter', p)
SLOTS["many thresholds at"] = lambda e, p: pp.MultipleThresholdParameterIndexParameter(e.m, e.const(0.45), [e.const(0.9), p, e.const(0.1)])
_H = dict(turbine_elevation=0.0, efficiency=1.0, density=1.0, flow_unit_conversion=1.0, energy_unit_conversion=1.0)
SLOTS["hydropower target"] = lambda e, p: pp.HydropowerTargetParameter(e.m, p, water_elevation_parameter=e.const(0.2), **_H)
SETTERS["hydropower target"] = lambda q, p: setattr(q, "target", p)
SLOTS["hydropower elevation"] = lambda e, p: pp.HydropowerTargetParameter(e.m, e.const(0.9), water_elevation_parameter=pp.MaxParameter(e.m, p, threshold=0.01), **_H)
SLOTS["hydropower max"] = lambda e, p: pp.HydropowerTargetParameter(e.m, e.const(900.0), water_elevation_parameter=e.const(0.2), max_flow=p, **_H)
SETTERS["hydropower max"] = lambda q, p: setattr(q, "max_flow", p)
SLOTS["hydropower min"] = lambda e, p: pp.HydropowerTargetParameter(e.m, e.const(0.0), water_elevation_parameter=e.const(0.2), min_flow=p, **_H)
SETTERS["hydropower min"] = lambda q, p: setattr(q, "min_flow", p)
SLOTS["twice in a sum"] = lambda e, p: pp.AggregatedParameter(e.m, [p, p], agg_func="sum")
SLOTS["over itself"] = lambda e, p: pp.DivisionParameter(e.m, p, p)



def _stream(e, p, late):
    k = sum(1 for n in e.m.nodes if n.name.startswith("aq"))
    x, a, y = Input(e.m, "aqx%d" % k, max_flow=0.0), Storage(e.m, "aq%d" % k, max_volume=1.0, initial_volume=0.5), Output(e.m, "aqy%d" % k, max_flow=0.0)
    x.connect(a), a.connect(y)
    if late == 0:
        a.level = p
    elif late == 1:
        a.level = e.const(77.0)
    q = KeatingStreamFlowParameter(e.m, a, [0.1, 0.5], [0.25, 0.75], coefficient=0.5)
    a.level = p
    return q


for _k, _n in enumerate(("stream level", "stream level replaced", "stream level given late")):
    SLOTS[_n] = lambda e, p, k=_k: _stream(e, p, k)
    SETTERS[_n] = lambda q, p: setattr(q.storage_node, "level", p)
for _f in ("sum", "min", "max", "product", "any", "all", "custom"):
    for _k in range(2):
        ISLOTS["aggregated index %s %d" % (_f, _k)] = lambda e, p, f=_f, k=_k: pp.AggregatedIndexParameter(
            e.m, [p if j == k else FnIndex(e.m, lambda t, si: 1) for j in range(2)], agg_func=(lambda v: int(2 * v[0] + 3 * v[1])) if f == "custom" else f)

    def _addi(e, p, f=_f):
        a = pp.AggregatedIndexParameter(e.m, [FnIndex(e.m, lambda t, si: 1)], agg_func=(lambda v: int(v[0] + 7 * v[-1])) if f == "custom" else f)
        a.add(p)
        return a
    ISLOTS["aggregated index %s add" % _f] = _addi
ISLOTS["index of array"] = lambda e, p: pp.IndexedArrayParameter(e.m, p, [(7 * i % 20) / 20 + 0.05 for i in range(400)])


def is_index(name):
    return name in ISLOTS


def alphabet(name):
    return [0, 1, 2] if is_index(name) else VALS


def source(e, index, f, held):
    """parameter worth f(t, s); declared now"""
    return (FnIndex if index else Fn)(e.m, lambda t, si: f(t, si[0]))


def observe(e, q):
    g = Grab(e.m, params=[q], name="g")
    e.m.run()
    if isinstance(q, IndexParameter):
        return np.hstack([g.vals()[:, 0], g.idx(0)])
    return g.vals()[:, 0]


def chain(e, names, p):
    for nm in names:
        p = (ISLOTS if is_index(nm) else SLOTS)[nm](e, p)
    return p


def settled(names):
    """what the chain is worth, at length, for each letter"""
    A = alphabet(names[0])
    e = Env(T=len(names) + 2, S=(9,))
    p = source(e, is_index(names[0]), lambda t, s: A[s % 3], None)
    got = observe(e, chain(e, names, p))[-1]
    n = got.size // 9
    return [[float(got[k * 9 + a]) for k in range(n)] for a in range(3)]


def compatible(a, b):
    """may what a makes go in slot b"""
    if not is_index(b):
        return True
    e = Env(T=1)
    p = source(e, is_index(a), lambda t, s: alphabet(a)[0], None)
    return isinstance(chain(e, [a], p), IndexParameter)


ALL = list(SLOTS) + list(ISLOTS)


def gen_slots(tier):
    for a in ALL:
        yield {"chain": [a]}
    thin = [a for a in ALL if not (a.startswith("aggregated") and (a.split()[-1] in "12" or a.split()[-2] in ("min", "max", "mean", "product", "any", "all")))]
    for a in ALL if tier != "quick" else thin:
        if tier == "quick":
            yield {"chain": [a], "then": thin}
        else:
            yield {"chain": [a], "then": ALL}
            for b in thin:
                if compatible(a, b):
                    yield {"chain": [a, b], "then": thin}


def one_chain(names, tr):
    A = alphabet(names[0])
    want = settled(names)
    T = 3
    # all pairs of letters in the first two steps
    word = lambda s: [s // 3, s % 3, (s // 3 + s + 1) % 3]
    e = Env(T=T, S=(9,))
    p = source(e, is_index(names[0]), lambda t, s: A[word(s)[t]], None)
    got = observe(e, chain(e, names, p))
    n = got.shape[1] // 9
    # nothing has flowed when a node's threshold is first asked
    for t in range(1 if "node threshold" in names else 0, T):
        for s in range(9):
            for k in range(n):
                w, g = want[word(s)[t]][k], got[t, k * 9 + s]
                require(g == w or abs(g - w) <= 1e-9 * max(1, abs(w)) or (g != g and w != w),
                        lambda: "%s of %r in the steps so far: step %d is worth %r, want %r" % (" of ".join(names[::-1]), [A[i] for i in word(s)], t, g, w), "stale:" + names[-1])
    tr.step(9 * T)
    tr.run()
    for s in range(9):
        tr.state(names, s)


def run_slots(cfg, tr):
    if "then" not in cfg:
        one_chain(cfg["chain"], tr)
    else:
        for b in cfg["then"]:
            if compatible(cfg["chain"][-1], b):
                try:
                    one_chain(cfg["chain"] + [b], tr)
                except (ZeroDivisionError, AssertionError):  # division by nothing, a maximum less than a minimum
                    tr.count("undefined")
    # a loop through the slots is refused
    names = cfg["chain"]
    e = Env(T=2)
    loops = []
    calls = []

    class Probe(Parameter):
        def value(self, ts, si):
            calls.append(1)
            return 0.5
    head = pp.AggregatedIndexParameter(e.m, [FnIndex(e.m, lambda t, si: 1)], agg_func="sum") if is_index(names[0]) else pp.AggregatedParameter(e.m, [Probe(e.m)], agg_func="sum")
    q = chain(e, names, head)
    if isinstance(q, IndexParameter) or not is_index(names[0]):
        head.add(q)
        for go in (e.m.setup, e.m.run):
            try:
                go()
            except ModelStructureError:
                pass
            else:
                require(False, "a loop through %s was run" % " and ".join(names), "cycle:" + names[0])
        require(not calls, "a loop through %s was evaluated" % names, "cycle")
        head.remove(q)
        e.m.run()
        tr.step(2)
    tr.outcome = (cfg["chain"],)


# ---- replacing what is in a slot ---------------------------------------------

def gen_set(tier):
    words = list(itertools.product("abc", repeat=2 if tier == "quick" else 3))
    for nm in SETTERS:
        for w in words:
            for late in (0, 1):
                yield {"slot": nm, "word": "".join(w), "late": late}


def run_set(cfg, tr):
    """a is in the slot at first, then each of the word in turn; c is declared after the parameter that uses it"""
    nm = cfg["slot"]
    want = settled([nm])
    e = Env(T=3, S=(9,))
    words = {"a": lambda t, s: s % 3, "b": lambda t, s: (s + t) % 3, "c": lambda t, s: (s + 2 * t + 1) % 3}
    mk = lambda k: Fn(e.m, lambda t, si, k=k: VALS[words[k](t, si[0])], name=k)
    ps = {"a": mk("a")}
    if not cfg["late"]:
        ps["b"] = mk("b")
    q = SLOTS[nm](e, ps["a"])
    ps.setdefault("b", None)
    if ps["b"] is None:
        ps["b"] = mk("b")
    ps["c"] = mk("c")
    # reached by way of a chain too
    top = pp.NegativeParameter(e.m, q)
    g = Grab(e.m, params=[q, top], name="g")
    now = "a"
    for nxt in [None] + list(cfg["word"]):
        if nxt:
            SETTERS[nm](q, ps[nxt])
            now = nxt
            e.m.setup()
        if not nm.startswith("stream level "):  # given after the parameter was made: noticed by the set-up
            names = {x.name for x in q.children if x.name in ("a", "b", "c")}
            require(names == {now}, lambda: "%s depends on %r, not on %r" % (nm, sorted(names), now), "set:" + nm)
        e.m.run()
        names = {x.name for x in q.children if x.name in ("a", "b", "c")}
        require(names == {now}, lambda: "%s depends on %r, not on %r" % (nm, sorted(names), now), "set:" + nm)
        v = g.vals()
        for t in range(1 if nm == "node threshold" else 0, 3):
            for s in range(9):
                w = want[words[now](t, s)][0]
                require(abs(v[t, 0, s] - w) <= 1e-9, lambda: "%s given %s: step %d is %r, want %r" % (nm, now, t, v[t, 0, s], w), "stale:" + nm)
                require(abs(v[t, 1, s] + w) <= 1e-9, "%s given %s: not passed on" % (nm, now), "stale:" + nm)
        tr.step(27)
        tr.run()
    tr.state(nm, cfg["word"], cfg["late"])
    tr.outcome = (nm,)


# ---- one parameter in two slots ----------------------------------------------

def gen_share(tier):
    for how in ("division", "aggregate", "index", "curves", "threshold", "hydro", "quadrature"):
        for word in itertools.product("xyz", repeat=3 if tier == "quick" else 4):
            yield {"how": how, "word": "".join(word)}


def run_share(cfg, tr):
    """two slots of the same parameter filled, one after another, with a, b or each other's"""
    how = cfg["how"]
    e = Env(T=3, S=(9,))
    fs = {"x": lambda t, s: VALS[(s // 3 + t) % 3], "y": lambda t, s: VALS[(s + 2 * t) % 3], "z": lambda t, s: VALS[(s + s // 3 + t) % 3]}
    mk = lambda k: Fn(e.m, lambda t, si, k=k: fs[k](t, si[0]), name=k)
    ps = {"x": mk("x")}
    if how == "division":
        q = pp.DivisionParameter(e.m, ps["x"], ps["x"])
        put = lambda i, p: setattr(q, ("numerator", "denominator")[i], p)
        ref = lambda a, b: a / b
    elif how == "aggregate":
        q = pp.AggregatedParameter(e.m, [ps["x"], ps["x"]], agg_func="sum")
        cur = [ps["x"], ps["x"]]

        def put(i, p):
            q.remove(cur[i])
            q.add(p)
            cur[i] = p
        ref = lambda a, b: a + b
    elif how == "index":
        mk = lambda k: FnIndex(e.m, lambda t, si, k=k: int(fs[k](t, si[0]) * 4), name=k)
        e.m.component_graph.remove_node(ps["x"])
        ps = {"x": mk("x")}
        q = pp.AggregatedIndexParameter(e.m, [ps["x"], ps["x"]], agg_func="sum")
        cur = [ps["x"], ps["x"]]

        def put(i, p):
            q.remove(cur[i])
            q.add(p)
            cur[i] = p
        ref = lambda a, b: int(4 * a) + int(4 * b)
    elif how == "curves":
        q = pp.ControlCurveInterpolatedParameter(e.m, e.st, [ps["x"], ps["x"]], values=[0.0, 1.0, 2.0, 3.0])
        put = lambda i, p: setattr(q, "control_curves", [p if i == j else c for j, c in enumerate(q.control_curves)])
        ref = None
    elif how == "threshold":
        q = pp.ParameterThresholdParameter(e.m, ps["x"], ps["x"], values=[0.0, 1.0], predicate="GT")
        put = lambda i, p: setattr(q, "threshold", p)
        ref = lambda a, b: float(a > b)
    elif how == "hydro":
        q = pp.HydropowerTargetParameter(e.m, e.const(900.0), water_elevation_parameter=e.const(0.2), max_flow=ps["x"], min_flow=ps["x"], **_H)
        put = lambda i, p: setattr(q, ("max_flow", "min_flow")[i], p)
        ref = None
    else:
        q = pp.InterpolatedQuadratureParameter(e.m, ps["x"], [0.0, 10.0], [0.0, 10.0], lower_parameter=ps["x"], interp_kwargs={"kind": "linear"})
        put = lambda i, p: setattr(q, ("upper_parameter", "lower_parameter")[i], p)
        ref = lambda a, b: (a * a - b * b) / 2
    ps["y"], ps["z"] = mk("y"), mk("z")
    g = Grab(e.m, params=[q], name="g")
    slots = ["x", "x"]
    first = True
    for i, k in enumerate("x" + cfg["word"]):
        at = i % 2
        if how == "threshold":
            at = 1
        if not first:
            put(at, ps[k])
            slots[at] = k
            if how in ("aggregate", "index"):
                pass
            e.m.setup()
        first = False
        names = {x.name for x in q.children if x.name in ("x", "y", "z")}
        require(names == set(slots), lambda: "%s: depends on %r, not on %r" % (how, sorted(names), slots), "share:" + how)
        e.m.run()
        if ref:
            v = g.idx(0) if how == "index" else g.vals()[:, 0]
            want = [[ref(fs[slots[0]](t, s), fs[slots[1]](t, s)) for s in range(9)] for t in range(3)]
            require_same(v, want, "%s of %r" % (how, slots), "share:" + how)
        tr.step(27)
        tr.run()
    tr.state(how, cfg["word"])
    tr.outcome = (how,)


GROUPS = {"dag": (gen_dag, run_dag), "cyc": (gen_cyc, run_cyc), "slots": (gen_slots, run_slots), "set": (gen_set, run_set), "share": (gen_share, run_share)}
