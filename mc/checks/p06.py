"""P06: histories of operations on one model leave nothing behind."""
import copy
import itertools
import json
import os

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario, Input, Output, Link, Storage
from pywr.nodes import (VirtualStorage, AnnualVirtualStorage, RollingVirtualStorage, MonthlyVirtualStorage, SeasonalVirtualStorage, AggregatedNode,
                        AggregatedStorage, PiecewiseLink, LossLink, DelayNode, BreakLink)
from pywr.domains.river import Catchment, RiverGauge
from pywr.parameters import (ConstantParameter, ArrayIndexedParameter, MonthlyProfileParameter, IndexParameter, ConstantScenarioParameter,
                             RollingMeanFlowNodeParameter, ControlCurveParameter, Polynomial1DParameter, AnnualHarmonicSeriesParameter,
                             RbfProfileParameter, DailyProfileParameter, WeeklyProfileParameter, AggregatedParameter, ParameterThresholdParameter,
                             DataFrameParameter)
from pywr.recorders import Recorder, TotalFlowNodeRecorder
from mc.harness import require, Violation
from mc.zoo import ZOO, build

TECHNIQUE = ("explicit-state exploration of every operation history up to a depth on the real code; the observations after the "
             "last restart of a history are compared with a freshly built model given the same suffix")
BOUNDS = ("17 models that together hold every kind of stateful node, parameter and recorder (15 daily, 14 weekly or 13 monthly "
          "steps); every history of run / step / three steps / reset / reset to a later start / set-up / finish / change an input / "
          "change it back, of length 3 (quick) or 4 (thorough), then a run and a reset with steps to the end; every ordered pair of "
          "values of each node, storage, aggregated-node and virtual-storage attribute, of the period run and of a series in data, for 3 solvers and the "
          "fixed-once options; every ordered pair (triple) of settings of each public attribute of each kind of parameter, set up again between the runs")


class Spy(Recorder):
    """copies everything observable after every step"""

    def __init__(self, model):
        super().__init__(model, name="~spy")
        self.rows = []
        self.params = list(model.parameters)  # some nodes make more at set-up
        for p in self.params:
            self.children.add(p)

    def reset(self):
        self.rows = []

    def after(self):
        m = self.model
        row = [("step", str(m.timestepper.current.datetime), m.timestepper.current.index)]
        for n in sorted(m.graph.nodes(), key=lambda n: n.fully_qualified_name if hasattr(n, "fully_qualified_name") else n.name):
            nm = n.fully_qualified_name
            for a in ("flow", "prev_flow", "volume", "current_pc"):
                try:
                    v = getattr(n, a)
                except (AttributeError, NotImplementedError):
                    continue
                row.append((nm + "." + a, bits(v)))
        for p in self.params:
            row.append((p.name, bits(p.get_all_values())))
            if isinstance(p, IndexParameter):
                row.append(("%s[i]" % p.name, bits(p.get_all_indices())))
        self.rows.append(tuple(row))


def bits(v):
    return tuple(np.asarray(v, float).ravel().tolist()) if v is not None else None


def final(m):
    out = []
    for r in m.recorders:
        if isinstance(r, Spy):
            continue
        for a in ("values", "aggregated_value"):
            try:
                out.append((r.name, a, bits(getattr(r, a)())))
            except NotImplementedError:
                out.append((r.name, a, None))
        for a in ("data", "sdc", "fdc", "index"):
            v = getattr(r, a, None)
            if isinstance(v, np.ndarray):
                out.append((r.name, a, bits(v)))
        if hasattr(r, "to_dataframe"):
            try:
                df = r.to_dataframe()
            except Exception as e:
                out.append((r.name, "df", type(e).__name__))
                continue
            out.append((r.name, "index", tuple(map(str, df.index))))
            out.append((r.name, "df", [[x if isinstance(x, float) else str(x) for x in row] for row in df.values.tolist()]))
    return tuple(out)


def same(a, b):
    """equal up to rounding in the last places (a warm-started solver may round differently)"""
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or (abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) and abs(a) + abs(b) < float("inf"))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def diff(got, want):
    for k, (g, w) in enumerate(zip(got, want)):
        if not same(g, w):
            if isinstance(g, tuple) and isinstance(w, tuple) and g and isinstance(g[0], tuple):
                for x, y in zip(g, w):
                    if not same(x, y):
                        return "row %d %s: %r, fresh model %r" % (k, g[0][:2], x, y)
            return "item %d: %r, fresh model %r" % (k, g, w)
    return "lengths %d, fresh model %d" % (len(got), len(want))


class Sim:
    def __init__(self, name, kin, kdem):
        self.m = build(name)
        self.spy = Spy(self.m)
        self.put(kin, kdem)
        self.started = False
        self.dates = None

    def put(self, kin, kdem):
        self.m.parameters["kin"].set_double_variables(np.array([kin]))
        self.m.parameters["kdem"].set_double_variables(np.array([kdem]))


INP = {"A": (1.0, 1.0), "B": (0.5, 1.6)}


def mid(m):
    return m.timestepper.datetime_index[4].start_time


def apply(sim, op, cur):
    """returns what the operation lets one see"""
    m = sim.m
    if op == "R":
        m.run()
        return ("run", tuple(sim.spy.rows), final(m))
    if op in "ST":
        for _ in range(1 if op == "S" else 3):
            m.step()
        return ("rows", tuple(sim.spy.rows))
    if op == "Z":
        m.reset()
    elif op == "M":
        m.reset(start=mid(m))
    elif op == "U":
        m.setup()
    elif op == "F":
        m.finish()
        return ("fin", final(m))
    elif op in "AB":
        sim.put(*INP[op])
    return ()


def suffix(hist):
    """the part of a history after its last restart; None when it cannot be carried out"""
    inp, left, at = "A", None, 0  # left: steps before the end of the run
    out = []
    N = 13
    k = None
    ready = False
    start_inp = "A"
    for i, op in enumerate(hist):
        if op in "AB":
            if op == inp:
                return None
            inp = op
        if op in "MZF" and not ready:
            return None
        if op in "RSTU":
            ready = True
        if op in "RZMU":
            at, start_inp = i, inp
            k = N if op == "R" else 4 if op == "M" else 0
        elif op in "ST":
            if k is None:  # the first step sets the model up
                at, start_inp, k = i, inp, 0
            k += 1 if op == "S" else 3
            if k > N:
                return None
        elif op == "F" and not any(o in "RST" for o in hist[at:i]):
            return None
        elif op == "F" and i and hist[i - 1] == "R":
            return None
        elif op == "F" and "F" in hist[at:i]:
            return None
    return hist[at:], start_inp, inp


_ref = {}


def fresh(name, suf, inp):
    """observations of a freshly built model put through the suffix"""
    key = (name, suf, inp)
    if key not in _ref:
        if len(_ref) > 400:
            _ref.clear()
        s = Sim(name, *INP[inp])
        if suf[0] in "ZM":
            s.m.setup()
        _ref[key] = tuple(apply(s, op, inp) for op in suf)
    return _ref[key]


def run_history(cfg, tr):
    name, hist = cfg["model"], cfg["ops"]
    sim = Sim(name, *INP["A"])
    inp = "A"
    n = len(sim.m.timestepper)
    done = ""
    for op in hist:
        if op in "AB":
            inp = op
        try:
            obs = apply(sim, op, inp)
        except Exception as e:
            raise Violation("%s after %r: %s raised %r" % (name, done, op, e), "raise")
        done += op
        suf = suffix(done)
        tr.step()
        want = fresh(name, suf[0], suf[1])
        got = obs
        if got and got[0] == "run":
            require(same(got[1], want[-1][1]), lambda: "%s history %r: rows differ: %s" % (name, done, diff(got[1], want[-1][1])), "rows")
            require(same(got[2], want[-1][2]), lambda: "%s history %r: recorders differ: %s" % (name, done, diff(got[2], want[-1][2])), "recorders")
        elif got:
            require(same(got[1], want[-1][1]), lambda: "%s history %r: %s" % (name, done, diff(got[1], want[-1][1])), "rows" if got[0] == "rows" else "recorders")
        tr.state(name, suf)
    # whatever came before: a run, then a reset and steps to the end
    want = fresh(name, "R", inp)[0]
    m = sim.m
    m.run()
    require(same(tuple(sim.spy.rows), want[1]), lambda: "%s history %r then a run: %s" % (name, done, diff(tuple(sim.spy.rows), want[1])), "rows")
    f = final(m)
    require(same(f, want[2]), lambda: "%s history %r then a run: recorders differ: %s" % (name, done, diff(f, want[2])), "recorders")
    m.reset()
    for _ in range(n):
        m.step()
    m.finish()
    require(same(tuple(sim.spy.rows), want[1]), lambda: "%s history %r then steps: %s" % (name, done, diff(tuple(sim.spy.rows), want[1])), "steps")
    f = final(m)
    require(same(f, want[2]), lambda: "%s history %r then steps: recorders differ: %s" % (name, done, diff(f, want[2])), "steps")
    tr.step(2 * n)
    tr.run()
    tr.outcome = (name, hash(repr(want[1])) % 1000003)


def gen_histories(tier):
    depth = 4 if tier == "thorough" else 3
    for name in ZOO:
        for d in range(1, depth + 1):
            for ops in itertools.product("RSTZMUFAB", repeat=d):
                ops = "".join(ops)
                if suffix(ops) is None:
                    continue
                # a change of nothing but input, or repeated set-ups, tells no more than shorter ones
                if any(a == b and a in "UZM" for a, b in zip(ops, ops[1:])) or ops[-1] in "ZMU":
                    continue
                yield {"model": name, "ops": ops}


# ---- every attribute, from every value to every other ----------------------

SOLVERS = [("glpk", {}), ("glpk-edge", {}), ("lpsolve", {}),
           ("glpk", {"set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True}),
           ("glpk-edge", {"set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True})]


def plant(solver, opts):
    """one of each, all attributes at their defaults below"""
    m = Model(solver=solver, start="2000-12-29", end="2001-01-04", solver_args=dict(opts)) if opts else Model(solver=solver, start="2000-12-29", end="2001-01-04")
    sc = Scenario(m, "s", size=2)
    o = {"m": m}
    for k in ("min", "max", "cost", "fac"):
        o[k + "_const"] = ConstantParameter(m, {"min": 0.5, "max": 3.25, "cost": -7.5239, "fac": 1.5}[k], name=k + "_const")
        v = {"min": [0.0, 0.75], "max": [2.5, 3.5], "cost": [-6.5177, -5.2591], "fac": [1.25, 2.0]}[k]
        o[k + "_vary"] = ArrayIndexedParameter(m, (v * 4)[:7], name=k + "_vary")
    o["rain"] = ArrayIndexedParameter(m, [5.0, 1.0, 4.0, 7.5, 0.25, 3.0, 2.0], name="rain")
    a = o["input"] = Input(m, "a", max_flow=8.0, cost=1.0137)
    b = o["input2"] = Input(m, "b", max_flow=6.0, cost=3.0731)
    c = o["catchment"] = Catchment(m, "c", flow=2.0)
    ln = o["link"] = Link(m, "ln")
    st = o["storage"] = Storage(m, "st", max_volume=12.0, initial_volume=6.0, min_volume=1.0, cost=-4.2519)
    y = o["output"] = Output(m, "y", max_flow=5.0, cost=-11.0277)
    z = o["output2"] = Output(m, "z", max_flow=4.0, cost=-9.0413)
    w = o["waste"] = Output(m, "w", cost=0.5171)
    pw = o["piecewise"] = PiecewiseLink(m, name="pw", nsteps=2, costs=[-1.5311, 0.8613], max_flows=[2.0, 5.0])
    ls = o["loss"] = LossLink(m, "ls", loss_factor=0.25)
    gr = o["gross"] = LossLink(m, "gr", loss_factor=0.5, loss_factor_type="gross", max_flow=0.75, cost=-20.0531)
    dl = o["delay"] = DelayNode(m, name="dl", timesteps=2, initial_flow=1.0)
    br = o["break"] = BreakLink(m, name="br", max_flow=4.5)
    rg = o["gauge"] = RiverGauge(m, name="rg", mrf=1.0, mrf_cost=-6.0097, cost=0.1217)
    for p, q in ((a, ln), (b, ln), (ln, st), (st, y), (b, pw), (pw, z), (a, ls), (ls, br), (br, w), (c, rg), (rg, dl), (dl, w), (c, z), (ls, z), (c, gr), (gr, y)):
        p.connect(q)
    o["agg"] = AggregatedNode(m, "ag", [a, b])
    o["ratio"] = AggregatedNode(m, "rt", [y, z])
    o["vs"] = VirtualStorage(m, "vs", nodes=[y], factors=[1.0], max_volume=30.0, initial_volume=20.0)
    o["annual"] = AnnualVirtualStorage(m, "an", nodes=[z, y], factors=[1.0, 0.5], max_volume=15.0, initial_volume=10.0, reset_day=1, reset_month=1)
    o["rolling"] = RollingVirtualStorage(m, "ro", nodes=[w], timesteps=3, max_volume=9.0, initial_volume=9.0)
    o["monthly"] = MonthlyVirtualStorage(m, "mo", nodes=[b], max_volume=25.0, initial_volume=20.0)
    o["seasonal"] = SeasonalVirtualStorage(m, "se", nodes=[a], max_volume=40.0, initial_volume=12.0, reset_day=30, reset_month=12, end_day=3, end_month=1)
    o["aggst"] = AggregatedStorage(m, "as", [st])
    o["month"] = MonthlyProfileParameter(m, [1.0] * 12, name="month")
    o["sc"] = ConstantScenarioParameter(m, sc, [1.0, 2.0], name="bysc")
    o["roll"] = RollingMeanFlowNodeParameter(m, y, timesteps=2, initial_flow=0.5, name="roll")
    o["cc"] = ControlCurveParameter(m, st, [0.75, 0.25], values=[1.0, 2.0, 3.0], name="cc")
    o["poly"] = Polynomial1DParameter(m, [1.0, 0.5], parameter=o["rain"], name="poly")
    o["harm"] = AnnualHarmonicSeriesParameter(m, 1.0, [0.5], [0.25], name="harm")
    o["rbf"] = RbfProfileParameter(m, [1, 100, 200, 300], [1.0, 2.0, 0.5, 3.0], name="rbf")
    o["daily"] = DailyProfileParameter(m, [1.0] * 366, name="daily")
    o["week"] = WeeklyProfileParameter(m, [1.0] * 52, name="week")
    o["aggp"] = AggregatedParameter(m, [o["rain"], o["month"]], agg_func="sum", name="aggp")
    o["ev"] = ParameterThresholdParameter(m, o["rain"], 2.5, values=[0.0, 1.0], predicate="LT", name="thr")
    o["const"] = ConstantParameter(m, 1.0, name="const", lower_bounds=0.0, upper_bounds=10.0)
    days = pd.date_range("2000-12-20", "2001-01-20")
    o["series"] = DataFrameParameter(m, pd.DataFrame({"x": np.arange(len(days)) % 11 / 4.0}, index=days), name="series")
    Input(m, "si", max_flow=o["series"], cost=0.75).connect(Output(m, "so", cost=-1.5, max_flow=2.25))
    o["tf"] = TotalFlowNodeRecorder(m, y, name="tf")
    return o


def attr(k, a):
    def f(o, v):
        setattr(o[k], a, resolve(o, v))
    return f


def resolve(o, v):
    if isinstance(v, str):
        return o[v]
    if isinstance(v, (list, tuple)):
        return [resolve(o, x) for x in v]
    return v


def dv(k):
    return lambda o, v: o[k].set_double_variables(np.array(v, float))


MAXS, MINS, COSTS = [3.0, 0.0, "max_const", "max_vary", "rain"], [0.0, 0.25, "min_const", "min_vary"], [0.0, -2.5717, 2.0319, "cost_const", "cost_vary"]
FACS = [None, [1.0, 1.0], [2.0, 1.0], [1.0, "fac_const"], [1.0, "fac_vary"]]


def period(o, v):
    t = o["m"].timestepper
    for k, x in zip(("start", "end", "delta"), v):
        if k == "delta":
            if t.delta != x:
                t.delta = x
        elif getattr(t, k) != pd.Timestamp(x):
            setattr(t, k, pd.Timestamp(x) if len(v) == 3 and v[2] == 2 else x)


ATTRS = {}
for _k in ("input", "link", "output", "piecewise", "break", "loss"):
    if _k not in ("piecewise", "loss", "break"):
        ATTRS[_k + ".min_flow"] = (attr(_k, "min_flow"), MINS)
    if _k != "piecewise":
        ATTRS[_k + ".max_flow"] = (attr(_k, "max_flow"), MAXS)
        ATTRS[_k + ".cost"] = (attr(_k, "cost"), COSTS)
ATTRS.update({
    "catchment.flow": (attr("catchment", "flow"), [0.0, 3.0, "rain", "max_const"]),
    "storage.max_volume": (attr("storage", "max_volume"), [12.0, 10.0, 7.0]),
    "storage.min_volume": (attr("storage", "min_volume"), [0.0, 1.0, 3.0, "min_const", "min_vary"]),
    "storage.initial_volume": (attr("storage", "initial_volume"), [0.0, 1.0, 6.0, 12.0]),
    "storage.cost": (attr("storage", "cost"), COSTS),
    "agg.max_flow": (attr("agg", "max_flow"), [3.0, float("inf"), "max_const", "max_vary"]),
    "agg.min_flow": (attr("agg", "min_flow"), [0.0, 2.0, "min_const", "min_vary"]),
    "agg.flow_weights": (attr("agg", "flow_weights"), [[1.0, 1.0], [2.0, 0.5]]),
    "ratio.factors": (attr("ratio", "factors"), FACS),
    "vs.factors": (attr("vs", "factors"), [[1.0], [2.5]]),
    "vs.initial_volume": (attr("vs", "initial_volume"), [2.0, 20.0]),
    "vs.max_volume": (attr("vs", "max_volume"), [20.0, 30.0]),
    "vs.cost": (attr("vs", "cost"), [0.0, 1.5373, "cost_vary"]),
    "annual.initial_volume": (attr("annual", "initial_volume"), [1.0, 10.0]),
    "annual.max_volume": (attr("annual", "max_volume"), [10.0, 30.0]),
    "annual.reset_day": (attr("annual", "reset_day"), [1, 2]),
    "annual.reset_to_initial_volume": (attr("annual", "reset_to_initial_volume"), [False, True]),
    "rolling.initial_volume": (attr("rolling", "initial_volume"), [0.0, 4.0, 9.0]),
    "rolling.max_volume": (attr("rolling", "max_volume"), [9.0, 12.0]),
    "monthly.initial_volume": (attr("monthly", "initial_volume"), [1.0, 20.0]),
    "seasonal.initial_volume": (attr("seasonal", "initial_volume"), [1.0, 12.0]),
    "seasonal.end_day": (attr("seasonal", "end_day"), [2, 3]),
    "piecewise.costs": (attr("piecewise", "costs"), [[-1.5311, 0.8613], [0.2593, 0.5639], ["cost_const", 1.0471], ["cost_vary", 0.0217]]),
    "piecewise.max_flows": (attr("piecewise", "max_flows"), [[2.0, 5.0], [0.0, 1.0], ["max_const", 1.0], ["max_vary", 0.5]]),
    "loss.loss_factor": (attr("loss", "loss_factor"), [0.0, 0.25, 0.5]),
    "gross.loss_factor": (attr("gross", "loss_factor"), [0.0, 0.5, 1.0]),
    "gross.max_flow": (attr("gross", "max_flow"), [1.0, "max_vary"]),
    "gauge.mrf": (attr("gauge", "mrf"), [0.0, 1.0, "max_const", "max_vary"]),
    "gauge.mrf_cost": (attr("gauge", "mrf_cost"), [-6.0097, 0.0113, "cost_const", "cost_vary"]),
    "delay.initial_flow": (lambda o, v: setattr(o["delay"].delay_param, "initial_flow", v), [0.0, 1.0, 2.0]),
    "const": (dv("const"), [[1.0], [2.0]]), "month": (dv("month"), [[1.0] * 12, list(range(12))]), "harm": (dv("harm"), [[1.0, 0.5, 0.25], [2.0, 1.0, 3.0]]),
    "rbf": (dv("rbf"), [[1.0, 2.0, 0.5, 3.0], [3.0, 1.0, 1.0, 2.0]]), 

    "initial_flow": (attr("roll", "initial_flow"), [0.5, 2.0]),
    "agg_func": (attr("aggp", "agg_func"), ["sum", "max"]),
    "control_curves": (attr("cc", "control_curves"), [["fac_const", "min_const"], ["fac_const", "min_vary"]]),
    "threshold": (attr("ev", "threshold"), ["max_const", "max_vary"]),
    "period": (period, [("2000-12-29", "2001-01-04"), ("2000-12-30", "2001-01-04"), ("2000-12-29", "2001-01-02"), ("2000-12-30", "2001-01-05")]),
    "steps": (period, [("2000-12-29", "2001-01-04", 1), ("2000-12-29", "2001-01-05", 2), ("2000-12-30", "2001-01-05", 2), ("2000-12-29", "2001-01-06", 2), ("2000-12-28", "2001-01-07", 3)]),
    "nothing": (lambda o, v: None, [0, 1]),
})
ATTRS = {k: v for k, v in ATTRS.items() if v[1]}


def flat(v):
    return str(v) if isinstance(v, str) or isinstance(v, list) and any(isinstance(x, str) for x in v) else 0.0


def observe(o, spy):
    o["m"].run()
    return tuple(spy.rows), final(o["m"])


def run_change(cfg, tr):
    put, vals = ATTRS[cfg["attr"]]
    solver, opts = SOLVERS[cfg["solver"]]
    seq = cfg["values"]

    def start():
        o = plant(solver, opts)
        return o, Spy(o["m"])

    def ok(f):
        try:
            return f()
        except (RuntimeError, NotImplementedError, ValueError, TypeError) as e:
            return "raised", type(e).__name__

    def val(i):
        v = vals[i]
        return v if cfg["attr"] == "agg_func" else v

    o, spy = start()
    for n, i in enumerate(seq):
        v = val(i)
        if cfg["attr"] == "agg_func":
            o["aggp"].agg_func = v
        else:
            put(o, v)
        if opts and n and (flat(vals[i]) or flat(vals[seq[n - 1]])):
            o["m"].setup()  # what is constant is decided at set-up
        got = ok(lambda: observe(o, spy))
        f, fspy = start()
        if cfg["attr"] == "agg_func":
            f["aggp"].agg_func = v
        else:
            put(f, v)
        want = ok(lambda: observe(f, fspy))
        tr.step(2)
        tr.run()
        tr.state(cfg["attr"], cfg["solver"], seq[:n + 1])
        if same(got, want):
            continue
        what = "%s %s %r: %s set to %r after %r" % (solver, "fixed once" if opts else "", cfg["attr"], cfg["attr"], v, [val(j) for j in seq[:n]])
        if "raised" in (got[0], want[0]):
            raise Violation("%s: %r, fresh model %r" % (what, got if got[0] == "raised" else "runs", want if want[0] == "raised" else "runs"), "change")
        raise Violation("%s: %s" % (what, diff(got[0], want[0]) if not same(got[0], want[0]) else diff(got[1], want[1])), "change")
    if want[0] == "raised":
        tr.count("last value rejected")
    tr.outcome = (cfg["attr"], str(want)[:200])


def gen_changes(tier):
    for s in range(len(SOLVERS)):
        for k, (_, vals) in ATTRS.items():
            n = len(vals)
            for seq in itertools.permutations(range(n), 2):
                yield {"attr": k, "solver": s, "values": list(seq)}
            if tier == "thorough":
                for seq in itertools.product(range(n), repeat=3):
                    if seq[0] != seq[1] and seq[1] != seq[2]:
                        yield {"attr": k, "solver": s, "values": list(seq)}


# ---- any public attribute of any parameter, changed between two runs -----------

def table():
    from mc.checks import p20
    return p20


def made(p20, spec, v):
    """a model of the documents of P20 with this parameter, made by its class"""
    m = Model.load(p20.env_doc())
    kw = {}
    for k, x in spec.doc(v).items():
        x = copy.deepcopy(x)
        if isinstance(x, list) and any(isinstance(y, dict) for y in x):
            x = [p20.pp.load_parameter(m, y) if isinstance(y, dict) else p20.resolve(m, y) for y in x]
        kw[spec.ren.get(k, k)] = p20.resolve(m, x)
    p = spec.cls(m, name="X", **kw)
    return m, p, p20.Eye(m, [p])


def gen_attributes(tier):
    for s, spec in enumerate(table().P):
        n = 1 + len(spec.variants)
        for seq in itertools.permutations(range(n), 2):
            yield {"parameter": s, "key": spec.key, "values": list(seq)}
        if tier == "thorough":
            for a, b in itertools.permutations(range(n), 2):
                for c in range(n):
                    if c != b:
                        yield {"parameter": s, "key": spec.key, "values": [a, b, c]}


def run_attributes(cfg, tr):
    p20 = table()
    spec = p20.P[cfg["parameter"]]
    vs = [{}] + spec.variants
    seq = [vs[i] for i in cfg["values"]]
    m, p, eye = made(p20, spec, seq[0])
    m.run()
    tr.run()
    for n in range(1, len(seq)):
        da, db = spec.doc(seq[n - 1]), spec.doc(seq[n])
        fm, q, feye = made(p20, spec, seq[n])
        keys = [k for k in sorted(set(da) | set(db)) if repr(da.get(k)) != repr(db.get(k))]
        if len(keys) > 1 and any(k not in db for k in keys):
            tr.count("another way of giving the values")
            return
        for k in keys:
            name = spec.ren.get(k, k)
            if not hasattr(q, name) or callable(getattr(q, name)):
                tr.count("no such attribute")
                return
            x = getattr(q, name)
            if name in ("parameters", "params"):
                tr.count("lists of parameters are not for replacing")
                return
            parts = x if isinstance(x, (list, tuple)) else [x]
            if any(hasattr(y, "model") for y in parts):   # the same one in this model
                x = p20.resolve(m, db.get(k))
                if x is None or any(isinstance(y, str) for y in (x if isinstance(x, list) else [x])):
                    tr.count("not a reference")
                    return
            else:
                x = np.array(x) if type(x).__name__ == "_memoryviewslice" else copy.deepcopy(x)
            try:
                setattr(p, name, x)
            except (AttributeError, TypeError, ValueError):
                tr.count("cannot be set")
                return
        m.setup()
        m.run()
        fm.run()
        tr.step(2)
        tr.run()
        w = p20.differ({"rows": eye.rows}, {"rows": feye.rows})
        require(not w, lambda: "%s changed from %r to %r: %s" % (spec.key, seq[:n], seq[n], w), "attribute")
        tr.state(spec.key, cfg["parameter"], cfg["values"][:n + 1])
        tr.count("changed")
    tr.outcome = (spec.key, str(feye.rows)[:200])


GROUPS = {"histories": (gen_histories, run_history), "changes": (gen_changes, run_change), "attributes": (gen_attributes, run_attributes)}
