"""P25: physical relations follow their formulas."""
import itertools
import math

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Link, Storage
from pywr.domains.groundwater import KeatingAquifer
from pywr.parameters import (Parameter, ConstantParameter, Polynomial1DParameter, Polynomial2DStorageParameter, InterpolatedVolumeParameter,
                             InterpolatedFlowParameter, HydropowerTargetParameter, load_parameter)
from pywr.parameters import BinaryStepParameter, RectifierParameter, LogisticParameter
from pywr.parameters._hydropower import inverse_hydropower_calculation
from pywr.recorders._hydropower import hydropower_calculation
from pywr.recorders import HydropowerRecorder, TotalHydroEnergyRecorder, NumpyArrayNodeRecorder, NumpyArrayLevelRecorder
from mc.harness import require, Violation
from mc.probe import Fn, Grab, base, require_same
from mc.checks.p16 import Watch
from mc.checks.p17 import times, histories
from mc.checks.p12 import grid, lin

TECHNIQUE = ("exhaustive enumeration of coefficients, curves, heads, flows and volumes over small alphabets that hold all end points, zero, negative and out-of-range values, "
             "each combination a scenario of a real model, compared with the formula in plain Python; round trips between flow and power; all level histories of small aquifers")
BOUNDS = ("polynomials of up to 3 (4 in the thorough tier) coefficients over {-1,0,0.5,2}, 2D ones up to 2x3, four kinds of input, 3 scales x 3 offsets; curves of 2 to 4 points at every knot, between and outside, 7 "
          "interpolation options, volumes and previous flows over 3 timesteps; head x flow x efficiency x density x unit grids; hydropower targets with 4x4 limits over 4 heads; steps of 1, 3, 7 days and months; activation "
          "functions on 11 points x 4 ranges; aquifers with 1 or 2 streams, 1 to 3 levels each, all recharge histories of 3 (4) days over 3 amounts")

G = 9.81


def power(values, coef):
    x = values
    y = 0.0
    for c in reversed(coef):  # Horner
        y = y * x + c
    return y


# ---- polynomials -------------------------------------------------------------

COEF = [-1.0, 0.0, 0.5, 2.0]
SC = [1.0, 0.0, -0.5]
OF = [0.0, 1.0, -2.5]


def world(T=3, kind="D", vols=(0.0, 4.0, 10.0), flows=(0.0, 1.0, 2.5)):
    """all histories of a volume and of a flow; returns model, nodes and the two tables [c][t]"""
    start, end, delta, days, dates = times(kind, T)
    hv, hf = histories(vols, T), histories(flows, T)
    k = max(len(hv), len(hf))
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=k)
    v = lambda s, t: 6.0 if t < 0 else hv[s % len(hv)][t]
    d = lambda t, si: (v(si[0], t) - v(si[0], t - 1)) / days[t]
    up, dn = Fn(m, lambda t, si: max(d(t, si), 0.0)), Fn(m, lambda t, si: max(-d(t, si), 0.0))
    a, st, y = Input(m, "a", min_flow=up, max_flow=up), Storage(m, "st", max_volume=10.0, initial_volume=6.0), Output(m, "y", min_flow=dn, max_flow=dn)
    a.connect(st), st.connect(y)
    i, l, o = Input(m, "i", max_flow=Fn(m, lambda t, si: hf[si[0] % len(hf)][t])), Link(m, "l"), Output(m, "o", cost=-1.0)
    i.connect(l), l.connect(o)
    begin = [[v(s, t - 1) for t in range(T)] for s in range(k)]
    prev = [[hf[s % len(hf)][t - 1] if t else 0.0 for t in range(T)] for s in range(k)]
    return m, st, l, begin, prev, hf, days


def gen_poly(tier):
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        for first in COEF:
            for src in ("parameter", "volume", "proportion", "flow"):
                yield {"n": n, "first": first, "src": src}


def run_poly(cfg, tr):
    xs = [-2.0, -1.0, 0.0, 0.25, 1.0, 3.0]
    T = 3
    if cfg["src"] == "parameter":
        m = base(steps=T, S=[len(xs)])
        src = {"parameter": Fn(m, lambda t, si: xs[si[0]] + t)}
        X = [[x + t for t in range(T)] for x in xs]
    else:
        m, st, l, begin, prev, hf, _ = world(T)
        if cfg["src"] == "flow":
            src, X = {"node": l}, prev
        else:
            src, X = {"storage_node": st, "use_proportional_volume": cfg["src"] == "proportion"}, begin
            if cfg["src"] == "proportion":
                X = [[v / 10.0 for v in r] for r in X]
    w = Watch(m)
    for rest in itertools.product(COEF, repeat=cfg["n"] - 1):
        c = (cfg["first"],) + rest
        for s, o in itertools.product(SC, OF):
            if (s, o) != (1.0, 0.0) and rest != tuple(sorted(rest)):
                continue
            w.add(Polynomial1DParameter(m, c, scale=s, offset=o, **src), lambda x, t, a, c=c, s=s, o=o: power(x[t] * s + o, c), ("input", "polynomial %r" % (c,)))
            tr.state(cfg["src"], c, s, o)
    w.add(Polynomial1DParameter(m, [cfg["first"], 1.5], **src), lambda x, t, a: cfg["first"] + 1.5 * x[t], ("input", "polynomial without scale"))
    w.grab()
    m.run()
    w.check(lambda what, c: X[c], 0, T, tr, cfg["src"])
    tr.run(len(X))
    tr.outcome = (sorted(cfg.items()),)


def gen_poly2(tier):
    for shape in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)):
        for prop in (False, True):
            yield {"shape": shape, "prop": prop}


def run_poly2(cfg, tr):
    T = 3
    m, st, l, begin, prev, hf, _ = world(T)
    r, k = cfg["shape"]
    p = Fn(m, lambda t, si: float(((si[0] + 2 * t) % 5) - 2))
    w = Watch(m)
    vals = COEF if r * k <= 4 else [-1.0, 0.0, 2.0]
    every = list(itertools.product(vals, repeat=r * k))
    for i, c in enumerate(every):
        mat = [c[j * k:(j + 1) * k] for j in range(r)]
        s, o, s2, o2 = [(1.0, 0.0, 1.0, 0.0), (-0.5, 1.0, 1.0, 0.0), (1.0, 0.0, 2.0, -1.0), (0.0, 2.0, -1.0, 0.5)][i % 4]
        kw = dict(storage_scale=s, storage_offset=o, parameter_scale=s2, parameter_offset=o2) if i % 8 else {}
        if not kw:
            s, o, s2, o2 = 1.0, 0.0, 1.0, 0.0

        def ref(x, t, a, mat=mat, s=s, o=o, s2=s2, o2=o2):
            v, q = x[0][t] * s + o, x[1][t] * s2 + o2
            return sum(mat[i][j] * (v ** i) * (q ** j) for i in range(r) for j in range(k))
        w.add(Polynomial2DStorageParameter(m, mat, st, p, use_proportional_volume=cfg["prop"], **kw), ref, ("input", "polynomial %r" % (mat,)))
        tr.state(cfg["prop"], mat)
    w.grab()
    m.run()
    n = len(begin)
    P = [[float(((c + 2 * t) % 5) - 2) for t in range(T)] for c in range(n)]
    V = [[v / 10.0 if cfg["prop"] else v for v in row] for row in begin]
    w.check(lambda what, c: (V[c], P[c]), 0, T, tr, "two inputs")
    tr.run(n)
    tr.outcome = (sorted(cfg.items()),)


# ---- curves ------------------------------------------------------------------

CURVES = [([0.0, 10.0], [0.0, 5.0]), ([0.0, 4.0, 10.0], [100.0, 110.0, 90.0]), ([-1.0, 1.0, 2.5, 12.0], [3.0, 0.0, 0.0, -7.0]), ([1.0, 4.0, 6.0, 9.0], [2.0, 2.0, 8.0, 1.0])]
HOWS = ["plain", "explicit", "previous", "next", "nearest", "fill", "fillpair", "bounds"]


def gen_curve(tier):
    for i in range(len(CURVES)):
        for how in HOWS:
            for src in ("volume", "flow"):
                for kind in ("D", "M"):
                    yield {"curve": i, "how": how, "src": src, "kind": kind}


def curve_value(xs, ys, how, v):
    if v < xs[0] or v > xs[-1]:
        if how == "fill":
            return -9.0
        if how == "fillpair":
            return -9.0 if v < xs[0] else 9.0
        return None
    if how == "previous":
        return [y for x, y in zip(xs, ys) if x <= v][-1]
    if how == "next":
        return [y for x, y in zip(xs, ys) if x >= v][0]
    if how == "nearest":
        ds = sorted((abs(x - v), y) for x, y in zip(xs, ys))
        return ds[0][1]
    return lin(xs, ys, v)


def run_curve(cfg, tr):
    xs, ys = CURVES[cfg["curve"]]
    T, how = 3, cfg["how"]
    pts = sorted(set(p for p in grid(xs) + [0.0, 6.0, xs[0] - 1.5, xs[-1] + 1.0] if 0.0 <= p <= 10.0))
    inside = [p for p in pts if xs[0] <= p <= xs[-1]]
    if how == "nearest":
        pts = [p for p in pts if all(abs(p - (a + b) / 2) > 1e-9 for a, b in zip(xs, xs[1:]))]
    safe = xs[0] <= 6.0 <= xs[-1] if cfg["src"] == "volume" else xs[0] <= 0.0 <= xs[-1]
    if how not in ("fill", "fillpair", "bounds"):
        pts = [p for p in pts if p in inside]
        if not safe:
            return
    if how == "nearest" and any(abs((6.0 if cfg["src"] == "volume" else 0.0) - (a + b) / 2) < 1e-9 for a, b in zip(xs, xs[1:])):
        return
    while len(pts) ** 2 > 200:
        pts = pts[::2] + pts[-1:] if pts[-1] not in pts[::2] else pts[::2]
    kw = {"plain": {}, "explicit": {"interp_kwargs": {"kind": "linear", "bounds_error": True}}, "previous": {"interp_kwargs": {"kind": "previous"}}, "next": {"interp_kwargs": {"kind": "next"}}, "nearest": {"interp_kwargs": {"kind": "nearest"}},
          "fill": {"interp_kwargs": {"bounds_error": False, "fill_value": -9.0}}, "fillpair": {"interp_kwargs": {"bounds_error": False, "fill_value": [-9.0, 9.0]}}, "bounds": {}}[how]
    make = (lambda m, st, l: InterpolatedVolumeParameter(m, st, xs, ys, **kw)) if cfg["src"] == "volume" else (lambda m, st, l: InterpolatedFlowParameter(m, l, xs, ys, **kw))
    if how == "bounds":
        for v in [p for p in pts if p not in inside]:
            m, st, l, begin, prev, hf, _ = world(2, cfg["kind"], vols=[v], flows=[v])
            p = make(m, st, l)
            Grab(m, params=[p], name="gg")
            tr.run()
            tr.state(cfg["curve"], v)
            try:
                m.run()
            except ValueError:
                continue
            raise Violation("a value outside the curve was accepted: %r" % v, "bounds")
        tr.outcome = (sorted(cfg.items()),)
        return
    hist = list(pts)
    m, st, l, begin, prev, hf, _ = world(2, cfg["kind"], vols=hist, flows=hist)
    # three steps: start, and every pair of points
    w = Watch(m)
    w.add(make(m, st, l), lambda x, t, a: curve_value(xs, ys, how, x[t]), (cfg["src"], how + " curve"))
    if how in ("plain", "fillpair"):
        import copy
        doc = {"type": "interpolatedvolume", "node": "st", "volumes": xs, "values": ys} if cfg["src"] == "volume" else {"type": "interpolatedflow", "node": "l", "flows": xs, "values": ys}
        w.add(load_parameter(m, copy.deepcopy(dict(doc, **kw))), lambda x, t, a: curve_value(xs, ys, how, x[t]), (cfg["src"], how + " loaded curve"))
    st.level = make(m, st, l)
    st.area = make(m, st, l)
    lev = NumpyArrayLevelRecorder(m, st, name="lev")
    w.grab()
    m.run()
    X = begin if cfg["src"] == "volume" else prev
    w.check(lambda what, c: X[c], 0, 2, tr, cfg["src"])
    require_same(lev.data.T, [[curve_value(xs, ys, how, v) for v in r] for r in X], "level", "level")
    for r in X:
        tr.state(cfg["curve"], how, r)
    tr.run(len(X))
    tr.outcome = (sorted(cfg.items()),)


# ---- hydropower --------------------------------------------------------------

def gen_hydro(tier):
    for eff in (1.0, 0.85, 0.0):
        for rho in (1000.0, 1.0):
            for fu in (1.0, 86.4, 1e3):
                for eu in (1e-6, 1.0, 2.5e-7):
                    yield {"eff": eff, "rho": rho, "fu": fu, "eu": eu}


def watts(q, we, te, eff, fu, eu, rho):
    return rho * (q * fu) * G * max(we - te, 0.0) * eff * eu


def run_hydro(cfg, tr):
    eff, rho, fu, eu = cfg["eff"], cfg["rho"], cfg["fu"], cfg["eu"]
    kw = dict(flow_unit_conversion=fu, energy_unit_conversion=eu, density=rho)
    for we, te in itertools.product([-5.0, 0.0, 1.0, 20.0, 100.5], [-2.0, 0.0, 20.0, 99.5]):
        for q in (0.0, 0.1, 1.0, 37.5):
            got = hydropower_calculation(q, we, te, eff, **kw)
            require_same(got, watts(q, we, te, eff, fu, eu, rho), "power of flow %g at %g over %g" % (q, we, te), "power")
            one = watts(1.0, we, te, eff, fu, eu, rho)
            back = inverse_hydropower_calculation(got, we, te, eff, **kw)
            if one > 0:
                require_same(back, q, "flow for the power of flow %g at %g over %g" % (q, we, te), "inverse")
            elif got > 0:
                require(back == float("inf"), "flow for power without head", "inverse")
            tr.state(cfg, we, te, q)
            tr.step(2)
        for p in (0.5, 3.0, 1000.0):
            q = inverse_hydropower_calculation(p, we, te, eff, **kw)
            if watts(1.0, we, te, eff, fu, eu, rho) > 0:
                require_same(hydropower_calculation(q, we, te, eff, **kw), p, "power of the flow for %g" % p, "inverse")
            else:
                require(q == float("inf"), "flow for power without head", "inverse")
            tr.step()
    # defaults
    require_same(hydropower_calculation(2.0, 30.0, 5.0, 0.9), 1000 * 2.0 * G * 25 * 0.9e-6, "power with defaults", "power")
    require_same(inverse_hydropower_calculation(3.0, 30.0, 5.0, 0.9), 3.0 / (1000 * G * 25 * 0.9e-6), "flow with defaults", "inverse")
    tr.run(160)
    tr.outcome = (sorted(cfg.items()),)


def gen_turbine(tier):
    for kind in ("D", "3D", "7D", "M"):
        for eff in (1.0, 0.8):
            for te in (0.0, 12.0):
                for elev in ("given", "none", "volume"):
                    yield {"kind": kind, "eff": eff, "te": te, "elev": elev}


def run_turbine(cfg, tr):
    T = 3
    eff, te, elev = cfg["eff"], cfg["te"], cfg["elev"]
    m, st, l, begin, prev, hf, days = world(T, cfg["kind"], vols=(0.0, 4.0, 10.0), flows=(0.0, 1.0, 2.5))
    n = len(begin)
    heads = [0.0, 5.0, 12.0, 30.0]
    if elev == "given":
        we = Fn(m, lambda t, si: heads[(si[0] + t) % 4])
        W = [[heads[(c + t) % 4] for t in range(T)] for c in range(n)]
    elif elev == "volume":
        we = InterpolatedVolumeParameter(m, st, [0.0, 10.0], [10.0, 30.0])
        W = [[10.0 + 2.0 * v for v in r] for r in begin]
    else:
        we, W = None, [[2 * te] * T for c in range(n)]  # the head is the turbine elevation itself
    H = [[max(x - te, 0.0) for x in r] for r in W]
    w = Watch(m)
    target = lambda t, s: [0.0, 0.5, 3.0][(s + 2 * t) % 3]
    tp = Fn(m, lambda t, si: target(t, si[0]))
    for fu, eu, rho in ((1.0, 1e-6, 1000.0), (1e3, 1e-6, 1000.0), (86.4, 2.5e-7, 998.0)):
        for mx in (None, 0.0, 40.0, 1e6):
            for mn in (None, 0.0, 20.0, 50.0):
                for mh in (0.0, 5.0, 18.0):
                    if elev == "none" and (mx, mn) not in ((None, None), (40.0, 20.0), (1e6, None), (None, 50.0)):
                        continue
                    kw = {} if (fu, rho) == (1.0, 1000.0) else dict(flow_unit_conversion=fu, energy_unit_conversion=eu, density=rho)
                    if mh:
                        kw["min_head"] = mh
                    if elev != "none":
                        kw["water_elevation_parameter"] = we
                    p = HydropowerTargetParameter(m, tp, max_flow=None if mx is None else ConstantParameter(m, mx), min_flow=None if mn is None else Fn(m, lambda t, si, mn=mn: mn + t),
                                                  turbine_elevation=te, efficiency=eff, **kw)

                    def ref(x, t, a, mx=mx, mn=mn, mh=mh, fu=fu, eu=eu, rho=rho):
                        c, h = x[0], x[1][t]
                        if h < mh:
                            return 0.0
                        one = rho * G * h * eff * eu * fu
                        want = target(t, c)
                        if one == 0:
                            q = float("inf")
                        else:
                            q = want / one
                        if mx is not None:
                            q = min(q, mx)
                        if mn is not None:
                            q = max(q, mn + t)
                        return q
                    w.add(p, ref, ("target", "flow for target %r" % ((mx, mn, mh, fu),)))
    recs = []
    for fu, eu, rho in ((1.0, 1e-6, 1000.0), (86.4, 2.5e-7, 998.0)):
        kw = {} if fu == 1.0 else dict(flow_unit_conversion=fu, energy_unit_conversion=eu, density=rho)
        if elev != "none":
            kw["water_elevation_parameter"] = we
        for tf in ("mean", "sum", "max"):
            recs.append((HydropowerRecorder(m, l, turbine_elevation=te, efficiency=eff, temporal_agg_func=tf, name="h%s%g" % (tf, fu), **kw), fu, eu, rho, tf))
        recs.append((TotalHydroEnergyRecorder(m, l, turbine_elevation=te, efficiency=eff, name="e%g" % fu, **kw), fu, eu, rho, "energy"))
    # the zero-power, zero-head case is undefined
    keep = [(c, t) for c in range(n) for t in range(T) if not (H[c][t] == 0 and target(t, c) == 0.0)]
    w.grab()
    m.run()
    got = w.g.vals()
    for j, (fn, what) in enumerate(w.items):
        for c, t in keep:
            require_same(got[t, j, c], fn((c, H[c]), t, 0), "%s in step %d of %d" % (what[1], t, c), "target")
            tr.step()
    for rec, fu, eu, rho, tf in recs:
        series = [[rho * hf[c][t] * fu * G * H[c][t] * eff * eu for t in range(T)] for c in range(n)]
        if tf == "energy":
            want = [sum(p * d for p, d in zip(r, days)) for r in series]
        else:
            require_same(rec.data.T, series, "power", "power")
            want = [{"mean": sum(r) / T, "sum": sum(r), "max": max(r)}[tf] for r in series]
        require_same(rec.values(), want, "power by " + tf, "power")
        tr.step(n)
    for c in range(n):
        tr.state(cfg, W[c], hf[c])
    tr.run(n)
    tr.outcome = (sorted(cfg.items()),)


def gen_meet(tier):
    for kind in ("D", "7D", "M"):
        for which in range(3):
            yield {"kind": kind, "which": which}


def run_meet(cfg, tr):
    """a turbine released to a target makes it exactly while there is water, head and capacity"""
    T = 3
    start, end, delta, days, dates = times(cfg["kind"], T)
    fu, eu, eff = [(1.0, 1e-6, 1.0), (1e3, 1e-6, 0.85), (86.4, 2.5e-7, 0.7)][cfg["which"]]
    alpha = [(h, a, p) for h in (5.0, 30.0) for a in (0.2, 40.0) for p in (0.0, 1.0, 4.0)]
    pick = [(i, j, k) for i in range(12) for j in range(12) for k in (0, 5, 11)]
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=len(pick))
    at = lambda t, si: alpha[pick[si[0]][t]]
    one = lambda h: 1000.0 * G * h * eff * eu * fu
    cap = 25.0
    unit = 1.0 / one(30.0)  # flows are in multiples of what makes one unit of power at 30 m
    we = Fn(m, lambda t, si: at(t, si)[0] + 100.0)
    i = Input(m, "i", max_flow=Fn(m, lambda t, si: at(t, si)[1] * unit))
    p = HydropowerTargetParameter(m, Fn(m, lambda t, si: at(t, si)[2]), water_elevation_parameter=we, max_flow=ConstantParameter(m, cap * unit), turbine_elevation=100.0, efficiency=eff, flow_unit_conversion=fu, energy_unit_conversion=eu)
    tb, o = Link(m, "tb", max_flow=p, cost=-1.0), Output(m, "o")
    i.connect(tb), tb.connect(o)
    rec = HydropowerRecorder(m, tb, water_elevation_parameter=we, turbine_elevation=100.0, efficiency=eff, flow_unit_conversion=fu, energy_unit_conversion=eu, name="r")
    tot = TotalHydroEnergyRecorder(m, tb, water_elevation_parameter=we, turbine_elevation=100.0, efficiency=eff, flow_unit_conversion=fu, energy_unit_conversion=eu, name="e")
    m.run()
    want = []
    for q in pick:
        row = []
        for t in range(T):
            h, a, tgt = alpha[q[t]]
            row.append(min(tgt, a * unit * one(h), cap * unit * one(h)))
        want.append(row)
        tr.state(cfg, q)
    require_same(rec.data.T, want, "power made", "meet", 1e-6)
    require_same(tot.values(), [sum(x * d for x, d in zip(r, days)) for r in want], "energy made", "meet", 1e-6)
    tr.step(T * len(pick))
    tr.run(len(pick))
    tr.outcome = (sorted(cfg.items()),)


# ---- activation functions ----------------------------------------------------

def gen_act(tier):
    for lo, up in ((-1.0, 1.0), (-6.0, 6.0), (0.0, 2.0), (-3.0, 0.5)):
        for what in ("step", "ramp", "logistic"):
            yield {"lo": lo, "up": up, "what": what}


def run_act(cfg, tr):
    lo, up = cfg["lo"], cfg["up"]
    pts = sorted({lo, up, 0.0, lo / 2, up / 2, up / 3, -0.01, 0.01, -1e-12, 1e-12, lo + 0.75 * (up - lo)})
    what = cfg["what"]
    for out in (1.0, 0.0, -2.0, 7.5):
        for extra in (0.0, 0.5, 3.0):
            if what == "step":
                if extra:
                    continue
                mk, ref = (lambda m, v: BinaryStepParameter(m, v, lo, up, output=out)), (lambda v: out if v > 0 else 0.0)
            elif what == "ramp":
                mk, ref = (lambda m, v: RectifierParameter(m, v, lo, up, min_output=extra, max_output=out)), (lambda v: extra + (out - extra) * v / up if v > 0 else 0.0)
            else:
                mk, ref = (lambda m, v: LogisticParameter(m, v, lo, up, max_output=out, growth_rate=extra)), (lambda v: out / (1.0 + math.exp(-extra * v)))
            m = base(steps=2, S=[2])
            ps = [mk(m, v) for v in pts]
            g = Grab(m, params=ps)
            m.run()
            want = [ref(v) for v in pts]
            require_same(g.vals(), [[[x, x] for x in want]] * 2, "%s on [%g, %g]" % (what, lo, up), "activation")
            for p, v in zip(ps, pts):
                p.set_double_variables(np.array([pts[len(pts) - 1 - pts.index(v)]]))
                require_same([p.get_double_lower_bounds()[0], p.get_double_upper_bounds()[0]], [lo, up], "bounds", "activation")
            m.run()
            require_same(g.vals(), [[[x, x] for x in want[::-1]]] * 2, "%s on [%g, %g] after a change" % (what, lo, up), "activation")
            tr.step(4 * len(pts))
            tr.run(2)
            for v in pts:
                tr.state(what, lo, up, out, extra, v)
    d = base(steps=1)
    p = {"step": BinaryStepParameter, "ramp": RectifierParameter, "logistic": LogisticParameter}[what](d, 0.5)
    g = Grab(d, params=[p])
    d.run()
    require_same(g.vals()[0, 0], [{"step": 1.0, "ramp": 0.5, "logistic": 1 / (1 + math.exp(-0.5))}[what]], what + " by default", "activation")
    tr.outcome = (sorted(cfg.items()),)


# ---- aquifers ----------------------------------------------------------------

STREAMS = [[[50.0]], [[30.0, 60.0]], [[20.0, 50.0], [40.0, 70.0]], [[10.0, 45.0, 80.0]], [[55.0], [25.0]], [[60.0, 20.0]], [[80.0, 10.0, 45.0], [45.0, 80.0, 45.0]]]


def gen_aquifer(tier):
    for s in range(len(STREAMS)):
        for shape in ("volumes", "area"):
            for kind in ("D", "3D"):
                for level in (5.0, 50.0, 75.0, 100.0):
                    yield {"streams": s, "shape": shape, "kind": kind, "level": level, "T": 3 if tier == "quick" else 4}


def run_aquifer(cfg, tr):
    T = cfg["T"]
    start, end, delta, days, dates = times(cfg["kind"], T)
    streams = STREAMS[cfg["streams"]]
    trans = [0.6, 0.25, 0.1][:len(streams[0])]
    coef = 0.5
    levels = [0.0, 40.0, 100.0]
    m = Model(start=start, end=end, timestep=delta)
    h = histories([0.0, 10.0, 60.0], T)
    Scenario(m, "s", size=len(h))
    if cfg["shape"] == "volumes":
        kw, vols = dict(volumes=[0.0, 500.0, 2000.0]), [0.0, 500.0, 2000.0]
    else:
        kw = dict(area=1e6, storativity=[0.02, 0.03])
        vols = [0.0, 1e6 * 0.02 * 40.0 * 1e-3, 1e6 * 0.02 * 40.0 * 1e-3 + 1e6 * 0.03 * 60.0 * 1e-3]
    aq = KeatingAquifer(m, "aq", len(streams), 1, streams, trans, coef, levels, **kw)
    vol_of, level_of = (lambda L: lin(levels, vols, L)), (lambda V: lin(vols, levels, V))
    require_same([aq.max_volume, aq.min_volume], [vols[-1], vols[0]], "capacity", "aquifer")
    aq.initial_level = cfg["level"]
    require_same(aq.initial_volume, vol_of(cfg["level"]), "volume at level %g" % cfg["level"], "aquifer")
    require_same(aq.initial_level, cfg["level"], "initial level", "initial-level")
    re = Input(m, "recharge", max_flow=Fn(m, lambda t, si: h[si[0]][t]), cost=-10.0)
    re.connect(aq)
    outs = []
    for i in range(len(streams)):
        o = Output(m, "stream%d" % i)
        aq.connect(o, from_slot=i)
        outs.append(o)
    ab = Output(m, "abstraction", max_flow=3.0, cost=-1.0)
    aq.connect(ab, from_slot=len(streams))
    lev = NumpyArrayLevelRecorder(m, aq, name="lev")
    g = Grab(m, nodes=outs + [ab, re], stores=[aq], name="g")
    for turn in range(2):
        m.run()
        flow, vol = g.flow(), g.vol()
        for c, x in enumerate(h):
            V = vol_of(cfg["level"])
            for t in range(T):
                L = level_of(V)
                require_same(lev.data[t, c], L, "level", "aquifer", 1e-6)
                qs = [sum(2.0 * k * coef * max(L - s, 0.0) for k, s in zip(trans, ss)) for ss in streams]
                got = flow[t, :, c]
                require_same(got[:len(qs)], qs, "streams at level %g" % L, "aquifer", 1e-6)
                room = (vols[-1] - V) / days[t] + sum(qs)
                have = V / days[t] - sum(qs)
                inn = got[-1]
                require(inn <= x[t] + 1e-6 and inn >= min(x[t], room) - 1e-6, lambda: "recharge %r of %r with room %r" % (inn, x[t], room), "aquifer")
                V = V + days[t] * (inn - sum(qs) - got[-2])
                require_same(vol[t, 0, c], V, "volume", "aquifer", 1e-6)
                V = float(vol[t, 0, c])
                tr.state(cfg["streams"], cfg["shape"], round(V, 4))
                tr.step()
    tr.run(2 * len(h))
    tr.outcome = (sorted(cfg.items()),)


GROUPS = {"poly": (gen_poly, run_poly), "poly2": (gen_poly2, run_poly2), "curve": (gen_curve, run_curve), "hydro": (gen_hydro, run_hydro), "turbine": (gen_turbine, run_turbine),
          "meet": (gen_meet, run_meet), "activation": (gen_act, run_act), "aquifer": (gen_aquifer, run_aquifer)}
