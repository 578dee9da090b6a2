"""P13: control curve and threshold parameters select the right band."""
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from pywr.nodes import Input, Output, Storage, VirtualStorage, AggregatedStorage, Link
from pywr.parameters import (ControlCurveParameter, ControlCurveIndexParameter, ControlCurveInterpolatedParameter,
                             ControlCurvePiecewiseInterpolatedParameter, StorageThresholdParameter,
                             NodeThresholdParameter, ParameterThresholdParameter, RecorderThresholdParameter,
                             CurrentYearThresholdParameter, CurrentOrdinalDayThresholdParameter,
                             MultipleThresholdIndexParameter, MultipleThresholdParameterIndexParameter,
                             ConstantParameter, AggregatedParameter, IndexParameter, load_parameter)
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayStorageRecorder, NumpyArrayParameterRecorder
from mc.harness import require
from mc.probe import base, Grab, Fn, FnIndex, require_same

LEVELS = [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0]
CURVES = [0.0, 0.25, 0.5, 0.75, 1.0]
SETS = [c for k in (0, 1, 2, 3) for c in itertools.combinations_with_replacement(sorted(CURVES, reverse=True), k)]
MAXV = [8.0, 16.0]


def world(init, T, levels=LEVELS, scen_max=True):
    """A store whose level at the start of step t is any one of the levels, by scenario."""
    n = len(levels)
    m = base(steps=T, S=[n ** (T - 1), 2], link=False)
    mx = (lambda s: MAXV[s[1]]) if scen_max else (lambda s: 8.0)

    def level(t, s):
        return init if t == 0 else levels[(s[0] // n ** (t - 1)) % n]

    def nxt(t, s):
        return level(t + 1, s) if t + 1 < T else level(t, s)
    fin = Fn(m, lambda t, s: max(0.0, nxt(t, s) - level(t, s)) * mx(s))
    fout = Fn(m, lambda t, s: max(0.0, level(t, s) - nxt(t, s)) * mx(s))
    a = Input(m, "a", min_flow=fin, max_flow=fin)
    b = Output(m, "b", min_flow=fout, max_flow=fout)
    st = Storage(m, "st", max_volume=Fn(m, lambda t, s: mx(s)) if scen_max else 8.0,
                 initial_volume=init * 8.0, initial_volume_pc=init)
    a.connect(st)
    st.connect(b)
    return m, a, b, st, level, mx


def first(pc, cs):
    for j, c in enumerate(cs):
        if pc >= c:
            return j
    return len(cs)


def between(x, lo, hi, vlo, vhi):
    """linear from (lo, vlo) to (hi, vhi), flat outside; a set where lo == hi"""
    if lo == hi:
        return (vlo, vhi) if x == lo else ((vlo,) if x < lo else (vhi,))
    if x <= lo:
        return (vlo,)
    if x >= hi:
        return (vhi,)
    return (vlo + (vhi - vlo) * (x - lo) / (hi - lo),)


def interpolated(pc, cs, v):
    j = first(pc, cs)
    hi = 1.0 if j == 0 else cs[j - 1]
    lo = cs[j] if j < len(cs) else 0.0
    return between(pc, lo, hi, v[j + 1], v[j])


def piecewise(pc, cs, v, mn, mx):
    j = first(pc, cs)
    hi = mx if j == 0 else cs[j - 1]
    lo = cs[j] if j < len(cs) else mn
    return between(pc, lo, hi, v[j][1], v[j][0])


FORMS = ["number", "const", "time", "scenario", "both"]


def gen_bands(tier):
    store = ["st", "agg", "vs"]
    return [{"init": i, "form": f, "store": s} for i in LEVELS for f in FORMS for s in store
            if tier == "thorough" or s == "st" or (i in (0.125, 0.5, 1.0))]


def run_bands(cfg, tr):
    T = 3
    init = cfg["init"]
    m, a, b, st, level, mx = world(init, T)
    st.initial_volume = init * 8.0
    # with a scenario-dependent maximum the store starts at init*8 in all scenarios; the
    # second scenario first moves from there (see level0 below)
    form = cfg["form"]
    node = st
    if cfg["store"] == "agg":
        st2 = Storage(m, "st2", max_volume=8.0, initial_volume=4.0)
        a2, b2 = Input(m, "a2", max_flow=0), Output(m, "b2", max_flow=0)
        a2.connect(st2)
        st2.connect(b2)
        node = AggregatedStorage(m, "agg", [st, st2])
    elif cfg["store"] == "vs":
        node = VirtualStorage(m, "vs", [b], factors=[0.25], max_volume=8.0, initial_volume=8.0)
    # the net scenario-1 volume is init*8 at the start, so the forced flows of the first step
    # must start from there
    fin = Fn(m, lambda t, s: max(0.0, tgt(t, s) - cur(t, s)))
    fout = Fn(m, lambda t, s: max(0.0, cur(t, s) - tgt(t, s)))

    def cur(t, s):
        return init * 8.0 if t == 0 else level(t, s) * mx(s)

    def tgt(t, s):
        return level(min(t + 1, T - 1), s) * mx(s) if t + 1 < T else cur(t, s)
    a.min_flow = a.max_flow = fin
    b.min_flow = b.max_flow = fout
    n0 = len(LEVELS) ** (T - 1)
    combos = list(itertools.product(range(n0), range(2)))
    P, R = [], []

    def curves(cs):
        """curve parameters and their value at (t, s)"""
        out, f = [], []
        for j, c in enumerate(cs):
            if form == "number":
                out.append(c)
                f.append(lambda t, s, c=c: c)
            elif form == "const":
                out.append(ConstantParameter(m, c))
                f.append(lambda t, s, c=c: c)
            else:
                # all curves move down a notch with time or scenario, keeping their order
                def g(t, s, c=c):
                    k = (t if form in ("time", "both") else 0) + (s[1] if form in ("scenario", "both") else 0)
                    return max(0.0, c - 0.25 * (k % 3))
                out.append(Fn(m, g))
                f.append(g)
        return out, lambda t, s: [x(t, s) for x in f]

    for cs in SETS:
        k = len(cs)
        if k or form == "number":
            ps, f = curves(cs)
            v = [10.0, -3.0, 4.5, 0.0, 7.0][:k + 1]
            P.append(ControlCurveParameter(m, node, ps, values=v))
            R.append(lambda pc, t, s, f=f, v=v: (v[first(pc, f(t, s))],))
            P.append(ControlCurveParameter(m, node, ps))
            R.append(lambda pc, t, s, f=f: (float(first(pc, f(t, s))),))
            kids = [Fn(m, lambda t, s, j=j: 100.0 * j + t + 10 * s[1]) for j in range(k + 1)]
            P.append(ControlCurveParameter(m, node, ps, parameters=kids))
            R.append(lambda pc, t, s, f=f: (100.0 * first(pc, f(t, s)) + t + 10 * s[1],))
            P.append(ControlCurveIndexParameter(m, node, ps))
            R.append(lambda pc, t, s, f=f: (float(first(pc, f(t, s))),))
            w = [10.0, -3.0, 4.5, 0.0, 7.0][:k + 2]
            P.append(ControlCurveInterpolatedParameter(m, node, ps, values=w))
            R.append(lambda pc, t, s, f=f, w=w: interpolated(pc, f(t, s), w))
            kids2 = [Fn(m, lambda t, s, j=j: 100.0 * j + t + 10 * s[1]) for j in range(k + 2)]
            P.append(ControlCurveInterpolatedParameter(m, node, ps, parameters=kids2))
            R.append(lambda pc, t, s, f=f, k=k: interpolated(pc, f(t, s), [100.0 * j + t + 10 * s[1] for j in range(k + 2)]))
            q = [[10.0, 5.0], [4.0, 6.0], [-1.0, -2.0], [0.0, 3.0]][:k + 1]
            P.append(ControlCurvePiecewiseInterpolatedParameter(m, node, ps, q))
            R.append(lambda pc, t, s, f=f, q=q: piecewise(pc, f(t, s), q, 0.0, 1.0))
            if all(0.25 <= c <= 0.75 for c in cs) and form in ("number", "const"):
                P.append(ControlCurvePiecewiseInterpolatedParameter(m, node, ps, q, minimum=0.2, maximum=0.8))
                R.append(lambda pc, t, s, f=f, q=q: piecewise(pc, f(t, s), q, 0.2, 0.8))
    g = Grab(m, P, stores=[node, st])
    for rerun in range(2 if cfg["init"] == 0.5 else 1):
        m.run()
        tr.run()
        got, pcs = g.vals(), g.pc()
        start = {"st": [init * 8.0 / x for x in MAXV] if False else None}
        for t in range(T):
            if t == 0:
                if cfg["store"] == "st":
                    pc0 = [init] * len(combos)
                elif cfg["store"] == "vs":
                    pc0 = [1.0] * len(combos)
                else:
                    continue  # the aggregate of a store with an unset maximum is not known before the first step
            pc = pc0 if t == 0 else pcs[t - 1, 0]
            if cfg["store"] == "st" and t:
                require_same(pc, [level(t, c) for c in combos], "level at step %d" % t, "levels", 1e-9)
            for i, p in enumerate(P):
                row = got[t, i]
                for ci, c in enumerate(combos):
                    w = R[i](pc[ci], t, c)
                    require(any(abs(row[ci] - x) <= 1e-9 * max(1, abs(x)) for x in w),
                            lambda: "%s of %r at step %d scenario %r: level %r gives %r, want %r"
                            % (type(p).__name__, cfg, t, c, float(pc[ci]), float(row[ci]), w), "band:" + type(p).__name__)
                    tr.step()
            for ci, c in enumerate(combos[::7]):
                tr.state(cfg["form"], t, round(float(pc[ci * 7]), 6), c[1])
    tr.outcome = (str(cfg), float(np.round(got.sum(), 6)))


PRED = {"LT": lambda x, y: x < y, "GT": lambda x, y: x > y, "EQ": lambda x, y: x == y, "LE": lambda x, y: x <= y, "GE": lambda x, y: x >= y,
        "<": lambda x, y: x < y, ">": lambda x, y: x > y, "=": lambda x, y: x == y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y,
        "lt": lambda x, y: x < y, "ge": lambda x, y: x >= y, None: lambda x, y: x < y}
QUANT = [0.0, 2.0, 5.0]


def gen_thresholds(tier):
    return [{"th": th, "form": f, "init": i, "T": 4 if tier == "quick" else 5}
            for th in (0.0, 2.0, 3.0, 5.0) for f in ("number", "const", "time", "scenario") for i in (0.0, 0.25, 0.625)]


def run_thresholds(cfg, tr):
    """Every history of three quantities (below, at, above the threshold) in volume, flow,
    parameter and recorder, against every predicate, latching and not."""
    T = cfg["T"]
    n = len(QUANT)
    N = n ** T
    init = cfg["init"]
    m = base(start="2003-12-30", steps=T, S=[N, 2], link=False)
    m.timestepper.delta = 1
    x = lambda t, s: QUANT[(s[0] // n ** t) % n]
    # flow x(t) through a link
    p = Fn(m, x)
    a, lk, b = Input(m, "a", min_flow=p, max_flow=p), Link(m, "lk"), Output(m, "b")
    a.connect(lk)
    lk.connect(b)
    # volume x(t) at the end of step t
    v0 = init * 8

    def vol(t, s):
        return v0 if t < 0 else x(t, s)
    fin, fout = Fn(m, lambda t, s: max(0.0, vol(t, s) - vol(t - 1, s))), Fn(m, lambda t, s: max(0.0, vol(t - 1, s) - vol(t, s)))
    sa, st, sb = Input(m, "sa", min_flow=fin, max_flow=fin), Storage(m, "st", max_volume=8.0, initial_volume=v0), Output(m, "sb", min_flow=fout, max_flow=fout)
    sa.connect(st)
    st.connect(sb)
    form = cfg["form"]
    th = cfg["th"]

    def thv(t, s):
        if form == "time":
            return QUANT[t % 3]
        if form == "scenario":
            return [th, 2.0][s[1]]
        return th
    mk = {"number": lambda: th, "const": lambda: ConstantParameter(m, th), "time": lambda: Fn(m, thv), "scenario": lambda: Fn(m, thv)}[form]
    P, R = [], []
    combos = list(itertools.product(range(N), range(2)))
    nrec = NumpyArrayNodeRecorder(m, lk, name="nrec")
    srec = NumpyArrayStorageRecorder(m, st, name="srec")
    prec = NumpyArrayParameterRecorder(m, p, name="prec")
    vals = [1.5, -2.5]

    def latch(cmp, quantity, at0, ratchet):
        def f(s):
            out, trig = [], False
            for t in range(T):
                q = quantity(t, s)
                if q is None:
                    out.append(at0)
                    continue
                if ratchet and trig:
                    out.append(1)
                    continue
                i = int(cmp(q, thv(t, s)))
                trig = trig or bool(i)
                out.append(i)
            return out
        return f
    for pr, cmp in PRED.items():
        for ratchet in (False, True):
            kw = dict(predicate=pr, ratchet=ratchet)
            for values in ((None, vals) if pr in ("LT", ">=") else (vals,)):
                P.append(StorageThresholdParameter(m, st, mk(), values=values, **kw))
                R.append((latch(cmp, lambda t, s: vol(t - 1, s), None, ratchet), values))
                P.append(NodeThresholdParameter(m, lk, mk(), values=values, **kw))
                R.append((latch(cmp, lambda t, s: x(t - 1, s) if t else None, 0, ratchet), values))
                P.append(ParameterThresholdParameter(m, p, mk(), values=values, **kw))
                R.append((latch(cmp, x, None, ratchet), values))
                for rec, q in ((nrec, x), (srec, vol), (prec, x)):
                    for iv in (0, 1):
                        if iv and ratchet:
                            continue
                        P.append(RecorderThresholdParameter(m, rec, mk(), values=values, initial_value=iv, **kw))
                        R.append((latch(cmp, lambda t, s, q=q: q(t - 1, s) if t else None, iv, ratchet), values))
    if form in ("number", "const"):
        days = [dt.date(2003, 12, 30) + dt.timedelta(days=k) for k in range(T)]
        for pr, cmp in PRED.items():
            for ratchet in (False, True):
                for k in (-1, 0, 1):
                    y, o = 2003 + k, days[1].toordinal() + k
                    P.append(CurrentYearThresholdParameter(m, y, values=vals, predicate=pr, ratchet=ratchet))
                    R.append(((lambda s, y=y, cmp=cmp, r=ratchet: _dates([d.year for d in days], y, cmp, r)), vals))
                    P.append(CurrentOrdinalDayThresholdParameter(m, o, values=vals, predicate=pr, ratchet=ratchet))
                    R.append(((lambda s, o=o, cmp=cmp, r=ratchet: _dates([d.toordinal() for d in days], o, cmp, r)), vals))
    # several thresholds
    for tset in ([3.0], [5.0, 2.0], [5.0, 5.0, 0.0], [4.0, 2.0, 1.0]):
        tp = [c if form == "number" else ConstantParameter(m, c) if form == "const" else
              Fn(m, lambda t, s, c=c: c - (t if form == "time" else s[1])) for c in tset]
        tv = lambda t, s, tset=tset: [c - (t if form == "time" else s[1] if form == "scenario" else 0) for c in tset]
        P.append(MultipleThresholdIndexParameter(m, lk, tp))
        R.append(((lambda s, tv=tv: [first(x(t - 1, s) if t else 0.0, tv(t, s)) for t in range(T)]), "index"))
        P.append(MultipleThresholdParameterIndexParameter(m, p, tp))
        R.append(((lambda s, tv=tv: [first(x(t, s), tv(t, s)) for t in range(T)]), "index"))
    # an index drives another parameter in the same step
    g = Grab(m, P, nodes=[lk], stores=[st])
    for rerun in range(2):
        m.run()
        tr.run()
        got = g.vals()
        require_same(g.flow()[:, 0], [[x(t, c) for c in combos] for t in range(T)], "forced flow", "forced")
        require_same(g.vol()[:, 0], [[x(t, c) for c in combos] for t in range(T)], "forced volume", "forced")
        for i, q in enumerate(P):
            f, values = R[i]
            want = np.array([f(c) for c in combos]).T
            what = "%s run %d of %r" % (type(q).__name__, rerun, cfg)
            require_same(g.idx(i), want, what + " index", "index:" + type(q).__name__)
            if values == "index":
                require_same(got[:, i], want, what, "value:" + type(q).__name__)
            elif values is None:
                require(np.isnan(got[:, i]).all(), what + ": a value without values", "value:" + type(q).__name__)
            else:
                require_same(got[:, i], np.array(values)[want], what, "value:" + type(q).__name__)
        tr.step(2 * got.size)
    for c in combos:
        tr.state(form, th, init, c)
    tr.outcome = (str(cfg), float(np.nansum(got)))


def _dates(ds, o, cmp, ratchet):
    out, trig = [], False
    for d in ds:
        i = 1 if ratchet and trig else int(cmp(d, o))
        trig = trig or bool(i)
        out.append(i)
    return out


FORMS = ("n0", "n2", "n5", "const", "time", "self")
OBJECTS = ("storage", "node", "parameter", "recorder", "year", "day")


def gen_replace(tier):
    for o in OBJECTS:
        for a in FORMS:
            yield {"o": o, "first": a, "n": 2 if tier == "quick" else 3}


def run_replace(cfg, tr):
    """the threshold is replaced, before or after a run, any number of times: the last one given counts"""
    T, o = 4, cfg["o"]
    N = 3 ** T
    for seq in itertools.product(FORMS, repeat=cfg["n"]):
        seq = (cfg["first"],) + seq
        if "self" in seq and o != "parameter":
            continue
        for run_between in (False, True):
            m = base(start="2003-12-30", steps=T, S=[N], link=False)
            x = lambda t, s: QUANT[(s[0] // 3 ** t) % 3]
            p = Fn(m, x)
            a, lk, b = Input(m, "a", min_flow=p, max_flow=p), Link(m, "lk"), Output(m, "b")
            a.connect(lk), lk.connect(b)
            vol = lambda t, s: 4.0 if t < 0 else x(t, s)
            fin, fout = Fn(m, lambda t, s: max(0.0, vol(t, s) - vol(t - 1, s))), Fn(m, lambda t, s: max(0.0, vol(t - 1, s) - vol(t, s)))
            sa, st, sb = Input(m, "sa", min_flow=fin, max_flow=fin), Storage(m, "st", max_volume=8.0, initial_volume=4.0), Output(m, "sb", min_flow=fout, max_flow=fout)
            sa.connect(st), st.connect(sb)
            rec = NumpyArrayNodeRecorder(m, lk, name="nrec")
            days = [dt.date(2003, 12, 30) + dt.timedelta(days=k) for k in range(T)]
            shift = {"year": 2001, "day": days[0].toordinal() - 1}.get(o, 0)

            def thr(f):
                """what is given, and what it is worth in step t"""
                if f == "self":
                    return p, x
                if f == "time":
                    return Fn(m, lambda t, s: shift + QUANT[t % 3]), lambda t, s: shift + QUANT[t % 3]
                c = shift + (3.0 if f == "const" else float(f[1]))
                return (ConstantParameter(m, c) if f == "const" else c), lambda t, s: c
            th, worth = thr(seq[0])
            kw = {"values": [1.5, -2.5], "predicate": "GE"}
            q = {"storage": lambda: StorageThresholdParameter(m, st, th, **kw), "node": lambda: NodeThresholdParameter(m, lk, th, **kw),
                 "parameter": lambda: ParameterThresholdParameter(m, p, th, **kw), "recorder": lambda: RecorderThresholdParameter(m, rec, th, initial_value=0, **kw),
                 "year": lambda: CurrentYearThresholdParameter(m, th, **kw), "day": lambda: CurrentOrdinalDayThresholdParameter(m, th, **kw)}[o]()
            # the name makes it come first where nothing else says in which order parameters are worked out
            g = Grab(m, [q])
            see = {"storage": lambda t, s: vol(t - 1, s), "node": lambda t, s: x(t - 1, s) if t else None, "parameter": x, "recorder": lambda t, s: x(t - 1, s) if t else None,
                   "year": lambda t, s: days[t].year, "day": lambda t, s: days[t].toordinal()}[o]
            for k, f in enumerate(seq):
                if k:
                    given, worth = thr(f)
                    q.threshold = given
                    require(q.threshold is given or q.threshold == given, "the threshold that was set is not the one it has", "replaced")
                if not run_between and k + 1 < len(seq):
                    continue
                m.setup()
                m.run()
                want = [[0 if see(t, (s,)) is None else int(see(t, (s,)) >= worth(t, (s,))) for s in range(N)] for t in range(T)]
                what = "%s threshold %s after %s" % (o, f, list(seq[:k]))
                require_same(g.idx(0), want, what + ": index", "replaced")
                require_same(g.vals()[:, 0], np.array([1.5, -2.5])[np.array(want)], what + ": value", "replaced")
                tr.run()
                tr.step(T * N)
                tr.state(o, seq[:k + 1], run_between)
    tr.outcome = (sorted(cfg.items()),)


GROUPS = {"replace": (gen_replace, run_replace), "bands": (gen_bands, run_bands), "thresholds": (gen_thresholds, run_thresholds)}
TECHNIQUE = "exhaustive enumeration of level and flow histories (one scenario per history) x sets of curves and thresholds x predicates on the real parameters, against a plain band and latch automaton"
BOUNDS = ("All sets of 0-3 descending curves (ties included) over {0, 1/4, 1/2, 3/4, 1}, as numbers, parameters, moving by time, by scenario or both; every 2-step history of nine levels at, "
          "between and on the curves from 9 starts, in 2 scenarios of different capacity, for a store, an aggregate and a virtual store; all histories of 4 (thorough 5) quantities below, at and above "
          "thresholds x 13 predicates x latching x 4 threshold forms; thresholds "
          "replaced twice (thorough 3 times) by any of 6 others, with and without a run in between, for 6 kinds of threshold. A latched recorder threshold with initial value 1 is excluded (its first step is documented both ways).")
