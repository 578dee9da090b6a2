"""P17: recorders report what happened, and summarise it as defined."""
import calendar
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Link, Storage, AggregatedStorage
from pywr.parameters import Parameter, IndexParameter, ConstantParameter
from pywr.recorders import *
from pywr.recorders import calibration
from pywr.recorders import NumpyArrayLevelRecorder, NumpyArrayAreaRecorder, RollingWindowParameterRecorder
from mc.harness import require, Violation
from mc.probe import Fn, FnIndex, require_same, base

TECHNIQUE = ("exhaustive enumeration of the histories of flows, volumes and values over small alphabets, run as the scenarios of real models, with "
             "every recorder compared with its definition computed in plain Python from the history")
BOUNDS = ("flow and demand histories over {0,1,2.5}x{0,1,4}, volumes over {0,4,10}, values over {-1,0,2.5,nan}, indices over {0,1,2}: every history of "
          "length 1 to 3 (4 and 5 in the thorough tier) for steps of 1, 3 and 7 days and months; every aggregation function by name, by dict and as a callable, over time and over "
          "scenarios; windows, percentiles, months, date ranges, predicates and thresholds from small alphabets; three scenarios for statistics over one; run ends across year ends of leap "
          "and common years")


# ---- definitions -------------------------------------------------------------

def percentile(xs, q):
    xs = sorted(xs)
    k = (len(xs) - 1) * q / 100.0
    lo = int(math.floor(k))
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (xs[hi] - xs[lo]) * (k - lo)


def rank_of(xs, score, kind="rank"):
    below, at = sum(1 for x in xs if x < score), sum(1 for x in xs if x == score)
    if kind == "strict":
        return 100.0 * below / len(xs)
    if kind == "weak":
        return 100.0 * (below + at) / len(xs)
    if kind == "mean":
        return 100.0 * (below + 0.5 * at) / len(xs)
    return 100.0 * (below + (0.5 * (at + 1) if at else 0)) / len(xs)


def prod(xs):
    r = 1.0
    for x in xs:
        r *= x
    return r


def second(xs, axis=None):
    """a callable to aggregate with: the second largest, or the only one"""
    a = np.sort(np.asarray(xs), axis=-1 if axis is None else axis)
    return np.take(a, -2 if a.shape[-1 if axis is None else axis] > 1 else -1, axis=-1 if axis is None else axis)


AGG = {
    "sum": sum, "min": min, "max": max, "product": prod, "mean": lambda x: sum(x) / len(x), "median": lambda x: percentile(x, 50),
    "count_nonzero": lambda x: float(sum(1 for v in x if v != 0)),
    "p30": lambda x: percentile(x, 30), "p95k": lambda x: percentile(x, 95), "score": lambda x: rank_of(x, 1.0), "weak": lambda x: rank_of(x, 1.0, "weak"),
    "call": lambda x: sorted(x)[-2] if len(x) > 1 else x[0],
}
SPEC = {"p30": {"func": "percentile", "args": [30]}, "p95k": {"func": "percentile", "kwargs": {"q": 95}},
        "score": {"func": "percentileofscore", "args": [1.0]}, "weak": {"func": "percentileofscore", "kwargs": {"score": 1.0, "kind": "weak"}}, "call": second}


def spec(k):
    return SPEC.get(k, k)


def agg(k, xs, ignore_nan=False):
    xs = [float(x) for x in xs]
    if ignore_nan:
        xs = [x for x in xs if x == x]
        if not xs:
            return float("nan")
    elif k != "count_nonzero" and any(x != x for x in xs):
        return float("nan")
    return AGG[k](xs)


def cols(fn, series):
    """fn of every scenario's history; series[t][s]"""
    return [fn([row[s] for row in series]) for s in range(len(series[0]))]


# ---- histories ---------------------------------------------------------------

def times(kind, T):
    """(start, end, timestep, [days of each step], [dates])"""
    if kind == "D":
        start, delta, days = "2000-02-27", 1, [1] * T
    elif kind == "3D":
        start, delta, days = "1999-12-29", 3, [3] * T
    elif kind == "7D":
        start, delta, days = "2000-12-20", 7, [7] * T
    else:
        start, delta = "1999-12-01", "M"
        d = pd.period_range("1999-12", periods=T, freq="M")
        return start, str(d[-1].end_time.date()), "M", [p.days_in_month for p in d], [p.start_time for p in d]
    s = pd.Timestamp(start)
    dates = [s + pd.Timedelta(days=delta * t) for t in range(T)]
    return start, str((dates[-1] + pd.Timedelta(days=delta - 1)).date()), delta, days, dates


def model(kind, T, n):
    start, end, delta, days, dates = times(kind, T)
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=n)
    return m, days, dates


def histories(alphabet, T):
    h = list(itertools.product(alphabet, repeat=T))
    return h  # h[s][t]


def table(h):
    return [[row[t] for row in h] for t in range(len(h[0]))]  # [t][s]


def from_history(m, h):
    return Fn(m, lambda t, si: h[si[0]][t])


def check_table(rec, want, m, what, n):
    require_same(rec.data, want, what + " data", "series")
    df = rec.to_dataframe()
    require_same(df.values, want, what + " table", "series")
    require(list(df.index) == list(m.timestepper.datetime_index), lambda: what + " index", "labels")
    require([c if not isinstance(c, tuple) else c[0] for c in df.columns] == list(range(n)), lambda: what + " columns", "labels")


def check_summary(rec, series, tfunc, what, ignore_nan=False):
    require_same(rec.values(), cols(lambda x: agg(tfunc, x, ignore_nan), series), what + " values", "summary")


# ---- flows -------------------------------------------------------------------

FLOWS = [(0.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, 4.0), (2.5, 0.0), (2.5, 1.0), (2.5, 4.0)]


def gen_flow(tier):
    for kind in ("D", "3D", "7D", "M"):
        for T in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
            for half in range(2):
                yield {"kind": kind, "T": T, "part": half}


def run_flow(cfg, tr):
    T, kind = cfg["T"], cfg["kind"]
    h = histories(FLOWS, T)
    n = len(h)
    m, days, dates = model(kind, T, n)
    a = Input(m, "a", max_flow=Fn(m, lambda t, si: h[si[0]][t][0]))
    y = Output(m, "y", max_flow=Fn(m, lambda t, si: h[si[0]][t][1]), cost=Fn(m, lambda t, si: -1.0 - t - si[0]))
    a.connect(y)
    flow = [[min(x[t]) for x in h] for t in range(T)]
    want = [[x[t][1] for x in h] for t in range(T)]
    recs = []
    names = list(AGG)

    def add(rec, series, tf, what, ref):
        recs.append((rec, series, tf, what, ref))

    k = 0
    if cfg["part"] == 0:
        for i, tf in enumerate(names):
            sf = names[(i * 5 + 3) % len(names)]
            for factor in (1.0, -2.0):
                add(NumpyArrayNodeRecorder(m, y, temporal_agg_func=spec(tf), agg_func=spec(sf), factor=factor, name="n%d" % k), [[f * factor for f in r] for r in flow], tf, "NumpyArrayNode " + tf, sf)
                k += 1
            add(NumpyArrayNodeDeficitRecorder(m, y, temporal_agg_func=spec(tf), agg_func=spec(sf), name="d%d" % k),
                [[w - f for f, w in zip(r, q)] for r, q in zip(flow, want)], tf, "deficit " + tf, sf)
            add(NumpyArrayNodeSuppliedRatioRecorder(m, y, temporal_agg_func=spec(tf), agg_func=spec(sf), name="r%d" % k),
                [[f / w if w else 1.0 for f, w in zip(r, q)] for r, q in zip(flow, want)], tf, "supplied ratio " + tf, sf)
            add(NumpyArrayNodeCurtailmentRatioRecorder(m, y, temporal_agg_func=spec(tf), agg_func=spec(sf), name="c%d" % k),
                [[1.0 - f / w if w else 0.0 for f, w in zip(r, q)] for r, q in zip(flow, want)], tf, "curtailment ratio " + tf, sf)
            add(NumpyArrayNodeCostRecorder(m, y, temporal_agg_func=spec(tf), agg_func=spec(sf), name="k%d" % k),
                [[-1.0 - t - s for s in range(n)] for t in range(T)], tf, "cost " + tf, sf)
            k += 1
        m.run()
        for rec, series, tf, what, sf in recs:
            check_table(rec, series, m, what, n)
            check_summary(rec, series, tf, what)
            require_same(rec.aggregated_value(), agg(sf, cols(lambda x: agg(tf, x), series)), what + " over scenarios by " + sf, "aggregated")
            tr.step(n)
        return done(tr, cfg, m, n)
    one = []
    for factor in (1.0, 0.5, -3.0):
        one.append((TotalFlowNodeRecorder(m, y, factor=factor, name="t%g" % factor), cols(lambda x: sum(f * d * factor for f, d in zip(x, days)), flow), "total flow"))
        one.append((MeanFlowNodeRecorder(m, y, factor=factor, name="m%g" % factor), cols(lambda x: sum(x) * factor / T, flow), "mean flow"))
    one.append((TotalDeficitNodeRecorder(m, y, name="td"), cols(lambda x: sum((w - f) * d for (f, w), d in zip(x, days)), [list(zip(r, q)) for r, q in zip(flow, want)]), "total deficit"))
    one.append((DeficitFrequencyNodeRecorder(m, y, name="df"), cols(lambda x: sum(1.0 for f, w in x if f != w) / T, [list(zip(r, q)) for r, q in zip(flow, want)]), "deficit frequency"))
    for thr in (0.0, 0.5, 1.0, 2.5):
        for p, fn in (("LT", lambda v, x: v < x), ("GT", lambda v, x: v > x), ("EQ", lambda v, x: v == x), ("LE", lambda v, x: v <= x), ("GE", lambda v, x: v >= x),
                      ("<", lambda v, x: v < x), (">", lambda v, x: v > x), ("=", lambda v, x: v == x), ("<=", lambda v, x: v <= x), (">=", lambda v, x: v >= x), (None, lambda v, x: v < x)):
            kw = {} if p is None else {"predicate": p}
            one.append((NodeThresholdRecorder(m, y, thr, name="th%g%s" % (thr, p), **kw), [float(fn(v, thr)) for v in flow[-1]], "node threshold %s" % p))
    fdc = []
    for ps in ([0.0, 25.0, 50.0, 100.0], [100.0, 10.0], [33.0]):
        for i, tf in enumerate(names):
            fdc.append((FlowDurationCurveRecorder(m, y, ps, temporal_agg_func=spec(tf), agg_func=spec(names[i - 4]), name="f%s%s" % (tf, ps)), ps, None, tf, names[i - 4]))
        for months in ([1], [2, 12], [1, 2, 3, 12], [3, 2]):
            if any(d.month in months for d in dates):
                fdc.append((SeasonalFlowDurationCurveRecorder(m, y, ps, months, name="s%s%s" % (months, ps)), ps, months, "mean", "mean"))
    roll = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for w in range(1, T + 2):
            roll.append((RollingMeanFlowNodeRecorder(m, y, timesteps=w, name="w%d" % w), w))
        if kind in ("D", "3D", "7D"):
            for w in (7, 14, 21):
                roll.append((RollingMeanFlowNodeRecorder(m, y, days=w, name="wd%d" % w), w // {"D": 1, "3D": 3, "7D": 7}[kind]))
    aggs = []
    kids = [one[0][0], one[1][0], one[6][0]]
    kv = [one[0][1], one[1][1], one[6][1]]
    for i, rf in enumerate(names):
        for c in ([0, 1, 2], [1], [2, 0]):
            sf = names[(i + 2) % len(names)]
            aggs.append((AggregatedRecorder(m, [kids[j] for j in c], recorder_agg_func=spec(rf), agg_func=spec(sf), name="ag%s%s" % (rf, c)),
                         [agg(rf, x) for x in zip(*[kv[j] for j in c])], rf, sf))
            if c == [1]:
                aggs.append((AggregatedRecorder(m, [kids[j] for j in (0, 2)], agg_func=spec(rf), name="ah%s" % rf), [agg(rf, x) for x in zip(kv[0], kv[2])], rf, rf))
    aggs.append((AggregatedRecorder(m, kids, name="agdef"), [agg("mean", x) for x in zip(*kv)], "mean", "mean"))
    m.run()
    for rec, want_, what in one:
        require_same(rec.values(), want_, "%s %s" % (what, rec.name), "summary")
        require_same(rec.aggregated_value(), sum(want_) / n, what + " over scenarios", "aggregated")
        tr.step(n)
    for rec, ps, months, tf, sf in fdc:
        rows = [r for r, d in zip(flow, dates) if months is None or d.month in months]
        curve = [cols(lambda x: percentile(x, p), rows) for p in ps]
        require_same(rec.fdc, curve, "flow duration curve %s %s" % (ps, months), "summary")
        df = rec.to_dataframe()
        require_same(df.values, curve, "flow duration table", "series")
        require(list(df.index) == ps, "flow duration index %r" % (list(df.index),), "labels")
        vals = cols(lambda x: agg(tf, x), curve)
        require_same(rec.values(), vals, "flow duration values by " + tf, "summary")
        require_same(rec.aggregated_value(), agg(sf, vals), "flow duration over scenarios by " + sf, "aggregated")
        tr.step(n)
    for rec, w in roll:
        want_ = [[sum(flow[u][s] for u in range(max(0, t - w + 1), t + 1)) / (t - max(0, t - w + 1) + 1) for s in range(n)] for t in range(T)]
        require_same(rec.data, want_, "rolling mean over %d" % w, "rolling")
        tr.step(n)
    for rec, want_, rf, sf in aggs:
        require_same(rec.values(), want_, "aggregated recorder " + rf, "summary")
        require_same(rec.aggregated_value(), agg(sf, want_), "aggregated recorder over scenarios by " + sf, "aggregated")
        tr.step(n)
    done(tr, cfg, m, n)


def done(tr, cfg, m, n):
    for s in range(n):
        tr.state(sorted(cfg.items()), s)
    tr.run(n)
    tr.outcome = (sorted(cfg.items()), n)


# ---- volumes -----------------------------------------------------------------

def gen_volume(tier):
    for kind in ("D", "3D", "M"):
        for T in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
            yield {"kind": kind, "T": T}


def run_volume(cfg, tr):
    T, kind = cfg["T"], cfg["kind"]
    MX = 10.0
    h = histories([0.0, 4.0, 10.0], T)
    n = len(h)
    m, days, dates = model(kind, T, n)
    v = lambda s, t: 6.0 if t < 0 else h[s][t]
    d = lambda t, si: (v(si[0], t) - v(si[0], t - 1)) / days[t]
    a = Input(m, "a", min_flow=Fn(m, lambda t, si: max(d(t, si), 0.0)), max_flow=Fn(m, lambda t, si: max(d(t, si), 0.0)))
    y = Output(m, "y", min_flow=Fn(m, lambda t, si: max(-d(t, si), 0.0)), max_flow=Fn(m, lambda t, si: max(-d(t, si), 0.0)))
    lev = Fn(m, lambda t, si: 100.0 + t * 10 + si[0])
    area = Fn(m, lambda t, si: 500.0 + t * 10 + si[0])
    st = Storage(m, "st", max_volume=MX, initial_volume=6.0, level=lev, area=area)
    other = Storage(m, "other", max_volume=30.0, initial_volume=3.0)
    x, z = Input(m, "x", max_flow=0.0), Output(m, "z", max_flow=0.0)
    a.connect(st), st.connect(y), x.connect(other), other.connect(z)
    both = AggregatedStorage(m, "both", [st, other])
    names = list(AGG)
    vol = table(h)
    recs = []
    for i, tf in enumerate(names):
        sf = names[(i * 5 + 3) % len(names)]
        kw = dict(temporal_agg_func=spec(tf), agg_func=spec(sf))
        recs.append((NumpyArrayStorageRecorder(m, st, name="v" + tf, **kw), vol, tf, sf))
        recs.append((NumpyArrayStorageRecorder(m, st, proportional=True, name="p" + tf, **kw), [[q / MX for q in r] for r in vol], tf, sf))
        recs.append((NumpyArrayStorageRecorder(m, both, name="b" + tf, **kw), [[q + 3.0 for q in r] for r in vol], tf, sf))
        recs.append((NumpyArrayStorageRecorder(m, both, proportional=True, name="bp" + tf, **kw), [[(q + 3.0) / 40.0 for q in r] for r in vol], tf, sf))
        recs.append((NumpyArrayLevelRecorder(m, st, name="l" + tf, **kw), [[100.0 + t * 10 + s for s in range(n)] for t in range(T)], tf, sf))
        recs.append((NumpyArrayAreaRecorder(m, st, name="a" + tf, **kw), [[500.0 + t * 10 + s for s in range(n)] for t in range(T)], tf, sf))
        for cname, cc in (("lo", [0.2] * 5), ("mid", [0.4, 0.7, 0.1, 0.4, 0.5]), ("hi", [0.95] * 5)):
            p = Fn(m, lambda t, si, cc=cc: cc[t])
            ref = [[(q / MX) / cc[t] - 1.0 if q / MX < cc[t] else (q / MX - cc[t]) / (1.0 - cc[t]) for q in vol[t]] for t in range(T)]
            recs.append((NumpyArrayNormalisedStorageRecorder(m, st, parameter=p, name="n" + tf + cname, **kw), ref, tf, sf))
    sdc = []
    for ps in ([0.0, 40.0, 100.0], [90.0, 5.0]):
        for i, tf in enumerate(names):
            sdc.append((StorageDurationCurveRecorder(m, st, ps, temporal_agg_func=spec(tf), agg_func=spec(names[i - 4]), name="s%s%s" % (tf, ps)), ps, tf, names[i - 4]))
    one = [(MinimumVolumeStorageRecorder(m, st, name="mv"), cols(min, vol), "minimum volume"), (MinimumVolumeStorageRecorder(m, both, name="mvb"), cols(lambda q: min(q) + 3.0, vol), "minimum volume")]
    for thr in (0.0, 2.0, 4.0, 10.0, -1.0):
        one.append((MinimumThresholdVolumeStorageRecorder(m, st, thr, name="mt%g" % thr), cols(lambda q: 1.0 if min(q) <= thr else 0.0, vol), "minimum threshold %g" % thr))
        for p, fn in (("LT", lambda v, x: v < x), ("GT", lambda v, x: v > x), ("EQ", lambda v, x: v == x), ("LE", lambda v, x: v <= x), ("GE", lambda v, x: v >= x), (None, lambda v, x: v < x)):
            kw = {} if p is None else {"predicate": p}
            one.append((StorageThresholdRecorder(m, st, thr, name="th%g%s" % (thr, p), **kw), [float(fn(q, thr)) for q in vol[-1]], "storage threshold %s %g" % (p, thr)))
    m.run()
    require_same([[float(x) for x in recs[0][0].data[t]] for t in range(T)], vol, "imposed volumes", "harness")
    for rec, series, tf, sf in recs:
        check_table(rec, series, m, rec.name, n)
        vals = cols(lambda x: agg(tf, x), series) if tf not in ("score", "weak") else None
        if vals is not None:
            require_same(rec.values(), vals, rec.name + " values", "summary", 1e-7)
            if sf not in ("score", "weak", "count_nonzero"):
                require_same(rec.aggregated_value(), agg(sf, vals), rec.name + " over scenarios by " + sf, "aggregated", 1e-7)
        tr.step(n)
    for rec, ps, tf, sf in sdc:
        curve = [cols(lambda x: percentile(x, p), vol) for p in ps]
        require_same(rec.sdc, curve, "storage duration curve %s" % ps, "summary")
        df = rec.to_dataframe()
        require_same(df.values, curve, "storage duration table", "series")
        require(list(df.index) == ps, "storage duration index", "labels")
        vals = cols(lambda x: agg(tf, x), curve)
        if tf not in ("score", "weak", "count_nonzero"):
            require_same(rec.values(), vals, "storage duration values by " + tf, "summary")
        tr.step(n)
    for rec, want_, what in one:
        require_same(rec.values(), want_, what, "summary")
        require_same(rec.aggregated_value(), sum(want_) / n, what + " over scenarios", "aggregated")
        tr.step(n)
    done(tr, cfg, m, n)


# ---- values ------------------------------------------------------------------

def gen_value(tier):
    for kind in ("D", "3D", "7D", "M"):
        for T in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
            for nan in (False, True):
                yield {"kind": kind, "T": T, "nan": nan}


def run_value(cfg, tr):
    T, kind = cfg["T"], cfg["kind"]
    nan = float("nan")
    h = histories([-1.0, 0.0, nan if cfg["nan"] else 1.0, 2.5] if T < 5 else [-1.0, nan if cfg["nan"] else 0.0, 2.5], T)
    n = len(h)
    m, days, dates = model(kind, T, n)
    a, y = Input(m, "a", max_flow=0.0), Output(m, "y")
    a.connect(y)
    p = from_history(m, h)
    p.name = "p"
    ser = table(h)
    names = list(AGG)
    recs, roll, one, prof = [], [], [], []
    for i, tf in enumerate(names):
        sf = names[(i * 5 + 3) % len(names)]
        for ign in (False, True):
            recs.append((NumpyArrayParameterRecorder(m, p, temporal_agg_func=spec(tf), agg_func=spec(sf), ignore_nan=ign, name="n%s%d" % (tf, ign)), tf, sf, ign))
        if not cfg["nan"]:
            for w in range(1, T + 2):
                roll.append((RollingWindowParameterRecorder(m, p, w, temporal_agg_func=spec(tf), name="w%s%d" % (tf, w)), w, tf))
    prof = NumpyArrayDailyProfileParameterRecorder(m, p, name="prof", temporal_agg_func="max")
    for f in (1.0, -0.5):
        one.append((TotalParameterRecorder(m, p, factor=f, name="t%g" % f), cols(lambda x: sum(x) * f, ser), "total"))
        one.append((TotalParameterRecorder(m, p, factor=f, integrate=True, name="i%g" % f), cols(lambda x: sum(v * d for v, d in zip(x, days)) * f, ser), "integrated total"))
        one.append((MeanParameterRecorder(m, p, factor=f, name="m%g" % f), cols(lambda x: sum(x) * f / T, ser), "mean"))
    m.run()
    for rec, tf, sf, ign in recs:
        check_table(rec, ser, m, "values", n)
        if cfg["nan"] and not ign and tf in ("call", "score", "weak", "count_nonzero", "p30", "p95k"):
            continue  # how these treat nan is numpy's business
        vals = cols(lambda x: agg(tf, x, ign), ser)
        require_same(rec.values(), vals, "values by %s%s" % (tf, " ignoring nan" if ign else ""), "summary")
        if any(v != v for v in vals) and (not ign and sf in ("call", "score", "weak", "count_nonzero", "p30", "p95k")):
            continue
        require_same(rec.aggregated_value(), agg(sf, vals, ign), "over scenarios by %s" % sf, "aggregated")
        tr.step(n)
    for rec, w, tf in roll:
        want = [[agg(tf, [ser[u][s] for u in range(max(0, t - w + 1), t + 1)]) for s in range(n)] for t in range(T)]
        require_same(rec.data, want, "rolling %s over %d" % (tf, w), "rolling")
        require(list(rec.to_dataframe().index) == list(m.timestepper.datetime_index), "rolling index", "labels")
        tr.step(n)
    full = np.zeros((366, n))
    for t, d in enumerate(dates):
        d = m.timestepper.datetime_index[t].end_time if kind == "M" else d
        full[366 - (pd.Timestamp("2000-12-31") - pd.Timestamp(2000, d.month, d.day)).days - 1] = ser[t]
    require_same(prof.data, full, "daily profile", "series")
    require(list(prof.to_dataframe().index) == list(range(1, 367)), "daily profile index", "labels")
    for rec, want, what in one:
        require_same(rec.values(), want, what, "summary")
        tr.step(n)
    done(tr, cfg, m, n)


# ---- years -------------------------------------------------------------------

RUNS = [("2000-12-29", 1, 5), ("1999-12-30", 1, 5), ("2000-02-27", 1, 4), ("2001-02-27", 1, 4), ("2000-12-18", 7, 5), ("2001-11-01", "M", 4), ("1999-12-10", 10, 4), ("2000-12-31", 1, 2),
        ("2003-12-28", 2, 4), ("1999-06-01", 200, 5), ("2000-12-20", 13, 2), ("2000-12-20", 14, 2)]


def span(start, delta, T):
    """[(first day, days, calendar date)]"""
    if delta == "M":
        ps = pd.period_range(start, periods=T, freq="M")
        return [(p.start_time.normalize(), p.days_in_month, p.end_time.normalize()) for p in ps], str(ps[-1].end_time.date())
    s = pd.Timestamp(start)
    out = [(s + pd.Timedelta(days=delta * t), delta, s + pd.Timedelta(days=delta * t)) for t in range(T)]
    return out, str((out[-1][0] + pd.Timedelta(days=delta - 1)).date())


def gen_year(tier):
    for i in range(len(RUNS)):
        for part in range(3):
            for cut in ((0,) if isinstance(RUNS[i][1], str) else (0, 1)):  # the run may end within its last step
                yield {"run": i, "part": part, "cut": cut, "top": 3 if tier == "quick" else 4}


def run_year(cfg, tr):
    start, delta, T = RUNS[cfg["run"]]
    steps, end = span(start, delta, T)
    if cfg["cut"]:
        end = str(steps[-1][0].date())
    top = cfg["top"] if T < 5 else 2 if cfg["top"] == 3 else 3
    h = histories(list(range(top)), T)
    n = len(h)
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=n)
    a = Input(m, "a", max_flow=Fn(m, lambda t, si: float(h[si[0]][t])))
    b = Input(m, "b", max_flow=Fn(m, lambda t, si: 1.0 + h[si[0]][t] * t))
    y = Output(m, "y", cost=-1.0)
    a.connect(y), b.connect(y)
    p = FnIndex(m, lambda t, si: h[si[0]][t], name="p")
    q = FnIndex(m, lambda t, si: h[si[0]][-1 - t], name="q")
    y0, y1 = pd.Timestamp(start).year, pd.Timestamp(end).year
    years = list(range(y0, y1 + 1))
    recs = []
    if cfg["part"] == 0:
        for fs in (None, [1.0, -2.0], [0.5, 0.25]):
            for nodes, ws in (([a, b], fs), ([a], fs and fs[:1])):
                for tf in ("sum", "max", "mean"):
                    r = AnnualTotalFlowRecorder(m, "r%d" % len(recs), nodes, temporal_agg_func=tf, **({} if fs is None else {"factors": ws}))
                    want = np.zeros((len(years), n))
                    for t, (first, days, _) in enumerate(steps):
                        for k in range(days):
                            i = (first + pd.Timedelta(days=k)).year - y0
                            if i < len(years):
                                for j, node in enumerate(nodes):
                                    w = 1.0 if ws is None else ws[j]
                                    want[i] += [w * (float(x[t]) if node is a else 1.0 + x[t] * t) for x in h]
                    recs.append((r, want, tf))
        m.run()
        for r, want, tf in recs:
            require_same(r.data, want, "annual totals", "annual", 1e-8)
            df = r.to_dataframe()
            require_same(df.values, want, "annual totals table", "annual", 1e-8)
            require([i.year for i in df.index] == years, "annual index %r" % (df.index,), "labels")
            require_same(r.values(), cols(lambda x: agg(tf, x), want.tolist()), "annual totals by " + tf, "annual", 1e-8)
            tr.step(n)
    elif cfg["part"] == 1:
        for thr in (1, 2):
            for ps in ([p], [p, q], [q, p]):
                for ex in (None, [12], [1, 2], [2, 3, 12]):
                    for frm, to in ((None, None), ((12, 30), None), (None, (1, 2)), ((2, 28), (3, 1)), ((1, 1), (12, 31)), ((12, 31), (12, 31)), ((3, 1), (12, 30))):
                        kw = {}
                        if ex is not None:
                            kw["exclude_months"] = ex
                        if frm:
                            kw.update(include_from_month=frm[0], include_from_day=frm[1])
                        if to:
                            kw.update(include_to_month=to[0], include_to_day=to[1])
                        tf = ("sum", "max", "min")[len(recs) % 3]
                        r = AnnualCountIndexThresholdRecorder(m, ps, "r%d" % len(recs), thr, temporal_agg_func=tf, **kw)
                        want = np.zeros((len(years), n))
                        for t, (_, _, day) in enumerate(steps):
                            if ex and day.month in ex:
                                continue
                            if frm and (day.month, day.day) < frm or to and (day.month, day.day) > to:
                                continue
                            want[day.year - y0] += [1.0 if any((x[t] if z is p else x[-1 - t]) >= thr for z in ps) else 0.0 for x in h]
                        recs.append((r, want, tf))
        m.run()
        for r, want, tf in recs:
            require_same(r.data, want, "annual counts %r" % r.name, "annual")
            df = r.to_dataframe()
            require_same(df.values, want, "annual counts table", "annual")
            require([i.year for i in df.index] == years, "annual index", "labels")
            require_same(r.values(), cols(lambda x: agg(tf, x), want.tolist()), "annual counts by " + tf, "annual")
            tr.step(n)
    else:
        for thr in (1, 2, 3):
            r = AnnualCountIndexParameterRecorder(m, p, thr, name="a%d" % thr)
            ys = sorted({d.year for _, _, d in steps})
            recs.append((r, [float(sum(1 for yy in ys if any(x[t] >= thr for t, s in enumerate(steps) if s[2].year == yy))) for x in h], "years at or above %d" % thr))
            r = TimestepCountIndexParameterRecorder(m, p, thr, name="c%d" % thr)
            recs.append((r, [float(sum(1 for v in x if v >= thr)) for x in h], "steps at or above %d" % thr))
        arr = NumpyArrayIndexParameterRecorder(m, p, name="arr")
        m.run()
        for r, want, what in recs:
            require_same(r.values(), want, what, "annual")
            require_same(r.aggregated_value(), sum(want) / n, what + " over scenarios", "aggregated")
            tr.step(n)
        check_table(arr, table(h), m, "indices", n)
    done(tr, cfg, m, n)


# ---- comparisons with targets and observations -------------------------------

def gen_target(tier):
    for how in ("lower", "upper", "both"):
        for width in ("one", "combos", "scenario"):
            yield {"what": "deviation", "how": how, "width": width}
    for T in (2, 3) if tier == "quick" else (2, 3, 4):
        for obs in ("frame", "series"):
            yield {"what": "observed", "T": T, "obs": obs}
    for refl in (True, False):
        for T in (3, 6):
            yield {"what": "kde", "refl": refl, "T": T}


def run_target(cfg, tr):
    if cfg["what"] == "deviation":
        T = 3
        h = histories([0.0, 1.0, 2.5], T)
        flow = table(h)
        n = len(h)
        m, days, dates = model("D", T, n)
        Scenario(m, "other", size=2)
        Scenario(m, "last", size=3)
        a, y = Input(m, "a", max_flow=from_history(m, h)), Output(m, "y", cost=-1.0)
        a.connect(y)
        combos = [(i, j, k) for i in range(n) for j in range(2) for k in range(3)]
        ps = [0.0, 60.0, 100.0]
        recs = []
        lows = [[0.0, 1.0, 2.0], [1.0, 1.5, 2.0], [3.0, 0.5, 0.0]]
        ups = [[0.5, 2.0, 2.5], [2.0, 1.0, 0.5], [1.0, 3.0, 4.0]]
        for i, lo in enumerate(lows):
            for j, up in enumerate(ups):
                def widen(base_):
                    if cfg["width"] == "one":
                        return base_, lambda c: base_
                    if cfg["width"] == "combos":
                        arr = [[v + 0.01 * k for k in range(len(combos))] for v in base_]
                        return arr, lambda c: [r[c] for r in arr]
                    arr = [[v + 0.5 * k for k in range(2)] for v in base_]
                    return arr, lambda c: [r[combos[c][1]] for r in arr]
                kw, pick = {}, {}
                if cfg["how"] != "upper":
                    kw["lower_target_fdc"], pick["lo"] = widen(lo)
                if cfg["how"] != "lower":
                    kw["upper_target_fdc"], pick["up"] = widen(up)
                if cfg["width"] == "scenario":
                    kw["scenario"] = m.scenarios["other"]
                tf = ("mean", "max", "sum", "median")[(i + j) % 4]
                recs.append((FlowDurationCurveDeviationRecorder(m, y, ps, temporal_agg_func=tf, name="r%d%d" % (i, j), ignore_nan=True, **kw), pick, tf))
        m.run()
        for rec, pick, tf in recs:
            want = np.zeros((len(ps), len(combos)))
            for c, (s, _, _) in enumerate(combos):
                lo = pick["lo"](c) if "lo" in pick else None
                up = pick["up"](c) if "up" in pick else None
                for k, q in enumerate(ps):
                    f = percentile([r[s] for r in flow], q)
                    if (up is not None and up[k] == 0) or (lo is not None and lo[k] == 0):
                        want[k, c] = float("nan")
                        continue
                    want[k, c] = max(0.0, (f - up[k]) / up[k] if up is not None else 0.0, (lo[k] - f) / lo[k] if lo is not None else 0.0)
            require_same(rec.fdc_deviations, want, "deviations", "deviation")
            df, fdc = rec.to_dataframe(return_fdc=True)
            require_same(df.values, want, "deviation table", "deviation")
            require(list(df.index) == ps and list(fdc.index) == ps, "deviation index", "labels")
            require_same(rec.values(), cols(lambda x: agg(tf, x, True), want.tolist()), "deviation values by " + tf, "deviation")
            tr.step(len(combos))
        return done(tr, cfg, m, n)
    if cfg["what"] == "observed":
        T = cfg["T"]
        h = histories([0.0, 1.0, 2.5], T)
        if cfg["obs"] == "series":
            todo = [[x] for x in h]
        else:
            todo = [h]
        for hist in todo:
            n = len(hist)
            m, days, dates = model("D", T, n)
            a, y = Input(m, "a", max_flow=from_history(m, hist)), Output(m, "y", cost=-1.0)
            a.connect(y)
            # observed values cover more than the run
            idx = pd.period_range(pd.Timestamp(dates[0]) - pd.Timedelta(days=2), periods=T + 4, freq="D")
            obs = [[0.5 + ((t * 3 + s) % 4) for s in range(n)] for t in range(T + 4)]
            frame = pd.DataFrame(obs, index=idx)
            recs = {}
            for nm, fn in (("RootMeanSquaredErrorNodeRecorder", lambda o, f: math.sqrt(sum((x - z) ** 2 for x, z in zip(o, f)) / T)),
                           ("MeanAbsoluteErrorNodeRecorder", lambda o, f: sum(abs(x - z) for x, z in zip(o, f)) / T),
                           ("MeanSquareErrorNodeRecorder", lambda o, f: sum((x - z) ** 2 for x, z in zip(o, f)) / T),
                           ("PercentBiasNodeRecorder", lambda o, f: 100.0 * sum(x - z for x, z in zip(o, f)) / sum(o)),
                           ("RMSEStandardDeviationRatioNodeRecorder", lambda o, f: math.sqrt(sum((x - z) ** 2 for x, z in zip(o, f)) / T) / math.sqrt(sum((x - sum(o) / T) ** 2 for x in o) / T)),
                           ("NashSutcliffeEfficiencyNodeRecorder", lambda o, f: 1.0 - sum((x - z) ** 2 for x, z in zip(o, f)) / sum((x - sum(o) / T) ** 2 for x in o))):
                recs[nm] = (getattr(calibration, nm)(m, y, frame, name=nm), fn)
            m.run()
            for nm, (rec, fn) in recs.items():
                want = [fn([obs[t + 2][s] for t in range(T)], hist[s]) for s in range(n)]
                require_same(np.asarray(rec.values(), float), want, nm, "observed")
                require_same(rec.aggregated_value(), sum(want) / n, nm + " over scenarios", "aggregated")
                tr.step(n)
        return done(tr, cfg, m, n)
    # one density over all scenarios' volumes
    from scipy.stats import gaussian_kde
    T = cfg["T"]
    vols = [[8.0, 6.0, 3.0, 1.0, 4.0, 9.0][:T], [2.0, 5.0, 9.0, 10.0, 7.0, 3.0][:T]]
    m, days, dates = model("D", T, 2)
    d = lambda t, si: vols[si[0]][t] - (vols[si[0]][t - 1] if t else 6.0)
    a = Input(m, "a", min_flow=Fn(m, lambda t, si: max(d(t, si), 0.0)), max_flow=Fn(m, lambda t, si: max(d(t, si), 0.0)))
    y = Output(m, "y", min_flow=Fn(m, lambda t, si: max(-d(t, si), 0.0)), max_flow=Fn(m, lambda t, si: max(-d(t, si), 0.0)))
    st = Storage(m, "st", max_volume=10.0, initial_volume=6.0)
    a.connect(st), st.connect(y)
    cc = ConstantParameter(m, 0.5)
    recs = []
    for tgt in (0.1, 0.5, 1.0):
        for res in (None, ("2D", "min")):
            kw = {} if res is None else dict(resample_freq=res[0], resample_func=res[1])
            recs.append((GaussianKDEStorageRecorder(m, st, target_volume_pc=tgt, num_pdf=7, use_reflection=cfg["refl"], name="k%s%s" % (tgt, res), **kw), tgt, res, False))
    for res in (None, ("2D", "min")):
        kw = {} if res is None else dict(resample_freq=res[0], resample_func=res[1])
        recs.append((NormalisedGaussianKDEStorageRecorder(m, st, parameter=cc, num_pdf=7, use_reflection=cfg["refl"], name="n%s" % (res,), **kw), 0.0, res, True))
    m.run()
    for rec, tgt, res, norm in recs:
        pc = [[v / 10.0 for v in r] for r in vols]
        if norm:
            pc = [[v / 0.5 - 1.0 if v < 0.5 else (v - 0.5) / 0.5 for v in r] for r in pc]
        if res:
            pc = [[min(r[k:k + 2]) for k in range(0, T, 2)] for r in pc]
        x = [v for r in pc for v in r]
        lo, up = (-1.0, 1.0) if norm else (0.0, 1.0)
        sets = [x] + ([[2 * lo - v for v in x], [2 * up - v for v in x]] if cfg["refl"] else [])
        ks = [gaussian_kde(s) for s in sets]
        require_same(rec.aggregated_value(), sum(k.integrate_box_1d(lo, tgt) for k in ks), "probability of %g" % tgt, "kde", 1e-6)
        df = rec.to_dataframe()
        require(len(df) == 7, "points of the density", "kde")
        require_same(df.values[:, 0], [float(sum(k(float(q))[0] for k in ks)) for q in df.index], "density", "kde", 1e-6)
        if not norm:
            require_same(df.index, [i / 6.0 for i in range(7)], "points of the density", "kde")
        tr.step()
    done(tr, cfg, m, 2)


# ---- starting again, or later -------------------------------------------------

def gen_again(tier):
    for kind in ("D", "3D", "M"):
        T = 4 if tier == "quick" else 5
        for before in range(T + 1):  # steps made by an earlier, perhaps unfinished run
            for first in range(T):
                yield {"kind": kind, "T": T, "before": before, "first": first}


def run_again(cfg, tr):
    T, kind, before, first = cfg["T"], cfg["kind"], cfg["before"], cfg["first"]
    h = histories([0.0, 1.0, 2.5], T)
    n = len(h)
    m, days, dates = model(kind, T, n)
    a, y = Input(m, "a", max_flow=from_history(m, h)), Output(m, "y", max_flow=2.0, cost=-1.0)
    a.connect(y)
    p = FnIndex(m, lambda t, si: int(h[si[0]][t]), name="p")
    used = range(first, T)
    flow = [[min(x[t], 2.0) if t >= first else 0.0 for x in h] for t in range(T)]
    raw = [[int(x[t]) if t >= first else 0 for x in h] for t in range(T)]
    one = [(TotalFlowNodeRecorder(m, y, name="t"), cols(lambda x: sum(f * d for f, d in zip(x, days)), flow)),
           (TotalDeficitNodeRecorder(m, y, name="td"), [sum((2.0 - min(x[t], 2.0)) * days[t] for t in used) for x in h]),
           (TimestepCountIndexParameterRecorder(m, p, 1, name="tc"), [float(sum(1 for t in used if int(x[t]) >= 1)) for x in h])]
    series = [(NumpyArrayNodeRecorder(m, y, name="n"), flow), (NumpyArrayNodeDeficitRecorder(m, y, name="nd"), [[2.0 - min(x[t], 2.0) if t >= first else 0.0 for x in h] for t in range(T)]),
              (NumpyArrayIndexParameterRecorder(m, p, name="ni"), raw)]
    roll = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for w in range(1, T + 1):
            roll.append((RollingMeanFlowNodeRecorder(m, y, timesteps=w, name="w%d" % w), flow, w, "mean"))
            for tf in ("mean", "max", "min", "sum", "median"):
                roll.append((RollingWindowParameterRecorder(m, p, w, temporal_agg_func=tf, name="rw%d%s" % (w, tf)), raw, w, tf))
    m.setup()
    m.reset()
    for _ in range(before):
        m.step()
    m.reset(start=m.timestepper.datetime_index[first].start_time)
    for _ in used:
        m.step()
    m.finish()
    for rec, want in one:
        require_same(rec.values(), want, "%s from step %d" % (rec.name, first), "again")
        tr.step(n)
    for rec, want in series:
        require_same(rec.data, want, "%s from step %d" % (rec.name, first), "again")
        tr.step(n)
    for rec, ser, w, tf in roll:
        want = [[agg(tf, [ser[u][s] for u in range(max(first, t - w + 1), t + 1)]) for s in range(n)] for t in used]
        require_same(np.asarray(rec.data)[first:], want, "%s from step %d" % (rec.name, first), "again")
        tr.step(n)
    done(tr, cfg, m, n)


GROUPS = {"again": (gen_again, run_again), "flow": (gen_flow, run_flow), "volume": (gen_volume, run_volume), "value": (gen_value, run_value), "year": (gen_year, run_year), "target": (gen_target, run_target)}
