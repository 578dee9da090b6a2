"""P11: profile parameters on every calendar date."""
import calendar
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from pywr.parameters import (DailyProfileParameter, WeeklyProfileParameter, MonthlyProfileParameter,
                             ScenarioDailyProfileParameter, ScenarioWeeklyProfileParameter,
                             ScenarioMonthlyProfileParameter, UniformDrawdownProfileParameter,
                             RbfProfileParameter, WeightedAverageProfileParameter, ConstantParameter,
                             AnnualHarmonicSeriesParameter, ArrayIndexedScenarioMonthlyFactorsParameter,
                             load_parameter)
from pywr.nodes import Storage
from mc.harness import require
from mc.probe import base, Grab, require_same

DAY = dt.timedelta(days=1)
LEN = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
WINDOWS = [("1899-12-20", "1901-01-10"), ("1999-12-20", "2002-01-10"), ("2003-02-20", "2005-03-10"), ("2099-12-25", "2101-01-10")]
MORE = [("1896-01-01", "1905-01-10"), ("1999-12-20", "2009-01-10"), ("2096-12-25", "2105-01-10")]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def slot(d):
    """position in a 366-day year: 29 February keeps its place in every year"""
    return sum(LEN[:d.month - 1]) + d.day - 1


def dates(start, end, delta):
    s, e = pd.Timestamp(start).date(), pd.Timestamp(end).date()
    if delta == "M":
        out = []
        y, m = s.year, s.month
        while dt.date(y, m, 1) <= e:
            # a monthly timestep carries the calendar fields of the month's last day
            out.append(dt.date(y, m, calendar.monthrange(y, m)[1]))
            m += 1
            if m == 13:
                y, m = y + 1, 1
        return out
    out = []
    while s <= e:
        out.append(s)
        s += delta * DAY
    return out


def monthly(values, how, d):
    if how is None:
        return values[d.month - 1]
    day = d.day
    if d.month == 2 and day == 29:
        day = 28
    n = calendar.monthrange(2015, d.month)[1]
    m = d.month - 1
    if how == "first":
        a, b, w = values[m], values[(m + 1) % 12], (day - 1) / n
    else:
        a, b, w = values[m - 1], values[m], day / n
    return a + (b - a) * w


def rbf(days, values, lo, hi, d, kw):
    from scipy.interpolate import Rbf
    f = Rbf([days[-1] - 365] + list(days) + [366, 365 + days[1]], [values[-1]] + list(values) + [values[0], values[1]], **kw)
    y = np.clip(f(np.arange(1, 366)), lo, hi)

    def get(d):
        if d.month == 2 and d.day == 29:
            d = d - DAY
        return y[(dt.date(2015, d.month, d.day) - dt.date(2015, 1, 1)).days]
    return get


def drawdown(rm, rd, resid, d):
    """1 on the reset day and a day's share less on every day after it."""
    past = (d.month, d.day) >= (rm, rd)
    y0 = d.year if past else d.year - 1
    if rm > 2:
        n = (dt.date(y0 + 1, rm, rd) - dt.date(y0, rm, rd)).days
        k = (d - dt.date(y0, rm, rd)).days
    else:
        # days are counted in places of the 366-day year
        n = 366 if leap(y0) else 365
        k = slot(d) - slot(dt.date(2016, rm, rd))
        if k < 0:
            k += 366
    return 1 - (1 - resid / n) * k / n


def harmonic(mean, amps, phs, d):
    k = (d - dt.date(d.year, 1, 1)).days
    return mean + sum(a * np.cos(k * (i + 1) * 2 * np.pi / 365 + p) for i, (a, p) in enumerate(zip(amps, phs)))


def windows(tier):
    return WINDOWS if tier == "quick" else WINDOWS + MORE


def gen_dates(tier):
    out = []
    for w in windows(tier):
        for delta in (1, 2, 7, 10, "M"):
            out.append({"w": w, "delta": delta})
    return out


def run_params(m, params, tr):
    g = Grab(m, params)
    m.run()
    tr.run()
    return g.vals()


def run_dates(cfg, tr):
    """Lookup profiles: distinct values per place, so any wrong place shows; interpolated
    monthly profiles: the twelve unit profiles, which span all profiles by linearity."""
    start, end = cfg["w"]
    delta = cfg["delta"]
    ds = dates(start, end, delta)
    m = base(start, end=pd.Timestamp(end), delta=delta, S=[2, 3])
    sc = list(m.scenarios.scenarios)
    P, W = [], []
    day = [1000.0 + 3 * i for i in range(366)]
    week = [7.0 * i + 1 for i in range(52)]
    mon = [3.0, 1, 4, 1.5, 5, 9, 2, 6, 5.5, 3.5, 8, 9.5]

    def add(p, f):
        P.append(p)
        W.append([[f(d, s) for s in itertools.product(range(2), range(3))] for d in ds])

    wk = lambda d: min(slot(d) // 7, 51)
    add(DailyProfileParameter(m, day), lambda d, s: day[slot(d)])
    add(DailyProfileParameter(m, np.array(day)[None, :].reshape(366)), lambda d, s: day[slot(d)])
    add(WeeklyProfileParameter(m, week), lambda d, s: week[wk(d)])
    add(WeeklyProfileParameter(m, week + [999.0]), lambda d, s: week[wk(d)])
    add(MonthlyProfileParameter(m, mon), lambda d, s: mon[d.month - 1])
    for how in ("first", "last"):
        for k in range(12):
            v = [0.0] * 12
            v[k] = 1.0
            add(MonthlyProfileParameter(m, v, interp_day=how), lambda d, s, v=v: monthly(v, how, d))
        add(MonthlyProfileParameter(m, mon, interp_day=how), lambda d, s: monthly(mon, how, d))
    add(ScenarioDailyProfileParameter(m, sc[1], [[10 * x + j for x in day] for j in range(3)]),
        lambda d, s: 10 * day[slot(d)] + s[1])
    add(ScenarioDailyProfileParameter(m, sc[0], [[10 * x + j for x in day] for j in range(2)]),
        lambda d, s: 10 * day[slot(d)] + s[0])
    add(ScenarioWeeklyProfileParameter(m, sc[1], [[10 * x + j for x in week] for j in range(3)]),
        lambda d, s: 10 * week[wk(d)] + s[1])
    add(ScenarioMonthlyProfileParameter(m, sc[1], np.array([[10 * x + j for x in mon] for j in range(3)])),
        lambda d, s: 10 * mon[d.month - 1] + s[1])
    vals = [2.0 + i for i in range(len(ds))]
    at = {d: v for d, v in zip(ds, vals)}
    fac = np.array([[10 * x + j for x in mon] for j in range(2)])
    add(ArrayIndexedScenarioMonthlyFactorsParameter(m, sc[0], vals, fac), lambda d, s: at[d] * fac[s[0], d.month - 1])
    for amps, phs in (([1.0], [0.0]), ([0.5, 2.0], [0.3, 1.0]), ([0, 0, 1.0], [0, 0, 2.0])):
        add(AnnualHarmonicSeriesParameter(m, 1.5, amps, phs), lambda d, s, a=amps, p=phs: harmonic(1.5, a, p, d))
    got = run_params(m, P, tr)
    require(len(got) == len(ds), "%d steps, want %d" % (len(got), len(ds)), "steps")
    want = np.array(W).transpose(1, 0, 2)
    for j, p in enumerate(P):
        require_same(got[:, j], want[:, j], "%s on %s" % (type(p).__name__, ds[0]), "date:" + type(p).__name__)
    tr.step(got.size)
    for d in ds:
        tr.state(str(d))
    tr.outcome = (str(cfg["w"]), str(delta), float(got.sum()))


def gen_draw(tier):
    return [{"w": w, "m": mth, "delta": d} for w in windows(tier) for mth in range(1, 13) for d in (1, 5)]


def run_draw(cfg, tr):
    start, end = cfg["w"]
    ds = dates(start, end, cfg["delta"])
    m = base(start, end=pd.Timestamp(end), delta=cfg["delta"])
    P, W = [], []
    for rd in range(1, LEN[cfg["m"] - 1] + 1):
        if (cfg["m"], rd) == (2, 29):
            continue  # a date that most years do not have: see DESIGN.md
        for resid in (0, 10):
            kw = dict(reset_day=rd, reset_month=cfg["m"], residual_days=resid)
            if rd % 2:
                p = UniformDrawdownProfileParameter(m, **kw)
            else:
                p = load_parameter(m, dict(kw, type="uniformdrawdownprofile"))
            P.append(p)
            W.append([drawdown(cfg["m"], rd, resid, d) for d in ds])
    got = run_params(m, P, tr)[:, :, 0]
    want = np.array(W).T
    require_same(got, want, "drawdown from month %d" % cfg["m"], "drawdown")
    require((np.asarray(got) <= 1 + 1e-12).all() and (got >= -1e-12).all(), "drawdown out of range", "drawdown")
    tr.step(got.size)
    tr.state(cfg["w"], cfg["m"], cfg["delta"])
    tr.outcome = (cfg["m"], float(got.sum()))


def gen_rbf(tier):
    days = [[1, 100, 200], [1, 59, 60, 300], [1, 2, 365], [1, 90, 180, 270], [1, 150, 364]]
    kws = [{}, {"function": "linear"}, {"function": "gaussian", "epsilon": 40.0}]
    caps = [(-np.inf, np.inf), (0.2, 0.7), (-np.inf, 0.5), (0.4, np.inf)]
    return [{"days": d, "kw": k, "cap": [None if np.isinf(x) else x for x in c], "how": h}
            for d in days for k in kws for c in caps for h in ("py", "json", "setvars")]


def run_rbf(cfg, tr):
    days = cfg["days"]
    values = [0.5, 0.9, 0.1, 0.6][:len(days)]
    kw = {}
    lo, hi = cfg["cap"]
    if lo is not None:
        kw["min_value"] = lo
    if hi is not None:
        kw["max_value"] = hi
    start, end = "2015-12-20", "2017-03-10"
    ds = dates(start, end, 1)
    m = base(start, end=pd.Timestamp(end))
    if cfg["how"] == "json":
        p = load_parameter(m, dict(type="rbfprofile", days_of_year=days, values=values, rbf_kwargs=dict(cfg["kw"]), **kw))
    else:
        p = RbfProfileParameter(m, days, values, rbf_kwargs=dict(cfg["kw"]), **kw)
    g = Grab(m, [p])
    m.run()
    tr.run()
    if cfg["how"] == "setvars":
        # new values and days take effect in the next run
        values = [1 - v for v in values]
        days = [1] + [d + (3 if d < 300 else -9) for d in days[1:]]
        p.set_double_variables(np.array(values))
        p.set_integer_variables(np.array(days[1:], dtype=np.int32))
        m.run()
        tr.run()
    f = rbf(days, values, -np.inf if lo is None else lo, np.inf if hi is None else hi, None, cfg["kw"])
    got = g.vals()[:, 0, 0]
    require_same(got, [f(d) for d in ds], "rbf %r" % (cfg,), "rbf", 1e-7)
    tr.step(len(ds))
    tr.state(str(cfg))
    tr.outcome = (str(cfg["days"]), float(np.round(got.sum(), 6)))


KINDS = ["const", "daily", "monthly", "first", "last"]


def profile(m, kind, k):
    """-> (parameter, value on a date)"""
    mon = [(3.0 * k + 5 * j) % 11 / 11 for j in range(12)]
    if kind == "const":
        return ConstantParameter(m, 0.25 + k), lambda d: 0.25 + k
    if kind == "daily":
        v = [((i * 7 + k) % 13) / 13 for i in range(366)]
        return DailyProfileParameter(m, v), lambda d: v[slot(d)]
    how = None if kind == "monthly" else kind
    return MonthlyProfileParameter(m, mon, interp_day=how), lambda d: monthly(mon, how, d)


def gen_avg(tier):
    vols = [[10.0], [1.0], [10.0, 30.0], [30.0, 10.0], [5.0, 0.0], [1.0, 2.0, 7.0]]
    out = []
    for v in vols:
        for ks in itertools.product(KINDS, repeat=len(v)):
            if len(v) == 3 and tier == "quick" and len(set(ks)) == 2:
                continue
            for c in ("num", "const"):
                out.append({"v": v, "k": ks, "c": c})
    return out


def run_avg(cfg, tr):
    start, end = "2015-12-25", "2016-03-10"
    ds = dates(start, end, 1) if len(cfg["v"]) < 3 else dates(start, end, 9)
    m = base(start, end=pd.Timestamp(end), delta=1 if len(cfg["v"]) < 3 else 9)
    st, pr, fs = [], [], []
    for i, (v, k) in enumerate(zip(cfg["v"], cfg["k"])):
        s = Storage(m, "st%d" % i, max_volume=v if cfg["c"] == "num" else ConstantParameter(m, v), initial_volume=0.0)
        m.nodes["in"].connect(s)
        s.connect(m.nodes["out"])
        p, f = profile(m, k, i)
        st.append(s)
        pr.append(p)
        fs.append(f)
    p = WeightedAverageProfileParameter(m, st, pr)
    g = Grab(m, [p])
    tot = sum(cfg["v"])
    want = np.array([sum(v * f(d) for v, f in zip(cfg["v"], fs)) / tot for d in ds])
    m.run()
    require_same(g.vals()[:, 0, 0], want, "weighted average %r" % (cfg,), "weighted")
    m.run()
    require_same(g.vals()[:, 0, 0], want, "weighted average, second run %r" % (cfg,), "weighted")
    tr.run(2)
    tr.step(2 * len(ds))
    tr.state(str(cfg))
    tr.outcome = (str(cfg["v"]), float(want.sum()))


def gen_set(tier):
    return [{"how": h, "k": k} for h in (None, "first", "last") for k in range(12)]


def run_set(cfg, tr):
    """A changed monthly value takes effect in the next run, in every form of the profile."""
    start, end = "2015-12-25", "2017-01-05"
    ds = dates(start, end, 1)
    m = base(start, end=pd.Timestamp(end))
    p = MonthlyProfileParameter(m, [1.0 + j for j in range(12)], interp_day=cfg["how"])
    g = Grab(m, [p])
    m.run()
    v = [1.0 + j for j in range(12)]
    v[cfg["k"]] = 30.0
    p.set_double_variables(np.array(v))
    require(list(p.get_double_variables()) == v, "variables read back %r" % (list(p.get_double_variables()),), "set")
    m.run()
    tr.run(2)
    require_same(g.vals()[:, 0, 0], [monthly(v, cfg["how"], d) for d in ds], "changed profile %r" % (cfg,), "set")
    daily = np.asarray(p.get_daily_values())
    want = [monthly(v, cfg["how"], dt.date(2016, 1, 1) + k * DAY) for k in range(366)]
    require_same(daily, want, "get_daily_values %r" % (cfg,), "daily-values")
    tr.step(len(ds) + 366)
    tr.state(str(cfg))
    tr.outcome = str(cfg)


GROUPS = {"dates": (gen_dates, run_dates), "drawdown": (gen_draw, run_draw), "rbf": (gen_rbf, run_rbf),
          "weighted": (gen_avg, run_avg), "set": (gen_set, run_set)}
TECHNIQUE = "exhaustive enumeration of calendar dates x profile kinds x reset days; the values of real runs are compared with calendar arithmetic written independently"
BOUNDS = ("Every date of four windows (1899-1901, 1999-2002, 2003-2005, 2099-2101; thorough adds 1896-1905, 1999-2009, 2096-2105) at steps of 1, 2, 7, 10 days and a month; "
          "lookup profiles with distinct values per place, all 12 unit monthly profiles per interpolation rule; all 365 reset days x 2 residuals; "
          "5 day sets x 3 kernels x 4 caps of radial-basis profiles; 1-3 storages x 5 profile kinds of weighted averages. Uniform drawdown on 29 February excluded.")
