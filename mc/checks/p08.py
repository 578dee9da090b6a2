"""The simulated calendar against plain `datetime` arithmetic."""
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from mc.harness import require

DAY = dt.timedelta(days=1)
UNITS = {"M": 1, "2M": 2, "3M": 3, "Q": 3, "Y": 12}


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_start(y, m):
    y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
    return dt.datetime(y, m, 1)


def reference(start, end, delta):
    """[(period start, period end exclusive, date whose calendar fields the step carries)]"""
    out = []
    if isinstance(delta, str) and delta in UNITS:
        n = UNITS[delta]
        unit = {"Q": 3, "Y": 12}.get(delta, 1)
        m = start.month
        if delta == "Q":
            m = (start.month - 1) // 3 * 3 + 1
        elif delta == "Y":
            m = 1
        k = 0
        while month_start(start.year, m + n * k) <= end:
            s = month_start(start.year, m + n * k)
            e = month_start(start.year, m + n * (k + 1))
            out.append((s, e, month_start(start.year, m + n * k + unit) - DAY))
            k += 1
        return out
    if isinstance(delta, str) and delta.lstrip("0123456789").startswith("W"):
        n = int(delta[: delta.index("W")] or 1)
        last = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"].index(delta.partition("-")[2] or "SUN")
        s = start
        while (s - DAY).weekday() != last:
            s -= DAY
        s = dt.datetime(s.year, s.month, s.day)
        while s <= end:
            e = s + n * 7 * DAY
            out.append((s, e, s + 6 * DAY))
            s = e
        return out
    if isinstance(delta, str) and delta.endswith("h"):
        w = dt.timedelta(hours=int(delta[:-1] or 1))
    elif isinstance(delta, str):
        w = int(delta[:-1] or 1) * DAY
    else:
        w = int(delta) * DAY
    s = start
    while s <= end:
        out.append((s, s + w, s))
        s += w
    return out


def doy_index(d):
    i = d.timetuple().tm_yday - 1
    return i + 1 if (not leap(d.year) and d.month > 2) else i


def check_ts(ts, i, ref, tr):
    s, e, d = ref
    days = (e - s).total_seconds() / 86400
    year_end = dt.datetime(s.year + 1, 1, 1)
    doy = d.timetuple().tm_yday
    di = doy_index(d)
    want = dict(index=i, days=days, day=d.day, month=d.month, year=d.year, dayofyear=doy,
                dayofyear_index=di, week_index=min(di // 7, 51), is_leap_year=leap(d.year))
    for k, v in want.items():
        got = getattr(ts, k)
        require(got == v, lambda: "step %d (%s..%s): %s is %r, calendar says %r" % (i, s, e, k, got, v), "field-" + k)
    require(pd.Timestamp(ts.datetime) == pd.Timestamp(s), lambda: "step %d starts %s, expected %s" % (i, ts.datetime, s), "start")
    require(pd.Timestamp(ts.period.start_time) == pd.Timestamp(s), "period start", "start")
    require(abs(pd.Timestamp(ts.period.end_time) - pd.Timestamp(e)) < pd.Timedelta(milliseconds=1),
            lambda: "step %d ends %s, expected %s" % (i, ts.period.end_time, e), "gap")
    # split of a step over the year end (only the end year of the step is relevant)
    last = (e - dt.timedelta(seconds=1)).year
    if d.year == s.year:
        cur = days if last == s.year else (dt.datetime(last, 1, 1) - s).total_seconds() / 86400
        nxt = 0.0 if last == s.year else (e - dt.datetime(last, 1, 1)).total_seconds() / 86400
        require(abs(ts.days_in_current_year() - cur) < 1e-9, lambda: "step %d: days in current year %r, expected %r" % (i, ts.days_in_current_year(), cur), "year-split")
        require(abs(ts.days_in_next_year() - nxt) < 1e-9, lambda: "step %d: days in next year %r, expected %r" % (i, ts.days_in_next_year(), nxt), "year-split")
    tr.state(d.toordinal(), days)
    tr.step()


def check_list(steps, ref, tr, what):
    require(len(steps) == len(ref), lambda: "%s: %d steps, expected %d" % (what, len(steps), len(ref)), "count")
    for i, (ts, r) in enumerate(zip(steps, ref)):
        check_ts(ts, i, r, tr)


def mk(o):
    return dt.datetime.fromordinal(o)


def decode(delta):
    if isinstance(delta, dict):
        return dt.timedelta(days=delta["td"]), delta["td"]
    return delta, delta


FORMS = ["str", "ts", "date", "datetime"]


def form(d, f):
    if f == "str":
        return d.strftime("%Y-%m-%d")
    if f == "ts":
        return pd.Timestamp(d)
    if f == "date":
        return d.date()
    return d


def windows(tier):
    years = [1899, 1900, 1999, 2000, 2015, 2016, 2100]
    out = []
    for y in years:
        if tier == "thorough":
            out.extend(range(dt.date(y, 1, 1).toordinal(), dt.date(y + 1, 1, 1).toordinal()))
        else:
            for a, b in (((2, 22), (3, 4)), ((12, 22), (12, 31)), ((1, 1), (1, 3))):
                out.extend(range(dt.date(y, *a).toordinal(), dt.date(y, *b).toordinal() + 1))
    return out


def steps_gen(tier):
    ints = [1, 2, 3, 5, 7, 10, 28, 30, 31, 365, 366]
    out = []
    for j, s in enumerate(windows(tier)):
        out.append({"start": s, "deltas": ints + ["7D", "2D", "D", {"td": 3}, {"td": 7}],
                    "spans": [0, 1, 2, 6, 7, 13, 14, 31] + ([370] if tier == "thorough" or j % 8 == 0 else []), "form": FORMS[j % 4]})
        out.append({"start": s, "deltas": ["M", "2M", "3M", "Q", "Y", "W", "W-MON", "W-WED", "W-SAT", "2W"],
                    "spans": [0, 6, 7, 61, 400], "form": FORMS[j % 4]})
        if j % 7 == 0:
            out.append({"start": s, "deltas": ["12h", "6h", "h", "24h", "48h"], "spans": [0, 1, 3], "form": FORMS[j % 4]})
    return out


def steps_run(cfg, tr):
    from pywr.timestepper import Timestepper
    start = mk(cfg["start"])
    for delta in cfg["deltas"]:
        arg, plain = decode(delta)
        for span in cfg["spans"]:
            end = start + span * DAY
            ref = reference(start, end, plain)
            t = Timestepper(form(start, cfg["form"]), form(end, cfg["form"]), arg)
            require(len(t) == len(ref), lambda: "%s + %d days by %r: %d steps, expected %d" % (start, span, delta, len(t), len(ref)), "count")
            check_list(list(t), ref, tr, "iteration")
            t.reset()
            again = [x.index for x in t]
            require(again == list(range(len(ref))), "a second iteration gives %r" % (again,), "reiterate")
            tr.run()
    tr.outcome = (cfg["start"] % 7, len(ref))


def decades_gen(tier):
    return [{"y": y, "d": d} for y in range(1880, 2121, 10) for d in ([1, 7, "M", "W"] if tier == "thorough" else [1, "M"])]


def decades_run(cfg, tr):
    from pywr.timestepper import Timestepper
    s, e = dt.datetime(cfg["y"], 1, 1), dt.datetime(cfg["y"] + 9, 12, 31)
    check_list(list(Timestepper(s, e, cfg["d"])), reference(s, e, cfg["d"]), tr, "decade")
    tr.run()
    tr.outcome = cfg["y"]


def model_gen(tier):
    starts = [dt.date(2015, 2, 26), dt.date(2016, 2, 26), dt.date(2015, 12, 28), dt.date(2000, 12, 30)]
    deltas = [1, 2, 7, "M", "W", "7D", {"td": 2}, "12h", 31]
    spans = [0, 5, 14, 45]
    return [{"start": s.toordinal(), "delta": d, "span": n, "how": h}
            for s, d, n, h in itertools.product(starts, deltas, spans, ["init", "attr", "timestepper", "json", "rerun"])]


def model_run(cfg, tr):
    from pywr.core import Model, Input, Output
    from pywr.parameters import Parameter
    from pywr.recorders import NumpyArrayNodeRecorder
    from pywr.timestepper import Timestepper
    arg, plain = decode(cfg["delta"])
    start = mk(cfg["start"])
    end = start + cfg["span"] * DAY
    seen = []

    class Probe(Parameter):
        def value(self, ts, si):
            seen.append(ts)
            return 1.0

    how = cfg["how"]
    if how == "json":
        import json
        if isinstance(arg, dt.timedelta):
            arg = arg.days
        doc = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": start.strftime("%Y-%m-%d"), "end": end.strftime("%Y-%m-%d"), "timestep": arg},
               "nodes": [], "edges": []}
        m = Model.loads(json.dumps(doc))
    elif how == "init":
        m = Model(start=start, end=end, timestep=arg)
    elif how == "timestepper":
        m = Model()
        m.timestepper = Timestepper(start, end, arg)
    elif how == "attr":
        m = Model()
        m.timestepper.start = start
        m.timestepper.end = end
        m.timestepper.delta = arg
    else:
        m = Model(start="2001-03-03", end="2001-03-09", timestep=2)
    a, b = Input(m, "a", max_flow=5), Output(m, "b", max_flow=Probe(m), cost=-10)
    a.connect(b)
    rec = NumpyArrayNodeRecorder(m, b)
    if how == "rerun":
        m.run()
        m.timestepper.start = form(start, "str")
        m.timestepper.end = form(end, "str")
        m.timestepper.delta = arg
        seen.clear()
    ref = reference(start, end, plain)
    res = m.run()
    check_list(seen, ref, tr, "run")
    require(rec.data.shape == (len(ref), 1), lambda: "recorded %r rows of %d steps" % (rec.data.shape, len(ref)), "rows")
    idx = rec.to_dataframe().index
    require([pd.Timestamp(p.start_time) for p in idx] == [pd.Timestamp(r[0]) for r in ref], "recorder dates %r" % (list(idx)[:4],), "labels")
    require(res.timesteps == len(ref), lambda: "result reports %r steps, run had %d" % (res.timesteps, len(ref)), "rows")
    tr.run()
    # a run in single steps, and one continued from inside the period
    seen.clear()
    m.reset()
    for _ in ref:
        m.step()
    check_list(seen, ref, tr, "step")
    for k in {0, len(ref) // 2, len(ref) - 1}:
        seen.clear()
        m.reset(start=pd.Timestamp(ref[k][0]))
        for _ in ref[k:]:
            m.step()
        require(len(seen) == len(ref) - k, "after reset(start) to step %d: %d steps" % (k, len(seen)), "reset-start")
        for i, ts in enumerate(seen):
            check_ts(ts, k + i, ref[k + i], tr)
        tr.run()
    tr.outcome = (len(ref), str(cfg["delta"]))


def bad_gen(tier):
    return [{"k": "delta", "v": v} for v in (0, -1, "0D", "xyz", {"td": 0})] + [{"k": "order"}, {"k": "outside"}, {"k": "days"}]


def bad_run(cfg, tr):
    from pywr.core import Model, Input, Output, Timestep
    try:
        if cfg["k"] == "delta":
            m = Model(start="2015-01-01", end="2015-01-05", timestep=decode(cfg["v"])[0])
        elif cfg["k"] == "order":
            m = Model(start="2015-01-05", end="2015-01-01")
        elif cfg["k"] == "days":
            Timestep(pd.Period("2015-01-01", freq="1D"), 0, 0)
            m = None
        else:
            m = Model(start="2015-01-01", end="2015-01-05")
        if m is not None:
            Input(m, "a", max_flow=1).connect(Output(m, "b", cost=-1, max_flow=1))
            m.setup()
            if cfg["k"] == "outside":
                m.reset(start=pd.Timestamp("2015-02-01"))
            m.run()
    except Exception:
        tr.step()
        tr.run()
        tr.state(str(cfg))
        tr.outcome = str(cfg)
        return
    require(False, "accepted %r" % (cfg,), "accepted")


GROUPS = {"steps": (steps_gen, steps_run), "decades": (decades_gen, decades_run), "model": (model_gen, model_run), "bad": (bad_gen, bad_run)}
TECHNIQUE = "exhaustive enumeration of start date x period x step length; every visited timestep of the real timestepper and of real runs compared with a datetime reference calendar"
BOUNDS = ("Starts: every day of windows round 29 Feb and the year end in seven years incl. century rules (thorough: every day of those years); "
          "16 day-based, 10 week/month/quarter/year and 5 sub-day step lengths; 8-9 spans; every date 1880-2129 by day and month; "
          "720 model runs over five ways of setting the calendar, each also stepped and continued from three positions.")
