"""P14: external series line up with the calendar of the model."""
import calendar
import datetime as dt
import itertools
import json
import os

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.dataframe_tools import align_and_resample_dataframe
from pywr.parameters import (DataFrameParameter, ArrayIndexedParameter, ArrayIndexedScenarioParameter,
                             TablesArrayParameter, load_parameter, IndexParameter)
from mc.harness import require
from mc.probe import base, Grab, require_same

H = dt.timedelta(hours=1)
D = 24 * H


def add_months(d, n):
    k = d.year * 12 + d.month - 1 + n
    return d.replace(year=k // 12, month=k % 12 + 1, day=1)


def floor(d, freq):
    """start of the calendar period that holds d"""
    d0 = dt.datetime(d.year, d.month, d.day)
    if freq == "M":
        return d0.replace(day=1)
    if freq == "Q":
        return d0.replace(month=(d.month - 1) // 3 * 3 + 1, day=1)
    if freq == "Y":
        return d0.replace(month=1, day=1)
    if freq == "W":
        return d0 - D * ((d0.weekday()) % 7)
    return d


def nxt(d, freq):
    if freq == "M":
        return add_months(d, 1)
    if freq == "Q":
        return add_months(d, 3)
    if freq == "Y":
        return add_months(d, 12)
    if freq == "W":
        return d + 7 * D
    return d + freq * H


def periods(start, freq, n):
    out = []
    s = floor(start, freq)
    for _ in range(n):
        e = nxt(s, freq)
        out.append((s, e))
        s = e
    return out


def steps_between(start, end, freq):
    out = []
    s = floor(start, freq)
    while s <= end:
        e = nxt(s, freq)
        out.append((s, e))
        s = e
    return out


FREQ = {1: "h", 6: "6h", 12: "12h", 24: "D", 48: "2D", 168: "7D", 336: "14D", "M": "M", "Q": "Q", "Y": "Y", "W": "W"}


def index_for(ps, freq, how):
    """the index of a series with these periods, as users give it"""
    if how == "period":
        f = FREQ[freq]
        return pd.PeriodIndex([pd.Period(p[0], freq=f) for p in ps], freq=f)
    alias = {"M": "MS", "Q": "QS", "Y": "YS", "W": "W-SUN"}.get(freq, FREQ[freq])
    # weeks are dated by their last day
    idx = pd.DatetimeIndex([p[1] - D if freq == "W" else p[0] for p in ps])
    if how == "freq":
        return pd.DatetimeIndex(idx, freq=alias)
    return idx


def mean_over(ps, vals, a, b):
    """time-weighted mean of the step function over [a, b); None if nothing is there"""
    tot = w = 0.0
    for (s, e), v in zip(ps, vals):
        k = (min(e, b) - max(s, a)).total_seconds()
        if k > 0:
            tot += k * v
            w += k
    return (tot / w if w else None), w == (b - a).total_seconds()


def value_at(ps, vals, a):
    for (s, e), v in zip(ps, vals):
        if s <= a < e:
            return v
    return None


def gen_align(tier):
    out = []
    data = [1, 6, 12, 24, 48, 168, "M", "Q", "Y", "W"]
    model = [24, 48, 168, "M", "W", 12]
    for df, mf in itertools.product(data, model):
        for how in ("freq", "infer", "period"):
            if how != "freq" and tier == "quick" and df in (1, 6, 48):
                continue
            out.append({"data": df, "model": mf, "how": how})
    return out


def run_align(cfg, tr):
    df_, mf = cfg["data"], cfg["model"]
    how = cfg["how"]
    big = mf in ("M",) or df_ in ("M", "Q", "Y")
    # 2000-01-03 is a Monday; starts and ends move against each other in both directions
    ms = dt.datetime(2000, 1, 3)
    span = {"M": 150, "W": 27}.get(mf, 20) if not big else 70 if mf != "M" else 150
    for mstart in (ms, ms + D, ms + 28 * D):
        for before in (-2, -1, 0, 1, 3):
            for after in (-2, -1, 0, 1, 3):
                one(cfg, tr, df_, mf, how, mstart, mstart + span * D, before, after)


def one(cfg, tr, df_, mf, how, mstart, mend, before, after):
    steps = steps_between(mstart, mend, mf)
    # the data's own grid; "before" and "after" count its periods round those the run needs
    anchor = floor(steps[0][0], df_)
    ps = periods(anchor, df_, 1)
    while ps[-1][1] < steps[-1][1]:
        ps.append((ps[-1][1], nxt(ps[-1][1], df_)))
    if before > 0:
        if isinstance(df_, int):
            ps = [(anchor - (before - k) * df_ * H, anchor - (before - k - 1) * df_ * H) for k in range(before)] + ps
        else:
            s = anchor
            for _ in range(before):
                p = floor(s - D, df_)
                ps = [(p, s)] + ps
                s = p
    else:
        ps = ps[-before:] if before else ps
    if not ps:
        return
    for _ in range(max(after, 0)):
        ps.append((ps[-1][1], nxt(ps[-1][1], df_)))
    if after < 0:
        ps = ps[:after]
    if len(ps) < 3 or len(ps) > 4000:
        return
    vals = [((7 * k + 3) % 23) + 0.5 for k in range(len(ps))]
    series = pd.DataFrame({"x": vals}, index=index_for(ps, df_, how))
    if how == "infer":
        series.index.freq = None
        if df_ == 168:
            # pandas takes dates seven days apart for weeks ending on those dates
            ps = [(a - 6 * D, a + D) for a, b in ps]
    means = [mean_over(ps, vals, a, b) for a, b in steps]
    covered = ps[0][0] <= steps[0][0] and ps[-1][1] >= steps[-1][1]
    hit = ps[0][0] < steps[0][1] and ps[-1][1] > steps[-1][0]
    nested = (isinstance(mf, int) and isinstance(df_, int) and (mf % df_ == 0)) or \
             (isinstance(df_, int) and df_ <= 24 and not isinstance(mf, int)) or \
             (not isinstance(df_, int) and df_ == mf) or \
             (not isinstance(df_, int) and mf == 24) or (mf == 24 and isinstance(df_, int))
    delta = mf // 24 if isinstance(mf, int) and mf >= 24 else FREQ[mf] if isinstance(mf, int) else mf
    m = Model(start=pd.Timestamp(mstart), end=pd.Timestamp(mend), timestep=delta)
    from pywr.nodes import Input, Output
    Input(m, "in", max_flow=0.0).connect(Output(m, "out"))
    tr.run()
    what = "%s data %s..%s (%s index), steps of %s %s..%s" % (FREQ[df_], ps[0][0], ps[-1][1], how, FREQ[mf], steps[0][0], steps[-1][1])
    try:
        p = DataFrameParameter(m, series)
        g = Grab(m, [p])
        m.run()
    except Exception as e:
        tr.state("rejected", FREQ[df_], FREQ[mf], before, after)
        require(not (covered and nested), lambda: "%s: rejected (%s: %s)" % (what, type(e).__name__, str(e)[:200]), "align:rejected")
        tr.count("rejected")
        return
    require(hit, lambda: what + ": accepted data that does not reach the whole run", "align:not-covered")
    got = g.vals()[:, 0, 0]
    require(len(got) == len(steps), lambda: "%s: %d steps, want %d" % (what, len(got), len(steps)), "align:steps")
    for (a, b), (mean, full), v in zip(steps, means, got):
        ok = [mean]
        at = value_at(ps, vals, a)
        if at is not None and isinstance(df_, int) and isinstance(mf, int) and df_ > mf:
            ok.append(at)
        # months and the like are read by the day, so that steps of days are means over their days
        daily = isinstance(df_, str) and isinstance(mf, int) and mf % 24 == 0 and full
        if not daily and any(s < b and e > a and not (s >= a and e <= b) and not (s <= a and e >= b) for s, e in ps):
            continue  # a period of the data straddles the step: no aligned definition
        require(any(x is not None and abs(x - v) < 1e-9 for x in ok),
                lambda: "%s: step %s gives %r, want %r" % (what, a, float(v), ok), "align:value")
        tr.step()
    tr.state("ok", FREQ[df_], FREQ[mf], before, after)
    tr.count("accepted")
    tr.outcome = (str(cfg), float(got.sum()))


def gen_funcs(tier):
    return [{"f": f, "data": d, "model": mo} for f in ("mean", "sum", "max", "min", "first", "last")
            for d, mo in ((24, 48), (24, 168), (1, 24), (24, "M"), (24, "W"), (48, 336), (168, 336))]


def run_funcs(cfg, tr):
    df_, mf = cfg["data"], cfg["model"]
    start = dt.datetime(2000, 1, 3)
    steps = steps_between(start, start + 100 * D, mf)
    fn = {"mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min, "first": lambda v: v[0], "last": lambda v: v[-1]}[cfg["f"]]
    for extra in (0, 5):
        s = steps[0][0] - extra * df_ * H
        ps = periods(s, df_, int((steps[-1][1] - s) / (df_ * H)) + extra)
        vals = [((7 * k + 3) % 23) + 0.5 for k in range(len(ps))]
        frame = pd.DataFrame({"x": vals, "y": [2 * v for v in vals]}, index=index_for(ps, df_, "freq"))
        tgt = pd.period_range(pd.Period(steps[0][0], freq=FREQ[mf]), periods=len(steps), freq=FREQ[mf])
        out = align_and_resample_dataframe(frame, tgt, cfg["f"])
        want = [fn([v for (a, b), v in zip(ps, vals) if a >= x and b <= y]) for x, y in steps]
        require_same(out["x"].values, want, "resampled %r" % (cfg,), "funcs")
        require_same(out["y"].values, 2 * np.array(want), "resampled %r" % (cfg,), "funcs")
        tr.run()
        tr.step(len(steps))
    tr.state(str(cfg))
    tr.outcome = (str(cfg), float(np.sum(want)))


SCEN = [{"S": [3], "g": 0}, {"S": [2, 3], "g": 0}, {"S": [2, 3], "g": 1}, {"S": [2, {"size": 4, "slice": [0, 2, None]}], "g": 1},
        {"S": [{"size": 5, "slice": [1, 4, None]}, 2], "g": 0}, {"S": [{"size": 5, "slice": [1, 5, 2]}, 2], "g": 0},
        {"S": [{"size": 4, "slice": [None, 3, None]}], "g": 0}, {"S": [{"size": 4, "slice": [2, None, None]}], "g": 0},
        {"S": [{"size": 4, "slice": [-2, None, None]}], "g": 0}, {"S": [2, 3], "g": 1, "user": [[0, 2], [1, 0], [0, 0]]},
        {"S": [2, 3], "g": 0, "user": [[1, 2], [1, 0]]}, {"S": [3, 4], "g": 1, "user": [[2, 3], [0, 1]]}]


def gen_scen(tier):
    return [dict(c, off=o, kind=k) for c in SCEN for o in (0, 1, -1, 2, -3, 50) for k in ("df", "h5", "h5int", "array")]


def build_scen(cfg, T):
    S = []
    for s in cfg["S"]:
        if isinstance(s, dict):
            S.append({"size": s["size"], "slice": slice(*s["slice"])})
        else:
            S.append(s)
    m = base(steps=T, S=S)
    sizes = [s["size"] if isinstance(s, dict) else s for s in cfg["S"]]
    rng = [list(range(s["size"]))[slice(*s["slice"])] if isinstance(s, dict) else list(range(s)) for s in cfg["S"]]
    combos = list(itertools.product(*rng))
    if "user" in cfg:
        m.scenarios.user_combinations = cfg["user"]
        combos = [tuple(c) for c in cfg["user"]]
    return m, sizes, combos


def run_scen(cfg, tr):
    T = 5
    m, sizes, combos = build_scen(cfg, T)
    g = cfg["g"]
    sc = list(m.scenarios.scenarios)[g]
    n = sizes[g]
    tab = np.array([[100.0 * t + j for j in range(n)] for t in range(T)])
    kind = cfg["kind"]
    kw = {"timestep_offset": cfg["off"]}
    if kind == "df":
        p = DataFrameParameter(m, pd.DataFrame(tab, index=pd.date_range("2000-01-01", periods=T, freq="D")), scenario=sc, **kw)
    elif kind == "array":
        if cfg["off"]:
            return
        p = ArrayIndexedScenarioParameter(m, sc, tab)
    else:
        import tables
        fn = os.path.abspath("t_%d.h5" % os.getpid())
        with tables.open_file(fn, "w") as fh:
            fh.create_array("/", "x", tab if kind == "h5" else tab.astype(np.int32))
        p = TablesArrayParameter(m, fn, "x", scenario=sc, **kw)
    gr = Grab(m, [p])
    for rerun in range(2):
        m.run()
        tr.run()
        want = [[tab[min(max(t + cfg["off"], 0), T - 1), c[g]] for c in combos] for t in range(T)]
        require_same(gr.vals()[:, 0], want, "%r" % (cfg,), "scenario:" + kind)
        if kind == "h5int":
            require_same(gr.idx(0), want, "index %r" % (cfg,), "scenario:" + kind)
    tr.step(2 * T * len(combos))
    for c in combos:
        tr.state(str(cfg["S"]), g, c)
    tr.outcome = (str(cfg["S"]), float(np.sum(want)))


def gen_load(tier):
    out = []
    for fmt in ("csv", "gz", "xlsx", "h5", "data"):
        for sel in ("column", "all1", "all", "columns"):
            for via in ("url", "table"):
                for freq in ("D", "MS", "7D", "W"):
                    if fmt == "xlsx" and freq != "D" and tier == "quick":
                        continue
                    if fmt == "data" and freq != "D":
                        continue
                    out.append({"fmt": fmt, "sel": sel, "via": via, "freq": freq})
    return out


def run_load(cfg, tr):
    """The same frame from every kind of file, by column, columns or whole, directly or as a table."""
    freq = cfg["freq"]
    n = {"D": 40, "MS": 5, "7D": 8, "W": 9}[freq]
    cols = ["a", "b", "c"]
    idx = pd.date_range("1999-12-26" if freq != "MS" else "1999-12-01", periods=n, freq=freq)
    tab = np.array([[10.0 * t + j for j in range(3)] for t in range(n)])
    frame = pd.DataFrame(tab, index=idx, columns=cols)
    if cfg["sel"] == "all1":
        frame = frame[["b"]]
    frame.index.name = "date"
    fmt = cfg["fmt"]
    d = os.path.abspath("load_%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    data = {}
    if fmt in ("csv", "gz"):
        url = "f.csv" if fmt == "csv" else "f.csv.gz"
        frame.to_csv(os.path.join(d, url))
        data = {"url": url, "index_col": "date", "parse_dates": True}
    elif fmt == "xlsx":
        url = "f.xlsx"
        frame.to_excel(os.path.join(d, url))
        data = {"url": url, "index_col": 0, "parse_dates": True}
    elif fmt == "h5":
        url = "f.h5"
        frame.to_hdf(os.path.join(d, url), key="k", mode="w")
        data = {"url": url, "key": "k"}
    else:
        data = {"data": {c: {str(i.date()): float(v) for i, v in frame[c].items()} for c in frame.columns}, "parse_dates": True}
    sel = {}
    scen = None
    if cfg["sel"] == "column":
        sel = {"column": "b"}
        pick = lambda t, s: tab[t, 1]
    elif cfg["sel"] == "all1":
        pick = lambda t, s: tab[t, 1]
    elif cfg["sel"] == "all":
        scen = 3
        pick = lambda t, s: tab[t, s]
    else:
        sel = {"columns": ["c", "a"]}
        scen = 2
        pick = lambda t, s: tab[t, [2, 0][s]]
    start, end = dt.datetime(2000, 1, 3), dt.datetime(2000, 1, 28)
    doc = {"metadata": {"title": "t", "minimum_version": "0.1"},
           "timestepper": {"start": "2000-01-03", "end": "2000-01-28", "timestep": 1},
           "nodes": [{"name": "in", "type": "input", "max_flow": "p"}, {"name": "out", "type": "output", "cost": -1}],
           "edges": [["in", "out"]],
           "parameters": {"p": {"type": "dataframe"}}, "recorders": {"r": {"type": "numpyarraynode", "node": "out"}}}
    if scen:
        doc["scenarios"] = [{"name": "S", "size": scen}]
        doc["parameters"]["p"]["scenario"] = "S"
    if cfg["via"] == "table":
        doc["tables"] = {"tab": data}
        doc["parameters"]["p"].update(table="tab", **sel)
    else:
        doc["parameters"]["p"].update(data, **sel)
    m = Model.loads(json.dumps(doc), path=d)
    m.run()
    tr.run()
    ns = scen or 1
    want = []
    for k in range(26):
        day = start + k * D
        pos = [i for i in range(n) if idx[i] <= pd.Timestamp(day)][-1]
        if freq == "W" or (freq == "7D" and fmt in ("csv", "gz", "xlsx")):
            # weeks end on the Sunday the value is dated
            pos = [i for i in range(n) if idx[i] >= pd.Timestamp(day)][0]
        want.append([pick(pos, s) for s in range(ns)])
    require_same(m.recorders["r"].data, want, "%r" % (cfg,), "load:" + fmt)
    tr.step(26 * ns)
    tr.state(str(cfg))
    tr.outcome = (cfg["sel"], freq, float(np.sum(want)))


BAD = ["late", "early-end", "gap", "nan", "columns", "nocolumn", "noscenario", "short-array", "short-scen", "short-h5", "narrow-h5",
       "inf-h5", "wrong-year", "hash", "dup", "nofile", "hash2"]


def gen_bad(tier):
    return [{"k": k, "n": n} for k in BAD for n in (1, 2)]


def run_bad(cfg, tr):
    T = 10
    k, n = cfg["k"], cfg["n"]
    m = base(start="2000-01-05", steps=T, S=[3])
    sc = list(m.scenarios.scenarios)[0]
    days = pd.date_range("2000-01-01", periods=20, freq="D")
    ok = pd.DataFrame({"x": np.arange(20.0)}, index=days)
    tr.run()
    tr.state(str(cfg))
    tr.outcome = str(cfg)
    fn = os.path.abspath("bad_%d.h5" % os.getpid())
    csv = os.path.abspath("bad_%d.csv" % os.getpid())
    try:
        if k == "late":
            DataFrameParameter(m, ok.iloc[4 + n:])
        elif k == "early-end":
            DataFrameParameter(m, ok.iloc[:14 - n])
        elif k == "gap":
            DataFrameParameter(m, ok.drop(days[8:8 + n]))
        elif k == "dup":
            DataFrameParameter(m, ok.iloc[list(range(8)) + [7] * n + list(range(8, 20))])
        elif k == "nan":
            f = ok.copy()
            f.iloc[4 + (n - 1) * 9] = np.nan
            DataFrameParameter(m, f)
        elif k == "columns":
            DataFrameParameter(m, pd.DataFrame(np.zeros((20, 2 * n)), index=days), scenario=sc)
        elif k == "noscenario":
            DataFrameParameter(m, pd.DataFrame(np.zeros((20, 1 + n)), index=days))
        elif k == "wrong-year":
            DataFrameParameter(m, ok.set_index(days + pd.Timedelta(days=(366 if n == 1 else -366))))
        elif k == "short-array":
            ArrayIndexedParameter(m, np.arange(float(T - n)))
        elif k == "short-scen":
            ArrayIndexedScenarioParameter(m, sc, np.zeros((T - n, 3)))
        elif k in ("short-h5", "narrow-h5", "inf-h5"):
            import tables
            x = np.ones((T - n if k == "short-h5" else T, 3 - n if k == "narrow-h5" else 3))
            if k == "inf-h5":
                x[3, 1] = np.inf if n == 1 else np.nan
            with tables.open_file(fn, "w") as fh:
                fh.create_array("/", "x", x)
            TablesArrayParameter(m, fn, "x", scenario=sc)
        elif k in ("hash", "hash2", "nofile", "nocolumn"):
            ok.index.name = "d"
            ok.to_csv(csv)
            import hashlib
            h = hashlib.md5(open(csv, "rb").read()).hexdigest()
            good = {"type": "dataframe", "url": csv, "index_col": "d", "parse_dates": True, "column": "x", "checksum": {"md5": h if n == 1 else h.upper()}}
            load_parameter(m, dict(good, checksum=dict(good["checksum"])))
            if k == "hash":
                good["checksum"]["md5"] = ("0" if h[0] != "0" else "1") + h[1:]
            elif k == "hash2":
                good["checksum"]["sha256"] = "0" * 64
            elif k == "nofile":
                good["url"] += ".no.csv"
            else:
                good["column"] = "y"
            load_parameter(m, good)
        m.run()
    except Exception:
        return
    require(False, "accepted %r" % (cfg,), "bad:" + k)


GROUPS = {"align": (gen_align, run_align), "funcs": (gen_funcs, run_funcs), "scenario": (gen_scen, run_scen),
          "load": (gen_load, run_load), "bad": (gen_bad, run_bad)}
TECHNIQUE = "exhaustive enumeration of series frequency x model timestep x relative position of series and run, and of scenario layouts and file forms; values of real runs compared with time-weighted means over plain datetime intervals"
BOUNDS = ("10 series frequencies (hour to year) x 6 model steps x 3 index forms x 3 run starts x 25 positions of the series' two ends; 6 resampling functions x 7 frequency pairs; "
          "12 scenario layouts (products, slices, listed combinations) x 6 offsets x 4 parameter kinds; 5 file forms x 4 selections x direct/table x 4 frequencies; 17 kinds of unfit series. "
          "Series whose periods neither nest in nor contain the timesteps may be rejected or averaged.")
