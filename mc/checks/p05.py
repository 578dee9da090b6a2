"""Virtual storages and licences against a reference transition system."""
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from mc.harness import require
from mc.nets import Table, num
from .p08 import reference as calendar

DAY = dt.timedelta(days=1)
DEM = [0.0, 2.0, 7.0]


def dates(start, delta, T):
    """Reference (date carried by the step, length in days) per step."""
    s = dt.datetime.fromordinal(start)
    end = s
    out = calendar(s, s + dt.timedelta(days=800 * (T if not isinstance(delta, int) else 1) + (delta * T if isinstance(delta, int) else 0)), delta)[:T]
    return [(d, (e - a).days) for a, e, d in out], out[-1][0]


def maxv(spec, t, si):
    if isinstance(spec, dict):
        if "t" in spec:
            return spec["t"][t % len(spec["t"])]
        if "s" in spec:
            return np.array(spec["s"])[si]
        return spec["c"]
    return spec


def run(cfg, tr):
    from pywr.core import Model, Scenario, Input, Output
    from pywr.nodes import (VirtualStorage, AnnualVirtualStorage, SeasonalVirtualStorage,
                            MonthlyVirtualStorage, RollingVirtualStorage)
    from pywr.parameters import ConstantParameter
    T, H = cfg["T"], min(cfg["T"], cfg["H"])
    steps, last = dates(cfg["start"], cfg["delta"], T)
    m = Model(start=dt.datetime.fromordinal(cfg["start"]), end=last, timestep=cfg["delta"])
    Scenario(m, "h", size=len(DEM) ** H)
    Scenario(m, "x", size=2)
    factors = cfg["factors"]
    fn = lambda t, s: DEM[(s[0] // len(DEM) ** (t % H)) % len(DEM)]
    outs = []
    for k, f in enumerate(factors):
        i = Input(m, "i%d" % k, max_flow=50.0)
        mf = Table(m, fn) if k == 0 else 1.5
        o = Output(m, "o%d" % k, max_flow=mf, cost=(-10.0 if k == 0 else (-7.5 if f > 0 else -1.0)))
        i.connect(o)
        outs.append(o)
    free = Output(m, "free", max_flow=Table(m, fn), cost=-1.0)
    Input(m, "ifree", max_flow=50.0).connect(free)
    mx, mn = cfg["max"], cfg.get("min", 0.0)

    def real(v):
        if isinstance(v, dict):
            if "c" in v:
                return ConstantParameter(m, v["c"])
            return Table(m, lambda t, s: float(maxv(v, t, s[1])))
        return v
    kw = dict(nodes=outs, max_volume=real(mx), min_volume=real(mn), factors=factors if factors != [1.0] else None)
    for a in ("initial_volume", "initial_volume_pc"):
        if a in cfg:
            kw[a] = cfg[a]
    kind = cfg["kind"]
    cls = dict(plain=VirtualStorage, annual=AnnualVirtualStorage, seasonal=SeasonalVirtualStorage,
               monthly=MonthlyVirtualStorage, rolling=RollingVirtualStorage)[kind]
    kw.update(cfg.get("kw", {}))
    if cfg.get("pos"):
        n = kw.pop("nodes")
        vs = cls(m, "vs", n, **kw)
    else:
        vs = cls(m, "vs", **kw)
    if cfg.get("pre"):
        m.run()
    m.setup()
    first = None
    for repeat in range(2):
        m.reset()
        seq = one(cfg, m, vs, outs, free, steps, tr)
        if first is None:
            first = seq
        require(all(np.array_equal(a, b) for a, b in zip(first, seq)), "a second run differs", "rerun")
    tr.outcome = [round(float(x), 3) for x in np.concatenate(seq)[:: max(1, len(seq) * len(seq[0]) // 30)]]


def one(cfg, m, vs, outs, free, steps, tr):
    T, H = cfg["T"], min(cfg["T"], cfg["H"])
    combos = m.scenarios.combinations
    n = len(combos)
    idx = np.array([c.indices for c in combos])
    kind, kw = cfg["kind"], cfg.get("kw", {})
    mx, mn = cfg["max"], cfg.get("min", 0.0)
    varying = isinstance(mx, dict) and "c" not in mx
    mx0 = maxv(mx, 0, 0)
    if varying:
        init = cfg["initial_volume"]
    elif "initial_volume_pc" in cfg:
        init = cfg["initial_volume_pc"] * mx0
    else:
        init = cfg.get("initial_volume", 0.0)
    vol = np.full(n, float(init))
    require(np.array_equal(vs.volume, vol), lambda: "starts at %r, configured %r" % (vs.volume[:3], init), "initial")
    active = True
    hist = []
    if kind == "rolling":
        N = kw["timesteps"] if kw.get("timesteps") else kw["days"] // cfg["delta"]
        pc = cfg["initial_volume_pc"] if "initial_volume_pc" in cfg else init / mx0
        use0 = mx0 / (N - 1) if pc == 0 else (init / pc - init) / (N - 1)
        hist = [np.full(n, use0)] * (N - 1)
    factors = cfg["factors"]
    out = []
    prev = None
    elapsed = kw.get("initial_months", 0)
    for t, (d, days) in enumerate(steps):
        reset = False
        key = (d.month, d.day)
        if kind in ("annual", "seasonal"):
            R = (kw.get("reset_month", 1), kw.get("reset_day", 1))
            if t == 0:
                reset = key == R
            else:
                # a reset date lies after the previous step's date, up to this one
                reset = any((prev.year, prev.month, prev.day) < (y,) + R <= (d.year,) + key for y in range(prev.year, d.year + 1))
            if kind == "seasonal":
                E = (kw["end_month"], kw["end_day"])
                active = (R <= key < E) if R < E else (key >= R or key < E)
        elif kind == "monthly":
            if t:
                elapsed += (d.year - prev.year) * 12 + d.month - prev.month
            if elapsed >= kw.get("months", 1):
                elapsed %= kw.get("months", 1)
                reset = True
        if reset:
            if kw.get("reset_to_initial_volume") or (t == 0 and isinstance(mx, dict)):
                vol = np.full(n, float(init))
            else:
                vol = np.broadcast_to(np.asarray(maxv(mx, max(t - 1, 0), idx[:, 1]), dtype=float), (n,)).copy()
        prev = d
        m.step()
        MX = np.broadcast_to(np.asarray(maxv(mx, t, idx[:, 1]), dtype=float), (n,))
        MN = np.broadcast_to(np.asarray(maxv(mn, t, idx[:, 1]), dtype=float), (n,))
        D = np.array(DEM)[(idx[:, 0] // len(DEM) ** (t % H)) % len(DEM)]
        avail = np.maximum(vol - MN, 0) / days
        room = np.maximum(MX - vol, 0) / days
        fixed = MX == MN
        avail[fixed] = room[fixed] = 0
        q = [np.zeros(n) for _ in factors]
        if not active:
            q = [D] + [np.full(n, 1.5)] * (len(factors) - 1)
        else:
            back = sum((-f * 1.5 for f in factors[1:] if f < 0), 0.0)
            left = avail + back
            for k in sorted((k for k, f in enumerate(factors) if f > 0), key=lambda k: -(10.0 if k == 0 else 7.5) / factors[k]):
                q[k] = np.minimum(D if k == 0 else 1.5, np.maximum(left, 0) / factors[k])
                left = left - q[k] * factors[k]
            for k, f in enumerate(factors):
                if f < 0:
                    q[k] = np.minimum(1.5, (room + q[0] * factors[0]) / -f)
        use = sum(f * x for f, x in zip(factors, q)) * days
        got = [np.array(o.flow) for o in outs]
        lab = "step %d, %s (%d days)" % (t, d.date(), days)
        for k in range(len(factors)):
            bad = ~np.isclose(got[k], q[k], rtol=0, atol=1e-6)
            require(not bad.any(), lambda: "%s: node %d takes %r, the licence (%s, holding %r, limits %r..%r) allows %r of %r" % (
                lab, k, got[k][bad][0], "active" if active else "inactive", vol[bad][0], MN[bad][0], MX[bad][0], q[k][bad][0], D[bad][0]), "use")
        require(np.allclose(np.array(free.flow), D), "%s: a node outside the licence is affected" % lab, "use")
        require(bool(vs.active) == active, lambda: "%s: active=%r, expected %r" % (lab, vs.active, active), "active")
        if active:
            vol = vol - use
            if kind == "rolling":
                vol = np.minimum(MX, np.maximum(MN, vol + hist[0]))
                hist = hist[1:] + [use]
        gv = np.array(vs.volume)
        bad = ~np.isclose(gv, vol, rtol=0, atol=2e-5)
        require(not bad.any(), lambda: "%s: volume %r, expected %r%s" % (lab, gv[bad][0], vol[bad][0], " (after a reset)" if reset else ""), "volume")
        if not varying:
            require((gv <= MX + 1e-6).all() and (gv >= np.minimum(MN, init) - 1e-6).all(), "%s: volume out of limits" % lab, "limits")
        if active:
            with np.errstate(all="ignore"):
                require(np.allclose(np.array(vs.current_pc), gv / MX, atol=1e-9, equal_nan=True), "%s: proportion" % lab, "pc")
        vol = gv.copy()
        out.append(gv)
        for x in set(np.round(gv, 4)):
            tr.state(kind, d.month, d.day, active, x)
        tr.step(n)
    tr.run(n)
    return out


BASE = dict(factors=[1.0], max=20.0, initial_volume=12.0)
SPEC = [
    dict(factors=[1.0], max=20.0, initial_volume=12.0),
    dict(factors=[1.0], max=20.0, initial_volume_pc=1.0),
    dict(factors=[2.0, 0.5], max=25.0, min=3.0, initial_volume=20.0),
    dict(factors=[1.0, 2.0], max={"c": 18.0}, initial_volume_pc=0.5),
    dict(factors=[1.0, -0.5], max=15.0, initial_volume=4.0),
    dict(factors=[1.0], max={"t": [20.0, 14.0, 9.0, 16.0]}, initial_volume=10.0, initial_volume_pc=0.5),
    dict(factors=[1.0], max={"s": [20.0, 6.0]}, initial_volume=5.0, initial_volume_pc=0.5),
]
ORD = lambda y, mo, d: dt.date(y, mo, d).toordinal()


def plain_gen(tier):
    T = 7 if tier == "thorough" else 5
    return [dict(s, kind="plain", start=ORD(2000, 2, 27), delta=d, T=T, H=T, pos=p)
            for s in SPEC + [dict(factors=[1.0], max=0.0, initial_volume=0.0)] for d in (1, 3, "M") for p in (0, 1)]


def annual_gen(tier):
    th = tier == "thorough"
    out = []
    resets = [(1, 1), (4, 1), (2, 29), (4, 31), (12, 31)]
    for (mo, d), off in itertools.product(resets, range(-3, 4)):
        for y in ((2000, 2001) if th or mo == 2 else (2001,)):
            base = ORD(y, mo, min(d, 28)) + max(0, d - 28)
            for j, s in enumerate(SPEC):
                if not th and (j + off) % 3:
                    continue
                for ri in (False, True):
                    out.append(dict(s, kind="annual", start=base + off, delta=1 + (j + off) % 2, T=6, H=6 if th else 5,
                                    kw=dict(reset_month=mo, reset_day=d, reset_to_initial_volume=ri)))
    for (mo, d), delta, j in itertools.product(resets, [7, 30, 45, "M", "2M", 365], range(len(SPEC))):
        for smo in ((1, 2, 4, 7, 12) if th else ((1, 2, 4, 7, 12)[j % 5],)):
            T = 40 if delta in (7, 30, "M") else 12
            if delta == 7:
                T = 110
            out.append(dict(SPEC[j], kind="annual", start=ORD(2003, smo, 1 + j), delta=delta, T=T, H=4 if th else 3,
                            kw=dict(reset_month=mo, reset_day=d, reset_to_initial_volume=bool(j % 2))))
    return out


def seasonal_gen(tier):
    th = tier == "thorough"
    out = []
    seasons = [((3, 1), (6, 1)), ((10, 1), (3, 1)), ((12, 30), (1, 2)), ((2, 28), (3, 1)), ((1, 1), (12, 31)), ((6, 15), (6, 20)), ((6, 20), (6, 15))]
    for ri, (a, b) in enumerate(seasons):
        kw = dict(reset_month=a[0], reset_day=a[1], end_month=b[0], end_day=b[1])
        for edge in (a, b):
            for off in range(-2, 3):
                for j, s in enumerate(SPEC):
                    if not th and (j + off + ri) % 3:
                        continue
                    out.append(dict(s, kind="seasonal", start=ORD(2000, *edge) + off, delta=1, T=6, H=5 if th else 4,
                                    kw=dict(kw, reset_to_initial_volume=bool((j + ri) % 2))))
        for smo in range(1, 13):
            for delta, T in ((5, 160), ("M", 30), (31, 30)):
                for j in range(len(SPEC)) if th else [(smo + ri) % len(SPEC)]:
                    out.append(dict(SPEC[j], kind="seasonal", start=ORD(1999, smo, 1 + (17 * smo) % 28), delta=delta, T=T, H=3,
                                    kw=dict(kw, reset_to_initial_volume=bool(smo % 2))))
    return out


def monthly_gen(tier):
    th = tier == "thorough"
    out = []
    for months, delta in itertools.product([1, 2, 3, 13], [1, 5, 7, "M", "2M", 40]):
        for im in range(0, min(months, 3) + 1):
            for j, s in enumerate(SPEC):
                if not th and (j + im + months) % 3:
                    continue
                for start in (ORD(2000, 1, 30), ORD(2000, 2, 28), ORD(2001, 11, 15)):
                    T = {1: 65, 5: 60, 7: 40, "M": 28, "2M": 16, 40: 20}[delta]
                    out.append(dict(s, kind="monthly", start=start, delta=delta, T=T, H=3 if not th else 4,
                                    kw=dict(months=months, initial_months=im, reset_to_initial_volume=bool((j + im) % 2))))
    return out


def rolling_gen(tier):
    th = tier == "thorough"
    out = []
    T = 8 if th else 6
    for s in [x for x in SPEC if not isinstance(x["max"], dict) or "c" in x["max"]] + [
            dict(factors=[1.0], max=10.0, initial_volume=0.0), dict(factors=[1.0], max=10.0, initial_volume_pc=0.0),
            dict(factors=[1.0], max=10.0, initial_volume=10.0),
            dict(factors=[1.0], max={"t": [20.0, 14.0, 9.0, 16.0]}, initial_volume=10.0, initial_volume_pc=0.5)]:
        for N, delta in itertools.product([2, 3, 4, 5, 7], [1, 3, "M"]):
            kws = [dict(timesteps=N)]
            if isinstance(delta, int):
                kws.append(dict(days=N * delta))
                kws.append(dict(days=N * delta + delta - 1))
            for kw in kws:
                out.append(dict(s, kind="rolling", start=ORD(2000, 2, 26), delta=delta, T=T if N < 7 else 12, H=T - (N == 7), kw=kw))
    return out


def bad_gen(tier):
    return [{"k": k} for k in ("rolling-1", "rolling-0", "rolling-days-1", "rolling-days-string", "rolling-cost", "plain-cost", "annual-loss", "rolling-zero-param")]


def bad_run(cfg, tr):
    from pywr.core import Model, Input, Output
    from pywr.nodes import VirtualStorage, RollingVirtualStorage, AnnualVirtualStorage, LossLink
    m = Model(start="2000-01-01", end="2000-03-31", timestep="M" if cfg["k"] == "rolling-days-string" else 1)
    i, o = Input(m, "i", max_flow=1), Output(m, "o", max_flow=1, cost=-1)
    i.connect(o)
    k = cfg["k"]
    tr.state(k)
    tr.step()
    tr.run()
    tr.outcome = k
    try:
        if k == "rolling-1":
            RollingVirtualStorage(m, "v", [o], timesteps=1, max_volume=5, initial_volume=5)
        elif k == "rolling-0":
            RollingVirtualStorage(m, "v", [o], max_volume=5, initial_volume=5)
        elif k == "rolling-days-1":
            RollingVirtualStorage(m, "v", [o], days=1, max_volume=5, initial_volume=5)
        elif k == "rolling-days-string":
            RollingVirtualStorage(m, "v", [o], days=30, max_volume=5, initial_volume=5)
        elif k == "rolling-cost":
            RollingVirtualStorage(m, "v", [o], timesteps=3, max_volume=5, initial_volume=5, cost=2.0)
        elif k == "plain-cost":
            VirtualStorage(m, "v", [o], max_volume=5, initial_volume=5, cost=2.0)
        elif k == "annual-loss":
            AnnualVirtualStorage(m, "v", nodes=[LossLink(m, "l")], max_volume=5, initial_volume=5)
        else:
            from pywr.parameters import MonthlyProfileParameter
            RollingVirtualStorage(m, "v", [o], timesteps=3, max_volume=MonthlyProfileParameter(m, [5.0] * 12), initial_volume=0, initial_volume_pc=0)
        m.check()
        m.run()
    except Exception:
        return
    require(False, "invalid licence %r is accepted" % k, "accepted")


def series_gen(tier):
    """Licences over several nodes of one route, and overlapping licences."""
    from mc import families as F
    return [c for c in F.FAMILIES["licence"][0](tier) if len(c["nodes"]) > 1 or c["kind"] == "two"]


def series_run(cfg, tr):
    from .alloc import fam_run
    fam_run("licence", cfg, tr, True, True, volumes=True)


GROUPS = {"series": (series_gen, series_run), "plain": (plain_gen, run), "annual": (annual_gen, run), "seasonal": (seasonal_gen, run),
          "monthly": (monthly_gen, run), "rolling": (rolling_gen, run), "bad": (bad_gen, bad_run)}
TECHNIQUE = "explicit-state enumeration of use histories (as scenarios) x start dates x renewal settings on the real virtual storages, step by step against a reference licence automaton"
BOUNDS = ("All 3^H demand histories (H=3..6, thorough up to 8; longer runs repeat the H digits) x 7 licence variants (one/two nodes, factors incl. negative, "
          "min/max constant, parameter, per step, per scenario) x annual resets (5 dates, start -3..+3 days, steps 1..365 days and months), 7 seasons incl. wrapping "
          "(start -2..+2 round both edges and every month), monthly periods 1/2/3/13 with offsets, rolling windows 2..7 steps or in days; licences over several nodes of one route and overlapping licences on every solver against the LP reference. Every case run twice.")
