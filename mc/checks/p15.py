"""P15: licence parameters never allow more than the licence."""
import itertools
import math

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Link
from pywr.parameters import load_parameter
from pywr.parameters.licenses import TimestepLicense, DailyLicense, StorageLicense, AnnualLicense, AnnualExponentialLicense, AnnualHyperbolaLicense
from mc.harness import require, Violation
from mc.probe import Fn, Grab, require_same

TECHNIQUE = ("exhaustive enumeration of all demand histories of a small alphabet over runs that cross year ends, each a scenario of a real model limited by the licence; "
             "a plain day-by-day account of the licence gives the value due in every step, and checks the use of every year")
BOUNDS = ("demands over 2 or 3 amounts (none, little, more than allowed): every history of up to 8 steps (11 in the thorough tier); steps of 12 hours, 1, 2, 5, 7, 30, 45, 100 and 400 days, weeks, months, quarters and years, runs "
          "starting on the first day, mid-year, in the last days and on the last day of leap and common years; four amounts, exponents and hyperbolas; licence on the limited node or on another; "
          "run, repeated, restarted after every number of steps, started later")

YEARS = [("2000-12-26", 1, 9), ("2001-12-27", 1, 8), ("2003-12-29", 1, 7), ("2000-01-01", 1, 5), ("2001-06-28", 1, 6), ("2000-12-31", 1, 5), ("2001-12-22", 2, 8), ("2000-12-14", 5, 7), ("2001-12-03", 7, 8), ("2000-12-31", 7, 5), ("2001-12-31", 30, 5),
         ("2001-01-01", 30, 9), ("2003-08-01", 45, 9), ("2000-03-01", 100, 8), ("1999-02-01", 400, 5), ("2000-12-30", "12h", 7), ("2000-11-20", "W", 9), ("2004-12-08", "W", 7), ("2003-12-03", "W", 7), ("2000-09-01", "M", 9), ("2001-01-01", "M", 9), ("2000-04-01", "Q", 8), ("2000-01-01", "A", 4),
         ("2003-02-26", 1, 6), ("2004-02-27", 3, 5)]


def layout(start, delta, T):
    """[(start of the step, length in days)], end of the run"""
    if isinstance(delta, str) and delta in "WMQA":
        ps = pd.period_range(start, periods=T, freq={"A": "Y"}.get(delta, delta))
        out = [(p.start_time, (p.end_time.normalize() - p.start_time).days + 1.0) for p in ps]
        return out, str(ps[-1].end_time.date())
    d = pd.Timedelta(delta) if isinstance(delta, str) else pd.Timedelta(days=delta)
    s = pd.Timestamp(start)
    out = [(s + d * t, d / pd.Timedelta(days=1)) for t in range(T)]
    return out, out[-1][0] if isinstance(delta, str) else str((out[-1][0] + d - pd.Timedelta(days=1)).date())


def year_days(y):
    return (pd.Timestamp(y + 1, 1, 1) - pd.Timestamp(y, 1, 1)).days


def left(step):
    return (pd.Timestamp(step[0].year + 1, 1, 1) - step[0].normalize()).days


class Account:
    """what is left of an annual licence, by the day"""

    def __init__(self, amount, steps):
        self.amount, self.steps = amount, steps
        self.r, self.year, self.flow, self.t = amount, None, 0.0, None

    def open(self, t):
        y = self.steps[t][0].year
        if y != self.year:
            self.r = self.amount
            if self.year is not None:  # what the last step used of this year
                gone = (self.steps[t][0].normalize() - pd.Timestamp(y, 1, 1)).days
                self.r = max(self.r - self.flow * gone, 0.0)
            self.year = y
        return self.r

    def close(self, t, flow):
        self.r = max(self.r - flow * self.steps[t][1], 0.0)
        self.flow = flow

    def per_day(self, t):
        return self.r / left(self.steps[t])

    def even(self, t):
        over = self.steps[t][1] - left(self.steps[t])
        return min(self.per_day(t), self.amount / over) if over > 0 else self.per_day(t)

    def ratio(self, t):
        return self.per_day(t) / (self.amount / year_days(self.steps[t][0].year))


AMOUNTS = [365.0, 10.0, 1000.0, 0.0]


def gen_year(tier):
    for i, (s, d, T) in enumerate(YEARS):
        for amount in AMOUNTS if tier == "thorough" or i < 4 else (365.0, 10.0):
            for limit in ("annual", "storage", "exp", "hyp", "none"):
                if tier == "quick" and limit in ("exp", "hyp") and amount != 365.0:
                    continue
                yield {"run": i, "amount": amount, "limit": limit, "extra": 0 if tier == "quick" else 2}


def history(T, limit):
    al = [0.0, 1e4, 0.4]
    while len(al) ** T > limit and len(al) > 2:
        al = al[:-1]
    h = list(itertools.product(al, repeat=T))
    return h if len(h) <= limit else h[:: len(h) // limit + 1]


def build(start, delta, T, amount, limit, h, tail=()):
    steps, end = layout(start, delta, T)
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=len(h))
    a, l, o = Input(m, "a"), Link(m, "l"), Output(m, "o", cost=-1.0)
    a.connect(l), l.connect(o)
    o.max_flow = Fn(m, lambda t, si: min(h[si[0]][t], 1e4 if limit != "none" else 5.0))
    P = {"annual": AnnualLicense(m, a, amount), "storage": StorageLicense(m, a, amount), "exp": AnnualExponentialLicense(m, a, amount, 6.0, k=1.5), "exp1": AnnualExponentialLicense(m, a, amount, 2.0),
         "hyp": AnnualHyperbolaLicense(m, a, amount, 0.75), "daily": DailyLicense(m, a, 42.0), "step": TimestepLicense(m, a, 7.5),
         "down": AnnualLicense(m, o, amount)}
    if limit != "none":
        l.max_flow = P[limit]
    return m, steps, a, P


def reference(kind, acc, store, t, amount, days):
    if kind in ("annual", "down"):
        return acc.even(t)
    if kind == "storage":
        return store / days
    if kind == "daily":
        return 42.0
    if kind == "step":
        return 7.5
    if amount == 0:
        return None
    x = acc.ratio(t)
    if kind == "hyp":
        return 0.75 / x if x > 0 else float("inf")
    return 6.0 * math.exp(-x / 1.5) if kind == "exp" else 2.0 * math.exp(-x)


def follow(steps, h, amount, limit, first, T, vals, flow, names, tr, note):
    """replay every scenario through the account; vals[t, j, s], flow[t, s]"""
    for s, x in enumerate(h):
        acc, store = Account(amount, steps), amount
        used = {}
        for t in range(first, T):
            acc.open(t)
            days = steps[t][1]
            for j, nm in enumerate(names):
                want = reference(nm, acc, store, t, amount, days)
                if want is None:
                    continue
                got = vals[t - first, j, s]
                ok = got == want or abs(got - want) <= 1e-6 * max(1.0, abs(want)) < float("inf")
                if not ok and want > 1e6:  # next to nothing left
                    ok = got > 1e5
                if not ok:
                    raise Violation("%s: %s licence of %g in step %d (%s, %g days) after uses %r: %r, want %r"
                                    % (note, nm, amount, t, steps[t][0], days, [float(v) for v in flow[:t - first, s]], float(got), want), nm)
            f = float(flow[t - first, s])
            cap = {"none": 5.0}.get(limit)
            if cap is None:
                cap = reference(limit, acc, store, t, amount, days)
            if cap is not None:
                want = min(x[t], cap)
                require(abs(f - want) <= 1e-6 * max(1.0, want), lambda: "%s: flow %r in step %d, want %r" % (note, f, t, want), "limit")
            here = min(days, left(steps[t]))
            y = steps[t][0].year
            used[y] = used.get(y, 0.0) + f * here
            rest, y = days - here, y + 1
            while rest > 0:
                n = min(rest, year_days(y))
                used[y] = used.get(y, 0.0) + f * n
                rest, y = rest - n, y + 1
            acc.close(t, f)
            store = max(store - f * days, 0.0)
            tr.state(limit, amount, note, t, acc.r)
            tr.step()
        if limit == "annual":
            for y, u in used.items():
                require(u <= amount + 1e-6 * max(1.0, amount), lambda: "%s: %r used of the licence of %r in %d, demands %r" % (note, u, amount, y, x), "exceeded")
        if limit == "storage":
            require(sum(flow[t - first, s] * steps[t][1] for t in range(first, T)) <= amount * (1 + 1e-6) + 1e-9, "storage licence exceeded", "exceeded")


def run_year(cfg, tr):
    start, delta, T = YEARS[cfg["run"]]
    T = min(T, 8) if not cfg["extra"] else T + (cfg["extra"] if not isinstance(delta, str) or delta == "M" else 0)
    h = history(T, 260 if not cfg["extra"] else 3000)
    m, steps, a, P = build(start, delta, T, cfg["amount"], cfg["limit"], h)
    names = list(P)
    g = Grab(m, params=[P[k] for k in names], nodes=[a], name="g")
    with np.errstate(all="ignore"):
        m.run()
    follow(steps, h, cfg["amount"], cfg["limit"], 0, T, g.vals(), g.flow()[:, 0], names, tr, "steps of %s from %s" % (delta, start))
    tr.run(len(h))
    tr.outcome = (sorted(cfg.items()),)


def gen_again(tier):
    for i in (0, 2, 6, 8, 11, 17):
        T = YEARS[i][2]
        for before in range(0, T + 1, 1 if tier == "thorough" else 2):
            for first in range(0, T, 1 if tier == "thorough" else 2):
                yield {"run": i, "before": before, "first": first}


def run_again(cfg, tr):
    start, delta, T = YEARS[cfg["run"]]
    h = history(T, 60)
    m, steps, a, P = build(start, delta, T, 365.0, "annual", h)
    names = list(P)
    g = Grab(m, params=[P[k] for k in names], nodes=[a], name="g")
    with np.errstate(all="ignore"):
        m.setup()
        m.reset()
        for _ in range(cfg["before"]):
            m.step()
        m.reset(start=m.timestepper.datetime_index[cfg["first"]].start_time)
        for _ in range(cfg["first"], T):
            m.step()
        m.finish()
        note = "after %d steps, from step %d" % (cfg["before"], cfg["first"])
        follow(steps, h, 365.0, "annual", cfg["first"], T, g.vals(), g.flow()[:, 0], names, tr, note)
        m.run()
        follow(steps, h, 365.0, "annual", 0, T, g.vals(), g.flow()[:, 0], names, tr, note + ", then run")
    tr.run(2 * len(h))
    tr.outcome = (sorted(cfg.items()),)


def gen_whole(tier):
    """whole years of small steps: an even use, and a use that is made up for"""
    for start, end in (("2000-01-01", "2002-12-31"), ("2000-05-17", "2002-03-03"), ("1999-12-31", "2001-01-01")):
        for delta in (1, 7, "M"):
            for frac in (0.0, 0.25, 0.6):
                yield {"start": start, "end": end, "delta": delta, "frac": frac}


def run_whole(cfg, tr):
    amount = 365.0
    start, end, delta = cfg["start"], cfg["end"], cfg["delta"]
    m = Model(start=start, end=end, timestep=delta)
    T = len(m.timestepper)
    if delta == "M":
        steps = [(p.start_time, float(p.days_in_month)) for p in pd.period_range(start, periods=T, freq="M")]
    else:
        s = pd.Timestamp(start)
        steps = [(s + pd.Timedelta(days=delta * t), float(delta)) for t in range(T)]
    # nothing wanted for the first part of each year, all of it after that
    h = []
    for hold in (0.0, 1.0):
        h.append([0.0 if hold and st[0].dayofyear < cfg["frac"] * 365 else 1e4 for st in steps])
    Scenario(m, "s", size=2)
    a, o = Input(m, "a"), Output(m, "o", cost=-1.0, max_flow=Fn(m, lambda t, si: h[si[0]][t]))
    a.connect(o)
    p = AnnualLicense(m, a, amount)
    a.max_flow = p
    g = Grab(m, params=[p], nodes=[a], name="g")
    m.run()
    follow(steps, h, amount, "annual", 0, T, g.vals(), g.flow()[:, 0], ["annual"], tr, "years of %s" % delta)
    if delta in (1, "M"):  # steps end with the year: unused water remains available
        for s in range(2):
            for y in sorted({st[0].year for st in steps}):
                mine = [t for t in range(T) if steps[t][0].year == y]
                if left(steps[mine[-1]]) != steps[mine[-1]][1] or h[s][mine[-1]] == 0:
                    continue
                use = sum(g.flow()[t, 0, s] * steps[t][1] for t in mine)
                require_same(use, amount, "use of the whole licence in %d" % y, "whole", 1e-6)
    tr.run(2)
    tr.outcome = (sorted((k, str(v)) for k, v in cfg.items()),)


def gen_json(tier):
    for typ in ("annuallicense", "annualexponentiallicense", "annualhyperbolalicense", "storagelicense"):
        for own in (True, False):
            yield {"type": typ, "own": own}


def run_json(cfg, tr):
    start, delta, T = YEARS[0]
    h = history(T, 300)
    steps, end = layout(start, delta, T)
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=len(h))
    a, l, o = Input(m, "a"), Link(m, "l"), Output(m, "o", cost=-1.0)
    a.connect(l), l.connect(o)
    o.max_flow = Fn(m, lambda t, si: h[si[0]][t])
    data = {"type": cfg["type"], "node": "a" if cfg["own"] else "o", "amount": 365.0}
    kind = {"annuallicense": "annual", "storagelicense": "storage", "annualexponentiallicense": "exp", "annualhyperbolalicense": "hyp"}[cfg["type"]]
    if kind == "exp":
        data.update(max_value=6.0, k=1.5)
    if kind == "hyp":
        data["value"] = 0.75
    p = load_parameter(m, data)
    a.max_flow = p
    g = Grab(m, params=[p], nodes=[a], name="g")
    with np.errstate(all="ignore"):
        m.run()
    follow(steps, h, 365.0, kind, 0, T, g.vals(), g.flow()[:, 0], [kind], tr, "loaded")
    tr.run(len(h))
    tr.outcome = (sorted(cfg.items()),)


GROUPS = {"year": (gen_year, run_year), "again": (gen_again, run_again), "whole": (gen_whole, run_whole), "json": (gen_json, run_json)}
