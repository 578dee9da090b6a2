"""P18: events are delimited and measured exactly."""
import itertools

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Storage
from pywr.recorders import (EventRecorder, EventDurationRecorder, EventStatisticRecorder, StorageThresholdRecorder, NodeThresholdRecorder,
                            NumpyArrayStorageRecorder, Recorder)
from mc.harness import require, Violation
from mc.probe import Fn, FnIndex, require_same
from mc.checks.p17 import times, percentile

TECHNIQUE = ("exhaustive enumeration of all trigger histories of a small alphabet up to a length, run as the scenarios of real models, with the events "
             "compared with the maximal periods found by a plain Python scan of the history")
BOUNDS = ("trigger histories over 2 or 3 symbols of every length 1 to 6 (8 in the thorough tier), minimum event lengths 1 to length+1, triggers by index parameter, parameter (values "
          "0, 0.5, -1, 2), node or storage threshold recorder with every predicate and other recorders; steps of 1, 3 and 7 days and months; "
          "whole run, step by step, repeated, restarted after any number of steps, started later; all scenarios, slices and user combinations; "
          "models built in code and from JSON with the recorders in every order")

AGGS = {
    "sum": sum, "min": min, "max": max, "mean": lambda x: sum(x) / len(x), "median": lambda x: percentile(x, 50), "count": lambda x: float(len(x)),
    "first": lambda x: x[0], "call": lambda x: max(x) - min(x),
}


def spec(k, series=False):
    if k == "call":
        return lambda s: s.max() - s.min()
    if k == "first" and series:
        return lambda s: s.iloc[0]
    return k


def events(on, minlen=1, first=0):
    """[(first step, step after the last)] of the maximal periods for which on[t]"""
    out, t = [], first
    while t < len(on):
        if on[t]:
            e = t
            while e < len(on) and on[e]:
                e += 1
            if e - t >= minlen:
                out.append((t, e))
            t = e
        else:
            t += 1
    return out


VALS = {"index": [0, 1, 2], "param": [0.0, 0.5, -1.0, 2.0], "node": [0.0, 1.0, 2.0], "storage": [0.0, 4.0, 10.0], "recorder": [0.0, 4.0, 10.0]}
PRED = {"LT": lambda v, x: v < x, ">": lambda v, x: v > x, "EQ": lambda v, x: v == x, "LE": lambda v, x: v <= x, ">=": lambda v, x: v >= x}


def span(kind, T):
    start, end, delta, days, dates = times(kind, T)
    stop = pd.Timestamp(end) + pd.Timedelta(days=1)
    dates = [pd.Timestamp(d).normalize() for d in dates]
    if kind == "M":
        dates = [p.to_timestamp(how="start") for p in pd.period_range(dates[0], periods=T + 1, freq="M")]
    else:
        dates = dates + [stop]
    return start, end, delta, days, dates


class World:
    """a model whose scenario s triggers as history s says"""

    def __init__(self, kind, T, how, h, extra=1, select=None, swap=False):
        start, end, delta, self.days, self.dates = span(kind, T)
        self.T, self.h, self.how = T, h, how
        m = self.m = Model(start=start, end=end, timestep=delta)
        if extra > 1 and swap:
            Scenario(m, "other", size=extra)
        Scenario(m, "s", size=len(h))
        if extra > 1 and not swap:
            Scenario(m, "other", size=extra)
        self.g = g = 1 if extra > 1 and swap else 0
        combos = list(itertools.product(*[range(s.size) for s in m.scenarios.scenarios]))
        if select is not None:
            combos = select(combos)
            m.scenarios.user_combinations = combos
        self.combos = combos
        self.hist = [h[c[g]] for c in combos]  # history of every combination
        self.get = lambda t, si: h[si[g]][t]
        self.track = lambda t, ids: float(((t * 7 + 3 * ids[0] + 5 * ids[-1]) % 11) - 4)
        self.tracked = [[self.track(t, c) for t in range(T)] for c in combos]
        self.p = Fn(m, self.track, name="tracked")

    def thresholds(self):
        """[(component, fn(history value) -> triggered, what)]"""
        m, out = self.m, []
        if self.how == "index":
            a, b = Input(m, "in", max_flow=0.0), Output(m, "out")
            a.connect(b)
            out.append((FnIndex(m, self.get, name="thr"), lambda v: v != 0, "index"))
        elif self.how == "param":
            a, b = Input(m, "in", max_flow=0.0), Output(m, "out")
            a.connect(b)
            out.append((Fn(m, self.get, name="thr"), lambda v: v != 0, "parameter"))
        elif self.how == "node":
            a, b = Input(m, "in", max_flow=Fn(m, self.get)), Output(m, "out", cost=-1.0)
            a.connect(b)
            for x in (0.0, 1.0, 1.5):
                for k, fn in PRED.items():
                    out.append((NodeThresholdRecorder(m, b, x, predicate=k, name="n%g%s" % (x, k)), lambda v, x=x, fn=fn: fn(v, x), "flow %s %g" % (k, x)))
        else:
            v = lambda t, si: 6.0 if t < 0 else self.get(t, si)
            d = lambda t, si: (v(t, si) - v(t - 1, si)) / self.days[t]
            up = Fn(m, lambda t, si: max(d(t, si), 0.0))
            dn = Fn(m, lambda t, si: max(-d(t, si), 0.0))
            a, st, b = Input(m, "in", min_flow=up, max_flow=up), Storage(m, "st", max_volume=10.0, initial_volume=6.0), Output(m, "out", min_flow=dn, max_flow=dn)
            a.connect(st), st.connect(b)
            if self.how == "storage":
                for x in (0.0, 3.0, 4.0):
                    for k, fn in PRED.items():
                        if k in ("EQ", "LE", ">=") and x != 3.0:
                            continue  # volumes come from the solver
                        out.append((StorageThresholdRecorder(m, st, x if x else 0.5, predicate=k, name="s%g%s" % (x, k)), lambda v, x=x, fn=fn: fn(v, x if x else 0.5), "volume %s %g" % (k, x)))
            else:  # any recorder's value: the largest volume above what came before, as a fraction
                out.append((Last(m, st, name="last"), lambda v: v >= 2.5, "recorder"))
        return out


class Last(Recorder):
    """value: the current volume / 25, with noise removed"""

    def __init__(self, model, node, **kw):
        super().__init__(model, **kw)
        self.node = node

    def values(self):
        v = np.round(np.array(self.node.volume) / 25.0, 6)
        v[v < 0.1] = 0.0
        return v


def compare(w, rec, on, minlen, first, what):
    """on[c][t]"""
    m, dates = w.m, w.dates
    got = {}
    for e in rec.events:
        got.setdefault(e.scenario_index.global_id, []).append(e)
    want = {}
    for c in range(len(w.combos)):
        ev = events(on[c], minlen, first)
        if ev:
            want[c] = ev
    require(set(got) == set(want), lambda: "%s: scenarios with events %r, want %r" % (what, sorted(got), sorted(want)), "events")
    for c, evs in got.items():
        have = [(e.start.index, e.end.index) for e in evs]
        require(have == want[c], lambda: "%s: triggers %r (from step %d) give events %r, want %r" % (what, [int(x) for x in on[c]], first, have, want[c]), "events")
        for e, (a, b) in zip(evs, want[c]):
            require(tuple(e.scenario_index.indices) == w.combos[c], what + ": scenario of the event", "scenario")
            require(e.start.datetime == dates[a] and e.end.datetime == dates[b], lambda: "%s: event %r to %r, want %r to %r" % (what, e.start.datetime, e.end.datetime, dates[a], dates[b]), "dates")
            require(e.duration == (dates[b] - dates[a]).days, lambda: what + ": duration %r" % e.duration, "dates")
            if rec.tracked_parameter is not None:
                require_same(e.values, w.tracked[c][a:b], what + " tracked values", "tracked")
    df = rec.to_dataframe()
    flat = sorted((c, dates[a], dates[b]) for c, ev in want.items() for a, b in ev)
    require(len(df) == len(flat), lambda: what + ": %d rows in the table, want %d" % (len(df), len(flat)), "table")
    if flat:
        rows = sorted(zip(df["scenario_id"], df["start"], df["end"]))
        require([(int(a), pd.Timestamp(b), pd.Timestamp(c)) for a, b, c in rows] == flat, what + ": table of events", "table")
    return want


def attach(w, thr, what, T, full=True):
    """[(event recorder, minimum length, [(summary recorder, definition)])]"""
    m, out = w.m, []
    for minlen in range(1, T + 2) if full else (1, 2):
        for tracked in ((False, True) if minlen <= 2 else (False,)):
            nm = "%s/%d/%d" % (what, minlen, tracked)
            kw = {"event_agg_func": spec(sorted(AGGS)[(minlen + len(what)) % len(AGGS)], True)} if tracked else {}
            rec = EventRecorder(m, thr, minimum_event_length=minlen, tracked_parameter=w.p if tracked else None, name="e" + nm, **kw)
            subs = []
            for i, k in enumerate(sorted(AGGS) if full else ("sum",)):
                other = sorted(AGGS)[(i + 3) % len(AGGS)]
                if k != "call":  # data frame group-wise callables
                    subs.append((EventDurationRecorder(m, rec, recorder_agg_func=spec(k), agg_func="max", name="d%s%s" % (nm, k)), ("dur", k), "max"))
                    if tracked:
                        subs.append((EventStatisticRecorder(m, rec, event_agg_func=spec(other, True), recorder_agg_func=spec(k), agg_func="min", name="s%s%s" % (nm, k)), (other, k), "min"))
                if k in ("sum", "max", "mean") and minlen <= 2:
                    subs.append((EventDurationRecorder(m, rec, agg_func=k, name="da%s%s" % (nm, k)), ("dur", k), k))
                    if tracked:
                        subs.append((EventStatisticRecorder(m, rec, agg_func=k, name="sa%s%s" % (nm, k)), (k, k), k))
                        for o in ("sum", "min", "max"):
                            if o != k:  # one of the functions given, the other by default
                                subs.append((EventStatisticRecorder(m, rec, event_agg_func=o, agg_func=k, name="se%s%s%s" % (nm, k, o)), (o, k), k))
                                subs.append((EventStatisticRecorder(m, rec, recorder_agg_func=o, agg_func=k, name="sr%s%s%s" % (nm, k, o)), (k, o), k))
            subs.append((EventDurationRecorder(m, rec, name="dd%s" % nm), ("dur", "mean"), "mean"))
            if tracked:
                subs.append((EventStatisticRecorder(m, rec, name="sd%s" % nm), ("mean", "mean"), "mean"))
            out.append((rec, minlen, subs, kw))
    return out


def verify(w, recs, on, first, what, tr):
    for rec, minlen, subs, kw in recs:
        want = compare(w, rec, on, minlen, first, "%s, minimum length %d" % (what, minlen))
        if kw and want:
            k = [q for q in AGGS if q == sorted(AGGS)[(minlen + len(rec.name.split("/")[0]) - 1) % len(AGGS)]][0]
            df = rec.to_dataframe()
            have = sorted(zip(df["scenario_id"], df["start"], df["value"]))
            flat = sorted((c, w.dates[a], AGGS[k](w.tracked[c][a:b])) for c, ev in want.items() for a, b in ev)
            require_same([x[2] for x in have], [x[2] for x in flat], what + " value of events by " + k, "tracked")
        for sub, (ek, rk), sk in subs:
            vals = []
            for c in range(len(w.combos)):
                ev = want.get(c)
                if not ev:
                    vals.append(float("nan"))
                elif ek == "dur":
                    vals.append(float(AGGS[rk]([(w.dates[b] - w.dates[a]).days for a, b in ev])))
                else:
                    vals.append(float(AGGS[rk]([AGGS[ek](w.tracked[c][a:b]) for a, b in ev])))
            require_same(sub.values(), vals, "%s: %s %s by %s" % (what, type(sub).__name__, ek, rk), "statistics")
            if not any(v != v for v in vals):
                require_same(sub.aggregated_value(), AGGS[sk](vals), "%s: %s over scenarios by %s" % (what, type(sub).__name__, sk), "statistics")
        tr.step(len(w.combos))


def hist(how, T, limit):
    vals = VALS[how]
    while len(vals) ** T > limit:
        vals = vals[:-1]
    return list(itertools.product(vals, repeat=T))


def gen_run(tier):
    top = 6 if tier == "quick" else 8
    for how in VALS:
        for kind in ("D", "3D", "7D", "M"):
            for T in range(1, top + 1):
                if tier == "quick" and kind != "D" and (T > 4 or how == "recorder" or kind == "7D" and T != 4):
                    continue
                yield {"how": how, "kind": kind, "T": T, "limit": (82 if T < 6 else 64) if tier == "quick" else 1100}


def run_run(cfg, tr):
    T = cfg["T"]
    h = hist(cfg["how"], T, cfg["limit"])
    w = World(cfg["kind"], T, cfg["how"], h)
    todo = [(attach(w, thr, what, T, full=i == 0), fn, what) for i, (thr, fn, what) in enumerate(w.thresholds())]
    w.m.run()
    for recs, fn, what in todo:
        on = [[bool(fn(v)) for v in x] for x in w.hist]
        verify(w, recs, on, 0, what, tr)
        for x in on:
            tr.state(cfg["kind"], x)
    tr.run(len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- the ways of running -----------------------------------------------------

def gen_again(tier):
    T = 4 if tier == "quick" else 5
    for how in ("index", "node", "storage"):
        for kind in ("D", "M"):
            for before in range(T + 1):
                for finish in (False, True):
                    for first in range(T):
                        if how == "storage" and first:
                            continue  # volumes are imposed from the first step on
                        yield {"how": how, "kind": kind, "T": T, "before": before, "finish": finish, "first": first, "every": 5 if tier == "quick" else 1}


def run_again(cfg, tr):
    T, before, first = cfg["T"], cfg["before"], cfg["first"]
    h = hist(cfg["how"], T, 82 if cfg["how"] == "index" else 27)
    w = World(cfg["kind"], T, cfg["how"], h)
    ths = w.thresholds()
    todo = [(attach(w, thr, what, T, full=False), fn, what) for i, (thr, fn, what) in enumerate(ths[first % 3::cfg["every"]] if len(ths) > 1 else ths)]
    m = w.m
    m.setup()
    m.reset()
    for _ in range(before):
        m.step()
    if cfg["finish"]:
        m.finish()
        if before:
            for recs, fn, what in todo:
                on = [[bool(fn(v)) for v in x[:before]] for x in w.hist]
                verify(w, recs, on, 0, what + ", after %d steps" % before, tr)
    m.reset(start=m.timestepper.datetime_index[first].start_time)
    for _ in range(first, T):
        m.step()
    m.finish()
    for recs, fn, what in todo:
        on = [[bool(fn(v)) for v in x] for x in w.hist]
        verify(w, recs, on, first, what + ", second run", tr)
    if first == 0:
        m.run()
        for recs, fn, what in todo:
            verify(w, recs, [[bool(fn(v)) for v in x] for x in w.hist], 0, what + ", third run", tr)
    for x in h:
        tr.state(sorted(cfg.items()), x)
    tr.run(3 * len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- scenarios ---------------------------------------------------------------

SELECT = {
    "all": None, "reverse": lambda c: c[::-1], "odd": lambda c: c[1::2], "one": lambda c: c[-2:-1], "twice": lambda c: [c[1], c[3], c[1]], "mixed": lambda c: [c[-1], c[0], c[2]],
}


def gen_select(tier):
    for how in ("index", "param", "node"):
        for T in (2, 3, 4):
            for sel in SELECT:
                for swap in (False, True):
                    yield {"how": how, "T": T, "select": sel, "swap": swap}


def run_select(cfg, tr):
    T = cfg["T"]
    h = hist(cfg["how"], T, 20)
    w = World("D", T, cfg["how"], h, extra=2, select=SELECT[cfg["select"]], swap=cfg["swap"])
    todo = [(attach(w, thr, what, T, full=False), fn, what) for i, (thr, fn, what) in enumerate(w.thresholds())]
    w.m.run()
    for recs, fn, what in todo:
        on = [[bool(fn(v)) for v in x] for x in w.hist]
        verify(w, recs, on, 0, what, tr)
    for c in w.combos:
        tr.state(sorted(cfg.items()), c)
    tr.run(len(w.combos))
    tr.outcome = (sorted(cfg.items()),)


# ---- documents ---------------------------------------------------------------

def gen_json(tier):
    for order in itertools.permutations(range(3)):
        for style in ("named", "inline"):
            for minlen in (1, 2, 3):
                yield {"order": order, "style": style, "minlen": minlen}


def run_json(cfg, tr):
    T = 5
    for bits in itertools.product([0.0, 1.0, 0.25], repeat=T):
        if bits[::-1] < bits:
            continue
        start, end, delta, days, dates = span("D", T)  # 27 Feb to 2 March 2000
        prof = [0.0] * 366
        prof[57:57 + T] = bits
        on = {"type": "aggregated", "agg_func": "product", "parameters": [{"type": "dailyprofile", "values": prof}, {"type": "constantscenario", "scenario": "s", "values": [0.5, 0.0, -1.0]}]}
        tv = [float((i * 5) % 13) for i in range(366)]
        track = {"type": "dailyprofile", "values": tv}
        ev = {"type": "event", "threshold": "on", "minimum_event_length": cfg["minlen"], "tracked_parameter": "track"}
        if cfg["style"] == "inline":
            ev.update(tracked_parameter=track, threshold=on)
        recs = [("ev", ev), ("dur", {"type": "eventduration", "event_recorder": "ev", "recorder_agg_func": "max", "agg_func": "sum"}),
                ("stat", {"type": "eventstatistic", "event_recorder": "ev", "event_agg_func": "sum", "recorder_agg_func": "min", "agg_func": "mean"})]
        doc = {
            "metadata": {"title": "t", "minimum_version": "0.1"},
            "timestepper": {"start": start, "end": end, "timestep": delta},
            "scenarios": [{"name": "s", "size": 3}],
            "nodes": [{"name": "in", "type": "Input", "max_flow": 1.0}, {"name": "out", "type": "Output", "cost": -1.0}],
            "edges": [["in", "out"]],
            "parameters": {} if cfg["style"] == "inline" else {"track": track, "on": on},
            "recorders": dict(recs[i] for i in cfg["order"]),
        }
        m = Model.load(doc)
        m.run()
        want = events([b != 0 for b in bits], cfg["minlen"])
        got = sorted((e.scenario_index.global_id, e.start.index, e.end.index) for e in m.recorders["ev"].events)
        require(got == sorted((s, a, b) for s in (0, 2) for a, b in want), "events of the document", "json")
        if want:
            dur = float(max(b - a for a, b in want))
            st = float(min(sum(tv[57 + a:57 + b]) for a, b in want))
        else:
            dur = st = float("nan")
        require_same(m.recorders["dur"].values(), [dur, float("nan"), dur], "durations of the document", "json")
        require_same(m.recorders["stat"].values(), [st, float("nan"), st], "statistics of the document", "json")
        tr.state(cfg["minlen"], bits)
        tr.step(3)
        tr.run(3)
    tr.outcome = (sorted(cfg.items()),)


GROUPS = {"run": (gen_run, run_run), "again": (gen_again, run_again), "select": (gen_select, run_select), "json": (gen_json, run_json)}
