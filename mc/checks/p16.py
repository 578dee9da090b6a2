"""P16: parameters with a memory recall exactly the past they claim."""
import itertools

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario, Node
from pywr.nodes import (Input, Output, Link, Storage, LossLink, PiecewiseLink, AggregatedNode, AggregatedStorage, VirtualStorage, DelayNode)
from pywr.parameters import (Parameter, FlowParameter, FlowDelayParameter, RollingMeanFlowNodeParameter, DeficitParameter, StorageParameter, DiscountFactorParameter,
                             AggregatedParameter)
from pywr.recorders import NumpyArrayParameterRecorder
from mc.harness import require
from mc.probe import Fn, Grab, require_same
from mc.checks.p17 import times, histories

TECHNIQUE = ("exhaustive enumeration of all histories of flows and volumes over a small alphabet up to a length, run as the scenarios of real models, with "
             "every look-back parameter read during each step and compared with its definition on the history so far")
BOUNDS = ("histories over {0,1,2.5} of every length 1 to 6 (7 in the thorough tier); delays and windows of 1 to length+1 steps, and in days; initial values 0 and 2.5 (and 7); nodes of eight kinds; "
          "constant and varying maximum flows; volumes over {0,4,10}; steps of 1, 3 and 7 days and months; one run, repeated runs, runs restarted after any number of steps and started "
          "later; scenario orders and selections; all pairs (thorough: triples) of step lengths, one after another on the same model")


class Seen(Parameter):
    """what another parameter is worth when it is used"""

    def __init__(self, model, p, **kw):
        super().__init__(model, **kw)
        self.p = p
        self.children.add(p)

    def value(self, ts, si):
        return self.p.get_value(si)


class Watch:
    def __init__(self, m):
        self.m, self.items = m, []
        self.seen = []

    def add(self, p, fn, what):
        """fn(history of the watched quantity of one combination, step, first step) -> value in the step"""
        s = Seen(self.m, p)
        self.seen.append(s)
        self.items.append((fn, what))

    def grab(self):
        self.g = Grab(self.m, params=self.seen, name="watch")

    def check(self, series, first, T, tr, note):
        """series(what, c) -> history"""
        got = self.g.vals()
        require(got.shape[0] == T - first, note + ": steps seen", "harness")
        for j, (fn, what) in enumerate(self.items):
            want = [[fn(series(what[0], c), t, first) for c in range(got.shape[2])] for t in range(first, T)]
            require_same(got[:, j], want, "%s: %s of %s" % (note, what[1], what[0]), what[1].split()[0])
            tr.step(got.shape[0] * got.shape[2])


def add_memory(w, m, node, nm, T, kind, initials=(0.0, 2.5)):
    step = {"D": 1, "3D": 3, "7D": 7}.get(kind)
    flow = isinstance(node, Node)
    if flow:
        w.add(FlowParameter(m, node), lambda x, t, a: x[t - 1] if t > a else 0.0, (nm, "previous flow"))
    for i0 in initials:
        if flow:
            w.add(FlowParameter(m, node, initial_value=i0), lambda x, t, a, i0=i0: x[t - 1] if t > a else i0, (nm, "previous flow, initially %g" % i0))
        for d in range(1, T + 2):
            def delayed(x, t, a, d=d, i0=i0):
                return x[t - d] if t - d >= a else i0
            w.add(FlowDelayParameter(m, node, timesteps=d, initial_flow=i0), delayed, (nm, "delay of %d, initially %g" % (d, i0)))
            if step:
                w.add(FlowDelayParameter(m, node, days=d * step, initial_flow=i0), delayed, (nm, "delay of %d days, initially %g" % (d * step, i0)))

            def rolling(x, t, a, d=d, i0=i0):
                q = x[max(a, t - d):t]
                return sum(q) / len(q) if q else i0
            w.add(RollingMeanFlowNodeParameter(m, node, timesteps=d, initial_flow=i0), rolling, (nm, "rolling mean of %d, initially %g" % (d, i0)))
            if step:
                w.add(RollingMeanFlowNodeParameter(m, node, days=d * step, initial_flow=i0), rolling, (nm, "rolling mean of %d days, initially %g" % (d * step, i0)))


# ---- flows -------------------------------------------------------------------

FLOWS = [0.0, 1.0, 2.5]
NODES = ["in", "link", "out", "loss", "piece", "agg", "both", "store"]


def build(cfg, h, swap=False, select=None):
    T, kind = cfg["T"], cfg["kind"]
    start, end, delta, days, dates = times(kind, T)
    m = Model(start=start, end=end, timestep=delta)
    if swap:
        Scenario(m, "other", size=2)
    Scenario(m, "s", size=len(h))
    g = 1 if swap else 0
    combos = [(i, j) for i in range(2) for j in range(len(h))] if swap else [(j,) for j in range(len(h))]
    if select:
        combos = select(combos)
        m.scenarios.user_combinations = combos
    f = lambda t, si: h[si[g]][t] if t >= 0 else 0.0
    x = lambda c: h[combos[c][g]]
    src = Input(m, "src", max_flow=Fn(m, f))
    nodes, series = {}, {}
    k = cfg["node"]
    if k in ("in", "link", "out", "agg", "both"):
        lk, out = Link(m, "lk"), Output(m, "out", cost=-1.0, max_flow=Fn(m, lambda t, si: 2.0 + (t % 2)))
        src.connect(lk), lk.connect(out)
        other = Input(m, "other", max_flow=1.0)
        other.connect(out)
        flow = lambda c: [min(v, 2.0 + (t % 2)) for t, v in enumerate(x(c))]
        # out is filled from src first
        other.cost = 0.5
        tot = lambda c: [min(v + 1.0, 2.0 + (t % 2)) for t, v in enumerate(x(c))]
        a = AggregatedNode(m, "agg", [lk, other])
        b = AggregatedNode(m, "both", [out, lk])
        series.update({"in": flow, "link": flow, "out": tot, "agg": tot, "both": lambda c: [p + q for p, q in zip(tot(c), flow(c))]})
        nodes.update({"in": src, "link": lk, "out": out, "agg": a, "both": b})
    elif k == "loss":
        ls, out = LossLink(m, "loss", loss_factor=0.25), Output(m, "out", cost=-1.0)
        src.connect(ls), ls.connect(out)
        nodes["loss"], series["loss"] = ls, lambda c: [v / 1.25 for v in x(c)]
    elif k == "piece":
        pl, out = PiecewiseLink(m, name="piece", nsteps=2, max_flows=[1.0, 1.0], costs=[0.0, 0.5]), Output(m, "out", cost=-1.0)
        src.connect(pl), pl.connect(out)
        nodes["piece"], series["piece"] = pl, lambda c: [min(v, 2.0) for v in x(c)]
    else:
        st, out = Storage(m, "store", max_volume=1000.0, initial_volume=500.0, cost=-0.5), Output(m, "out", cost=-1.0, max_flow=1.0)
        src.connect(st), st.connect(out)
        nodes["store"], series["store"] = st, lambda c: [v - 1.0 for v in x(c)]  # flow into the store
    return m, nodes[k], series[k], combos


def gen_flow(tier):
    for node in NODES:
        for kind in ("D", "3D", "7D", "M"):
            for T in range(1, 7 if tier == "quick" else 8):
                if T >= (6 if tier == "quick" else 7) and (kind != "D" or node not in ("in", "agg")):
                    continue
                yield {"node": node, "kind": kind, "T": T}


def run_flow(cfg, tr):
    T = cfg["T"]
    h = histories(FLOWS, T)
    m, node, series, combos = build(cfg, h)
    w = Watch(m)
    add_memory(w, m, node, node.name, T, cfg["kind"])
    w.grab()
    flow = Grab(m, nodes=[node], name="flow")
    m.run()
    require_same(flow.flow()[:, 0].T, [series(c) for c in range(len(combos))], "flow of " + node.name, "harness")
    w.check(lambda what, c: series(c), 0, T, tr, "%s steps of %s" % (T, cfg["kind"]))
    for x in h:
        tr.state(cfg["node"], x)
    tr.run(len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- running again -----------------------------------------------------------

SELECT = {"all": None, "reverse": lambda c: c[::-1], "odd": lambda c: c[1::2], "twice": lambda c: [c[1], c[3], c[1], c[0]]}


def gen_again(tier):
    T = 4 if tier == "quick" else 5
    for node in ("in", "agg", "store") if tier == "quick" else [n for n in NODES]:
        for kind in ("D", "M"):
            for before in range(T + 1):
                for first in range(T):
                    for select in (("all",) if before not in (0, 2) else SELECT):
                        yield {"node": node, "kind": kind, "T": T, "before": before, "first": first, "select": select}


def run_again(cfg, tr):
    T, before, first = cfg["T"], cfg["before"], cfg["first"]
    h = histories(FLOWS, T)[::1 if cfg["select"] == "all" else 7]
    m, node, series, combos = build(cfg, h, swap=cfg["select"] != "all", select=SELECT[cfg["select"]])
    w = Watch(m)
    add_memory(w, m, node, node.name, T, cfg["kind"], (7.0,))
    w.grab()
    m.setup()
    m.reset()
    for _ in range(before):
        m.step()
    note = "after %d steps and a reset to step %d" % (before, first)
    m.reset(start=m.timestepper.datetime_index[first].start_time)
    for _ in range(first, T):
        m.step()
    m.finish()
    w.check(lambda what, c: series(c), first, T, tr, note)
    m.run()
    w.check(lambda what, c: series(c), 0, T, tr, note + ", then run")
    for x in h:
        tr.state(sorted(cfg.items()), x)
    tr.run(2 * len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- deficits ----------------------------------------------------------------

def gen_deficit(tier):
    for how in ("constant", "parameter", "shared"):
        for where in ("out", "link", "in"):
            for kind in ("D", "3D", "M"):
                for T in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
                    yield {"how": how, "where": where, "kind": kind, "T": T}


def run_deficit(cfg, tr):
    T, kind, how = cfg["T"], cfg["kind"], cfg["how"]
    start, end, delta, days, dates = times(kind, T)
    h = histories([(0.0, 1.0), (1.0, 1.0), (2.5, 4.0), (4.0, 0.0), (1.0, 2.5)], T)  # what is available, what is asked for
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=len(h))
    ask = Fn(m, lambda t, si: h[si[0]][t][1])
    have = Fn(m, lambda t, si: h[si[0]][t][0])
    a, l, o = Input(m, "a"), Link(m, "l"), Output(m, "o", cost=-1.0)
    a.connect(l), l.connect(o)
    node, limiter = {"out": (o, a), "link": (l, a), "in": (a, o)}[cfg["where"]]
    limiter.max_flow = have
    if how == "constant":
        node.max_flow = 2.0
        want = lambda x: [2.0 - min(v, 2.0) for v, _ in x]
    else:
        node.max_flow = ask if how == "parameter" else AggregatedParameter(m, [ask, ask], agg_func="mean")
        want = lambda x: [q - min(v, q) for v, q in x]
    p = DeficitParameter(m, node, name="deficit")
    w = Watch(m)
    w.add(p, lambda x, t, a0: x[t - 1] if t > a0 else 0.0, (node.name, "deficit"))
    w.grab()
    rec = NumpyArrayParameterRecorder(m, p, name="rec")
    for turn in range(2):
        m.run()
        w.check(lambda what, c: want(h[c]), 0, T, tr, "run %d" % turn)
        require_same(rec.data.T, [want(x) for x in h], "recorded deficit", "deficit")
    m.reset(start=m.timestepper.datetime_index[T - 1].start_time)
    m.step()
    w.check(lambda what, c: want(h[c]), T - 1, T, tr, "from the last step")
    for x in h:
        tr.state(sorted(cfg.items()), x)
    tr.run(3 * len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- volumes -----------------------------------------------------------------

def gen_storage(tier):
    for kind in ("D", "7D", "M"):
        for T in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6):
            for mx in ("constant", "varying"):
                yield {"kind": kind, "T": T, "mx": mx}


def run_storage(cfg, tr):
    T, kind = cfg["T"], cfg["kind"]
    start, end, delta, days, dates = times(kind, T)
    h = histories([0.0, 4.0, 10.0], T)
    m = Model(start=start, end=end, timestep=delta)
    Scenario(m, "s", size=len(h))
    v = lambda s, t: 6.0 if t < 0 else h[s][t]
    d = lambda t, si: (v(si[0], t) - v(si[0], t - 1)) / days[t]
    up, dn = Fn(m, lambda t, si: max(d(t, si), 0.0)), Fn(m, lambda t, si: max(-d(t, si), 0.0))
    a, y = Input(m, "a", min_flow=up, max_flow=up), Output(m, "y", min_flow=dn, max_flow=dn)
    # a maximum that varies is the one the volume reached at the end of the step before is measured with
    mxs = [10.0 + (5.0 * t if cfg["mx"] == "varying" else 0.0) for t in range(T)]
    st = Storage(m, "st", max_volume=10.0 if cfg["mx"] == "constant" else Fn(m, lambda t, si: mxs[t]), initial_volume=6.0, **({} if cfg["mx"] == "constant" else {"initial_volume_pc": 0.6}))
    other = Storage(m, "other", max_volume=30.0, initial_volume=3.0)
    x, z = Input(m, "x", max_flow=0.0), Output(m, "z", max_flow=0.0)
    a.connect(st), st.connect(y), x.connect(other), other.connect(z)
    both = AggregatedStorage(m, "both", [st, other])
    vs = VirtualStorage(m, "vs", [a], max_volume=10000.0, initial_volume=9000.0)
    w = Watch(m)
    vol = lambda c: [6.0] + list(h[c])
    used = lambda c: [9000.0 - sum(max(v(c, u) - v(c, u - 1), 0.0) for u in range(t)) for t in range(T + 1)]
    w.add(StorageParameter(m, st), lambda q, t, a0: q[0][t], ("st", "volume"))
    w.add(StorageParameter(m, both), lambda q, t, a0: q[0][t] + 3.0, ("both", "volume"))
    w.add(StorageParameter(m, vs), lambda q, t, a0: q[1][t], ("vs", "volume"))
    w.add(StorageParameter(m, vs, use_proportional_volume=True), lambda q, t, a0: q[1][t] / 10000.0, ("vs", "proportion"))
    if cfg["mx"] == "constant":
        w.add(StorageParameter(m, st, use_proportional_volume=True), lambda q, t, a0: q[0][t] / 10.0, ("st", "proportion"))
        w.add(StorageParameter(m, both, use_proportional_volume=True), lambda q, t, a0: (q[0][t] + 3.0) / 40.0, ("both", "proportion"))
    else:
        w.add(StorageParameter(m, st, use_proportional_volume=True), lambda q, t, a0: q[0][t] / mxs[max(t - 1, 0)], ("st", "proportion"))
    w.grab()
    for turn in range(2):
        m.run()
        w.check(lambda what, c: (vol(c), used(c)), 0, T, tr, "run %d" % turn)
    for q in h:
        tr.state(sorted(cfg.items()), q)
    tr.run(2 * len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- discounting -------------------------------------------------------------

def gen_discount(tier):
    for start, end, delta in (("1999-12-30", "2000-01-02", 1), ("1999-12-20", "2001-01-31", 7), ("1999-11-01", "2003-02-28", "M"), ("1999-06-01", "2004-12-31", 100), ("2000-01-01", "2003-12-31", 366)):
        for base in (1995, 2000, 2001, 2050):
            yield {"start": start, "end": end, "delta": delta, "base": base}


def run_discount(cfg, tr):
    m = Model(start=cfg["start"], end=cfg["end"], timestep=cfg["delta"])
    a, y = Input(m, "a", max_flow=0.0), Output(m, "y")
    a.connect(y)
    w = Watch(m)
    for r in (0.0, 0.035, 0.5, 1.0, -0.5):
        w.add(DiscountFactorParameter(m, r, cfg["base"]), lambda ys, t, a0, r=r: (1.0 + r) ** (cfg["base"] - ys[t]), ("years", "discount at %g" % r))
    w.grab()
    m.run()
    years = [p.start_time.year for p in m.timestepper.datetime_index]
    w.check(lambda what, c: years, 0, len(years), tr, "discounting")
    for y in years:
        tr.state(cfg["base"], y)
    tr.run()
    tr.outcome = (sorted((k, str(v)) for k, v in cfg.items()),)


# ---- feedback ----------------------------------------------------------------

def gen_loop(tier):
    for T in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6):
        for how in ("flow", "delay2", "mean2", "deficit", "chain"):
            yield {"T": T, "how": how}


def run_loop(cfg, tr):
    """what a node may pass depends on what it, or another, passed before"""
    T, how = cfg["T"], cfg["how"]
    h = histories([0.0, 1.0, 2.5], T)
    m = Model(start="2000-01-01", end=str((pd.Timestamp("2000-01-01") + pd.Timedelta(days=T - 1)).date()), timestep=1)
    Scenario(m, "s", size=len(h))
    a, o = Input(m, "a", max_flow=Fn(m, lambda t, si: h[si[0]][t])), Output(m, "o", cost=-1.0)
    b, q = Input(m, "b"), Output(m, "q", cost=-1.0)
    a.connect(o), b.connect(q)
    if how == "flow":
        b.max_flow = FlowParameter(m, a, initial_value=3.0)
        ref = lambda x: [x[t - 1] if t else 3.0 for t in range(T)]
    elif how == "delay2":
        b.max_flow = FlowDelayParameter(m, a, timesteps=2, initial_flow=1.5)
        ref = lambda x: [x[t - 2] if t > 1 else 1.5 for t in range(T)]
    elif how == "mean2":
        b.max_flow = RollingMeanFlowNodeParameter(m, a, timesteps=2, initial_flow=1.5)
        ref = lambda x: [sum(x[max(0, t - 2):t]) / min(t, 2) if t else 1.5 for t in range(T)]
    elif how == "deficit":
        o.max_flow = 2.0
        b.max_flow = DeficitParameter(m, o)
        ref = lambda x: [2.0 - min(2.0, x[t - 1]) if t else 0.0 for t in range(T)]
    else:  # its own flow of two steps ago plus what the other passed
        own = FlowDelayParameter(m, b, timesteps=2, initial_flow=0.25)
        prev = FlowParameter(m, a, initial_value=1.0)
        b.max_flow = AggregatedParameter(m, [own, prev], agg_func="sum")

        def ref(x):
            out = []
            for t in range(T):
                out.append((out[t - 2] if t > 1 else 0.25) + (x[t - 1] if t else 1.0))
            return out
    g = Grab(m, nodes=[b, q], name="g")
    for turn in range(2):
        m.run()
        want = np.array([ref(x) for x in h]).T
        require_same(g.flow()[:, 0], want, "flow that follows the past (%s)" % how, "loop")
        require_same(g.flow()[:, 1], want, "flow that follows the past (%s)" % how, "loop")
        tr.step(T * len(h))
    for x in h:
        tr.state(how, x)
    tr.run(2 * len(h))
    tr.outcome = (sorted(cfg.items()),)


# ---- the step changes between runs -------------------------------------------

DELTAS = (1, 2, 3, 4, 6)
SPAN = 25


def gen_restep(tier):
    for node in ("in", "agg", "delay"):
        for seq in itertools.product(DELTAS, repeat=2 if tier == "quick" else 3):
            if seq[0] != seq[1]:
                yield {"node": node, "seq": list(seq)}


def run_restep(cfg, tr):
    """a delay or mean of so many days is that of the step the model is run with, whatever step it was run with before"""
    k = cfg["node"]
    m = Model(start="2000-01-01", end="2000-01-%02d" % SPAN, timestep=cfg["seq"][0])
    Scenario(m, "s", size=3)
    x = lambda c: [float((t * (t + c + 1)) % 11) / 2 for t in range(SPAN)]
    xs = [x(c) for c in range(3)]
    src, lk, out = Input(m, "src", max_flow=Fn(m, lambda t, si: xs[si[0]][t] if t >= 0 else 0.0)), Link(m, "lk"), Output(m, "out", cost=-1.0)
    src.connect(lk), lk.connect(out)
    node, days = src, [d for d in (1, 2, 3, 4, 6, 12) if all(d % s == 0 for s in cfg["seq"])]
    if k == "agg":
        node = AggregatedNode(m, "agg", [src, lk])
    f = 2.0 if k == "agg" else 1.0
    w = Watch(m)
    for d in days + [24]:
        for i0 in (0.0, 2.5):
            def delayed(q, t, a, d=d, i0=i0):
                n = d // q[1]
                return q[0][t - n] * f if t >= n else i0

            def rolling(q, t, a, d=d, i0=i0):
                v = q[0][max(0, t - d // q[1]):t]
                return f * sum(v) / len(v) if v else i0
            if d % 24 == 0 or k != "delay":
                w.add(FlowDelayParameter(m, node, days=d, initial_flow=i0), delayed, ("x", "delay of %d days, initially %g" % (d, i0)))
                w.add(RollingMeanFlowNodeParameter(m, node, days=d, initial_flow=i0), rolling, ("x", "rolling mean of %d days, initially %g" % (d, i0)))
            else:
                q0 = Fn(m, lambda t, si: xs[si[0]][t] if t >= 0 else 0.0)
                a, dn, z = Input(m, "a%d %g" % (d, i0), min_flow=q0, max_flow=q0), DelayNode(m, "d%d %g" % (d, i0), days=d, initial_flow=i0), Output(m, "z%d %g" % (d, i0), cost=-1.0)
                a.connect(dn), dn.connect(z)
                w.add(FlowParameter(m, z), lambda q, t, a, g=delayed: g(q, t - 1, a) if t else 0.0, ("x", "delay node of %d days, initially %g" % (d, i0)))
    w.grab()
    for delta in cfg["seq"] + cfg["seq"][:1]:
        m.timestepper.delta = delta
        m.run()
        n = len(m.timestepper)
        require(n == (SPAN - 1) // delta + 1, "%d steps of %d days" % (n, delta), "harness")
        w.check(lambda what, c: (xs[c], delta), 0, n, tr, "steps of %d days in %s" % (delta, cfg["seq"]))
        tr.state(k, cfg["seq"], delta)
    tr.run(len(cfg["seq"]) + 1)
    tr.outcome = (k, cfg["seq"])


GROUPS = {"restep": (gen_restep, run_restep), "flow": (gen_flow, run_flow), "again": (gen_again, run_again), "deficit": (gen_deficit, run_deficit), "storage": (gen_storage, run_storage),
          "discount": (gen_discount, run_discount), "loop": (gen_loop, run_loop)}
