"""Small-network specifications, their realisation as pywr models, and an
independent edge-based reference of what one timestep of allocation may do.

spec = {
  "start": "2000-01-01", "delta": 1, "T": 4,
  "S": [sizes of scenario groups],
  "nodes": {name: {"k": kind, ...}},
  "edges": [[u, v] or [u, v, slot_u, slot_v]],
  "agg":  {name: {"nodes": [...], "factors": [...], "weights": [...], "min": v, "max": v}},
  "vs":   {name: {"nodes": [...], "factors": [...], "max": v, "min": v, "init": x, "cost": v}},
}
values: number | {"c": x} constant parameter | {"t": [...]} per step | {"s": [...], "g": group}
  | {"ts": [[... per step] per index of group], "g": group}
  | {"h": [alphabet], "g": group}: digit t of the group's index, base len(alphabet)
"""
import itertools
import warnings

import numpy as np
import pandas as pd
from scipy.optimize import linprog

from pywr.model import Model
from pywr.nodes import (Input, Output, Link, Storage, AggregatedNode, VirtualStorage,
                        PiecewiseLink, AggregatedStorage, BreakLink, LossLink)
from pywr.parameters import Parameter, ConstantParameter
from .harness import require, Violation

warnings.simplefilter("ignore")
INF = float("inf")
TOL = 1e-6


def num(x):
    return INF if x == "inf" else (-INF if x == "-inf" else x)


class Table(Parameter):
    """values[t][index of scenario group] (group None: same in all scenarios)."""

    def __init__(self, model, fn, **kw):
        super().__init__(model, **kw)
        self._fn = fn

    def value(self, ts, si):
        return self._fn(ts.index, si.indices)


def lookup(v):
    """value spec -> f(t, scenario_indices)"""
    if v is None:
        return lambda t, s: 0.0
    if isinstance(v, dict):
        g = v.get("g", 0)
        if "c" in v:
            c = num(v["c"])
            return lambda t, s: c
        if "t" in v:
            arr = [num(x) for x in v["t"]]
            return lambda t, s: arr[t % len(arr)]
        if "s" in v:
            arr = [num(x) for x in v["s"]]
            return lambda t, s: arr[s[g]]
        if "ts" in v:
            arr = [[num(x) for x in row] for row in v["ts"]]
            return lambda t, s: arr[s[g]][t]
        if "h" in v:
            a = [num(x) for x in v["h"]]
            n = len(a)
            return lambda t, s: a[(s[g] // n ** t) % n]
    c = num(v)
    return lambda t, s: c


def realise(model, v):
    if isinstance(v, dict):
        if "c" in v:
            return ConstantParameter(model, num(v["c"]))
        f = lookup(v)
        return Table(model, f)
    return num(v)


def is_static(v):
    return not isinstance(v, dict)


def make_model(spec, solver=None, solver_args=None, model=None):
    if model is None:
        start = pd.Timestamp(spec.get("start", "2000-01-01"))
        kw = {}
        if solver:
            kw["solver"] = solver
        if solver_args:
            kw["solver_args"] = solver_args
        model = Model(**kw)
        d = spec.get("delta", 1)
        T = spec["T"]
        if isinstance(d, int):
            end = start + pd.Timedelta(days=d * T - 1)
        else:
            last = pd.period_range(start, periods=T, freq=d)[-1]
            end = last.start_time if d.endswith("h") else last.end_time.normalize()
        model.timestepper.start = start
        model.timestepper.end = end
        model.timestepper.delta = d
        from pywr.core import Scenario
        for i, n in enumerate(spec.get("S", [])):
            Scenario(model, "s%d" % i, size=n)
    made = {}
    for name, nd in spec["nodes"].items():
        made[name] = make_node(model, name, nd)
    for e in spec["edges"]:
        u, v = made[e[0]], made[e[1]]
        if len(e) > 2:
            u.connect(v, from_slot=e[2], to_slot=e[3])
        else:
            u.connect(v)
    for name, a in spec.get("agg", {}).items():
        n = AggregatedNode(model, name, [made[x] for x in a["nodes"]])
        if "factors" in a:
            n.factors = [realise(model, f) for f in a["factors"]]
        if "weights" in a:
            n.flow_weights = a["weights"]
        if "min" in a:
            n.min_flow = realise(model, a["min"])
        if "max" in a:
            n.max_flow = realise(model, a["max"])
        made[name] = n
    for name, a in spec.get("vs", {}).items():
        made[name] = VirtualStorage(
            model, name, [made[x] for x in a["nodes"]],
            factors=a.get("factors"),
            max_volume=realise(model, a["max"]), min_volume=realise(model, a.get("min", 0.0)),
            initial_volume=a["init"], **({"initial_volume_pc": a["init_pc"]} if "init_pc" in a else {}),
            cost=realise(model, a.get("cost", 0.0)))
    return model, made


def make_node(model, name, nd):
    k = nd["k"]
    kw = {}
    for a, b in (("min", "min_flow"), ("max", "max_flow"), ("cost", "cost")):
        if a in nd:
            kw[b] = realise(model, nd[a])
    if "domain" in nd:
        kw["domain"] = domain(model, nd["domain"])
    if "conv" in nd:
        kw["conversion_factor"] = nd["conv"]
    if k == "input":
        return Input(model, name, **kw)
    if k == "output":
        return Output(model, name, **kw)
    if k == "link":
        return Link(model, name, **kw)
    if k == "break":
        return BreakLink(model, name, **kw)
    if k == "loss":
        return LossLink(model, name, loss_factor=realise(model, nd["loss"]), **kw)
    if k == "storage":
        kw = {"cost": realise(model, nd.get("cost", 0.0)),
              "max_volume": realise(model, nd["maxv"]),
              "min_volume": realise(model, nd.get("minv", 0.0)),
              "initial_volume": nd["init"]}
        if "init_pc" in nd:
            kw["initial_volume_pc"] = nd["init_pc"]
        if "ni" in nd:
            kw["inputs"] = nd["ni"]
        if "no" in nd:
            kw["outputs"] = nd["no"]
        return Storage(model, name, **kw)
    if k == "piecewise":
        return PiecewiseLink(model, len(nd["maxs"]), name=name,
                             max_flows=[realise(model, x) for x in nd["maxs"]],
                             costs=[realise(model, x) for x in nd["costs"]])
    raise KeyError(k)


_domains = {}


def domain(model, name):
    from pywr.core import Domain
    key = (id(model), name)
    if not hasattr(model, "_vf_domains"):
        model._vf_domains = {}
    if name not in model._vf_domains:
        model._vf_domains[name] = Domain(name)
    return model._vf_domains[name]


# ---------------------------------------------------------------- reference

class Ref:
    """The set of allowed allocations of one timestep, written on edges."""

    def __init__(self, spec):
        self.spec = spec
        self.tol = TOL
        self.nodes = spec["nodes"]
        self.T = spec["T"]
        self.S = spec.get("S", [])
        self.combos = list(itertools.product(*[range(n) for n in self.S])) if self.S else [(0,)]
        dom = {n: d.get("domain") for n, d in self.nodes.items()}
        self.cross = [(e[0], e[1]) for e in spec["edges"] if dom[e[0]] != dom[e[1]]]
        self.edges = [(e[0], e[1]) for e in spec["edges"] if dom[e[0]] == dom[e[1]]]
        self.ne = len(self.edges)
        self.extra = []  # (node, index, bound fn, cost fn)
        self.ins = {n: [i for i, e in enumerate(self.edges) if e[1] == n] for n in self.nodes}
        self.outs = {n: [i for i, e in enumerate(self.edges) if e[0] == n] for n in self.nodes}
        self.band = {}
        self.lossvar = {}
        for n, d in self.nodes.items():
            if d["k"] == "piecewise":
                self.band[n] = []
                for j, (m, c) in enumerate(zip(d["maxs"], d["costs"])):
                    self.band[n].append(self.ne + len(self.extra))
                    self.extra.append((n, lookup(m), lookup(c)))
            if d["k"] == "loss":
                self.lossvar[n] = self.ne + len(self.extra)
                self.extra.append((n, lookup("inf"), lookup(0.0)))
        self.nv = self.ne + len(self.extra)
        self.fn = {}
        for n, d in self.nodes.items():
            for a in ("min", "max", "cost", "maxv", "minv", "loss"):
                if a in d:
                    self.fn[n, a] = lookup(d[a])
        for kind in ("agg", "vs"):
            for n, d in spec.get(kind, {}).items():
                for a in ("min", "max", "cost"):
                    if a in d:
                        self.fn[n, a] = lookup(d[a])
                if kind == "agg" and "factors" in d:
                    for j, f in enumerate(d["factors"]):
                        self.fn[n, "f", j] = lookup(f)
        self.storages = [n for n, d in self.nodes.items() if d["k"] == "storage"]
        self.vss = list(spec.get("vs", {}))
        self.cache = {}
        self.fcache = {}
        # row vectors
        self.vec = {}
        for n, d in self.nodes.items():
            v = np.zeros(self.nv)
            if d["k"] == "output" or d["k"] == "storage" :
                for i in self.ins[n]:
                    v[i] += 1
                if d["k"] == "storage":
                    for i in self.outs[n]:
                        v[i] -= 1
            elif d["k"] == "loss":
                for i in self.outs[n]:
                    v[i] += 1
            else:
                for i in self.outs[n]:
                    v[i] += 1
            self.vec[n] = v  # flow of node n (storage: net change rate)
        self.balance = []  # rows = 0
        for n, d in self.nodes.items():
            k = d["k"]
            if k in ("link", "break", "piecewise", "loss"):
                r = np.zeros(self.nv)
                for i in self.ins[n]:
                    r[i] += 1
                for i in self.outs[n]:
                    r[i] -= 1
                if k == "loss":
                    r[self.lossvar[n]] -= 1
                self.balance.append(r)
            if k == "piecewise":
                r = np.zeros(self.nv)
                for i in self.outs[n]:
                    r[i] += 1
                for i in self.band[n]:
                    r[i] -= 1
                self.balance.append(r)
        cd = {}
        for o, i in self.cross:
            cd.setdefault(o, []).append(i)
        for o, inputs in cd.items():
            r = -self.vec[o]
            for i in inputs:
                r = r + self.vec[i] / self.nodes[i].get("conv", 1.0)
            self.balance.append(r)

    def get(self, n, a, t, s, default):
        f = self.fn.get((n, a))
        return default if f is None else f(t, s)

    def costvec(self, t, s):
        c = np.zeros(self.nv)
        for n, d in self.nodes.items():
            k = d["k"]
            cost = self.get(n, "cost", t, s, 0.0)
            if not cost:
                continue
            if k == "storage":
                for i in self.ins[n]:
                    c[i] += cost
                for i in self.outs[n]:
                    c[i] -= cost
            elif k != "piecewise":
                for i in np.nonzero(self.vec[n])[0]:
                    c[i] += cost
        for j, (n, m, cf) in enumerate(self.extra):
            c[self.ne + j] = cf(t, s)
        return c

    def limits(self, t, s, days, vol):
        """-> (key, rows) rows: list of (vector, lo, hi)"""
        rows = [(r, 0.0, 0.0) for r in self.balance]
        nums = []
        for n, d in self.nodes.items():
            k = d["k"]
            if k == "storage":
                lo, hi = self.store_limits(n, t, s, days, vol[n])
            elif k == "piecewise":
                continue
            else:
                lo = self.get(n, "min", t, s, 0.0)
                hi = self.get(n, "max", t, s, INF)
            rows.append((self.vec[n], lo, hi))
            nums += [lo, hi]
            if k == "loss":
                r = np.zeros(self.nv)
                lf = self.get(n, "loss", t, s, 0.0)
                r += self.vec[n] * lf
                r[self.lossvar[n]] -= 1
                rows.append((r, 0.0, 0.0))
                nums.append(lf)
        for n in self.vss:
            d = self.spec["vs"][n]
            r = np.zeros(self.nv)
            for m, f in zip(d["nodes"], d.get("factors") or [1.0] * len(d["nodes"])):
                r = r - f * self.vec[m]
            lo, hi = self.store_limits(n, t, s, days, vol[n], vs=True)
            rows.append((r, lo, hi))
            nums += [lo, hi]
        for n, d in self.spec.get("agg", {}).items():
            if "factors" in d:
                fs = [self.fn[n, "f", j](t, s) for j in range(len(d["factors"]))]
                nums += fs
                for j in range(1, len(fs)):
                    r = fs[j] * self.vec[d["nodes"][0]] - fs[0] * self.vec[d["nodes"][j]]
                    rows.append((r, 0.0, 0.0))
            lo = self.get(n, "min", t, s, 0.0)
            hi = self.get(n, "max", t, s, INF)
            w = d.get("weights") or [1.0] * len(d["nodes"])
            r = np.zeros(self.nv)
            for m, x in zip(d["nodes"], w):
                r = r + x * self.vec[m]
            rows.append((r, lo, hi))
            nums += [lo, hi]
        ub = [INF] * self.ne + [m(t, s) for (_, m, _c) in self.extra]
        nums += ub[self.ne:]
        return tuple(round(x, 9) for x in nums), rows, ub

    def store_limits(self, n, t, s, days, v, vs=False):
        a, b = ("min", "max") if vs else ("minv", "maxv")
        mn = self.get(n, a, t, s, 0.0)
        mx = self.get(n, b, t, s, 0.0)
        if mn == mx and abs(v - mx) < 1e-9:
            return 0.0, 0.0
        return -max(v - mn, 0.0) / days, max(mx - v, 0.0) / days

    def optimum(self, t, s, days, vol):
        """Least total cost, or None if nothing is feasible."""
        key, rows, ub = self.limits(t, s, days, vol)
        c = self.costvec(t, s)
        k = (key, tuple(c))
        if k in self.cache:
            return self.cache[k]
        z = self._lp(c, rows, ub)
        self.cache[k] = z
        return z

    def _lp(self, c, rows, ub, extra=None):
        Aeq, beq, Aub, bub = [], [], [], []
        for r, lo, hi in rows:
            if lo > hi:
                return None
            if lo == hi:
                Aeq.append(r); beq.append(lo)
            else:
                if hi < INF:
                    Aub.append(r); bub.append(hi)
                if lo > -INF:
                    Aub.append(-r); bub.append(-lo)
        kw = {}
        if Aub:
            kw["A_ub"], kw["b_ub"] = np.array(Aub), bub
        if Aeq:
            kw["A_eq"], kw["b_eq"] = np.array(Aeq), beq
        res = linprog(c, bounds=[(0, None if u == INF else u) for u in ub], method="highs", **kw)
        if res.status == 2:
            return None
        if res.status == 4 or res.status == 3:
            # distinguish infeasible from unbounded
            r2 = linprog(np.zeros(len(c)), bounds=[(0, None if u == INF else u) for u in ub], method="highs", **kw)
            if r2.status == 2:
                return None
            return -INF
        assert res.status == 0, res.message
        return res.fun

    def feasible_flows(self, t, s, days, vol, flows):
        """None if the reported node flows can be carried by the edges within
        all limits, else a description of what is broken."""
        key, rows, ub = self.limits(t, s, days, vol)
        names = list(self.nodes)
        fkey = (key, tuple(round(flows[n], 6) + 0.0 for n in names))
        if fkey in self.fcache:
            return self.fcache[fkey]
        # direct limits first: they give readable messages
        msg = None
        rep = {n: flows[n] for n in names}
        bounds = {}
        for n, d in self.nodes.items():
            if d["k"] == "piecewise":
                continue
            if d["k"] == "storage":
                lo, hi = self.store_limits(n, t, s, days, vol[n])
            else:
                lo = self.get(n, "min", t, s, 0.0)
                hi = self.get(n, "max", t, s, INF)
            if not (lo - self.tol <= rep[n] <= hi + self.tol):
                msg = "node %s flow %r outside [%r, %r]" % (n, rep[n], lo, hi)
                break
        if msg is None:
            # slack LP: edges x >= 0, |vec.x - flow| <= eps per node, rows within eps
            Aub, bub = [], []
            for n in names:
                v = self.vec[n]
                Aub.append(np.append(v, -1.0)); bub.append(rep[n])
                Aub.append(np.append(-v, -1.0)); bub.append(-rep[n])
            for r, lo, hi in rows:
                if hi < INF:
                    Aub.append(np.append(r, -1.0)); bub.append(hi)
                if lo > -INF:
                    Aub.append(np.append(-r, -1.0)); bub.append(-lo)
            c = np.zeros(self.nv + 1)
            c[-1] = 1
            res = linprog(c, A_ub=np.array(Aub), b_ub=bub,
                          bounds=[(0, None if u == INF else u) for u in ub] + [(0, None)], method="highs")
            assert res.status == 0, res.message
            if res.fun > 10 * self.tol:
                msg = "reported flows %r cannot be carried by any edge flows within the constraints (violation %.6g)" % (
                    {n: round(x, 6) for n, x in rep.items()}, res.fun)
        self.fcache[fkey] = msg
        return msg

    def cost_of(self, t, s, flows, bandflows=None):
        tot = 0.0
        for n, d in self.nodes.items():
            if d["k"] == "piecewise":
                for f, c in zip(bandflows[n], d["costs"]):
                    tot += f * lookup(c)(t, s)
            else:
                c = self.get(n, "cost", t, s, 0.0)
                if c:
                    tot += c * flows[n]
        return tot


def initial_volumes(spec):
    v = {n: d["init"] for n, d in spec["nodes"].items() if d["k"] == "storage"}
    v.update({n: d["init"] for n, d in spec.get("vs", {}).items()})
    return v


def snap(v, mn, mx, q=1.0):
    if abs(v - mx) < 1e-6 / q:
        v = mx
    if abs(v - mn) < 1e-6 / q:
        v = mn
    return v


def times(v, k):
    """a value spec multiplied by k"""
    if isinstance(v, dict):
        return {a: (b if a == "g" else times(b, k)) for a, b in v.items()}
    if isinstance(v, list):
        return [times(x, k) for x in v]
    return v if v is None or isinstance(v, str) else v * k


def scaled(spec, q, c):
    """The same network in other units: flows and volumes times q, costs times c."""
    sp = dict(spec)
    sp["nodes"] = {n: {a: times(v, q) if a in ("min", "max", "minv", "maxv", "init", "maxs") else times(v, c) if a in ("cost", "costs") else v
                       for a, v in d.items()} for n, d in spec["nodes"].items()}
    for k in ("vs", "agg"):
        sp[k] = {n: {a: times(v, q) if a in ("min", "max", "init") else times(v, c) if a == "cost" else v for a, v in d.items()} for n, d in spec.get(k, {}).items()}
    return sp


class Runner:
    """Steps a real model beside the reference, checking each step."""

    def __init__(self, spec, ref, solver, solver_args=None, build=None, unit=(1.0, 1.0)):
        self.spec, self.ref, self.solver = spec, ref, solver
        self.q = unit[0]
        ref.tol = max(TOL, 2e-7 / self.q)
        self.model, self.made = (build or make_model)(scaled(spec, *unit) if tuple(unit) != (1.0, 1.0) else spec, solver, solver_args)
        self.names = list(spec["nodes"])

    def flows(self):
        return {n: np.array(self.made[n].flow) / self.q for n in self.names}

    def run(self, tr, feas=True, opt=True, volumes=True):
        spec, ref, m = self.spec, self.ref, self.model
        ns = len(ref.combos)
        v0 = initial_volumes(spec)
        vols = [dict(v0) for _ in range(ns)]
        out = []
        m.setup()
        m.reset()
        for t in range(spec["T"]):
            m.step()
            ts = m.timestep
            require(ts.index == t, "step %d reported index %d" % (t, ts.index))
            days = step_days(spec, t)
            fl = self.flows()
            bands = {n: [np.array(b.flow) / self.q for b in self.made[n].sublinks] for n in ref.band}
            for i, s in enumerate(ref.combos):
                f = {n: float(fl[n][i]) for n in self.names}
                if feas:
                    msg = ref.feasible_flows(t, s, days, vols[i], f)
                    require(msg is None, lambda: "%s step %d scenario %r: %s" % (self.solver, t, s, msg))
                if opt:
                    z = ref.optimum(t, s, days, vols[i])
                    require(z is not None, lambda: "%s step %d scenario %r: allocated %r although no allocation is feasible" % (self.solver, t, s, f))
                    got = ref.cost_of(t, s, f, {n: [float(b[i]) for b in bb] for n, bb in bands.items()})
                    require(abs(got - z) <= 10 * ref.tol * max(1, abs(z)),
                            lambda: "%s step %d scenario %r: allocation %r costs %.9g, the least is %.9g" % (
                                self.solver, t, s, {k: round(x, 6) for k, x in f.items()}, got, z))
                tr.step()
                for n in ref.storages + ref.vss:
                    vs = n in spec.get("vs", {})
                    if vs:
                        d = spec["vs"][n]
                        net = -sum(fa * f[x] for x, fa in zip(d["nodes"], d.get("factors") or [1.0] * len(d["nodes"])))
                        mn, mx = ref.get(n, "min", t, s, 0.0), ref.get(n, "max", t, s, 0.0)
                    else:
                        net = f[n]
                        mn, mx = ref.get(n, "minv", t, s, 0.0), ref.get(n, "maxv", t, s, 0.0)
                    vols[i][n] = snap(vols[i][n] + net * days, mn, mx, self.q)
                    got = float(self.made[n].volume[i]) / self.q
                    if volumes:
                        require(abs(got - vols[i][n]) <= ref.tol * max(1, abs(got)),
                                lambda: "%s step %d scenario %r: %s volume %.9g, expected %.9g" % (self.solver, t, s, n, got, vols[i][n]))
                    vols[i][n] = got
                tr.state(t, s if len(spec.get("S", [])) else 0, sorted(vols[i].items()), sorted(f.items()))
            out.append(fl)
        m.finish()
        tr.run(ns)
        return out, vols


def step_days(spec, t):
    d = spec.get("delta", 1)
    if isinstance(d, int):
        return d
    p = pd.period_range(pd.Timestamp(spec.get("start", "2000-01-01")), periods=spec["T"], freq=d)[t]
    return round((p.end_time - p.start_time).total_seconds()) / 86400
