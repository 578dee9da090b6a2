"""P09: compound nodes behave, at their boundary, as defined."""
import itertools

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import (Input, Output, Link, Storage, PiecewiseLink, MultiSplitLink, LossLink, BreakLink, DelayNode, AggregatedNode, AggregatedStorage,
                        VirtualStorage, AnnualVirtualStorage, MonthlyVirtualStorage, RollingVirtualStorage)
from pywr.domains.river import RiverSplit, RiverSplitWithGauge, RiverGauge, Catchment, Reservoir, River, Discharge
from pywr.parameters import ConstantParameter
from mc.harness import require, Violation
from mc.probe import Fn, require_same

TECHNIQUE = ("exhaustive enumeration of compound nodes with small limits, costs, ratios, losses and delays under every history of inflows over a small alphabet, run on the real code "
             "by all three solvers; the definition of the node gives the flow of every part and the total in every step, of which the previous flow must be a copy")
BOUNDS = ("piecewise links of 1 to 3 bands with limits {0, 2, 3.5, none} and costs {-1, 0, 1, 4}, constant or changing with time and scenario, alone and two in a row; splits into 2 and 3 with "
          "factors {none, 1, 2, 3} and limited outlets, with and without residual flow; gauges; losses {0, 0.25, 0.5, 1, 1.5} gross and net with minimum and maximum flow and cost; break links between 1 to 3 inputs "
          "and outputs; delays of 1 to 5 steps or days, alone and two in a row, restarted after every step; catchments; reservoirs with curves; totals, ratios and licences over every kind of node in every "
          "order of declaration; all histories of 2 to 4 inflows; three solvers; every run repeated")

SOLVERS = ("glpk", "glpk-edge", "lpsolve")
INF = float("inf")


def hist(al, T):
    return list(itertools.product(al, repeat=T))


def new(solver, T, h, start="2000-01-01", delta=1):
    m = Model(start=start, end=pd.Timestamp(start) + pd.Timedelta(days=delta * T - 1), timestep=delta, solver=solver)
    Scenario(m, "s", size=len(h))
    return m


def inflow(m, h):
    return Fn(m, lambda t, si: h[si[0]][t])


def drive(m, T, nodes, tr, note, first=0):
    """step through the run twice: {name: flows [step][scenario]}"""
    out = None
    subs = [n for n in m.graph.nodes()]
    for rep in range(2):
        if rep == 0:
            m.setup()
        m.reset()
        for n in subs:
            require(not np.any(n.prev_flow), lambda: "%s: previous flow of %s is %r after a reset" % (note, n.name, n.prev_flow), "reset")
        rows = {k: [] for k in nodes}
        for t in range(T):
            m.step()
            for n in subs:
                require_same(n.prev_flow, n.flow, "%s: previous flow of %s" % (note, n.name), "prev_flow")
            for k, n in nodes.items():
                rows[k].append(np.array(n.flow))
            tr.step()
        m.finish()
        rows = {k: np.array(v) for k, v in rows.items()}
        if out is not None:
            for k in rows:
                require_same(rows[k], out[k], "%s: %s when run again" % (note, k), "again", 1e-7)
        out = rows
    tr.run(2)
    return out


def val(m, v, T):
    """a constant, or what a list of lists [step][scenario] says"""
    if isinstance(v, list):
        return Fn(m, lambda t, si: v[t % len(v)])
    return v


def at(v, t):
    return v[t % len(v)] if isinstance(v, list) else v


# -- piecewise links

LIMITS = (0.0, 2.0, 3.5, None)
COSTS = (-1.0, 0.0, 1.0, 4.0)
BENEFIT = 2.5


def gen_piece(tier):
    bands = list(itertools.product(LIMITS, COSTS))
    for solver in SOLVERS:
        for n in (1, 2, 3):
            if n == 3 and tier == "quick" and solver != "glpk-edge":
                continue
            for k, b in enumerate(itertools.product(bands, repeat=n)):
                if n == 3 and tier == "quick" and not (b[0][1] >= b[1][1] >= b[2][1]):
                    continue
                yield {"solver": solver, "bands": [list(x) for x in b], "vary": False, "force": False, "json": False}
                if n < 3:
                    yield {"solver": solver, "bands": [list(x) for x in b], "vary": False, "force": True, "json": False}
                if n == 2:
                    yield {"solver": solver, "bands": [list(x) for x in b], "vary": True, "force": False, "json": False}
                    if solver == "glpk":
                        yield {"solver": solver, "bands": [list(x) for x in b], "vary": False, "force": False, "json": True}


def fill(want, bands, worth):
    """cheapest bands first: [(flow of the bands of one cost, their numbers)]"""
    out, total = [], 0.0
    for c in sorted({b[1] for b in bands}):
        ks = [k for k, b in enumerate(bands) if b[1] == c]
        cap = sum(INF if bands[k][0] is None else bands[k][0] for k in ks)
        f = min(cap, want - total) if c < worth else 0.0
        out.append((f, ks))
        total += f
    return total, out


def run_piece(cfg, tr):
    T = 3 if len(cfg["bands"]) == 1 else 2
    h = hist((0.0, 3.0, 7.0), T)
    m = new(cfg["solver"], T, h)
    b = cfg["bands"]
    n = len(b)
    limits, costs = [x[0] for x in b], [x[1] for x in b]
    if cfg["vary"]:
        limits = [[limits[k] if limits[k] is not None else 1e3, limits[(k + 1) % n] if limits[(k + 1) % n] is not None else 1e3] for k in range(n)]
        costs = [[costs[k], costs[(k + 1) % n]] for k in range(n)]
    a = Catchment(m, "a", flow=inflow(m, h)) if cfg["force"] else Input(m, "a", max_flow=inflow(m, h))
    o = Output(m, "o", cost=-BENEFIT, max_flow=5.0)
    if cfg["json"]:
        m2 = Model.load({"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-%02d" % T, "timestep": 1},
                         "nodes": [{"name": "p", "type": "PiecewiseLink", "nsteps": n, "max_flows": limits, "costs": costs}, {"name": "a", "type": "Input"},
                                   {"name": "o", "type": "Output", "cost": -BENEFIT, "max_flow": 5.0}],
                         "edges": [["a", "p"], ["p", "o"]], "scenarios": [{"name": "s", "size": len(h)}], "solver": {"name": cfg["solver"]}})
        m = m2
        a, p, o = m.nodes["a"], m.nodes["p"], m.nodes["o"]
        a.max_flow = inflow(m, h)
    else:
        p = PiecewiseLink(m, nsteps=n, name="p", max_flows=[val(m, x, T) for x in limits], costs=[val(m, x, T) for x in costs])
        a.connect(p), p.connect(o)
    if cfg["force"]:
        spill = Output(m, "spill", cost=10.0)
        a.connect(spill)
    require(p.max_flows is not None and len(p.costs) == n, "lengths", "attributes")
    nodes = {"p": p, "o": o, "a": a}
    nodes.update({k: s for k, s in enumerate(p.sublinks)})
    got = drive(m, T, nodes, tr, "piecewise %r" % (cfg,))
    for s, x in enumerate(h):
        for t in range(T):
            bands = [(at(limits[k], t), at(costs[k], t)) for k in range(n)]
            total, parts = fill(min(x[t], 5.0), bands, BENEFIT + 10.0 if cfg["force"] else BENEFIT)
            require_same(got["p"][t, s], total, "flow of bands %r with %r offered" % (bands, x[t]), "piecewise", 1e-7)
            require_same(got["o"][t, s], total, "flow out of bands %r" % (bands,), "piecewise", 1e-7)
            for f, ks in parts:
                require_same(sum(got[k][t, s] for k in ks), f, "bands %r of %r with %r offered" % (ks, bands, x[t]), "bands", 1e-7)
            tr.state("piece", cfg["solver"], bands, x[t])
    tr.outcome = ("piece", repr(cfg))


def gen_pair(tier):
    """two compounds in a row: their limits combine"""
    kinds = ["piece", "split", "loss", "break", "gauge", "link"]
    for solver in SOLVERS:
        for k1 in kinds:
            for k2 in kinds:
                for l1 in (1.0, 4.0) if tier == "quick" else (0.0, 1.0, 4.0, None):
                    for l2 in (2.0, None) if tier == "quick" else (0.0, 1.0, 2.0, 4.0, None):
                        yield {"solver": solver, "kinds": [k1, k2], "limits": [l1, l2]}


def part(m, kind, name, limit):
    """(node, share that leaves, limit on what leaves)"""
    mx = INF if limit is None else limit
    if kind == "piece":
        return PiecewiseLink(m, nsteps=2, name=name, max_flows=[mx / 2 if limit is not None else 1.0, mx / 2 if limit is not None else None], costs=[0.5, 0.25]), 1.0, mx
    if kind == "gauge":
        return RiverGauge(m, name=name, mrf=mx if limit is not None else 2.0, mrf_cost=-1.0, cost=5000.0 if limit is not None else 0.0), 1.0, mx
    if kind == "split":
        n = RiverSplit(m, name=name, factors=[1.0, 3.0], slot_names=["x", "y"], max_flows=[limit])
        away = Output(m, name + " away", cost=-100.0)
        n.connect(away, from_slot="y")
        return n, 0.25, mx
    if kind == "loss":
        return LossLink(m, name, loss_factor=0.25, loss_factor_type="gross", max_flow=limit), 0.75, mx
    if kind == "break":
        return BreakLink(m, name, max_flow=limit), 1.0, mx
    return Link(m, name, max_flow=limit), 1.0, mx


def run_pair(cfg, tr):
    T = 2
    h = hist((0.0, 2.0, 9.0), T)
    m = new(cfg["solver"], T, h)
    a, o = Input(m, "a", max_flow=inflow(m, h)), Output(m, "o", cost=-20.0)
    made = [part(m, k, "n%d" % i, l) for i, (k, l) in enumerate(zip(cfg["kinds"], cfg["limits"]))]
    a.connect(made[0][0])
    args = [{"from_slot": "x"} if k == "split" else {} for k in cfg["kinds"]]
    made[0][0].connect(made[1][0], **args[0])
    made[1][0].connect(o, **args[1])
    got = drive(m, T, {"a": a, "o": o, 0: made[0][0], 1: made[1][0]}, tr, "%r" % (cfg,))
    for s, x in enumerate(h):
        for t in range(T):
            first = min(x[t] * made[0][1], made[0][2])
            out = min(first * made[1][1], made[1][2])
            mid = out / made[1][1]
            start = mid / made[0][1]
            require_same(got["o"][t, s], out, "flow out of %r with %r offered" % (cfg, x[t]), "pair", 1e-6)
            require_same(got["a"][t, s], start, "flow into %r with %r offered" % (cfg, x[t]), "pair", 1e-6)
            # a split passes on a share but its flow is all of it; the flow of a loss is what is left of it
            for i, (fin, fout) in enumerate(((start, mid), (mid, out))):
                require_same(got[i][t, s], fout if cfg["kinds"][i] == "loss" else fin, "flow of part %d of %r with %r offered" % (i, cfg, x[t]), "pair", 1e-6)
            tr.state("pair", cfg["kinds"], cfg["limits"], x[t])
    tr.outcome = ("pair", repr(cfg))


# -- splits

def gen_split(tier):
    for solver in SOLVERS:
        for n in (2, 3):
            al = (1.0, 2.0, 3.0, None) if n == 2 or tier == "thorough" else (1.0, 2.5, None)
            for f in itertools.product(al, repeat=n):
                for d in itertools.product((None, 2.0, 6.0) if tier == "thorough" or n == 2 else (None, 3.0), repeat=n):
                    for how in ("multi", "river"):
                        if how == "river" and (None in f or (tier == "quick" and solver != "glpk")):
                            continue
                        yield {"solver": solver, "factors": list(f), "outlets": list(d), "how": how}


def run_split(cfg, tr):
    T = 2
    f, d = cfg["factors"], cfg["outlets"]
    n = len(f)
    free = None in f
    h = hist((0.0, 1.5, 12.0) if not free else (1e3,), T)
    m = new(cfg["solver"], T, h)
    a = Input(m, "a", max_flow=inflow(m, h))
    names = ["s%d" % i for i in range(n)]
    if cfg["how"] == "river":
        p = RiverSplit(m, name="p", factors=f, slot_names=names)
    else:
        p = MultiSplitLink(m, nsteps=1, name="p", factors=f, extra_slots=n - 1, slot_names=names, max_flows=[None], costs=[0.0])
    a.connect(p)
    outs = []
    for i in range(n):
        o = Output(m, "o%d" % i, cost=-1.0 - i, max_flow=d[i] if d[i] is not None or not free else 50.0)
        p.connect(o, from_slot=names[i])
        outs.append(o)
    nodes = {i: o for i, o in enumerate(outs)}
    nodes.update({"link%d" % i: sl for i, sl in enumerate(p.sublinks)})
    nodes.update(p=p, a=a)
    got = drive(m, T, nodes, tr, "split %r" % (cfg,))
    dd = [(50.0 if free else INF) if x is None else x for x in d]
    tied = [i for i in range(n) if f[i] is not None]
    total = sum(f[i] for i in tied)
    for s, x in enumerate(h):
        for t in range(T):
            # the links inside keep the ratio; what an outlet has no room for goes on with the main flow
            links = [got["link%d" % i][t, s] for i in range(n)]
            for i in tied:
                require_same(links[i] * f[tied[0]], links[tied[0]] * f[i], "ratio inside split %r with %r offered: %r" % (cfg, x[t], links), "split", 1e-6)
            if free:
                want = [dd[i] if i not in tied or len(tied) == 1 else None for i in range(n)]
            else:
                whole = x[t]
                lo, hi = 0.0, x[t]

                def main(w):
                    return w - sum(min(dd[i], w * f[i] / total) for i in range(1, n))
                if main(hi) > dd[0]:
                    for _ in range(80):
                        mid = (lo + hi) / 2
                        lo, hi = (mid, hi) if main(mid) <= dd[0] else (lo, mid)
                    whole = lo
                want = [main(whole)] + [min(dd[i], whole * f[i] / total) for i in range(1, n)]
            for i in range(n):
                if want[i] is None:
                    require(got[i][t, s] <= dd[i] + 1e-6, lambda: "branch %d of split %r" % (i, cfg), "split")
                else:
                    require_same(got[i][t, s], want[i], "branch %d of split %r with %r offered" % (i, cfg, x[t]), "split", 1e-6)
            want = [got[i][t, s] for i in range(n)]
            require_same(got["p"][t, s], sum(want), "flow of split %r with %r offered" % (cfg, x[t]), "split", 1e-6)
            tr.state("split", f, d, x[t])
    tr.outcome = ("split", repr(cfg))


def gen_gauge(tier):
    for solver in SOLVERS:
        for mrf in (0.0, 2.0, 4.0, [2.0, 5.0]):
            for mrf_cost in (-5.0, -1.0, 0.5):
                for cost in (0.25, 3.0, [0.25, -4.0]):
                    for how in ("args", "attr", "json"):
                        if how == "json" and (isinstance(mrf, list) or isinstance(cost, list)):
                            continue
                        if how == "attr" and tier == "quick" and solver != "glpk":
                            continue
                        yield {"solver": solver, "mrf": mrf, "mrf_cost": mrf_cost, "cost": cost, "how": how, "split": None}
                        for split in ([1.0, 9.0], [1.0, 1.0, 2.0]):
                            if mrf_cost == -5.0 and (how != "json"):
                                yield {"solver": solver, "mrf": mrf, "mrf_cost": mrf_cost, "cost": cost, "how": how, "split": split}
        # settings left out are zero
        for how in ("args", "json"):
            for r in (1, 2, 3):
                for omit in itertools.combinations(("mrf", "mrf_cost", "cost"), r):
                    for split in (None, [1.0, 1.0, 2.0]) if how == "args" and solver != "lpsolve" else (None,):
                        if split and {"mrf_cost", "cost"} <= set(omit):
                            continue
                        yield {"solver": solver, "mrf": 0.0 if "mrf" in omit else 4.0, "mrf_cost": 0.0 if "mrf_cost" in omit else -1.0, "cost": 0.0 if "cost" in omit else 3.0,
                               "how": how, "split": split, "omit": omit}


def run_gauge(cfg, tr):
    T = 2
    h = hist((0.0, 1.0, 4.0, 10.0), T)
    mrf, mc, c = cfg["mrf"], cfg["mrf_cost"], cfg["cost"]
    if cfg["how"] == "json":
        doc = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-%02d" % T, "timestep": 1},
                        "nodes": [{"name": "g", "type": "RiverGauge", "mrf": mrf, "mrf_cost": mc, "cost": c}, {"name": "a", "type": "Catchment"}, {"name": "r", "type": "River"},
                                  {"name": "d", "type": "Output", "cost": -2.0, "max_flow": 3.0}, {"name": "sea", "type": "Output"}],
                        "edges": [["a", "r"], ["r", "d"], ["r", "g"], ["g", "sea"]], "scenarios": [{"name": "s", "size": len(h)}], "solver": {"name": cfg["solver"]}}
        for k in cfg.get("omit", ()):
            del doc["nodes"][0][k]
        m = Model.load(doc)
        g = m.nodes["g"]
        m.nodes["a"].flow = inflow(m, h)
        nodes = {k: m.nodes[k] for k in ("a", "d", "sea")}
    else:
        m = new(cfg["solver"], T, h)
        a, r, d, sea = Catchment(m, "a", flow=inflow(m, h)), River(m, "r"), Output(m, "d", cost=-2.0, max_flow=3.0), Output(m, "sea")
        kw = {"mrf": val(m, mrf, T), "mrf_cost": mc, "cost": val(m, c, T)}
        for k in cfg.get("omit", ()):
            del kw[k]
        if cfg["split"]:
            k = len(cfg["split"])
            g = RiverSplitWithGauge(m, name="g", factors=cfg["split"], slot_names=list("xyz"[:k]), **(kw if cfg["how"] == "args" else {}))
        else:
            g = RiverGauge(m, name="g", **(kw if cfg["how"] == "args" else {}))
        if cfg["how"] == "attr":
            for k_, v in kw.items():
                setattr(g, k_, v)
            require(g.mrf is kw["mrf"] or g.mrf == kw["mrf"], "mrf attribute", "attributes")
        a.connect(r), r.connect(g)
        if not cfg["split"]:
            r.connect(d)
        nodes = {"a": a, "d": d, "sea": sea}
        if cfg["split"]:
            g.connect(sea, from_slot="x")
            for j, nm in enumerate("yz"[:k - 1]):
                nodes[nm] = Output(m, nm, cost=-0.01)
                g.connect(nodes[nm], from_slot=nm)
        else:
            g.connect(sea)
    nodes.update(g=g, mrf=g.sublinks[0], rest=g.sublinks[1])
    if cfg["split"]:
        nodes.pop("d")
        del m.nodes["d"]
    got = drive(m, T, nodes, tr, "gauge %r" % (cfg,))
    for s, x in enumerate(h):
        for t in range(T):
            mt, ct = at(mrf, t), at(c, t)
            if cfg["split"]:
                k = cfg["split"]
                # the residual flow first (it is the cheapest way on), then the ratio
                low = min(mt, x[t]) if mc < (k[0] * ct) / sum(k) else 0.0
                rest = (x[t] - low) / sum(k)
                want = {"mrf": low, "rest": rest * k[0], "sea": low + rest * k[0], "g": x[t], "y": rest * k[1]}
                if len(k) > 2:
                    want["z"] = rest * k[2]
            else:
                left, want = x[t], {}
                for price, nm, cap in sorted([(-2.0, "d", 3.0), (mc, "mrf", mt), (ct, "rest", INF)]):
                    want[nm] = min(left, cap)
                    left -= want[nm]
                want["sea"] = want["g"] = want["mrf"] + want["rest"]
                if mc == ct:        # either way will do
                    want["rest"] = want["g"]
                    require(got["mrf"][t, s] <= mt + 1e-6, "mrf of gauge %r carries %r" % (cfg, got["mrf"][t, s]), "gauge")
                    got["rest"][t, s] += got["mrf"][t, s]
                    want.pop("mrf")
            for nm, w in want.items():
                require_same(got[nm][t, s], w, "%s of gauge %r with %r flowing" % (nm, cfg, x[t]), "gauge", 1e-6)
            tr.state("gauge", mt, mc, ct, x[t], cfg["split"])
    tr.outcome = ("gauge", repr(cfg))


# -- losses, breaks and delays

def gen_loss(tier):
    for solver in SOLVERS:
        for typ in ("net", "gross"):
            for l in (0.0, 0.25, 0.5, 1.0) + ((1.5, [0.25, 0.5], ["C", 0.25]) if typ == "net" else ()):
                if isinstance(l, list) and solver == "lpsolve" and l[0] != "C":
                    continue
                for mx in (None, 0.0, 3.0):
                    for mn in (0.0, 0.5):
                        if mx == 0.0 and mn:
                            continue
                        if mn and typ == "gross" and l == 1.0:
                            continue
                        for cost in (0.0, -1.0, 4.0):
                            yield {"solver": solver, "type": typ, "loss": l, "max": mx, "min": mn, "cost": cost, "how": "args"}
                            if solver == "glpk" and not isinstance(l, list):
                                for how in ("attr", "json", "again"):
                                    yield {"solver": solver, "type": typ, "loss": l, "max": mx, "min": mn, "cost": cost, "how": how}


def run_loss(cfg, tr):
    T = 2
    l, typ, mx, mn, cost = (cfg[k] for k in ("loss", "type", "max", "min", "cost"))
    h = hist((2.0, 10.0) if mn else (0.0, 2.0, 10.0), T)
    kw = {"loss_factor": l, "max_flow": mx, "min_flow": mn, "cost": cost}
    seq = [0.0, 0.0]
    if cfg["how"] == "json":
        m = Model.load({"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-%02d" % T, "timestep": 1},
                        "nodes": [{"name": "l", "type": "LossLink", "loss_factor_type": typ, **kw}, {"name": "a", "type": "Input"}, {"name": "o", "type": "Output", "cost": -BENEFIT}],
                        "edges": [["a", "l"], ["l", "o"]], "scenarios": [{"name": "s", "size": len(h)}], "solver": {"name": cfg["solver"]}})
        n = m.nodes["l"]
        m.nodes["a"].max_flow = inflow(m, h)
        a, o = m.nodes["a"], m.nodes["o"]
    else:
        m = new(cfg["solver"], T, h)
        a, o = Input(m, "a", max_flow=inflow(m, h)), Output(m, "o", cost=-BENEFIT)
        if cfg["how"] == "args":
            if isinstance(l, list):
                if l[0] == "C":
                    kw["loss_factor"] = ConstantParameter(m, l[1])
                    seq = [l[1], l[1]]
                else:
                    kw["loss_factor"] = val(m, l, T)
                    seq = l
            n = LossLink(m, "l", loss_factor_type=typ, **kw)
        else:
            n = LossLink(m, "l", loss_factor_type=typ, loss_factor=0.75 if cfg["how"] == "attr" else 1.0)
            if cfg["how"] == "again":  # run with other settings before
                a.connect(n), n.connect(o)
                n.max_flow = 1.0
                m.run()
            for k, v in kw.items():
                setattr(n, k, v)
        if not n in a.model.graph[a]:
            if cfg["how"] != "again":
                a.connect(n), n.connect(o)
    if not isinstance(l, list):
        seq = [l, l]
    got = drive(m, T, {"a": a, "o": o, "l": n, "lost": n.output}, tr, "loss %r" % (cfg,))
    for s, x in enumerate(h):
        for t in range(T):
            share = 1 - seq[t] if typ == "gross" else 1 / (1 + seq[t])
            net = min(x[t] * share, INF if mx is None else mx)
            if cost >= BENEFIT:
                net = mn
            if share == 0.0:
                require_same([got["l"][t, s], got["o"][t, s]], [0.0, 0.0], "net flow of loss %r with %r offered" % (cfg, x[t]), "loss", 1e-6)
                continue
            for nm, w in (("l", net), ("o", net), ("a", net / share), ("lost", net / share - net)):
                require_same(got[nm][t, s], w, "%s of loss %r with %r offered" % (nm, cfg, x[t]), "loss", 1e-6)
            tr.state("loss", seq[t], typ, mx, mn, cost, x[t])
    tr.outcome = ("loss", repr(cfg))


def gen_break(tier):
    for solver in SOLVERS:
        for ni in (1, 2, 3):
            for no in (1, 2, 3):
                for mx in (None, 0.0, 4.0, [4.0, 1.0]):
                    for mn in (0.0, 0.5):
                        if mx == 0.0 and mn:
                            continue
                        for cost in (0.0, 1.0, 30.0):
                            yield {"solver": solver, "in": ni, "out": no, "max": mx, "min": mn, "cost": cost}


def run_break(cfg, tr):
    T, ni, no = 2, cfg["in"], cfg["out"]
    h = hist((0.5, 2.0, 9.0), T)
    m = new(cfg["solver"], T, h)
    x_ = BreakLink(m, "x", max_flow=val(m, cfg["max"], T), min_flow=cfg["min"], cost=cfg["cost"])
    ins = [Input(m, "a%d" % i, max_flow=inflow(m, h), cost=0.25 * i) for i in range(ni)]
    outs = [Output(m, "o%d" % i, max_flow=3.0 + i, cost=-5.0 - i) for i in range(no)]
    for n in ins:
        n.connect(x_)
    for n in outs:
        x_.connect(n)
    nodes = {n.name: n for n in ins + outs}
    nodes["x"] = x_
    got = drive(m, T, nodes, tr, "break %r" % (cfg,))
    if cfg["solver"] in ("glpk", "lpsolve"):
        require(m.solver.stats["number_of_routes"] == ni + no, lambda: "%r: %r routes, want %d" % (cfg, m.solver.stats["number_of_routes"], ni + no), "routes")
    for s, x in enumerate(h):
        for t in range(T):
            mx = at(cfg["max"], t)
            total = min(ni * x[t], sum(3.0 + i for i in range(no)), INF if mx is None else mx)
            if cfg["cost"] > 20:
                total = cfg["min"]
            want, left = {"x": total}, total
            for i in range(ni):
                want["a%d" % i] = min(left, x[t])
                left -= want["a%d" % i]
            left = total
            for i in reversed(range(no)):
                want["o%d" % i] = min(left, 3.0 + i)
                left -= want["o%d" % i]
            for nm, w in want.items():
                require_same(got[nm][t, s], w, "%s of break link %r with %r offered" % (nm, cfg, x[t]), "break", 1e-6)
            tr.state("break", ni, no, mx, x[t])
    tr.outcome = ("break", repr(cfg))


def gen_delay(tier):
    T = 4 if tier == "quick" else 6
    for solver in SOLVERS:
        for lag in range(1, T + 2):
            for init in (0.0, 1.5):
                for kind in ("steps", "days", "days2", "days7", "json"):
                    if kind != "steps" and solver != "glpk":
                        continue
                    yield {"solver": solver, "lag": lag, "second": None, "init": init, "kind": kind, "T": T}
                for second in (1, 2, 3):
                    yield {"solver": solver, "lag": lag, "second": second, "init": init, "kind": "steps", "T": T}


def run_delay(cfg, tr):
    T, lag = cfg["T"], cfg["lag"]
    h = hist((0.0, 2.0, 5.0) if T <= 4 else (0.0, 5.0), T)
    delta = {"days2": 2, "days7": 7}.get(cfg["kind"], 1)
    chain = [lag] + ([cfg["second"]] if cfg["second"] else [])
    if cfg["kind"] == "json":
        m = Model.load({"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-%02d" % T, "timestep": 1},
                        "nodes": [{"name": "d0", "type": "DelayNode", "timesteps": lag, "initial_flow": cfg["init"]}, {"name": "a", "type": "Catchment"}, {"name": "o", "type": "Output"}],
                        "edges": [["a", "d0"], ["d0", "o"]], "scenarios": [{"name": "s", "size": len(h)}], "solver": {"name": cfg["solver"]}})
        m.nodes["a"].flow = inflow(m, h)
    else:
        m = new(cfg["solver"], T, h, delta=delta)
        last = Catchment(m, "a", flow=inflow(m, h))
        for i, k in enumerate(chain):
            kw = {"timesteps": k} if cfg["kind"] == "steps" else {"days": k * delta}
            d = DelayNode(m, "d%d" % i, initial_flow=cfg["init"], **kw)
            last.connect(d)
            last = d
        last.connect(Output(m, "o"))
    nodes = {n: m.nodes[n] for n in ["a", "o"] + ["d%d" % i for i in range(len(chain))]}
    nodes["into"] = m.nodes["d0"].output

    def follow(got, first):
        for s, x in enumerate(h):
            series = list(x[first:])
            require_same(got["into"][:, s], series, "into %r" % (cfg,), "delay", 1e-7)
            for i, k in enumerate(chain):
                series = ([cfg["init"]] * k + series)[:len(series)]
                require_same(got["d%d" % i][:, s], series, "out of delay %d of %r after %r" % (i, cfg, x), "delay", 1e-7)
            require_same(got["o"][:, s], series, "out of %r after %r" % (cfg, x), "delay", 1e-7)
            tr.state("delay", chain, cfg["init"], x)

    follow(drive(m, T, nodes, tr, "delay %r" % (cfg,)), 0)
    for before in range(T):  # stop after some steps and start again, from the start or later
        for first in range(0, T, 1 if before < 2 else 2):
            m.reset()
            for _ in range(before):
                m.step()
            m.reset(start=m.timestepper.datetime_index[first].start_time)
            rows = {k: [] for k in nodes}
            for _ in range(first, T):
                m.step()
                for k, n in nodes.items():
                    rows[k].append(n.flow)
            follow({k: np.array(v) for k, v in rows.items()}, first)
            tr.run()
    tr.outcome = ("delay", repr(cfg))


# -- catchments and reservoirs

def gen_catch(tier):
    for solver in SOLVERS:
        for how in ("param", "const", "attr", "json", "replace"):
            for cls in ("Catchment", "Discharge"):
                for cost in (0.0, 3.0):
                    yield {"solver": solver, "how": how, "cls": cls, "cost": cost}


def run_catch(cfg, tr):
    T = 3
    h = hist((0.0, 1.0, 6.0), T)
    cls = {"Catchment": Catchment, "Discharge": Discharge}[cfg["cls"]]
    series = h
    if cfg["how"] == "json":
        m = Model.load({"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-%02d" % T, "timestep": 1},
                        "nodes": [{"name": "a", "type": cfg["cls"], "flow": 2.5, "cost": cfg["cost"]}, {"name": "b", "type": "Catchment"}, {"name": "r", "type": "River"}, {"name": "o", "type": "Output"}],
                        "edges": [["a", "r"], ["b", "r"], ["r", "o"]], "scenarios": [{"name": "s", "size": len(h)}], "solver": {"name": cfg["solver"]}})
        series = [[2.5] * T] * len(h)
        m.nodes["b"].flow = inflow(m, h)
    else:
        m = new(cfg["solver"], T, h)
        b, r, o = Catchment(m, "b", flow=inflow(m, h)), River(m, "r"), Output(m, "o")
        if cfg["how"] == "param":
            a = cls(m, "a", flow=inflow(m, [x[::-1] for x in h]), cost=cfg["cost"])
            series = [x[::-1] for x in h]
        elif cfg["how"] == "const":
            a = cls(m, "a", flow=4.0, cost=cfg["cost"])
            series = [[4.0] * T] * len(h)
        else:
            a = cls(m, "a", cost=cfg["cost"], min_flow=50.0, max_flow=0.5)
            series = [[0.0] * T] * len(h)
        a.connect(r), b.connect(r), r.connect(o)
        if cfg["how"] == "attr":
            a.flow = inflow(m, h)
            series = h
        if cfg["how"] == "replace":
            m.run()
            require_same(a.flow, [0.0] * len(h), "no flow", "catchment")
            a.flow = inflow(m, h)
            series = h
    nodes = {n: m.nodes[n] for n in "abro"}
    got = drive(m, T, nodes, tr, "catchment %r" % (cfg,))
    for s, x in enumerate(h):
        require_same(got["a"][:, s], series[s], "%r" % (cfg,), "catchment", 1e-7)
        require_same(got["b"][:, s], x, "%r" % (cfg,), "catchment", 1e-7)
        for nm in "ro":
            require_same(got[nm][:, s], np.array(x) + np.array(series[s]), "confluence %r" % (cfg,), "catchment", 1e-7)
        tr.state("catch", cfg["how"], x)
    tr.outcome = ("catch", repr(cfg))


def gen_reservoir(tier):
    for curve in (None, 0.0, 0.5, 1.0, "fn"):
        for above in (None, 3.0):
            for cost in (0.0, -4.0):
                for how in ("args", "json"):
                    if curve == "fn" and how == "json":
                        continue
                    for ini in (0.0, 4.0, 5.0, 10.0):
                        yield {"curve": curve, "above": above, "cost": cost, "how": how, "initial": ini}


def run_reservoir(cfg, tr):
    T = 3
    h = hist((-4.0, 0.0, 1.0, 5.0), T)
    fn = [0.5, 0.9, 0.1]
    kw = {"max_volume": 10.0, "min_volume": 0.0, "initial_volume": cfg["initial"], "cost": cfg["cost"]}
    if cfg["above"] is not None:
        kw["above_curve_cost"] = cfg["above"]
    if cfg["how"] == "json":
        nd = {"name": "r", "type": "Reservoir", **kw}
        if cfg["curve"] is not None:
            nd["control_curve"] = cfg["curve"]
        m = Model.load({"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-%02d" % T, "timestep": 1},
                        "nodes": [nd, {"name": "a", "type": "Input"}, {"name": "o", "type": "Output"}],
                        "edges": [["a", "r"], ["r", "o"]], "scenarios": [{"name": "s", "size": len(h)}], "solver": {"name": "glpk"}})
        r, a, o = m.nodes["r"], m.nodes["a"], m.nodes["o"]
    else:
        m = new("glpk", T, h)
        if cfg["curve"] is not None:
            kw["control_curve"] = cfg["curve"] if cfg["curve"] != "fn" else Fn(m, lambda t, si: fn[t])
        r, a, o = Reservoir(m, "r", **kw), Input(m, "a"), Output(m, "o")
        a.connect(r), r.connect(o)
    # demand with a benefit between the costs of the reservoir above and below the curve, and at most one of the two flows is possible
    a.max_flow = Fn(m, lambda t, si: max(h[si[0]][t], 0.0))
    o.max_flow = Fn(m, lambda t, si: max(-h[si[0]][t], 0.0))
    a.cost, o.cost = 1.0, -1.5
    m.setup()
    for rep in range(2):
        m.reset()
        vol = np.full(len(h), cfg["initial"])
        for t in range(T):
            m.step()
            for s, si in enumerate(m.scenarios.combinations):
                curve = 1.0 if cfg["curve"] is None else (fn[t] if cfg["curve"] == "fn" else cfg["curve"])
                want = cfg["cost"] if cfg["above"] is None else (cfg["above"] if vol[s] / 10.0 >= curve else cfg["cost"])
                require(r.get_cost(si) == want, lambda: "reservoir %r at %g of 10: cost %r, want %r" % (cfg, vol[s], r.get_cost(si), want), "reservoir")
                x = h[s][t]
                if x > 0:  # storing costs (want + 1)
                    f = min(x, 10.0 - vol[s]) if want + 1.0 < 0 else 0.0
                else:  # releasing earns want + 1.5
                    f = -min(-x, vol[s]) if want + 1.5 > 0 else 0.0
                require_same(r.flow[s], f, "reservoir %r at %g of 10, %g possible" % (cfg, vol[s], x), "reservoir", 1e-7)
                vol[s] += f
            require_same(r.volume, vol, "volume", "reservoir", 1e-7)
            tr.step()
        m.finish()
    tr.run(2)
    tr.state("reservoir", repr(cfg))
    tr.outcome = ("reservoir", repr(cfg))


# -- totals, ratios and licences over compound nodes

KINDS = ("link", "pw", "loss", "break", "delay", "gauge", "split", "splitgauge")


def compound(m, kind, name):
    return {"link": lambda: Link(m, name), "pw": lambda: PiecewiseLink(m, nsteps=2, name=name, max_flows=[3, None], costs=[0, 1]),
            "loss": lambda: LossLink(m, name, loss_factor=0.25), "break": lambda: BreakLink(m, name), "delay": lambda: DelayNode(m, name, timesteps=1, initial_flow=3.0),
            "gauge": lambda: RiverGauge(m, name=name, mrf=3, mrf_cost=-1), "split": lambda: RiverSplit(m, name=name, factors=[1, 1], slot_names=["x", "y"]),
            "splitgauge": lambda: RiverSplitWithGauge(m, name=name, mrf=1.0, mrf_cost=-1.0, factors=[1, 1], slot_names=["x", "y"])}[kind]()


def join(m, a, n, o, kind):
    a.connect(n)
    if kind.startswith("split"):
        n.connect(o, from_slot="x"), n.connect(o, from_slot="y")
    else:
        n.connect(o)


def gen_meter(tier):
    for solver in SOLVERS:
        for k1 in KINDS:
            for k2 in KINDS if tier == "thorough" or solver == "glpk" else ("link",):
                for what in ("total", "weights", "max", "min", "ratio", "licence", "alone"):
                    if "delay" in (k1, k2) and what in ("min", "ratio"):
                        continue
                    for late in (False, True):
                        if late and (what == "alone" or what in ("max", "min", "ratio") and tier == "quick"):
                            continue
                        yield {"solver": solver, "kinds": [k1, k2], "what": what, "late": late}


def run_meter(cfg, tr):
    T = 3
    h = hist((3.0, 8.0), T)
    what = cfg["what"]
    k1, k2 = cfg["kinds"]
    m = new(cfg["solver"], T, h)
    room = 90.0 if "delay" in (k1, k2) else 30.0
    cap = {0: 7.0, 1: 9.0, 2: 12.0}[(k1 == "delay") + (k2 == "delay")]
    agg = None
    if cfg["late"]:  # declared before the nodes it is about
        agg = VirtualStorage(m, "v", nodes=[], factors=[], max_volume=room, initial_volume=room) if what == "licence" else AggregatedNode(m, "v", nodes=[])
    fixed = what not in ("max", "licence", "ratio", "alone")
    a1 = Catchment(m, "a1", flow=inflow(m, h)) if fixed or k1 == "delay" else Input(m, "a1", max_flow=inflow(m, h))
    a2 = Catchment(m, "a2", flow=2.0) if fixed or k2 == "delay" else Input(m, "a2", max_flow=2.0)
    o1, o2 = Output(m, "o1", cost=-20.0), Output(m, "o2", cost=-6.0)
    n1, n2 = compound(m, k1, "n1"), compound(m, k2, "n2")
    join(m, a1, n1, o1, k1), join(m, a2, n2, o2, k2)
    if what == "min":
        spill1, spill2 = Output(m, "w1", cost=-50.0), Output(m, "w2", cost=-40.0)
        a1.connect(spill1), a2.connect(spill2)
    w = [1.0, 1.0]
    if what == "licence":
        if agg is None:
            agg = VirtualStorage(m, "v", nodes=[n1, n2], factors=[1.0, 2.0], max_volume=room, initial_volume=room)
        else:
            agg.nodes, agg.factors = [n1, n2], [1.0, 2.0]
    elif what == "alone":
        agg = VirtualStorage(m, "v", nodes=[n1], max_volume=room, initial_volume=room)
    else:
        if agg is None:
            agg = AggregatedNode(m, "v", nodes=[n1, n2])
        else:
            agg.nodes = [n1, n2]
        if what == "weights":
            w = [0.5, 3.0]
            agg.flow_weights = w
        if what == "max":
            agg.max_flow = cap
        if what == "min":
            agg.min_flow = 2.5
        if what == "ratio":
            agg.factors = [3.0, 1.0]
    got = drive(m, T, {1: n1, 2: n2, "v": agg, "o1": o1, "o2": o2}, tr, "meter %r" % (cfg,))
    keep = {"loss": 0.8}
    for s, x in enumerate(h):
        left = room
        for t in range(T):
            f1 = x[t] * keep.get(k1, 1.0) if k1 != "delay" else ([3.0] + list(x))[t]
            f2 = 2.0 * keep.get(k2, 1.0) if k2 != "delay" else (3.0 if t == 0 else 2.0)
            if what == "max":
                # what is most worth first; the delayed flow cannot be held back
                f1 = min(f1, cap - (f2 if k2 == "delay" else 0.0))
                f2 = min(f2, cap - f1)
            if what == "min":
                # everything would go elsewhere
                f1 = f2 = None
                total = got["v"][t, s]
                require_same(total, got[1][t, s] + got[2][t, s], "total", "meter", 1e-6)
                require_same(total, 2.5, "least total of %r with %r" % (cfg, x[t]), "meter", 1e-6)
                continue
            if what == "ratio":
                f2 = min(f2, f1 / 3.0)
                f1 = 3.0 * f2
            if what in ("licence", "alone"):
                if "delay" in (k1, k2):
                    # the delayed flow cannot be held back, the licence just has to last
                    pass
                if what == "alone":
                    f1 = min(f1, left)
                    use = f1
                else:
                    f1 = min(f1, left)
                    f2 = min(f2, (left - f1) / 2.0)
                    use = f1 + 2.0 * f2
                left -= use
                require_same(got["v"][t, s], -use, "use of licence %r in step %d of %r" % (cfg, t, x), "meter", 1e-6)
            else:
                require_same(got["v"][t, s], w[0] * f1 + w[1] * f2, "total of %r in step %d of %r" % (cfg, t, x), "meter", 1e-6)
            require_same(got[1][t, s], f1, "first flow of %r in step %d of %r" % (cfg, t, x), "meter", 1e-6)
            require_same(got[2][t, s], f2, "second flow of %r in step %d of %r" % (cfg, t, x), "meter", 1e-6)
            tr.state("meter", k1, k2, what, x[t], left)
    tr.outcome = ("meter", repr(cfg))


def gen_stores(tier):
    kinds = ("storage", "annual", "monthly", "rolling", "plain")
    for n in (1, 2, 3):
        for ks in itertools.product(kinds, repeat=n):
            if n == 3 and tier == "quick" and not (ks[0] <= ks[1] <= ks[2]):
                continue
            for late in (False, True):
                for order in (False, True):
                    if order and n == 1:
                        continue
                    yield {"kinds": list(ks), "late": late, "reverse": order}


def run_stores(cfg, tr):
    T = 5
    h = hist((0.0, 4.0), T)
    m = new("glpk", T, h, start="2000-12-30")
    late = cfg["late"]
    agg = AggregatedStorage(m, "agg", storage_nodes=[]) if late else None
    a, l, o = Input(m, "a", max_flow=inflow(m, h)), Link(m, "l"), Output(m, "o", cost=-10.0)
    a.connect(l), l.connect(o)
    made = []
    for i, k in enumerate(cfg["kinds"]):
        nm = "s%d" % i
        if k == "storage":
            s = Storage(m, nm, max_volume=20.0, initial_volume=10.0, cost=-1.0 - i)
            a.connect(s), s.connect(o)
        elif k == "annual":
            s = AnnualVirtualStorage(m, nm, nodes=[l], max_volume=9.0, initial_volume=9.0)
        elif k == "monthly":
            s = MonthlyVirtualStorage(m, nm, nodes=[l], max_volume=11.0, initial_volume=10.0, months=1)
        elif k == "rolling":
            s = RollingVirtualStorage(m, nm, nodes=[l], max_volume=8.0, initial_volume=8.0, timesteps=2)
        else:
            s = VirtualStorage(m, nm, nodes=[l], factors=[0.5], max_volume=12.0, initial_volume=7.0)
        made.append(s)
    members = made[::-1] if cfg["reverse"] else made
    if agg is None:
        agg = AggregatedStorage(m, "agg", storage_nodes=members)
    else:
        agg.storage_nodes = members
    seen = []
    # the volumes as a parameter finds them at the start of the step
    probe = Fn(m, lambda t, si: seen.append((t, si[0], agg.volume[si[0]], [x.volume[si[0]] for x in members], agg.current_pc[si[0]])) or 0.0)
    from mc.probe import Grab
    Grab(m, params=[probe], name="g")
    m.setup()
    for rep in range(2):
        m.reset()
        del seen[:]
        top = sum(x.max_volume for x in members)
        for t in range(T):
            m.step()
            require_same(agg.volume, sum(x.volume for x in members), "volume of %r in step %d" % (cfg, t), "stores", 1e-9)
            require_same(agg.flow, sum(x.flow for x in members), "flow of %r in step %d" % (cfg, t), "stores", 1e-9)
            require_same(agg.current_pc, sum(x.volume for x in members) / top, "proportion of %r in step %d" % (cfg, t), "stores", 1e-9)
            tr.step()
        for t, s, v, vs, pc in seen:
            require_same(v, sum(vs), "volume at the start of step %d of %r" % (t, cfg), "stores", 1e-9)
            require_same(pc, sum(vs) / top, "proportion at the start of step %d of %r" % (t, cfg), "stores", 1e-9)
        require(len(seen) == T * len(h), "probe", "harness")
        m.finish()
    tr.run(2)
    tr.state("stores", repr(cfg))
    tr.outcome = ("stores", repr(cfg))


GROUPS = {"piece": (gen_piece, run_piece), "pair": (gen_pair, run_pair), "split": (gen_split, run_split), "gauge": (gen_gauge, run_gauge), "loss": (gen_loss, run_loss),
          "break": (gen_break, run_break), "delay": (gen_delay, run_delay), "catch": (gen_catch, run_catch), "reservoir": (gen_reservoir, run_reservoir),
          "meter": (gen_meter, run_meter), "stores": (gen_stores, run_stores)}
