"""Reservoir accounting: every inflow/demand history against a greedy reference."""
import itertools

import numpy as np

from mc.harness import require
from mc.nets import lookup, realise, step_days, make_model, times, Table

INF_A = [0.0, 3.0, 9.0]
DEM_A = [0.0, 4.0]


def val(v, t, s):
    return lookup(v)(t, s)


VOLS = [
    dict(max=20.0, min=0.0, init=10.0),
    dict(max=20.0, min=5.0, init_pc=0.5),
    dict(max={"c": 16.0}, min={"c": 2.0}, init_pc=0.25),
    dict(max={"c": 16.0}, min=0.0, init=16.0),
    dict(max=20.0, min=0.0, init=3.0, init_pc=1.0),
    dict(max={"t": [20.0, 12.0, 18.0, 6.0]}, min=0.0, init=10.0, init_pc=0.5),
    dict(max=20.0, min={"t": [0.0, 6.0, 12.0, 2.0]}, init=8.0),
    dict(max={"t": [20.0, 9.0, 9.0, 15.0]}, min={"t": [1.0, 4.0, 0.0, 3.0]}, init=14.0, init_pc=0.7),
    dict(max=8.0, min=0.0, init=0.0),
    dict(max=12.5, min=1.25, init_pc=1.0),
    dict(max={"ts": [[20.0, 11.0, 14.0, 20.0, 3.0], [10.0, 10.0, 4.0, 7.0, 30.0]], "g": 1}, min=0.0, init=7.0, init_pc=0.35),
    dict(max=0.0, min=0.0, init=0.0),
    dict(max=20.0, min=5.0, init_pc=0.125),
    dict(max={"c": 16.0}, min={"c": 6.0}, init=1.0),
    dict(max=20.0, min={"t": [5.0, 3.0, 5.0, 0.0]}, init_pc=0.0),
    # far larger or smaller than the flows
    dict(max=4e7, min=0.0, init=4e7),
    dict(max=4e7, min=8.0, init=10.0),
    dict(max={"t": [4e7, 4e7 - 10, 4e7, 4e7 - 6]}, min=0.0, init=4e7 - 2, init_pc=1.0),
    dict(max=20.0, min=0.0, init=10.0, q=1e-3),
    dict(max={"t": [20.0, 12.0, 18.0, 6.0]}, min=2.0, init=10.0, init_pc=0.5, q=1e-3),
]


def single_gen(tier):
    T = 5 if tier == "thorough" else 4
    out = []
    for v, delta, cost in itertools.product(range(len(VOLS)), [1, 2, 7, "M"] + (["12h", 5] if tier == "thorough" else []), [-1.0, "p"]):
        out.append({"v": v, "delta": delta, "cost": cost, "T": T, "slots": 0})
    for v in range(len(VOLS)):
        out.append({"v": v, "delta": 1, "cost": -1.0, "T": T, "slots": 1})
    return out


def single_run(cfg, tr):
    from pywr.nodes import Storage, Input, Output
    from pywr.recorders import NumpyArrayStorageRecorder
    V = VOLS[cfg["v"]]
    q = V.get("q", 1.0)
    V = {k: times(v, q) if k in ("max", "min", "init") else v for k, v in V.items()}
    T = cfg["T"]
    sz = [6 ** T, 2]
    spec = {"start": "2000-02-27", "delta": cfg["delta"], "T": T, "S": sz, "nodes": {}, "edges": []}
    m, _ = make_model(spec, "glpk")
    a = [(i * q, d * q) for i in INF_A for d in DEM_A]
    inflow = {"h": [x[0] for x in a], "g": 0}
    demand = {"h": [x[1] for x in a], "g": 0}
    kw = {}
    if "init" in V:
        kw["initial_volume"] = V["init"]
    if "init_pc" in V:
        kw["initial_volume_pc"] = V["init_pc"]
    cost = realise(m, {"t": [-1.0, -2.0]}) if cfg["cost"] == "p" else cfg["cost"]
    two = cfg["slots"]
    r = Storage(m, "r", inputs=1 + two, outputs=1 + two, max_volume=realise(m, V["max"]),
                min_volume=realise(m, V["min"]), cost=cost, **kw)
    i0 = Input(m, "i0", max_flow=realise(m, inflow))
    o0 = Output(m, "o0", max_flow=realise(m, demand), cost=-10.0)
    ins, outs = [i0], [o0]
    if two:
        i1, o1 = Input(m, "i1", max_flow=0.5 * q, cost=-0.01), Output(m, "o1", max_flow=0.25 * q, cost=-20.0)
        ins.append(i1)
        outs.append(o1)
        i0.connect(r, to_slot=0)
        i1.connect(r, to_slot=1)
        r.connect(o0, from_slot=0)
        r.connect(o1, from_slot=1)
    else:
        i0.connect(r)
        r.connect(o0)
    rec = NumpyArrayStorageRecorder(m, r)
    recp = NumpyArrayStorageRecorder(m, r, proportional=True, name='recp')
    m.setup()
    m.reset()
    combos = m.scenarios.combinations
    n = len(combos)
    idx = np.array([c.indices for c in combos])
    static = not isinstance(V["max"], dict) or "c" in V["max"]
    mx0 = val(V["max"], 0, [0, 0])
    v0 = V["init_pc"] * mx0 if (static and "init_pc" in V) else V["init"]
    pc0 = V["init_pc"] if "init_pc" in V else (V["init"] / mx0 if mx0 else np.nan)
    vol = np.full(n, v0)
    require(np.array_equal(r.volume, vol), lambda: "initial volume %r, configured %r" % (r.volume[:3], v0), "initial")
    require(np.allclose(r.current_pc, pc0, rtol=0, atol=1e-12, equal_nan=True), lambda: "initial proportion %r, configured %r" % (r.current_pc[:3], pc0), "initial-pc")
    days = [step_days(spec, t) for t in range(T)]
    vols = []
    for t in range(T):
        m.step()
        d = days[t]
        f = lookup(V["max"])
        if isinstance(V["max"], dict) and "ts" in V["max"]:
            mx = np.array([f(t, s) for s in [[0, 0], [0, 1]]])[idx[:, 1]]
        else:
            mx = np.full(n, f(t, [0, 0]))
        mn = np.full(n, val(V["min"], t, [0, 0]))
        code = (idx[:, 0] // 6 ** t) % 6
        I = np.array([x[0] for x in a])[code]
        D = np.array([x[1] for x in a])[code]
        require(np.allclose(np.array(r.flow), sum(np.array(x.flow) for x in ins) - sum(np.array(x.flow) for x in outs), atol=1e-8),
                "step %d: net inflow reported differs from the connected flows" % t, "flow")
        avail = np.maximum(vol - mn, 0) / d
        room = np.maximum(mx - vol, 0) / d
        fixed = mx == mn
        avail[fixed] = room[fixed] = 0.0
        if two:
            I = I + 0.5 * q
            D = D + 0.25 * q
        out = np.minimum(D, I + avail)
        inn = np.minimum(I, out + room)
        new = vol + (inn - out) * d
        got = np.array(r.volume)
        bad = ~np.isclose(got, new, rtol=0, atol=2e-5 if q == 1 else 3e-6)
        require(not bad.any(), lambda: "step %d (%.4g days): volume %r, expected %r (before %r, inflow %r, demand %r, limits %r..%r)" % (
            t, d, got[bad][0], new[bad][0], vol[bad][0], I[bad][0], D[bad][0], mn[bad][0], mx[bad][0]), "volume")
        acc = vol + np.array(r.flow) * d
        require(np.allclose(got, acc, rtol=0, atol=2e-6), "step %d: volume is not the previous volume plus net inflow times days" % t, "accounting")
        lo = np.minimum(vol, mn)
        hi = np.maximum(vol, mx)
        require(((got >= lo - 1e-6) & (got <= hi + 1e-6)).all(), "step %d: volume leaves its limits" % t, "limits")
        with np.errstate(all="ignore"):
            pc = got / mx
        require(np.allclose(np.array(r.current_pc), pc, rtol=1e-12, atol=1e-12, equal_nan=True),
                lambda: "step %d: proportion full %r, volume over maximum is %r" % (t, np.array(r.current_pc)[:4], pc[:4]), "pc")
        want = np.where(np.isnan(pc), 1.0, np.clip(pc, 0, 1))
        cpc = np.array([r.get_current_pc(c) for c in combos])
        require(np.allclose(cpc, want, rtol=1e-12, atol=1e-12), "step %d: get_current_pc differs from the clamped proportion" % t, "pc")
        vol = got.copy()
        vols.append(vol)
        for x in set(zip(np.round(vol, 5), mx, mn)):
            tr.state(cfg["v"], t, *x)
        tr.step(n)
    m.finish()
    require(np.array_equal(rec.data, np.array(vols)), "recorded volumes differ from the volumes of the steps", "recorder")
    require(np.allclose(recp.data[-1], np.array(r.current_pc), equal_nan=True), "recorded proportions differ", "recorder")
    # the same again from the start
    m.run()
    require(np.array_equal(rec.data, np.array(vols)), "a second run gives other volumes", "rerun")
    tr.run(2 * n)
    tr.outcome = np.round(vol[:: max(1, n // 40)], 4).tolist()


def chain_gen(tier):
    T = 4 if tier == "thorough" else 3
    vs = [0, 1, 3, 5, 6, 8, 9]
    return [{"v": [a, b], "delta": d, "T": T} for a in vs for b in vs for d in (1, 7)]


def chain_run(cfg, tr):
    """Two reservoirs in series and their aggregate: accounting from reported flows."""
    from pywr.nodes import Storage, Input, Output, Link, AggregatedStorage
    T = cfg["T"]
    a = list(itertools.product([0.0, 6.0], [0.0, 5.0], [0.0, 3.0]))
    spec = {"start": "2001-12-30", "delta": cfg["delta"], "T": T, "S": [8 ** T], "nodes": {}, "edges": []}
    m, _ = make_model(spec, "glpk")
    al = [realise(m, {"h": [x[i] for x in a], "g": 0}) for i in range(3)]
    st = []
    for k, v in enumerate(cfg["v"]):
        V = VOLS[v]
        kw = {}
        if "init" in V:
            kw["initial_volume"] = V["init"]
        if "init_pc" in V:
            kw["initial_volume_pc"] = V["init_pc"]
        st.append(Storage(m, "r%d" % k, max_volume=realise(m, V["max"]), min_volume=realise(m, V["min"]), cost=-1.0 - k, **kw))
    i, o1, o2, l = (Input(m, "i", max_flow=al[0]), Output(m, "o1", max_flow=al[1], cost=-10.0),
                    Output(m, "o2", max_flow=al[2], cost=-8.0), Link(m, "l", max_flow=4.0))
    i.connect(st[0])
    st[0].connect(l)
    l.connect(st[1])
    st[1].connect(o1)
    st[0].connect(o2)
    agg = AggregatedStorage(m, "agg", st)
    m.setup()
    m.reset()
    days = [step_days(spec, t) for t in range(T)]
    vol = [np.array(s.volume) for s in st]
    n = len(m.scenarios.combinations)
    require(np.allclose(np.array(agg.volume), vol[0] + vol[1]), "initial aggregate volume", "aggregate")
    for t in range(T):
        m.step()
        fl = [np.array(i.flow) - np.array(o2.flow) - np.array(l.flow), np.array(l.flow) - np.array(o1.flow)]
        mxs = np.zeros(n)
        for k, s in enumerate(st):
            V = VOLS[cfg["v"][k]]
            mx, mn = val(V["max"], t, [0]), val(V["min"], t, [0])
            mxs += mx
            new = np.array(s.volume)
            require(np.allclose(new, vol[k] + fl[k] * days[t], rtol=0, atol=5e-6), lambda: "step %d: reservoir %d volume %r after %r with net flow %r for %r days" % (t, k, new[:5], vol[k][:5], fl[k][:5], days[t]), "volume")
            require((new <= np.maximum(mx, vol[k]) + 1e-6).all() and (new >= np.minimum(mn, vol[k]) - 1e-6).all(), "limits", "limits")
            require(np.allclose(np.array(s.current_pc), new / mx), "proportion", "pc")
            vol[k] = new
        tot = vol[0] + vol[1]
        require(np.allclose(np.array(agg.volume), tot, rtol=0, atol=1e-5), lambda: "step %d: aggregate volume %r, members hold %r" % (t, np.array(agg.volume)[:5], tot[:5]), "aggregate")
        require(np.allclose(np.array(agg.flow), fl[0] + fl[1], atol=1e-7), "aggregate flow", "aggregate")
        require(np.allclose(np.array(agg.current_pc), tot / mxs, atol=1e-6), "aggregate proportion", "aggregate")
        for x in set(zip(np.round(vol[0], 4), np.round(vol[1], 4))):
            tr.state(t, *x)
        tr.step(n)
    tr.run(n)
    tr.outcome = np.round(tot[::17], 3).tolist()


def init_gen(tier):
    out = []
    for mx, iv, pc, kind in itertools.product([10.0, {"c": 10.0}, {"t": [10.0, 8.0]}], [None, 0.0, 4.0, 10.0], [None, 0.0, 0.5, 1.0], ["storage", "virtual"]):
        out.append({"max": mx, "iv": iv, "pc": pc, "kind": kind})
    return out


def init_run(cfg, tr):
    from pywr.nodes import Storage, Input, Output, VirtualStorage
    spec = {"delta": 1, "T": 2, "S": [2], "nodes": {}, "edges": []}
    m, _ = make_model(spec, "glpk")
    i, o = Input(m, "i", max_flow=1.0), Output(m, "o", max_flow=1.0, cost=-5.0)
    i.connect(o)
    kw = dict(max_volume=realise(m, cfg["max"]), initial_volume=cfg["iv"], initial_volume_pc=cfg["pc"])
    if cfg["kind"] == "storage":
        s = Storage(m, "s", **kw)
        i.connect(s)
        s.connect(o)
    else:
        s = VirtualStorage(m, "s", [o], **kw)
    varying = isinstance(cfg["max"], dict) and "t" in cfg["max"]
    bad = (cfg["iv"] is None or cfg["pc"] is None) if varying else (cfg["iv"] is None and cfg["pc"] is None)
    tr.state(str(cfg))
    tr.run()
    tr.step()
    try:
        m.setup()
        m.reset()
    except Exception:
        require(bad, "a storage with a stated initial volume is rejected", "initial")
        tr.outcome = "rejected"
        return
    require(not bad, "a storage without a defined initial volume is accepted", "initial")
    mx = 10.0
    want = cfg["iv"] if (varying or cfg["pc"] is None) else cfg["pc"] * mx
    pc = cfg["pc"] if cfg["pc"] is not None else want / mx
    require(np.all(s.volume == want) and np.all(s.current_pc == pc), lambda: "starts with %r (%r), configured %r (%r)" % (s.volume, s.current_pc, want, pc), "initial")
    tr.outcome = (want, pc)


GROUPS = {"single": (single_gen, single_run), "chain": (chain_gen, chain_run), "init": (init_gen, init_run)}
TECHNIQUE = "explicit-state enumeration of all inflow/demand histories (as scenarios of the real model) against a greedy reservoir transition system, state by state"
BOUNDS = ("Single reservoir: all 6^T histories (T=4, thorough 5) of 3 inflows x 2 demands, 17 volume-limit/initial-volume variants (constant, tiny, huge, "
          "parameter, per-step, per-scenario, zero), steps of 1/2/7 days and months (thorough also 5 days and 12 h), 1 or 2 slots each side, constant/varying cost; "
          "two reservoirs in series with their aggregate: all 8^T histories (T=3, thorough 4) x 49 variant pairs; all combinations of how the initial volume is given.")
