"""Every backend and option, side by side on the same histories."""
import copy

import numpy as np

from mc import families as F
from mc.nets import Ref, make_model, step_days, initial_volumes
from mc.harness import require, Violation
from . import alloc

ONCE = {"set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True}
OPTS = [{}, {"use_unsafe_api": True}, {"set_fixed_flows_once": True}, {"set_fixed_costs_once": True},
        {"set_fixed_factors_once": True}, ONCE, dict(ONCE, use_unsafe_api=True), {"use_presolve": True},
        {"retry_solve": True}]
CONFIGS = [("glpk", o) for o in OPTS] + [("glpk", {"save_routes_flows": True})] \
    + [("glpk-edge", o) for o in OPTS] + [("lpsolve", {}), ("lpsolve", {"save_routes_flows": True})]
PERT = [0.0131, 0.0371, 0.0713, 0.1097, 0.1511, 0.1931, 0.2347, 0.2789, 0.3253, 0.3733, 0.4211, 0.4751]


def perturb(sp, const):
    sp = copy.deepcopy(sp)
    for i, (n, d) in enumerate(sorted(sp["nodes"].items())):
        if d["k"] == "piecewise":
            d["costs"] = [x if isinstance(x, dict) else x + PERT[(i + 3 * j) % 12] / 3 for j, x in enumerate(d["costs"])]
        else:
            c = d.get("cost", 0)
            if not isinstance(c, dict):
                d["cost"] = c + PERT[i % 12]
        if const:
            for a in ("min", "max", "cost", "maxv", "minv"):
                if a in d and not isinstance(d[a], dict):
                    d[a] = {"c": d[a]}
    return sp


def trace(sp, solver, args, tr):
    """Flows per step and volumes per step, or the step at which it raised."""
    m, made = make_model(sp, solver, dict(args))
    names = list(sp["nodes"])
    stor = [n for n in names if sp["nodes"][n]["k"] == "storage"] + list(sp.get("vs", {}))
    fl, vo = [], []
    m.setup()
    m.reset()
    for t in range(sp["T"]):
        try:
            m.step()
        except Exception:
            return fl, vo, t
        fl.append(np.array([made[n].flow for n in names]))
        vo.append(np.array([made[n].volume for n in stor]).reshape(len(stor), len(m.scenarios.combinations)))
        if args.get("save_routes_flows"):
            routes = m.solver.routes
            arr = np.array(m.solver.routes_flows_array)
            require(arr.shape == (len(m.scenarios.combinations), len(routes)), "saved route flows have shape %r" % (arr.shape,))
            for n in names:
                d = sp["nodes"][n]
                if d["k"] in ("link", "input", "output"):
                    node = made[n]
                    pos = (lambda r: r[0] is node) if d["k"] == "input" else (
                        (lambda r: r[-1] is node) if d["k"] == "output" else (lambda r: any(x is node for x in r)))
                    tot = sum((arr[:, i] for i, r in enumerate(routes) if pos(r)), np.zeros(arr.shape[0]))
                    require(np.allclose(tot, node.flow, atol=1e-6),
                            lambda: "saved route flows through %s sum to %r, node flow %r" % (n, tot, node.flow))
    tr.run()
    tr.step(sp["T"])
    return fl, vo, None


def compare(sp, tr, configs):
    ref = Ref(sp)
    names = list(sp["nodes"])
    stor = [n for n in names if sp["nodes"][n]["k"] == "storage"] + list(sp.get("vs", {}))
    base = None
    for solver, args in configs:
        if solver == "lpsolve" and not F.lpsolve_ok(sp):
            continue
        fl, vo, err = trace(sp, solver, args, tr)
        if base is None:
            base = (fl, vo, err)
            for t, f in enumerate(fl):
                for col, vcol in zip(f.T, vo[t].T):
                    tr.state(t, col, vcol)
            continue
        label = "%s %r" % (solver, args)
        require(err == base[2], lambda: "%s raised at step %r, glpk at %r" % (label, err, base[2]))
        alive = np.ones(len(ref.combos), bool)
        for t, (f0, f1) in enumerate(zip(base[0], fl)):
            bad = alive & (np.abs(f0 - f1).max(axis=0) > 1e-6 * np.maximum(1, np.abs(f0).max(axis=0)))
            for i in np.nonzero(bad)[0]:
                # Only a tie may be broken differently: both must be allocations
                # of the same cost, feasible from the same volumes.
                s = ref.combos[i]
                days = step_days(sp, t)
                vol = initial_volumes(sp) if t == 0 else dict(zip(stor, base[1][t - 1][:, i]))
                a = {n: float(f0[j, i]) for j, n in enumerate(names)}
                b = {n: float(f1[j, i]) for j, n in enumerate(names)}
                msg = ref.feasible_flows(t, s, days, vol, b)
                require(msg is None, lambda: "%s step %d scenario %r: %s (glpk: %r)" % (label, t, s, msg, a))
                if not ref.band:
                    ca, cb = ref.cost_of(t, s, a), ref.cost_of(t, s, b)
                    require(abs(ca - cb) <= 1e-5 * max(1, abs(ca)),
                            lambda: "%s step %d scenario %r: cost %.9g with flows %r, glpk: cost %.9g with %r" % (label, t, s, cb, b, ca, a))
                tr.count("ties")
            alive &= ~bad
            if stor:
                d = np.abs(base[1][t] - vo[t]).max(axis=0) > 1e-6 * np.maximum(1, np.abs(vo[t]).max(axis=0))
                i = np.nonzero(d & alive)[0]
                require(len(i) == 0, lambda: "%s step %d scenario %r: volumes %r, glpk %r" % (
                    label, t, ref.combos[i[0]], vo[t][:, i[0]], base[1][t][:, i[0]]))
    tr.outcome = (base[2], len(tr.states))


def core_gen(tier):
    es = F.structures(F.CORE_E, 5 if tier == "quick" else 7)
    return [{"edges": e, "k": 2} for e in es]


def core_fn(cfg, tr):
    nodes = sorted({n for e in cfg["edges"] for n in e})
    good, bad = alloc.feasible_split(cfg["edges"], F.assignments(nodes, cfg["k"]))
    while len(good) % 3:
        good.append(good[0])
    sp = perturb(F.core_spec_table(cfg["edges"], good, 3), False)
    compare(sp, tr, CONFIGS)


def static_gen(tier):
    es = F.structures(F.CORE_E, 4 if tier == "quick" else 6)
    return [{"edges": e, "const": c} for e in es for c in (False, True)]


def static_fn(cfg, tr):
    nodes = sorted({n for e in cfg["edges"] for n in e})
    for a in F.assignments(nodes, 1):
        sp = perturb(F.core_spec_static(cfg["edges"], a), cfg["const"])
        compare(sp, tr, CONFIGS)


def fam_gen(name):
    def gen(tier):
        cases = F.FAMILIES[name][0](tier)
        if tier == "quick":
            return [dict(c, const=bool((i + i // 5) % 2)) for i, c in enumerate(cases)]
        return [dict(c, const=k) for c in cases for k in (False, True)]
    return gen


def fam_fn(name):
    def fn(cfg, tr):
        cfg = dict(cfg)
        const = cfg.pop("const")
        compare(perturb(F.FAMILIES[name][1](cfg), const), tr, CONFIGS)
    return fn


GROUPS = {"core": (core_gen, core_fn), "static": (static_gen, static_fn)}
for _n in F.FAMILIES:
    if _n == "units":
        continue
    GROUPS[_n] = (fam_gen(_n), fam_fn(_n))
GROUPS["infeasible"] = (F.infeasible_cases, lambda c, tr: compare(F.infeasible_spec(c), tr, CONFIGS))
TECHNIQUE = 'exhaustive cross-product of solver configurations and bounded histories, differential against the default backend and the LP reference'
BOUNDS = ("The families of P01/P02 with generic costs, under 21 solver configurations each (glpk and glpk-edge x 9 option sets, saved routes, lpsolve x 2), "
          "compared step by step: flows, volumes, the step at which an infeasible model raises, and saved route flows; a differing tie must be feasible and of equal cost.")
