"""Exploration shared by the feasibility, optimality and agreement checks."""
from mc import families as F
from mc.nets import Ref, Runner, make_model
from mc.harness import require, Violation

ONCE = {"set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True}
SOLVERS = ("glpk", "glpk-edge", "lpsolve")


def core_gen(tier):
    es = F.structures(F.CORE_E if tier == "quick" else F.CORE_E2, 5 if tier == "quick" else 8)
    return [{"edges": e, "k": 2} for e in es]


def feasible_split(edges, asg):
    """Split assignments by whether the reference finds any allocation."""
    sp = F.core_spec_table(edges, asg, 1)
    ref = Ref(sp)
    good, bad = [], []
    for i, a in enumerate(asg):
        z = ref.optimum(0, (i,), 1, {})
        (bad if z is None else good).append(a)
    return good, bad


def core_run(cfg, tr, feas, opt, infeasible):
    nodes = sorted({n for e in cfg["edges"] for n in e})
    asg = F.assignments(nodes, cfg["k"])
    good, bad = feasible_split(cfg["edges"], asg)
    T = 3
    while len(good) % T:
        good.append(good[0])
    sp = F.core_spec_table(cfg["edges"], good, T)
    ref = Ref(sp)
    for solver in SOLVERS:
        Runner(sp, ref, solver).run(tr, feas=feas, opt=opt, volumes=False)
    tr.outcome = (len(good), len(bad))
    if infeasible:
        for a in bad:
            s1 = F.core_spec_static(cfg["edges"], a)
            for solver in SOLVERS:
                expect_error(s1, solver, 0, tr)


def expect_error(spec, solver, step, tr):
    """The run must get through `step` steps and then raise."""
    m, made = make_model(spec, solver)
    m.setup()
    m.reset()
    for t in range(step):
        m.step()
    try:
        m.step()
    except Exception:
        tr.run()
        tr.count("infeasible_rejected")
        return
    raise Violation("%s: step %d has no feasible allocation but the run returned %r for %r" % (
        solver, step, {n: made[n].flow.tolist() for n in spec["nodes"]}, spec))


def fam_gen(name):
    return F.FAMILIES[name][0]


def fam_run(name, cfg, tr, feas, opt, volumes=False):
    sp = F.FAMILIES[name][1](cfg)
    ref = Ref(sp)
    for solver in SOLVERS:
        if solver == "lpsolve" and not F.lpsolve_ok(sp):
            continue
        for args in (({}, ONCE) if name == "kinds" and solver != "lpsolve" else ({},)):
            Runner(sp, ref, solver, args, unit=tuple(cfg.get("unit", (1.0, 1.0)))).run(tr, feas=feas, opt=opt, volumes=volumes)
    tr.outcome = len(tr.states)


def infeasible_fn(cfg, tr):
    """Step each solver along a history; it must raise exactly at the first
    step for which the reference finds no allocation."""
    from mc.nets import step_days, initial_volumes
    sp = F.infeasible_spec(cfg)
    ref = Ref(sp)
    for solver in SOLVERS:
        m, made = make_model(sp, solver)
        m.setup()
        m.reset()
        stor = ref.storages + ref.vss
        vols = [initial_volumes(sp) for _ in ref.combos]
        for t in range(sp["T"]):
            ok = all(ref.optimum(t, s, 1, vols[i]) is not None for i, s in enumerate(ref.combos))
            try:
                m.step()
                raised = None
            except Exception as e:
                raised = e
            tr.step()
            tr.state(t, ok, [sorted(v.items()) for v in vols], cfg["kind"])
            if ok:
                require(raised is None, lambda: "%s: step %d has a feasible allocation but the run raised %r" % (solver, t, raised))
            else:
                require(raised is not None, lambda: "%s: step %d has no feasible allocation but the run allocated %r" % (
                    solver, t, {n: made[n].flow.tolist() for n in sp["nodes"]}))
                tr.count("infeasible_rejected")
                break
            vols = [{n: float(made[n].volume[i]) for n in stor} for i in range(len(ref.combos))]
        tr.run()
    tr.outcome = (cfg["kind"], ok)
