from . import alloc

GROUPS = {"core": (alloc.core_gen, lambda c, tr: alloc.core_run(c, tr, False, True, False))}
for _n in alloc.F.FAMILIES:
    GROUPS[_n] = (alloc.fam_gen(_n), lambda c, tr, n=_n: alloc.fam_run(n, c, tr, False, True))
TECHNIQUE = 'explicit-state enumeration of networks, values and histories; every reached state of the real solvers checked against an edge-based LP reference'
BOUNDS = ("Core: every network of <=5 (thorough <=8) edges over 2 inputs, 2 links, 2 outputs up to symmetry, with all "
          "assignments of (min, max, cost) in which <=2 nodes deviate from a base (6 alternatives each). Families: storage "
          "(all 3^T x 2^T inflow/demand histories, T=3, thorough 4; 5 topologies, 6 volume variants, 4 storage costs, steps of 1/7 days, "
          "thorough also months), aggregated ratios/limits, virtual storages, domains, piecewise bands, mixed, and every combination of how each value is given (number, constant, varying), also with the fixed-once options; the same networks with flows, volumes and costs in units from 1e-3 to 1e6. Checked: objective of the reported allocation equals the reference optimum.")
