"""P23: the optimisation interface applies and reads back variables exactly."""
import copy
import functools
import itertools
import math
import pickle
import random
import warnings

import numpy as np
import platypus

from pywr.core import Model
from pywr.optimisation import clear_global_model_cache
from pywr.optimisation.platypus import PlatypusWrapper, PywrRandomGenerator
from pywr.utils.bisect import BisectionSearchModel
from pywr import parameters as pars
from pywr.recorders import Recorder
from mc.harness import require
from mc.probe import same

try:
    import pygmo
    from pywr.optimisation.pygmo import PygmoWrapper
except ImportError:     # pygmo is optional
    pygmo = None

TECHNIQUE = ("exhaustive enumeration of the ordered mixes of variable parameters, of set vectors and histories of evaluations, of objective and constraint settings, and of bisection problems, on the real wrappers; "
             "every parameter's values and the simulated flows are compared with a model built directly with those values")
BOUNDS = ("19 kinds of parameter (16 variable, 3 not; two by the user, with integers below zero), all ordered mixes of up to 2 and of 3 of 8 kinds (thorough: 3 of all kinds), 4 vectors each on both wrappers and 3 solver settings; histories of up to 4 out of evaluations of two "
          "models, cache clearing, copies and pickling; 7 spellings of the direction x 19 constraint settings x 5 values, pairs and triples; all initial populations; bisection limits on a grid of 41 x bounds x epsilon x constraint kinds")

INF = float("inf")


class Whole(pars.Parameter):
    """a user's parameter with integer variables below zero, optionally after some doubles"""

    def __init__(self, model, doubles, whole, lower, upper, dlower=(), dupper=(), **kw):
        super().__init__(model, **kw)
        self.d, self.i = np.array(doubles, dtype=np.float64), np.array(whole, dtype=np.int32)
        self.bounds = [np.array(x, dtype=t) for x, t in ((dlower, np.float64), (dupper, np.float64), (lower, np.int32), (upper, np.int32))]
        self.double_size, self.integer_size = len(self.d), len(self.i)

    def value(self, timestep, scenario_index):
        return 20.0 + sum((k + 1) * x for k, x in enumerate(self.i)) + 0.25 * self.d.sum()

    def set_double_variables(self, values):
        self.d[...] = values

    def get_double_variables(self):
        return self.d

    def set_integer_variables(self, values):
        self.i[...] = values

    def get_integer_variables(self):
        return self.i

    def get_double_lower_bounds(self):
        return self.bounds[0]

    def get_double_upper_bounds(self):
        return self.bounds[1]

    def get_integer_lower_bounds(self):
        return self.bounds[2]

    def get_integer_upper_bounds(self):
        return self.bounds[3]

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


Whole.register()


# kinds: layout of doubles and integers with bounds, and a document fragment baked from values
class Kind:
    def __init__(self, name, make, dl, du, il=(), iu=(), variable=True, d0=None, i0=()):
        self.name, self.make, self.variable = name, make, variable
        self.dl, self.du, self.il, self.iu = list(dl), list(du), list(il), list(iu)
        self.d0 = list(d0) if d0 is not None else [round(a + (b - a) * 0.4, 6) for a, b in zip(dl, du)]
        self.i0 = list(i0)

    def vectors(self):
        """the alphabet of raw solutions (doubles, integers as the optimiser may propose them)"""
        mid = [round(a + (b - a) * ((3 * k + 1) % 5 + 0.5) / 6, 6) for k, (a, b) in enumerate(zip(self.dl, self.du))]
        imid = [a + (b - a) // 3 + (0.3 if k % 2 else -0.3) for k, (a, b) in enumerate(zip(self.il, self.iu))]
        return [(self.dl, [float(x) for x in self.il]), (self.du, [float(x) for x in self.iu]), (mid, imid)]


def _range(n, a, b, da=0.0, db=0.0):
    return [a + da * k for k in range(n)], [b + db * k for k in range(n)]


def kinds():
    out = []

    def add(*a, **k):
        out.append(Kind(*a, **k))
    add("const", lambda d, i: {"type": "constant", "value": d[0], "lower_bounds": 1.0, "upper_bounds": 8.0}, [1.0], [8.0])
    add("scaled", lambda d, i: {"type": "constant", "value": d[0], "scale": 2.0, "offset": 1.5, "lower_bounds": 0.0, "upper_bounds": 4.0}, [0.0], [4.0])
    add("offset", lambda d, i: {"type": "offset", "parameter": {"type": "constant", "value": 5.0}, "offset": d[0], "lower_bounds": -3.0, "upper_bounds": 2.0}, [-3.0], [2.0])
    lo, up = _range(12, 0.25, 6.0, 0.25, 0.5)
    add("monthly", lambda d, i, lo=lo, up=up: {"type": "monthlyprofile", "values": d, "lower_bounds": lo, "upper_bounds": up}, lo, up)
    add("monthlyi", lambda d, i: {"type": "monthlyprofile", "values": d, "interp_day": "first", "lower_bounds": 0.5, "upper_bounds": 9.5}, [0.5] * 12, [9.5] * 12)
    lo3, up3 = _range(3, 1.0, 7.0, 0.5, 1.0)
    add("rbf", lambda d, i, lo=lo3, up=up3: {"type": "rbfprofile", "days_of_year": [1, 100, 250], "values": d, "lower_bounds": lo, "upper_bounds": up, "min_value": 0.0, "max_value": 20.0}, lo3, up3)
    add("rbfr", lambda d, i: {"type": "rbfprofile", "days_of_year": [1] + list(i), "values": d, "lower_bounds": 2.0, "upper_bounds": 6.0, "min_value": 0.0, "max_value": 20.0,
                              "variable_days_of_year_range": 30}, [2.0] * 3, [6.0] * 3, [70, 170], [130, 230], i0=[100, 200])
    add("rbfb", lambda d, i: {"type": "rbfprofile", "days_of_year": [1] + list(i), "values": d, "lower_bounds": 1.0, "upper_bounds": 5.0, "min_value": 0.0, "max_value": 20.0,
                              "variable_days_lower_bounds": [20, 120, 301], "variable_days_upper_bounds": [90, 300, 350]}, [1.0] * 4, [5.0] * 4, [20, 120, 301], [90, 300, 350], i0=[40, 150, 320])
    add("harm1", lambda d, i: {"type": "annualharmonicseries", "mean": d[0], "amplitudes": d[1:2], "phases": d[2:], "mean_lower_bounds": 4.0, "mean_upper_bounds": 7.0, "amplitude_upper_bounds": 2.0},
        [4.0, 0.0, 0.0], [7.0, 2.0, 2 * math.pi])
    add("harm2", lambda d, i: {"type": "annualharmonicseries", "mean": d[0], "amplitudes": d[1:3], "phases": d[3:], "mean_lower_bounds": 5.0, "mean_upper_bounds": 9.0, "amplitude_lower_bounds": 0.5,
                               "amplitude_upper_bounds": 2.5, "phase_lower_bounds": 1.0, "phase_upper_bounds": 3.0}, [5.0, 0.5, 0.5, 1.0, 1.0], [9.0, 2.5, 2.5, 3.0, 3.0])
    add("cc1", lambda d, i: {"type": "controlcurve", "storage_node": "res", "control_curves": [0.8, 0.3], "values": [3.0, d[0], 1.0], "variable_indices": [1], "lower_bounds": [1.5], "upper_bounds": [6.5]}, [1.5], [6.5])
    add("cc2", lambda d, i: {"type": "controlcurve", "storage_node": "res", "control_curves": [0.8, 0.3], "values": [d[1], 2.25, d[0]], "variable_indices": [2, 0], "lower_bounds": [0.5, 1.0],
                             "upper_bounds": [4.0, 8.5]}, [0.5, 1.0], [4.0, 8.5])
    add("step", lambda d, i: {"type": "binarystep", "value": d[0], "output": 3.5, "lower_bounds": -2.0, "upper_bounds": 3.0}, [-2.0], [3.0])
    add("rect", lambda d, i: {"type": "rectifier", "value": d[0], "min_output": 1.0, "max_output": 6.0, "lower_bounds": -1.0, "upper_bounds": 4.0}, [-1.0], [4.0])
    add("logi", lambda d, i: {"type": "logistic", "value": d[0], "max_output": 7.0, "growth_rate": 1.25, "lower_bounds": -5.0, "upper_bounds": 5.0}, [-5.0], [5.0])
    add("whole", lambda d, i: {"type": "whole", "doubles": [], "whole": list(i), "lower": [-7, 0], "upper": [2, 3]}, [], [], [-7, 0], [2, 3], i0=[-2, 1])
    add("wholed", lambda d, i: {"type": "whole", "doubles": list(d), "whole": list(i), "lower": [-3, -5, 1], "upper": [-1, 4, 1], "dlower": [-2.0, 0.5], "dupper": [1.0, 4.5]}, [-2.0, 0.5], [1.0, 4.5],
        [-3, -5, 1], [-1, 4, 1], i0=[-2, 3, 1])
    add("fconst", lambda d, i: {"type": "constant", "value": d[0], "lower_bounds": 1.0, "upper_bounds": 8.0}, [1.0], [8.0], variable=False)
    add("fmonthly", lambda d, i: {"type": "monthlyprofile", "values": d}, [0.5] * 12, [9.5] * 12, variable=False)
    add("frbfr", lambda d, i: {"type": "rbfprofile", "days_of_year": [1] + list(i), "values": d, "min_value": 0.0, "variable_days_of_year_range": 30}, [2.0] * 3, [6.0] * 3, [70, 170], [130, 230],
        variable=False, i0=[100, 200])
    return {k.name: k for k in out}


K = kinds()
CORE = ("const", "monthly", "rbfr", "rbfb", "harm1", "cc2", "fconst", "frbfr")


def frame(objective=True):
    """one year, a draining reservoir"""
    d = {"metadata": {"title": "o", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-12-31", "timestep": 40},
         "nodes": [{"type": "input", "name": "spring", "max_flow": 0.0}, {"type": "storage", "name": "res", "max_volume": 100.0, "initial_volume": 100.0}, {"type": "output", "name": "drain", "max_flow": 0.25, "cost": -10.0}],
         "edges": [["spring", "res"], ["res", "drain"]], "parameters": {}, "recorders": {}}
    if objective:
        d["recorders"]["goal"] = {"type": "totalflownode", "node": "drain", "is_objective": "min"}
    return d


def add_par(d, name, frag, variable):
    d["parameters"][name] = dict(frag, is_variable=variable)
    d["nodes"] += [{"type": "input", "name": "i " + name, "max_flow": 1000.0}, {"type": "output", "name": "o " + name, "max_flow": name, "cost": -1.0}]
    d["edges"].append(["i " + name, "o " + name])
    d["recorders"]["r " + name] = {"type": "numpyarrayparameter", "parameter": name}
    d["recorders"]["f " + name] = {"type": "numpyarraynode", "node": "o " + name}


def document(names):
    """names: ((parameter name, kind), ...)"""
    d = frame()
    for n, k in names:
        kind = K[k]
        add_par(d, n, kind.make(list(kind.d0), list(kind.i0)), kind.variable)
    return d


def series(m, name):
    return [np.array(m.recorders[r + name].data)[:, 0].tolist() for r in ("r ", "f ")]


@functools.lru_cache(maxsize=None)
def direct(k, d, i):
    """a model built with those values in place: values of the parameter and the flows it allows"""
    doc = frame()
    frag = {a: b for a, b in K[k].make(list(d), list(i)).items() if not a.startswith("variable_days")}
    add_par(doc, "p", frag, False)
    m = Model.load(doc)
    m.run()
    return series(m, "p")


def ints(raw):
    return [int(np.floor(x + 0.5)) for x in raw]


class Case:
    """a document, its wrapper, and the layout of its solution vector"""

    def __init__(self, names, wrapper="platypus", solver=None):
        self.names = dict(names)
        self.doc = document(names)
        if solver:
            self.doc["solver"] = solver
        self.kind = wrapper
        self.w = (PlatypusWrapper if wrapper == "platypus" else PygmoWrapper)(copy.deepcopy(self.doc))
        self.order = [v.name for v in self.w.model_variables]

    def check_layout(self):
        want = sorted(n for n, k in self.names.items() if K[k].variable)
        require(sorted(self.order) == want, lambda: "variables are %r, should be %r" % (self.order, want), "names")
        lo, up = [], []
        for n in self.order:
            k = K[self.names[n]]
            lo += k.dl + k.il
            up += k.du + k.iu
        if self.kind == "platypus":
            got = [(t.min_value, t.max_value) for t in self.w.problem.types]
            n = self.w.problem.nvars
        else:
            a, b = self.w.get_bounds()
            got = list(zip(a, b))
            n = len(a)
        require(n == len(lo), lambda: "%d variables, should be %d" % (n, len(lo)), "size")
        require(same([list(x) for x in got], [list(x) for x in zip(lo, up)]), lambda: "bounds %r, should be %r (order %r)" % (got, list(zip(lo, up)), self.order), "bounds")

    def solution(self, choice):
        """choice: name -> (doubles, raw integers)"""
        x = []
        for n in self.order:
            d, i = choice[n]
            x += list(d) + list(i)
        return x

    def evaluate(self, x):
        if self.kind == "platypus":
            sol = platypus.Solution(self.w.problem)
            sol.variables[:] = x
            sol.evaluate()
            return list(sol.objectives)
        return list(self.w.fitness(np.array(x)))

    def check_model(self, choice, what):
        m = self.w.model
        for n, k in self.names.items():
            kind = K[k]
            p = m.parameters[n]
            d, raw = choice[n] if kind.variable else (kind.d0, kind.i0)
            i = ints(raw)
            require(same(list(p.get_double_variables()), [float(v) for v in d]), lambda: "%s: reading %s (%s) gives %r, should be %r" % (what, n, k, list(p.get_double_variables()), d), "get " + k)
            if kind.il:
                require(list(p.get_integer_variables()) == i, lambda: "%s: reading %s (%s) gives integers %r, should be %r" % (what, n, k, list(p.get_integer_variables()), i), "geti " + k)
            got, want = series(m, n), direct(k, tuple(d), tuple(i))
            require(same(got[0], want[0], 1e-7), lambda: "%s: values of %s (%s) %r, should be %r" % (what, n, k, got[0], want[0]), "values " + k)
            require(same(got[1], want[1], 1e-6), lambda: "%s: flows allowed by %s (%s) %r, should be %r" % (what, n, k, got[1], want[1]), "flows " + k)


SOLVERS = (None, {"name": "glpk", "set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True}, {"name": "lpsolve"})
WRAPPERS = ("platypus",) + (("pygmo",) if pygmo else ())


def gen_mixes(tier):
    for n in (1, 2):
        for ks in itertools.product(sorted(K), repeat=n):
            if any(K[k].variable for k in ks):
                yield (ks, 0)
    for ks in itertools.product(sorted(K) if tier == "thorough" else CORE, repeat=3):
        if any(K[k].variable for k in ks):
            yield (ks, sum(map(len, ks)) % 3)
    for k in sorted(K):
        if K[k].variable:
            for s in (1, 2):
                yield ((k,), s)
                yield ((k, "const"), s)


def do_mixes(cfg, tr):
    ks, s = cfg
    # names whose alphabetical order differs from the order they are given in
    names = tuple(zip(("pb", "pa", "pc"), ks))
    for wrapper in WRAPPERS:
        clear_global_model_cache()
        c = Case(names, wrapper, SOLVERS[s])
        c.check_layout()
        for t in (0, 1, 2, 0):
            choice = {n: K[k].vectors()[(t + j) % 3] for j, (n, k) in enumerate(names)}
            x = c.solution(choice)
            keep = list(x)
            out = c.evaluate(x)
            require(list(x) == keep, "the solution was modified", "modified")
            require(len(out) == 1 and abs(out[0] - 100.0) < 1e-6, lambda: "the objective is %r" % (out,), "objective")
            c.check_model(choice, "%s %r vector %d" % (wrapper, ks, t))
            tr.step(len(x) + 10)
            tr.state(ks, s, t)
        tr.run(4)
    clear_global_model_cache()
    tr.outcome = "applied"


# histories: what was evaluated before, caches, copies
OPS = ("A0", "A1", "B0", "clear", "copyA", "pickleA", "otherA")
HNAMES = {"A": (("pa", "rbfr"), ("pb", "const")), "B": (("pb", "harm1"), ("pa", "cc2"))}


def gen_histories(tier):
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for ops in itertools.product(OPS, repeat=n):
            if ops[-1] not in ("A0", "A1", "B0") or ops[-2] == ops[-1]:
                continue
            if n >= 4 and (len([o for o in ops[:-1] if o in ("A0", "A1", "B0")]) < 1 or not {"clear", "copyA", "pickleA", "otherA"} & set(ops)):
                continue
            yield ops


def do_histories(cfg, tr):
    for wrapper in WRAPPERS:
        clear_global_model_cache()
        C = {k: Case(v, wrapper) for k, v in HNAMES.items()}
        for op in cfg:
            if op == "clear":
                clear_global_model_cache()
            elif op == "copyA":
                C["A"].w = copy.deepcopy(C["A"].w)
                if wrapper == "platypus":
                    require(C["A"].w.problem.wrapper is C["A"].w, "the copied problem belongs to another wrapper", "copy")
            elif op == "pickleA":
                C["A"].w = pickle.loads(pickle.dumps(C["A"].w))
            elif op == "otherA":
                # another wrapper under the same identity shares the cached model
                old = C["A"].w
                C["A"].w = type(old)(copy.deepcopy(C["A"].doc), uid=old.uid)
                require(C["A"].w.model is old.model, "wrappers with the same uid do not share the model", "uid")
            else:
                c = C[op[0]]
                require([v.name for v in c.w.model_variables] == c.order, "the order of the variables changed", "order")
                choice = {n: K[k].vectors()[(int(op[1]) + 1 + j) % 3] for j, (n, k) in enumerate(HNAMES[op[0]])}
                c.evaluate(c.solution(choice))
                c.check_model(choice, "%s after %r" % (wrapper, cfg))
            tr.step()
        c.check_layout()
        tr.state(cfg[-2:])
        tr.run()
    clear_global_model_cache()
    tr.outcome = "history"


# parameters: reading, writing, ownership of the arrays
def gen_own(tier):
    for k in sorted(K):
        if K[k].variable and not k.startswith("whole"):
            for how in ("write", "read", "twins", "given"):
                yield (k, how)


def python_par(k, m, d, i):
    """the parameter built in Python from arrays the caller keeps"""
    res = m.nodes["res"] if "res" in [n.name for n in m.nodes] else None
    P = pars
    if k == "const":
        return P.ConstantParameter(m, d[0]), []
    if k == "scaled":
        return P.ConstantParameter(m, d[0], scale=2.0, offset=1.5), []
    if k == "offset":
        return P.OffsetParameter(m, P.ConstantParameter(m, 5.0), d[0]), []
    if k in ("monthly", "monthlyi"):
        return P.MonthlyProfileParameter(m, d, interp_day="first" if k == "monthlyi" else None), [d]
    if k == "rbf":
        days = np.array([1, 100, 250], dtype=np.int32)
        return P.RbfProfileParameter(m, days, d), [d, days]
    if k == "rbfr":
        days = np.array([1, 100, 200], dtype=np.int32)
        return P.RbfProfileParameter(m, days, d, variable_days_of_year_range=30), [d, days]
    if k == "rbfb":
        days = np.array([1, 40, 150, 320], dtype=np.int32)
        lo, up = np.array([20, 120, 301], dtype=np.int32), np.array([90, 300, 350], dtype=np.int32)
        return P.RbfProfileParameter(m, days, d, variable_days_lower_bounds=lo, variable_days_upper_bounds=up), [d, days]
    if k in ("harm1", "harm2"):
        n = (len(d) - 1) // 2
        a, b = d[1:n + 1].copy(), d[n + 1:].copy()
        return P.AnnualHarmonicSeriesParameter(m, d[0], a, b), [a, b]
    if k in ("cc1", "cc2"):
        values = np.array([3.0, d[0], 1.0]) if k == "cc1" else np.array([d[1], 2.25, d[0]])
        idx = np.array([1] if k == "cc1" else [2, 0], dtype=np.int32)
        return P.ControlCurveParameter(m, res, [0.8, 0.3], values=values, variable_indices=idx), [values, idx]
    if k == "step":
        return P.BinaryStepParameter(m, d[0], output=3.5), []
    if k == "rect":
        return P.RectifierParameter(m, d[0], min_output=1.0, max_output=6.0, lower_bounds=-1.0, upper_bounds=4.0), []
    if k == "logi":
        return P.LogisticParameter(m, d[0], max_output=7.0, growth_rate=1.25), []
    raise KeyError(k)


def do_own(cfg, tr):
    k, how = cfg
    kind = K[k]
    (d1, i1), (d2, i2) = kind.vectors()[1], kind.vectors()[2]
    i1, i2 = ints(i1), ints(i2)
    m = Model.load(frame())

    def check(p, d, i, what):
        require(same(list(p.get_double_variables()), [float(v) for v in d]), lambda: "%s of %s: doubles %r, should be %r" % (what, k, list(p.get_double_variables()), d), "own " + k)
        if i:
            require(list(p.get_integer_variables()) == list(i), lambda: "%s of %s: integers %r, should be %r" % (what, k, list(p.get_integer_variables()), i), "owni " + k)
        tr.step()
    base = np.array(kind.d0, dtype=np.float64)
    if how == "twins":
        # two parameters made from the same arrays
        p, given = python_par(k, m, base, kind.i0)
        if k in ("cc1", "cc2"):
            q = pars.ControlCurveParameter(m, m.nodes["res"], [0.8, 0.3], values=given[0], variable_indices=given[1])
        elif k in ("harm1", "harm2"):
            q = pars.AnnualHarmonicSeriesParameter(m, base[0], given[0], given[1])
        else:
            q, _ = python_par(k, m, base, kind.i0)
        p.set_double_variables(np.array(d1, dtype=np.float64))
        if i1:
            p.set_integer_variables(np.array(i1, dtype=np.int32))
        check(p, d1, i1, "the changed one")
        check(q, kind.d0, kind.i0, "the other one")
    elif how == "given":
        p, given = python_par(k, m, base, kind.i0)
        keep = [np.array(g) for g in given]
        p.set_double_variables(np.array(d1, dtype=np.float64))
        if i1:
            p.set_integer_variables(np.array(i1, dtype=np.int32))
        require(all(np.array_equal(a, b) for a, b in zip(given, keep)), "setting variables of %s changed the arrays it was built from" % k, "given " + k)
        check(p, d1, i1, "after setting")
    else:
        p, given = python_par(k, m, base, kind.i0)
        d, i = np.array(d1, dtype=np.float64), np.array(i1, dtype=np.int32)
        p.set_double_variables(d)
        if i1:
            p.set_integer_variables(i)
        if how == "write":
            d[...] = -99.0
            i[...] = 3
        else:
            np.asarray(p.get_double_variables())[...] = -99.0
            if i1:
                np.asarray(p.get_integer_variables())[...] = 3
        check(p, d1, i1, how)
        p.set_double_variables(np.array(d2, dtype=np.float64))
        if i2:
            p.set_integer_variables(np.array(i2, dtype=np.int32))
        check(p, d2, i2, how + " again")
    tr.state(k, how)
    tr.run()
    tr.outcome = how


# objectives and constraints
class Say(Recorder):
    """a recorder whose aggregated value is that of a parameter"""

    def __init__(self, model, parameter, **kw):
        super().__init__(model, **kw)
        self.parameter = parameter
        self.children.add(parameter)

    def values(self):
        return np.array(self.parameter.get_all_values(), dtype=np.float64)

    @classmethod
    def load(cls, model, data):
        from pywr.parameters import load_parameter
        return cls(model, load_parameter(model, data.pop("parameter")), **data)


Say.register()

DIRS = {"maximize": -1, "maximise": -1, "max": -1, "minimise": 1, "minimize": 1, "min": 1}
LIMITS = [(a, b) for a in (None, -1.0, 0.0, 2.0, 3.0) for b in (None, -1.0, 0.0, 2.0, 3.0) if a is None or b is None or a <= b]
VALUES = (-2.0, -1.0, 0.0, 1.0, 2.0, 2.5, 3.0, 4.0)


def frac(lims, v):
    a, b = lims
    return not ((a is not None and v < a) or (b is not None and v > b))


def gen_goals(tier):
    for d in [None] + sorted(DIRS):
        for lim in LIMITS:
            yield ((d, lim),)
    ds, ls = (None, "max", "minimise"), ((None, None), (0.0, 0.0), (None, 2.0), (-1.0, None), (0.0, 3.0))
    for a, b in itertools.product(itertools.product(ds, ls), repeat=2):
        yield (a, b)
    small = list(itertools.product((None, "maximize", "min"), ((None, None), (2.0, 2.0), (0.0, None), (0.0, 2.0)))) if tier == "thorough" else \
        [("max", (None, None)), ("min", (2.0, 2.0)), (None, (0.0, 2.0)), (None, (None, 0.0)), ("min", (0.0, None))]
    for t in itertools.product(small, repeat=3):
        yield t


def do_goals(cfg, tr):
    cfg = tuple((d, tuple(lim)) for d, lim in cfg)
    doc = frame(objective=False)
    names = ("rb", "ra", "rc")[:len(cfg)]
    for n, (d, lim) in zip(names, cfg):
        doc["parameters"]["p" + n] = {"type": "constant", "value": 1.0, "lower_bounds": -5.0, "upper_bounds": 5.0, "is_variable": True}
        r = {"type": "say", "parameter": "p" + n}
        if d is not None:
            r["is_objective"] = d
        if lim[0] is not None:
            r["constraint_lower_bounds"] = lim[0]
        if lim[1] is not None:
            r["constraint_upper_bounds"] = lim[1]
        doc["recorders"][n] = r
    nobj = sum(d is not None for d, _ in cfg)
    if len(cfg) == 1:
        sweep = [(v,) for v in VALUES]
    elif len(cfg) == 2:
        sweep = list(itertools.product((-2.0, 0.0, 2.0, 4.0), repeat=2))
    else:
        sweep = [(0.0, 2.0, 1.0), (2.0, 2.0, 2.0), (3.0, 0.0, -1.0), (-2.0, 4.0, 2.0)]
    by = dict(zip(names, cfg))
    for wrapper in WRAPPERS:
        clear_global_model_cache()
        try:
            w = (PlatypusWrapper if wrapper == "platypus" else PygmoWrapper)(copy.deepcopy(doc))
        except ValueError:
            require(wrapper == "platypus" and nobj == 0, "a sound problem is refused", "refused")
            continue
        if wrapper == "platypus":
            require(nobj > 0, "no objective, but no error", "noobj")
        objectives = [r.name for r in w.model_objectives]
        constraints = [r.name for r in w.model_constraints]
        require(sorted(objectives) == sorted(n for n in names if by[n][0]), lambda: "objectives %r" % (objectives,), "objectives")
        require(sorted(constraints) == sorted(n for n in names if by[n][1] != (None, None)), lambda: "constraints %r" % (constraints,), "constraints")
        order = [v.name for v in w.model_variables]
        if wrapper == "pygmo":
            if nobj == 0:
                continue
            prob = pygmo.problem(w)
            w2 = prob.extract(PygmoWrapper)
        for vals in sweep:
            at = dict(zip(names, vals))
            x = [at[o[1:]] for o in order]
            obj = [DIRS[by[n][0]] * at[n] for n in objectives]
            feasible = {n: frac(by[n][1], at[n]) for n in constraints}
            if wrapper == "platypus":
                sol = platypus.Solution(w.problem)
                sol.variables[:] = x
                sol.evaluate()
                require(same(list(sol.objectives), obj), lambda: "%r at %r: objectives %r, should be %r" % (cfg, at, list(sol.objectives), obj), "platypus sign")
                got = []
                for c in w.problem.constraints:
                    got.append((c.op if isinstance(c.op, str) else str(c.op)))
                want, wantc = [], []
                for n in constraints:
                    a, b = by[n][1]
                    k = 2 if (a is not None and b is not None and a != b) else 1
                    want += [n] * k
                    wantc += [at[n]] * k
                require(w.problem.nconstrs == len(want) and same(list(sol.constraints), wantc), lambda: "%r at %r: constraint values %r, should be %r" % (cfg, at, list(sol.constraints), wantc), "platypus values")
                # each declared constraint judges the value as its limits say
                verdict = {}
                for n, c, v in zip(want, w.problem.constraints, sol.constraints):
                    verdict[n] = verdict.get(n, True) and c(v) == 0
                require(verdict == feasible, lambda: "%r at %r: platypus finds %r, should be %r" % (cfg, at, verdict, feasible), "platypus feasible")
                require(sol.feasible == all(feasible.values()), lambda: "%r at %r: the solution is %s" % (cfg, at, "feasible" if sol.feasible else "infeasible"), "platypus all")
                m = w.model
            else:
                f = list(prob.fitness(x))
                eq = [n for n in constraints if by[n][1][0] is not None and by[n][1][0] == by[n][1][1]]
                ineq = []
                for n in constraints:
                    if n not in eq:
                        a, b = by[n][1]
                        ineq += ([(n, a - at[n])] if a is not None else []) + ([(n, at[n] - b)] if b is not None else [])
                require((prob.get_nobj(), prob.get_nec(), prob.get_nic()) == (nobj, len(eq), len(ineq)), lambda: "%r: pygmo is told %r" % (cfg, (prob.get_nobj(), prob.get_nec(), prob.get_nic())), "pygmo counts")
                require(same(f[:nobj], obj), lambda: "%r at %r: objectives %r, should be %r" % (cfg, at, f[:nobj], obj), "pygmo sign")
                # equality constraints of the form h(x) = 0, inequalities g(x) <= 0
                h, g = f[nobj:nobj + len(eq)], f[nobj + len(eq):]
                require(all((v == 0) == feasible[n] for n, v in zip(eq, h)), lambda: "%r at %r: equality constraints %r of %r" % (cfg, at, h, eq), "pygmo equality")
                require(same(g, [v for _, v in ineq]), lambda: "%r at %r: inequality constraints %r, should be %r" % (cfg, at, g, ineq), "pygmo inequality")
                require(bool(prob.feasibility_f(f)) == all(feasible.values()), lambda: "%r at %r: pygmo calls it %s" % (cfg, at, prob.feasibility_f(f)), "pygmo all")
                m = w2.model
            require({n: not m.recorders[n].is_constraint_violated() for n in constraints} == feasible, "is_constraint_violated disagrees with the limits", "violated")
            require(m.is_feasible() == all(feasible.values()), "is_feasible disagrees with the limits", "is_feasible")
            tr.step(len(cfg))
            tr.state(cfg, at)
        tr.run(len(sweep))
    clear_global_model_cache()
    tr.outcome = "goals %d" % nobj


# setting the limits of a recorder
def gen_limits(tier):
    ops = [("lo", v) for v in (None, 0.0, 2.0, -1)] + [("up", v) for v in (None, 0.0, 2.0, 1)]
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for h in itertools.product(ops, repeat=n):
            yield h


def do_limits(cfg, tr):
    m = Model.load(frame())
    m.setup()
    r = m.recorders["goal"]
    lo = up = None
    for side, v in cfg:
        a, b = (v, up) if side == "lo" else (lo, v)
        bad = a is not None and b is not None and a > b
        try:
            setattr(r, "constraint_lower_bounds" if side == "lo" else "constraint_upper_bounds", v)
        except ValueError:
            require(bad, lambda: "sound limits refused: %r" % (cfg,), "refused")
        else:
            require(not bad, lambda: "limits %r above each other accepted: %r" % ((a, b), cfg), "accepted")
            lo, up = a, b
        require((r.constraint_lower_bounds, r.constraint_upper_bounds) == (lo, up), lambda: "limits are %r, should be %r after %r" % ((r.constraint_lower_bounds, r.constraint_upper_bounds), (lo, up), cfg), "limits")
        got = (r.is_constraint, r.is_equality_constraint, r.is_double_bounded_constraint, r.is_lower_bounded_constraint, r.is_upper_bounded_constraint)
        both = lo is not None and up is not None
        want = (lo is not None or up is not None, both and lo == up, both and lo != up, lo is not None and up is None, lo is None and up is not None)
        require(got == want, lambda: "kind of constraint %r, should be %r for %r" % (got, want, (lo, up)), "kind")
        require(([c.name for c in m.constraints] == ["goal"]) == want[0], "the list of constraints is not current", "list")
        tr.step()
        tr.state(lo, up)
    if lo is None and up is None:
        try:
            r.is_constraint_violated()
        except ValueError:
            pass
        else:
            require(False, "a recorder without limits judges feasibility", "nolimits")
    tr.run()
    tr.outcome = "limits"


# initial populations
GMIX = ((("pb", "rbfr"), ("pa", "const")), (("pa", "harm1"), ("pb", "fmonthly"), ("pc", "rbfb")), (("pc", "cc2"), ("pa", "monthly")), (("pa", "frbfr"), ("pb", "step"), ("pc", "offset")))


def gen_population(tier):
    for j in range(len(GMIX)):
        for current in (True, False, None):
            for given in [None] + [g for n in (0, 1, 2, 3) for g in itertools.product(("in", "below", "above", "mixed"), repeat=n)]:
                for evaluated in (False, True):
                    if len(given or ()) < 3 or (not evaluated and tier == "thorough"):
                        yield (j, current, given, evaluated)


def do_population(cfg, tr):
    j, current, given, evaluated = cfg
    names = GMIX[j]
    clear_global_model_cache()
    c = Case(names)
    variable = [(n, k) for n, k in names if K[k].variable]
    now = {n: (K[k].d0, K[k].i0) for n, k in names}
    if evaluated:
        now = {n: K[k].vectors()[2] for n, k in variable}
        c.evaluate(c.solution(now))

    def dose(k, how):
        k = K[k]
        d = {"in": k.vectors()[2][0], "below": [v - 3.0 for v in k.dl], "above": [v + 3.0 for v in k.du]}
        i = {"in": ints(k.vectors()[2][1]), "below": [v - 5 for v in k.il], "above": [v + 5 for v in k.iu]}
        d["mixed"] = [d[("below", "in", "above")[q % 3]][q] for q in range(len(k.dl))]
        i["mixed"] = [i[("above", "below", "in")[q % 3]][q] for q in range(len(k.il))]
        return d[how], i[how]
    sols = None
    if given is not None:
        sols = []
        for how in given:
            s = {}
            for n, k in variable:
                d, i = dose(k, how)
                s[n] = dict([("doubles", d)] + ([("integers", i)] if i else []))
            sols.append(s)
    kw = {"wrapper": c.w, "solutions": sols}
    if current is not None:
        kw["use_current"] = current
    g = PywrRandomGenerator(**kw)
    random.seed(1)
    expected = []
    if current is not False:
        expected.append({n: (now[n][0], ints(now[n][1])) for n, k in variable})
    for how in given or ():
        e = {}
        for n, k in variable:
            d, i = dose(k, how)
            e[n] = (np.clip(d, K[k].dl, K[k].du).tolist(), np.clip(i, K[k].il, K[k].iu).tolist() if i else [])
        expected.append(e)
    for q in range(len(expected) + 2):
        sol = g.generate(c.w.problem)
        x = list(sol.variables)
        lo = [t.min_value for t in c.w.problem.types]
        up = [t.max_value for t in c.w.problem.types]
        require(len(x) == len(lo), "a solution of the wrong length", "length")
        require(all(a - 1e-12 <= v <= b + 1e-12 for a, v, b in zip(lo, x, up)), lambda: "solution %r leaves the bounds" % (x,), "outside")
        if q < len(expected):
            want = c.solution(expected[q])
            require(same([float(v) for v in x], [float(v) for v in want]), lambda: "solution %d of %r is %r, should be %r" % (q, cfg, x, want), "injected")
            sol.evaluate()
            c.check_model({n: (expected[q][n][0], [float(v) for v in expected[q][n][1]]) for n, k in variable}, "injected solution")
        tr.step()
    tr.state(j, current, given)
    tr.run()
    clear_global_model_cache()
    tr.outcome = "population %d" % len(expected)


# bisection
def bisect_doc(kind, limit, lo, up, eps, strict):
    d = {"metadata": {"title": "b", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-04", "timestep": 1},
         "bisection": {"parameter": "want", "epsilon": eps, "error_on_infeasible": strict},
         "nodes": [{"type": "input", "name": "in", "max_flow": limit}, {"type": "output", "name": "out", "max_flow": "want", "cost": -10.0}], "edges": [["in", "out"]],
         "parameters": {"want": {"type": "constant", "value": lo + 0.25, "lower_bounds": lo, "upper_bounds": up}},
         "recorders": {"flow": {"type": "numpyarraynode", "node": "out"}, "mean": {"type": "meanflownode", "node": "out"}}}
    R = d["recorders"]
    if kind == "deficit":       # no deficit allowed
        R["c"] = {"type": "totaldeficitnode", "node": "out", "constraint_upper_bounds": 0.0}
    elif kind == "exact":       # the deficit equals zero
        R["c"] = {"type": "totaldeficitnode", "node": "out", "constraint_lower_bounds": 0.0, "constraint_upper_bounds": 0.0}
    elif kind == "cap":         # the supply is ample, the flow is capped
        d["nodes"][0]["max_flow"] = 1000.0
        R["mean"]["constraint_upper_bounds"] = limit
    elif kind == "band":
        d["nodes"][0]["max_flow"] = 1000.0
        R["mean"].update(constraint_lower_bounds=-100.0, constraint_upper_bounds=limit)
    elif kind == "neg":         # a lower bound on a falling value
        d["nodes"][0]["max_flow"] = 1000.0
        d["parameters"]["minus"] = {"type": "negative", "parameter": "want"}
        R["c"] = {"type": "say", "parameter": "minus", "constraint_lower_bounds": -limit}
    elif kind == "two":         # the tighter of two
        R["c"] = {"type": "totaldeficitnode", "node": "out", "constraint_upper_bounds": 0.0}
        R["mean"]["constraint_upper_bounds"] = limit + 1.75
        R["z"] = {"type": "totalflownode", "node": "in", "constraint_upper_bounds": 4000.0}
    elif kind == "two2":
        R["c"] = {"type": "totaldeficitnode", "node": "out", "constraint_upper_bounds": 0.0}
        R["mean"]["constraint_upper_bounds"] = limit
        d["nodes"][0]["max_flow"] = limit + 1.75
    elif kind == "goal":        # an objective that is not a constraint plays no part
        R["c"] = {"type": "totaldeficitnode", "node": "out", "constraint_upper_bounds": 0.0}
        R["mean"]["is_objective"] = "max"
    return d


BKINDS = ("deficit", "exact", "cap", "band", "neg", "two", "two2", "goal")


def gen_bisect(tier):
    steps = 41 if tier == "quick" else 161
    for kind in BKINDS:
        for lo, up in ((0.0, 10.0), (2.0, 5.0), (0.5, 16.5)):
            for eps in (1.0, 0.3, 0.01) + ((1e-5,) if kind in ("deficit", "cap") else ()) + ((20.0,) if kind == "cap" else ()):
                for strict in (True, False):
                    yield (kind, lo, up, eps, strict, steps)


def tidy(v):
    return round(v, 9)


def do_bisect(cfg, tr):
    kind, lo, up, eps, strict, steps = cfg
    a, b = max(0.0, lo - 1.0), up + 1.0
    for s in range(steps):
        limit = tidy(a + (b - a) * s / (steps - 1))
        for how in ("json", "python"):
            doc = bisect_doc(kind, limit, lo, up, eps, strict)
            if how == "json":
                m = BisectionSearchModel.load(doc)
            else:
                if s % 5:
                    continue
                doc.pop("bisection")
                m = BisectionSearchModel.load(doc)
                m.bisect_parameter, m.bisect_epsilon, m.error_on_infeasible = "want", eps, strict
            p = m.parameters["want"]
            for again in range(1 if s % 4 else 2):
                what = "%s: limit %r, bounds %r, epsilon %r%s" % (kind, limit, (lo, up), eps, " again" if again else "")
                try:
                    m.run()
                except ValueError:
                    # nothing can be feasible but what lies within tolerance of the lower bound
                    require(strict and (limit < lo + eps + 1e-9 or up - lo <= eps), lambda: "%s: found nothing" % what, "nothing")
                    tr.count("infeasible")
                    continue
                v = p.get_double_variables()[0]
                require(lo - 1e-9 <= v <= up + 1e-9, lambda: "%s: ended at %r" % (what, v), "bounds")
                if limit < lo - 1e-9:
                    require(not strict, lambda: "%s: no feasible value, no error" % what, "noerror")
                    require(v == lo, lambda: "%s: without a feasible value ended at %r" % (what, v), "lower")
                    require(not m.is_feasible(), "an infeasible end is called feasible", "is_feasible")
                else:
                    require(v <= limit + 1e-9, lambda: "%s: ended at the infeasible %r" % (what, v), "infeasible")
                    require(v >= min(limit, up) - eps - 1e-9, lambda: "%s: ended at %r, further than epsilon from the limit" % (what, v), "short")
                    require(m.is_feasible(), lambda: "%s: the model does not end feasible (%r)" % (what, v), "end")
                flow = np.array(m.recorders["flow"].data)[:, 0].tolist()
                cap = m.nodes["in"].max_flow
                require(same(flow, [min(v, cap)] * 4, 1e-7), lambda: "%s: recorders show %r, the value is %r" % (what, flow, v), "recorders")
                tr.step()
            tr.run()
        tr.state(kind, lo, eps, strict, s)
    tr.outcome = "bisected"


# bisections that make no sense
def gen_nonsense(tier):
    for what in ("no epsilon", "zero", "negative", "no parameter", "unknown", "vector", "integers", "bounds", "equal"):
        for how in ("json", "python"):
            yield (what, how)


def do_nonsense(cfg, tr):
    what, how = cfg
    doc = bisect_doc("deficit", 3.0, 0.0, 10.0, 1.0, True)
    b, P = doc["bisection"], doc["parameters"]
    if what == "no epsilon":
        b.pop("epsilon")
    elif what == "zero":
        b["epsilon"] = 0.0
    elif what == "negative":
        b["epsilon"] = -1.0
    elif what == "no parameter":
        b.pop("parameter")
    elif what == "unknown":
        b["parameter"] = "nothing"
    elif what == "vector":
        P["want"] = {"type": "monthlyprofile", "values": [1.0] * 12, "upper_bounds": 10.0}
    elif what == "integers":
        P["want"] = K["rbfr"].make(K["rbfr"].d0, K["rbfr"].i0)
    elif what == "bounds":
        P["want"].update(lower_bounds=5.0, upper_bounds=4.0)
    elif what == "equal":
        P["want"].update(lower_bounds=5.0, upper_bounds=5.0)
    if how == "python":
        doc.pop("bisection")
    try:
        m = BisectionSearchModel.load(doc)
        if how == "python":
            m.bisect_parameter, m.bisect_epsilon = b.get("parameter"), b.get("epsilon")
        m.run()
    except (ValueError, KeyError):
        tr.outcome = "refused"
    else:
        require(False, "%r is accepted" % (cfg,), "nonsense " + what)
    tr.step()
    tr.state(cfg)
    tr.run()


GROUPS = {"mixes": (gen_mixes, do_mixes), "histories": (gen_histories, do_histories), "own": (gen_own, do_own), "goals": (gen_goals, do_goals), "limits": (gen_limits, do_limits),
          "population": (gen_population, do_population), "bisect": (gen_bisect, do_bisect), "nonsense": (gen_nonsense, do_nonsense)}
