"""P12: arithmetic, logical, indexing and interpolating parameters equal their definition."""
import itertools
import math
import statistics

import numpy as np

from pywr.parameters import *
from pywr.parameters import (AggregatedParameter, AggregatedIndexParameter, DivisionParameter, NegativeParameter,
                             MaxParameter, MinParameter, NegativeMaxParameter, NegativeMinParameter, OffsetParameter,
                             IndexedArrayParameter, InterpolatedParameter, InterpolatedQuadratureParameter,
                             ScenarioWrapperParameter, PiecewiseIntegralParameter, ScaledProfileParameter,
                             ArrayIndexedParameter, ArrayIndexedScenarioParameter, ConstantScenarioParameter,
                             ConstantScenarioIndexParameter, ConstantParameter, FunctionParameter, load_parameter)
from mc.harness import require, close
from mc.probe import base, Grab, Fn, FnIndex, require_same

A = [-3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 7.25]
SMALL = [-2.0, 0.0, 1.0, 3.5]
IDX = [0, 1, 2, 5]
T = 3


def digits(s, n, k):
    return [(s // n ** j) % n for j in range(k)]


def inputs(m, alpha, k, kinds, tr):
    """k parameters which in scenario s and step t take every tuple of the alphabet;
    -> parameters, value(j, t, s)"""
    n = len(alpha)

    def val(j, t, s):
        d = digits(s, n, k)[j]
        if kinds[j] == "cs":  # constant in time, varying by scenario
            return alpha[d]
        if kinds[j][0] == "=":  # a constant
            return alpha[int(kinds[j][1:])]
        return alpha[(d + t * (j + 1)) % n]

    sc = list(m.scenarios.scenarios)[0]
    P = []
    for j in range(k):
        if kinds[j] == "cs":
            P.append(ConstantScenarioParameter(m, sc, [val(j, 0, s) for s in range(n ** k)]))
        elif kinds[j][0] == "=":
            P.append(ConstantParameter(m, val(j, 0, 0)))
        elif kinds[j] == "ts":
            P.append(ArrayIndexedScenarioParameter(m, sc, [[val(j, t, s) for s in range(n ** k)] for t in range(T)]))
        else:
            P.append(Fn(m, lambda t, si, j=j: val(j, t, si[0])))
    return P, val


def check(m, P, wants, tr, what, key, idx=False, tol=1e-9):
    g = Grab(m, P)
    m.run()
    tr.run()
    got = g.vals()
    for i, (p, w) in enumerate(zip(P, wants)):
        name = "%s: %s" % (what, type(p).__name__)
        require_same(got[:, i], w, name, key + ":" + type(p).__name__, tol)
        if idx and isinstance(p, IndexParameter):
            require_same(g.idx(i), w, name + " index", key + ":" + type(p).__name__)
    tr.step(got.size)
    return got


def prod(v):
    r = 1.0
    for x in v:
        r *= x
    return r


def spread(v):
    return max(v) - 2 * min(v)


AGG = {"sum": math.fsum, "min": min, "max": max, "mean": lambda v: math.fsum(v) / len(v), "product": prod,
       "median": statistics.median}


def gen_agg(tier):
    out = []
    for k in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
        al = A if k <= 2 else SMALL
        kinds = ["fn", "cs", "ts", "=3"] if k <= 2 else ["fn", "=3"] if k == 3 else ["fn"]
        for ks in itertools.product(kinds, repeat=k):
            out.append({"k": k, "alpha": al, "kinds": ks})
    return out


def run_agg(cfg, tr):
    k, al = cfg["k"], cfg["alpha"]
    n = len(al) ** k
    m = base(steps=T, S=[n])
    P, val = inputs(m, al, k, cfg["kinds"], tr)
    V = [[[val(j, t, s) for j in range(k)] for s in range(n)] for t in range(T)]
    Q, W = [], []

    def add(p, f):
        Q.append(p)
        W.append([[f(v) for v in row] for row in V])
    for name, f in AGG.items():
        add(AggregatedParameter(m, P, agg_func=name), f)
        add(AggregatedParameter(m, P[::-1], agg_func=name.upper()), f)
        # the same input more than once
        add(AggregatedParameter(m, P + P[:1], agg_func=name), lambda v, f=f: f(list(v) + [v[0]]))
    add(AggregatedParameter(m, P, agg_func=spread), spread)
    p = AggregatedParameter(m, P[:1], agg_func="sum")
    for q in P[1:]:
        p.add(q)
    add(p, math.fsum)
    p = AggregatedParameter(m, [ConstantParameter(m, 99.0)] + P, agg_func="min")
    p.remove(p.parameters[0])
    add(p, min)
    require(len(p) == k, "len %r of %d parameters" % (len(p), k), "agg:len")
    got = check(m, Q, W, tr, "inputs %r" % (cfg,), "agg")
    # results of results, in the same step
    for row in V:
        for v in row:
            tr.state(v)
    tr.outcome = float(np.round(np.nansum(got), 6))


AGGI = {"sum": sum, "min": min, "max": max, "product": lambda v: int(prod(v)), "any": lambda v: int(any(v)), "all": lambda v: int(all(v))}


def gen_aggi(tier):
    return [{"k": k, "cs": c} for k in (1, 2, 3) + ((4,) if tier == "thorough" else ()) for c in itertools.product((0, 1), repeat=k)]


def run_aggi(cfg, tr):
    k = cfg["k"]
    n = len(IDX) ** k
    m = base(steps=T, S=[n])
    sc = list(m.scenarios.scenarios)[0]

    def val(j, t, s):
        d = digits(s, len(IDX), k)[j]
        return IDX[d if cfg["cs"][j] else (d + t * (j + 1)) % len(IDX)]
    P = [ConstantScenarioIndexParameter(m, sc, [val(j, 0, s) for s in range(n)]) if cfg["cs"][j]
         else FnIndex(m, lambda t, si, j=j: val(j, t, si[0])) for j in range(k)]
    V = [[[val(j, t, s) for j in range(k)] for s in range(n)] for t in range(T)]
    Q, W = [], []
    for name, f in AGGI.items():
        Q.append(AggregatedIndexParameter(m, P, agg_func=name))
        W.append([[f(v) for v in row] for row in V])
        Q.append(AggregatedIndexParameter(m, P + P[:1], agg_func=name))
        W.append([[f(list(v) + [v[0]]) for v in row] for row in V])
    Q.append(AggregatedIndexParameter(m, P, agg_func=lambda v: v[0] * 10 + len(v)))
    W.append([[v[0] * 10 + k for v in row] for row in V])
    # indices select from an array; numbers and parameters alike
    arr = [ConstantParameter(m, 100.0), Fn(m, lambda t, s: 200.0 + t), 300.0, -400, Fn(m, lambda t, s: s[0] + 0.25), 600.0]
    ref = lambda i, t, s: [100.0, 200.0 + t, 300.0, -400.0, s + 0.25, 600.0][i]
    for j in range(k):
        Q.append(IndexedArrayParameter(m, P[j], arr))
        W.append([[ref(V[t][s][j], t, s) for s in range(n)] for t in range(T)])
    got = check(m, Q, W, tr, "indices %r" % (cfg,), "aggi", idx=True)
    for row in V:
        for v in row:
            tr.state("i", v)
    tr.outcome = float(np.nansum(got))


def gen_unary(tier):
    return [{"kind": k, "th": th} for k in ("fn", "cs", "ts") for th in A] + \
           [{"kind": "=%d" % i, "th": th} for i in range(len(A)) for th in (A if tier == "thorough" else SMALL)]


def run_unary(cfg, tr):
    n = len(A)
    m = base(steps=T, S=[n])
    P, val = inputs(m, A, 1, [cfg["kind"]], tr)
    p = P[0]
    th = cfg["th"]
    V = [[val(0, t, s) for s in range(n)] for t in range(T)]
    Q, W = [], []

    def add(q, f):
        Q.append(q)
        W.append([[f(v) for v in row] for row in V])
    add(NegativeParameter(m, p), lambda v: -v)
    add(MaxParameter(m, p, threshold=th), lambda v: max(v, th))
    add(MinParameter(m, p, threshold=th), lambda v: min(v, th))
    add(NegativeMaxParameter(m, p, threshold=th), lambda v: max(-v, th))
    add(NegativeMinParameter(m, p, threshold=th), lambda v: min(-v, th))
    add(MaxParameter(m, p), lambda v: max(v, 0.0))
    add(MinParameter(m, p), lambda v: min(v, 0.0))
    add(NegativeMaxParameter(m, p), lambda v: max(-v, 0.0))
    add(NegativeMinParameter(m, p), lambda v: min(-v, 0.0))
    add(OffsetParameter(m, p, offset=th), lambda v: v + th)
    add(OffsetParameter(m, p), lambda v: v)
    add(ScaledProfileParameter(m, th, p), lambda v: v * th)
    add(FunctionParameter(m, p, lambda parent, ts, si: ts.index + si.global_id * 0.5), None or (lambda v: 0))
    W[-1] = [[t + 0.5 * s for s in range(n)] for t in range(T)]
    add(ConstantParameter(m, th), lambda v: th)
    add(ConstantParameter(m, th, scale=2.0, offset=-1.0), lambda v: 2 * th - 1)
    add(load_parameter(m, {"type": "constant", "value": th, "scale": 0.5}), lambda v: 0.5 * th)
    add(ArrayIndexedParameter(m, [th, 1.0, 2.0]), None or (lambda v: 0))
    W[-1] = [[[th, 1.0, 2.0][t]] * n for t in range(T)]
    # a chain evaluated in one step
    add(NegativeParameter(m, OffsetParameter(m, MaxParameter(m, p, threshold=th), offset=1.0)), lambda v: -(max(v, th) + 1))
    got = check(m, Q, W, tr, "input %r" % (cfg,), "unary")
    for row in V:
        for v in row:
            tr.state(v, th)
    # changed settings take effect in the next run
    Q[1].threshold = 0.75
    Q[9].offset = 0.75
    W[1] = [[max(v, 0.75) for v in row] for row in V]
    W[9] = [[v + 0.75 for v in row] for row in V]
    for _ in range(2):
        g = m.recorders["grab"]
        m.run()
        tr.run()
        for i in range(len(Q)):
            require_same(g.vals()[:, i], W[i], "rerun of %s" % type(Q[i]).__name__, "unary-rerun:" + type(Q[i]).__name__)
    tr.outcome = float(got.sum())


def gen_div(tier):
    return [{"kinds": k} for k in itertools.product(("fn", "cs", "ts", "=4", "=1"), repeat=2)] + [{"zero": True}]


def run_div(cfg, tr):
    al = [-3.0, -0.5, 1e-9, 0.5, 1.0, 7.25]
    if cfg.get("zero"):
        m = base(steps=1)
        p = DivisionParameter(m, ConstantParameter(m, 1.0), ConstantParameter(m, 0.0))
        g = Grab(m, [p])
        try:
            m.run()
            require(not np.isfinite(g.vals()[0, 0, 0]), "1/0 gave a finite value %r" % g.vals(), "div")
        except ZeroDivisionError:
            pass
        tr.run()
        tr.outcome = "zero"
        return
    n = len(al) ** 2
    m = base(steps=T, S=[n])
    P, val = inputs(m, al, 2, cfg["kinds"], tr)
    V = [[[val(j, t, s) for j in range(2)] for s in range(n)] for t in range(T)]
    Q = [DivisionParameter(m, P[0], P[1]), DivisionParameter(m, P[1], P[0]), DivisionParameter(m, P[1], P[1])]
    W = [[[v[0] / v[1] for v in row] for row in V], [[v[1] / v[0] for v in row] for row in V], [[1.0 for v in row] for row in V]]
    q = DivisionParameter(m, P[1], P[1])
    q.numerator = P[0]
    Q.append(q)
    W.append(W[0])
    got = check(m, Q, W, tr, "inputs %r" % (cfg,), "div")
    for row in V:
        for v in row:
            tr.state("d", v)
    tr.outcome = float(np.round(got.sum(), 6))


XY = [([0, 5, 10, 20], [0, 10, 30, -5]), ([1, 2], [3.0, 1.0]), ([-2, 0, 0.5, 4], [1, 1, 2, 0])]


def lin(xs, ys, v):
    for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if x0 <= v <= x1:
            return y0 + (y1 - y0) * (v - x0) / (x1 - x0)
    return None


def integral(xs, ys, a, b):
    if b < a:
        return -integral(xs, ys, b, a)
    cuts = sorted({a, b} | {x for x in xs if a < x < b})
    return sum((lin(xs, ys, u) + lin(xs, ys, w)) / 2 * (w - u) for u, w in zip(cuts, cuts[1:]))


def grid(xs):
    out = []
    for a, b in zip(xs, xs[1:]):
        out += [a, a + (b - a) * 0.25, a + (b - a) * 0.5]
    return out + [xs[-1]]


def gen_interp(tier):
    return [{"xy": i, "how": h} for i in range(len(XY)) for h in ("linear", "nearest", "previous", "fill", "fillpair", "bounds-low", "bounds-high", "json", "quad", "quadlow")]


def run_interp(cfg, tr):
    xs, ys = XY[cfg["xy"]]
    how = cfg["how"]
    pts = grid(xs)
    out = [xs[0] - 1.5, xs[-1] + 2.0]
    kw = {}
    want = lambda v: lin(xs, ys, v)
    if how in ("nearest", "previous"):
        kw = {"interp_kwargs": {"kind": how}}
        pts = [p for p in pts if how == "previous" or all(abs(p - (a + b) / 2) > 1e-9 for a, b in zip(xs, xs[1:]))]
        if how == "nearest":
            want = lambda v: ys[min(range(len(xs)), key=lambda i: abs(xs[i] - v))]
        else:
            want = lambda v: [y for x, y in zip(xs, ys) if x <= v][-1]
    elif how == "fill":
        kw = {"interp_kwargs": {"bounds_error": False, "fill_value": -9.0}}
        pts += out
        want = lambda v: -9.0 if v in out else lin(xs, ys, v)
    elif how == "fillpair":
        kw = {"interp_kwargs": {"bounds_error": False, "fill_value": [-9.0, 9.0]}}
        pts += out
        want = lambda v: -9.0 if v == out[0] else 9.0 if v == out[1] else lin(xs, ys, v)
    elif how.startswith("bounds"):
        v = out[how == "bounds-high"]
        m = base(steps=1)
        p = InterpolatedParameter(m, ConstantParameter(m, v), xs, ys)
        Grab(m, [p])
        tr.run()
        tr.outcome = (how, cfg["xy"])
        try:
            m.run()
        except ValueError:
            return
        require(False, "value outside the curve accepted: %r" % v, "interp:bounds")
    n = len(pts)
    if how.startswith("quad"):
        m = base(steps=T, S=[n, n])
        up = Fn(m, lambda t, s: pts[(s[0] + t) % n])
        lo = Fn(m, lambda t, s: pts[(s[1] + 2 * t) % n])
        if how == "quad":
            zero = xs[0] <= 0
            if not zero:
                return
            q = InterpolatedQuadratureParameter(m, up, xs, ys)
            f = lambda t, s0, s1: integral(xs, ys, 0.0, pts[(s0 + t) % n])
        else:
            q = InterpolatedQuadratureParameter(m, up, xs, ys, lower_parameter=lo)
            f = lambda t, s0, s1: integral(xs, ys, pts[(s1 + 2 * t) % n], pts[(s0 + t) % n])
        W = [[f(t, a, b) for a in range(n) for b in range(n)] for t in range(T)]
        got = check(m, [q], [W], tr, "quadrature %r" % (cfg,), "quad", tol=1e-6)
    else:
        m = base(steps=T, S=[n])
        u = Fn(m, lambda t, s: pts[(s[0] + t) % n])
        if how == "json":
            u.name = "u"
            m.parameters["u"] = u
            q = load_parameter(m, {"type": "interpolated", "parameter": "u", "x": list(xs), "y": list(ys), "interp_kwargs": {"kind": "linear"}})
        else:
            q = InterpolatedParameter(m, u, xs, ys, **kw)
        W = [[want(pts[(s + t) % n]) for s in range(n)] for t in range(T)]
        got = check(m, [q], [W], tr, "interpolation %r" % (cfg,), "interp")
    for p in pts:
        tr.state(cfg["xy"], how, p)
    tr.outcome = (how, float(np.round(got.sum(), 6)))


def gen_pw(tier):
    xsets = [[1.0], [1.0, 3.0], [0.5, 0.5, 2.0], [2.0, 4.0, 7.0]]
    ysets = [1.0, -2.0, 0.0, 3.5]
    return [{"x": x, "y": y} for x in xsets for y in itertools.product(ysets if tier == "thorough" else ysets[:3], repeat=len(x))]


def run_pw(cfg, tr):
    x, y = cfg["x"], cfg["y"]
    pts = [-2.0, 0.0] + grid([0.0] + sorted(set(x))) + [x[-1] + 5]
    n = len(pts)
    m = base(steps=T, S=[n])
    u = Fn(m, lambda t, s: pts[(s[0] + t) % n])

    def ref(v):
        tot, prev = 0.0, 0.0
        for a, h in zip(x, y):
            tot += max(0.0, min(v, a) - prev) * h
            prev = a
        return tot
    W = [[ref(pts[(s + t) % n]) for s in range(n)] for t in range(T)]
    got = check(m, [PiecewiseIntegralParameter(m, u, x, y)], [W], tr, "integral %r" % (cfg,), "integral")
    for p in pts:
        tr.state("pw", x, y, p)
    tr.outcome = float(got.sum())


def gen_wrap(tier):
    return [{"g": g, "S": S} for S in ([2], [3, 2], [2, 3], [2, 2, 2]) for g in range(len(S))]


def run_wrap(cfg, tr):
    m = base(steps=T, S=cfg["S"])
    g = cfg["g"]
    scs = list(m.scenarios.scenarios)
    size = cfg["S"][g]
    kids = [Fn(m, lambda t, s, j=j: 100.0 * j + 10 * t + sum(x * 3 ** i for i, x in enumerate(s))) for j in range(size)]
    combos = list(itertools.product(*[range(n) for n in cfg["S"]]))
    ref = lambda j, t, c: 100.0 * j + 10 * t + sum(x * 3 ** i for i, x in enumerate(c))
    Q = [ScenarioWrapperParameter(m, scs[g], kids)]
    W = [[[ref(c[g], t, c) for c in combos] for t in range(T)]]
    arr = [[1.0 + 10 * t + j for j in range(size)] for t in range(T + 1)]
    Q.append(ArrayIndexedScenarioParameter(m, scs[g], arr))
    W.append([[arr[t][c[g]] for c in combos] for t in range(T)])
    Q.append(ConstantScenarioParameter(m, scs[g], [5.0 - 2 * j for j in range(size)]))
    W.append([[5.0 - 2 * c[g] for c in combos] for t in range(T)])
    Q.append(ConstantScenarioIndexParameter(m, scs[g], [3 - j for j in range(size)]))
    W.append([[3 - c[g] for c in combos] for t in range(T)])
    Q.append(IndexedArrayParameter(m, Q[3], kids[:1] + [1.0, 2.0, 4.0]))
    W.append([[[ref(0, t, c), 1.0, 2.0, 4.0][3 - c[g]] for c in combos] for t in range(T)])
    got = check(m, Q, W, tr, "scenarios %r" % (cfg,), "wrap", idx=True)
    for c in combos:
        tr.state("w", g, c)
    tr.outcome = float(got.sum())


GROUPS = {"aggregate": (gen_agg, run_agg), "index": (gen_aggi, run_aggi), "unary": (gen_unary, run_unary),
          "divide": (gen_div, run_div), "interp": (gen_interp, run_interp), "integral": (gen_pw, run_pw), "switch": (gen_wrap, run_wrap)}
TECHNIQUE = "exhaustive enumeration of input tuples over small value alphabets, in every form of input (constant, by scenario, by time, computed), run as scenarios of real models and compared with the definitions"
BOUNDS = ("All tuples of 1-2 inputs over 8 values and of 3 (thorough 4) over 4, in all forms of input, 3 timesteps with values moving each step; 9 aggregations and 7 index aggregations; "
          "8 thresholds x 8 values for clipping and offsets; 3 curves x 10 interpolation forms at all knots, quarters and midpoints; piecewise integrals over 4 grids x 3 (thorough 4) heights per band; 4 scenario layouts.")
