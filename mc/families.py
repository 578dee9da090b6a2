"""Finite families of small networks shared by the allocation checks.

A case is a small dict; spec(case) expands it. Stateless families pack many
assignments of node attributes into (step, scenario) cells of one run."""
import itertools

CORE_N = ["a", "b", "l", "m", "y", "z"]
CORE_E = [("a", "l"), ("a", "m"), ("b", "l"), ("b", "m"), ("a", "y"), ("l", "m"),
          ("l", "y"), ("l", "z"), ("m", "y"), ("m", "z")]
CORE_E2 = CORE_E + [("a", "z"), ("b", "z")]
PERMS = []
for p in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (1, 0, 3, 2)):
    q = dict(zip("abyz", [("a", "b", "y", "z")[i] for i in p]))
    q.update(l="l", m="m")
    PERMS.append(q)


def structures(edges, maxe):
    seen = set()
    out = []
    for r in range(1, maxe + 1):
        for es in itertools.combinations(edges, r):
            used = {n for e in es for n in e}
            ok = True
            for n in used:
                if n in "lm":
                    if not any(e[1] == n for e in es) or not any(e[0] == n for e in es):
                        ok = False
                        break
            if not ok or not (used & {"a", "b"}) or not (used & {"y", "z"}):
                continue
            # connected
            comp = {next(iter(used))}
            while True:
                new = {x for e in es if (e[0] in comp) != (e[1] in comp) for x in e} - comp
                if not new:
                    break
                comp |= new
            if comp != used:
                continue
            key = min(tuple(sorted((q[u], q[v]) for u, v in es)) for q in PERMS)
            # links l and m are interchangeable when not chained
            if ("l", "m") not in es:
                sw = {"l": "m", "m": "l"}
                key = min(key, min(tuple(sorted((q[sw.get(u, u)], q[sw.get(v, v)]) for u, v in es)) for q in PERMS))
            if key in seen:
                continue
            seen.add(key)
            out.append([list(e) for e in es])
    return out


BASE = {"a": (0, 3, 1), "b": (0, 2, 2), "l": (0, "inf", 0), "m": (0, "inf", 0.5), "y": (0, 2, -6), "z": (0, 3, -4)}
DEV = {
    "in": [(0, 0, 1), (0, 1, 1), (2, 3, 1), (1, 1, 1), (0, 4, -1), (0, 3, 5)],
    "link": [(0, 1, 0), (0, 0, 0), (1, "inf", 0), (0, "inf", 4), (0, "inf", -3), (1, 2, 7)],
    "out": [(0, 0, -6), (1, 2, 3), (0, 5, -2), (0, 2, 0), (2, 2, 0), (0, 0.5, -9)],
}
KIND = {"a": "in", "b": "in", "l": "link", "m": "link", "y": "out", "z": "out"}
NODEK = {"a": "input", "b": "input", "l": "link", "m": "link", "y": "output", "z": "output"}


def assignments(nodes, k):
    """All assignments with at most k nodes deviating from the base."""
    out = []
    for r in range(k + 1):
        for ns in itertools.combinations(nodes, r):
            for ds in itertools.product(*[DEV[KIND[n]] for n in ns]):
                a = {n: BASE[n] for n in nodes}
                a.update(dict(zip(ns, ds)))
                out.append(a)
    return out


def core_spec_static(edges, a):
    return {"T": 1, "nodes": {n: {"k": NODEK[n], "min": v[0], "max": v[1], "cost": v[2]} for n, v in a.items()},
            "edges": edges}


def core_spec_table(edges, asg, T):
    nodes = sorted({n for e in edges for n in e})
    S = len(asg) // T
    sp = {"T": T, "S": [S], "nodes": {}, "edges": edges}
    for n in nodes:
        d = {"k": NODEK[n]}
        for i, key in enumerate(("min", "max", "cost")):
            d[key] = {"ts": [[asg[s * T + t][n][i] for t in range(T)] for s in range(S)], "g": 0}
        sp["nodes"][n] = d
    return sp


# ---------------------------------------------------------------- storage

def storage_cases(tier):
    out = []
    deltas = [1, 7, "M"] if tier == "thorough" else [1, 7]
    T = 4 if tier == "thorough" else 3
    for delta in deltas:
        for scost in (-2, 0, 3, -20):
            for variant in ("plain", "minvol", "varmax", "varmin", "pc", "tiny"):
                for topo in ("spill", "supply", "series", "parallel", "slots"):
                    if tier != "thorough" and delta != 1 and variant in ("pc", "varmin", "tiny"):
                        continue
                    out.append({"delta": delta, "scost": scost, "variant": variant, "topo": topo, "T": T})
    return out


def storage_spec(c):
    d, T = c["delta"], c["T"]
    k = d if isinstance(d, int) else 30
    st = {"k": "storage", "maxv": 5 * k, "minv": 0, "init": 3 * k, "cost": c["scost"]}
    v = c["variant"]
    if v == "minvol":
        st.update(minv=2 * k)
    elif v == "varmax":
        st.update(maxv={"t": [5 * k, 3 * k, 6 * k, 4 * k]}, init_pc=0.6)
    elif v == "varmin":
        st.update(minv={"t": [0, 4 * k, 1 * k, 2 * k]})
    elif v == "pc":
        st.update(maxv={"c": 5 * k})
    elif v == "tiny":
        st.update(maxv=2.5, init=1.25)
    inflow = {"h": [0, 1, 4], "g": 0}
    dem = {"h": [0, 2], "g": 1}
    sp = {"delta": d, "T": T, "start": "2015-01-31" if d != "M" else "2015-01-01", "S": [3 ** T, 2 ** T], "nodes": {}, "edges": []}
    N, E = sp["nodes"], sp["edges"]
    N["dem"] = {"k": "output", "max": dem, "cost": -10}
    N["lnk"] = {"k": "link"}
    if c["topo"] == "spill":
        N["inf"] = {"k": "input", "min": inflow, "max": inflow}
        N["res"] = st
        N["spill"] = {"k": "output", "cost": 1}
        E += [["inf", "res"], ["res", "lnk"], ["lnk", "dem"], ["res", "spill"]]
    elif c["topo"] == "supply":
        N["inf"] = {"k": "input", "max": inflow, "cost": 1}
        N["gw"] = {"k": "input", "max": 1, "cost": 6}
        N["res"] = st
        E += [["inf", "res"], ["res", "lnk"], ["lnk", "dem"], ["gw", "lnk"]]
    elif c["topo"] == "series":
        N["inf"] = {"k": "input", "min": inflow, "max": inflow}
        N["res"] = st
        N["tr"] = {"k": "link", "max": 2, "cost": 0.25}
        N["res2"] = {"k": "storage", "maxv": 2 * k, "minv": 0, "init": k, "cost": -1}
        N["spill"] = {"k": "output", "cost": 1}
        E += [["inf", "res"], ["res", "tr"], ["tr", "res2"], ["res2", "lnk"], ["lnk", "dem"], ["res", "spill"]]
    elif c["topo"] == "parallel":
        N["inf"] = {"k": "input", "max": inflow}
        N["res"] = st
        N["inf2"] = {"k": "input", "max": 1}
        N["res2"] = {"k": "storage", "maxv": 4 * k, "minv": 1 * k, "init": 4 * k, "cost": -2.5}
        E += [["inf", "res"], ["inf2", "res2"], ["res", "lnk"], ["res2", "lnk"], ["lnk", "dem"]]
    elif c["topo"] == "slots":
        st.update(ni=2, no=2)
        N["inf"] = {"k": "input", "max": inflow}
        N["inf2"] = {"k": "input", "max": 1, "cost": 0.5}
        N["res"] = st
        N["dem2"] = {"k": "output", "max": 1.5, "cost": -8}
        E += [["inf", "res", None, 0], ["inf2", "res", None, 1], ["res", "lnk", 0, None], ["res", "dem2", 1, None], ["lnk", "dem"]]
    return sp


# ---------------------------------------------------------------- aggregated nodes

def agg_cases(tier):
    out = []
    fs = [[1, 1], [1, 2], [3, 1], [0.5, 2], [1, 3]]
    for topo in ("inputs", "outputs", "links", "inlink", "three", "cross"):
        for f in fs:
            for kind in ("static", "const", "param", "last"):
                out.append({"topo": topo, "agg": "factors", "f": f, "kind": kind})
        for w in (None, [1, 1], [1, 2], [2, 0.5], [1, -1]):
            for lim in ((0, 2), (0, 3.5), (1, 4), (2, 2), (0.5, 1)):
                for kind in ("static", "param"):
                    if w == [1, -1] and lim[0] > 0:
                        continue
                    out.append({"topo": topo, "agg": "limits", "w": w, "lim": lim, "kind": kind})
        for f in ([1, 2], [2, 1]):
            out.append({"topo": topo, "agg": "both", "f": f, "w": [1, 1], "lim": (0, 2), "kind": "static"})
            out.append({"topo": topo, "agg": "both", "f": f, "w": [1, 2], "lim": (0.25, 2), "kind": "param"})
    return out


def agg_spec(c):
    sp = {"T": 3, "S": [8, 4], "nodes": {}, "edges": []}
    N, E = sp["nodes"], sp["edges"]
    hx = {"h": [1, 4], "g": 0}
    hy = {"s": [-5, -1, 0, -9], "g": 1}
    N["a"] = {"k": "input", "max": hx, "cost": 1}
    N["b"] = {"k": "input", "max": 3, "cost": 2}
    N["e"] = {"k": "input", "max": 9, "cost": 40}
    N["l"] = {"k": "link"}
    N["m"] = {"k": "link", "cost": 0.5}
    N["y"] = {"k": "output", "max": 4, "cost": hy}
    N["z"] = {"k": "output", "max": {"h": [2, 3], "g": 0}, "cost": -3}
    N["x"] = {"k": "output", "cost": 50}
    E += [["a", "l"], ["b", "m"], ["l", "y"], ["m", "z"], ["l", "m"], ["e", "l"], ["e", "m"], ["m", "x"], ["l", "x"]]
    t = c["topo"]
    mem = {"inputs": ["a", "b"], "outputs": ["y", "z"], "links": ["l", "m"], "inlink": ["a", "l"],
           "three": ["a", "b", "e" if "f" in c else "z"], "cross": ["b", "y"]}[t]
    a = {"nodes": mem}
    n = len(mem)

    def ext(x, fill):
        return list(x) + [fill] * (n - len(x))
    if c["agg"] in ("factors", "both"):
        f = ext(c["f"], 2)
        if t in ("links", "inlink"):
            # members that share a route cannot carry a ratio
            a["nodes"] = mem = ["a", "m"] if t == "links" else ["b", "l"]
            if t == "links":
                E.remove(["l", "m"])
            else:
                E.remove(["b", "m"]); E.append(["b", "z"])
        if c["kind"] == "const":
            f = [{"c": x} for x in f]
        elif c["kind"] == "param":
            f = [{"t": [x, 2 * x, x + 1]} if i else x for i, x in enumerate(f)]
        elif c["kind"] == "last":
            f = [{"c": x} if i < n - 1 else {"t": [x, 2 * x, x + 1]} for i, x in enumerate(f)]
        a["factors"] = f
    if c["agg"] in ("limits", "both"):
        if c["w"] is not None:
            a["weights"] = ext(c["w"], 1)
        lo, hi = c["lim"]
        if c["kind"] == "param":
            a["min"] = {"t": [lo, 0, lo]}
            a["max"] = {"t": [hi, hi + 1, hi]}
        else:
            a["min"], a["max"] = lo, hi
    sp["agg"] = {"agg": a}
    return sp


# ---------------------------------------------------------------- virtual storage

def vs_cases(tier):
    out = []
    for nodes, factors in ((["a"], None), (["a"], [2]), (["l"], [0.5]), (["y"], [1]), (["a", "b"], [1, 2]),
                           (["a", "l"], [1, 1]), (["a", "l", "y"], [1, 1, 1]), (["b", "y"], [1, 0.5]), (["a", "b"], [1, -1])):
        for mx, mn, init in ((6, 0, 6), (6, 2, 5), (3, 0, 1), (10, 1, 1)):
            for kind in ("static", "param", "two"):
                for delta in ((1, 7, "M") if tier == "thorough" else (1, 7)):
                    out.append({"nodes": nodes, "factors": factors, "mx": mx, "mn": mn, "init": init, "kind": kind, "delta": delta})
    return out


def vs_spec(c):
    d = c["delta"]
    k = d if isinstance(d, int) else 30
    T = 4
    sp = {"T": T, "delta": d, "S": [16, 4], "nodes": {}, "edges": [], "start": "2015-01-01"}
    N, E = sp["nodes"], sp["edges"]
    N["a"] = {"k": "input", "max": 3, "cost": 1}
    N["b"] = {"k": "input", "max": {"h": [1, 3], "g": 0}, "cost": {"s": [0, 2, 0.5, 9], "g": 1}}
    N["l"] = {"k": "link"}
    N["y"] = {"k": "output", "max": {"h": [4, 2], "g": 0}, "cost": -5}
    N["x"] = {"k": "output", "max": 1, "cost": -2}
    E += [["a", "l"], ["b", "l"], ["l", "y"], ["b", "x"], ["a", "x"]]
    v = {"nodes": c["nodes"], "max": c["mx"] * k, "min": c["mn"] * k, "init": c["init"] * k}
    if c["factors"]:
        v["factors"] = c["factors"]
    if c["kind"] == "param":
        v["max"] = {"t": [c["mx"] * k, (c["mx"] - 0.5) * k, (c["mx"] + 2) * k]}
        v["init_pc"] = c["init"] / c["mx"]
        v["min"] = {"t": [c["mn"] * k, c["mn"] * k, (c["mn"] + 0.5) * k]}
    sp["vs"] = {"lic": v}
    if c["kind"] == "two":
        sp["vs"]["lic2"] = {"nodes": ["a", "y"], "factors": [0.5, 1], "max": 7 * k, "init": 7 * k}
    if c["factors"] and min(c["factors"]) < 0:
        pass
    return sp


# ---------------------------------------------------------------- several domains, bands

def cross_cases(tier):
    out = []
    for conv in (1.0, 0.5, 2.0):
        for conv2 in (1.0, 4.0):
            for two in (False, True):
                for mn in (0, 0.5):
                    out.append({"conv": conv, "conv2": conv2, "two": two, "mn": mn})
    return out


def cross_spec(c):
    sp = {"T": 3, "S": [8, 4], "nodes": {}, "edges": []}
    N, E = sp["nodes"], sp["edges"]
    N["r"] = {"k": "input", "max": {"h": [1, 4], "g": 0}, "cost": 0.5}
    N["rl"] = {"k": "link"}
    N["sea"] = {"k": "output", "cost": 0}
    N["abs"] = {"k": "output", "max": {"s": [0.5, 2, "inf", 3], "g": 1}, "cost": 0.25}
    N["src"] = {"k": "input", "domain": "supply", "conv": c["conv"], "max": 3, "cost": 1}
    N["sl"] = {"k": "link", "domain": "supply"}
    N["dem"] = {"k": "output", "domain": "supply", "max": {"h": [2, 5], "g": 0}, "cost": -20}
    N["alt"] = {"k": "input", "domain": "supply", "max": 1, "cost": {"s": [0, 2, 30, 5], "g": 1}}
    if c["mn"]:
        N["dem"]["min"] = c["mn"]
    E += [["r", "rl"], ["rl", "sea"], ["rl", "abs"], ["abs", "src"], ["src", "sl"], ["sl", "dem"], ["alt", "sl"]]
    if c["two"]:
        N["src2"] = {"k": "input", "domain": "supply", "conv": c["conv2"], "max": 2, "cost": 2}
        N["dem2"] = {"k": "output", "domain": "supply", "max": 1, "cost": -15}
        E += [["abs", "src2"], ["src2", "dem2"], ["src2", "sl"]]
    return sp


def piece_cases(tier):
    out = []
    for costs in ([-5, 0], [-5, 1, 3], [2], [-9, -4, -20], [0, 0]):
        for vary in (False, True):
            for last in ("inf", 2):
                out.append({"costs": costs, "vary": vary, "last": last})
    return out


def piece_spec(c):
    n = len(c["costs"])
    maxs = [1.0, 0.5, 2.0][:n - 1] + [c["last"]]
    if c["vary"]:
        maxs[0] = {"h": [0, 1, 2.5], "g": 0} if n > 1 else maxs[0]
        costs = [{"t": [x, x, -x]} for x in c["costs"]]
    else:
        costs = c["costs"]
    sp = {"T": 3, "S": [27, 4], "nodes": {}, "edges": []}
    N, E = sp["nodes"], sp["edges"]
    N["inf"] = {"k": "input", "max": {"h": [0.5, 2, 4], "g": 0}}
    N["pw"] = {"k": "piecewise", "maxs": maxs, "costs": costs}
    N["ab"] = {"k": "output", "max": 3, "cost": {"s": [-1, -4.5, -7, 2], "g": 1}}
    N["end"] = {"k": "output", "cost": 0.5}
    E += [["inf", "pw"], ["inf", "ab"], ["pw", "end"]]
    return sp


def mixed_cases(tier):
    out = []
    for scost in (-3, 0, 2):
        for f in ([1, 1], [2, 1]):
            for vinit in (2, 9):
                for delta in (1, 7):
                    out.append({"scost": scost, "f": f, "vinit": vinit, "delta": delta})
    return out


def mixed_spec(c):
    k = c["delta"]
    T = 4
    sp = {"T": T, "delta": k, "S": [2 ** T, 2 ** T], "nodes": {}, "edges": []}
    N, E = sp["nodes"], sp["edges"]
    inflow = {"h": [0.5, 3], "g": 0}
    N["inf"] = {"k": "input", "min": inflow, "max": inflow}
    N["r0"] = {"k": "link"}
    N["res"] = {"k": "storage", "maxv": 6 * k, "minv": 1 * k, "init": 2 * k, "cost": c["scost"]}
    N["spill"] = {"k": "output", "cost": 2}
    N["pw"] = {"k": "piecewise", "maxs": [0.5, "inf"], "costs": [-8, 0.1]}
    N["sea"] = {"k": "output"}
    N["gw"] = {"k": "input", "max": 2, "cost": 3}
    N["l"] = {"k": "link", "max": 2.5}
    N["d1"] = {"k": "output", "max": {"h": [1, 3], "g": 1}, "cost": -10}
    N["d2"] = {"k": "output", "max": 1, "cost": {"t": [-5, -12]}}
    E += [["inf", "r0"], ["r0", "res"], ["r0", "pw"], ["pw", "sea"], ["res", "spill"], ["res", "l"], ["gw", "l"],
          ["l", "d1"], ["l", "d2"], ["gw", "d2"]]
    sp["agg"] = {"share": {"nodes": ["d1", "d2"], "factors": c["f"]} if c["f"] != [1, 1]
                 else {"nodes": ["gw", "d2"], "weights": [1, 1], "max": 2.5, "min": 0}}
    sp["vs"] = {"lic": {"nodes": ["gw", "l"], "factors": [1, 0.25], "max": 9 * k, "init": c["vinit"] * k}}
    return sp


# ---------------------------------------------------------------- how each value is given

def kinds_cases(tier):
    out = []
    K = ("num", "const", "vary")
    for focus in ("a", "l", "y", "res"):
        for k in itertools.product(K, repeat=3):
            out.append({"focus": focus, "k": list(k), "delta": 1})
    for k in itertools.product(("none",) + K, repeat=3):
        if k == ("none",) * 3:
            continue
        out.append({"focus": "agg", "k": list(k), "delta": 1})
    for k in itertools.product(K, repeat=3):
        out.append({"focus": "vs", "k": list(k), "delta": 1})
    return out


def kinds_spec(c):
    sp = {"T": 4, "S": [16], "nodes": {}, "edges": [], "agg": {}, "vs": {}}
    N, E = sp["nodes"], sp["edges"]
    N["a"] = {"k": "input", "max": 6, "cost": 1}
    N["b"] = {"k": "input", "max": {"h": [1, 4], "g": 0}, "cost": 3}
    N["l"] = {"k": "link"}
    N["y"] = {"k": "output", "max": 3, "cost": -5}
    N["x"] = {"k": "output", "cost": 9, "max": 20}
    N["res"] = {"k": "storage", "maxv": 8, "init": 4, "cost": -2}
    N["gw"] = {"k": "input", "max": 20, "cost": 11}
    E += [["a", "l"], ["b", "l"], ["l", "y"], ["l", "x"], ["a", "res"], ["res", "y"], ["gw", "l"], ["gw", "res"]]

    def v(kind, num, vary):
        return num if kind == "num" else {"c": num} if kind == "const" else {"t": vary}
    f, k = c["focus"], c["k"]
    if f in "aly":
        n = N[f]
        n["min"] = v(k[0], 0.5, [0.5, 1.5, 0, 0.25])
        n["max"] = v(k[1], 2, [2, 1.5, 4, 0.5])
        n["cost"] = v(k[2], 1.5 if f != "y" else -6, [2, -4, 5, -9])
    elif f == "res":
        n = N["res"]
        n["minv"] = v(k[0], 1, [1, 3, 0, 5])
        n["maxv"] = v(k[1], 8, [8, 6, 10, 7])
        n["cost"] = v(k[2], -2, [-2, 2, -7, 0])
        if k[1] == "vary":
            n["init_pc"] = 0.5
    elif f == "agg":
        g = {"nodes": ["a", "b"]}
        if k[0] != "none":
            g["factors"] = [2, v(k[0], 1, [1, 4, 2, 0.5])]
        if k[1] != "none":
            g["min"] = v(k[1], 0.5, [0.5, 1, 0, 0.25])
        if k[2] != "none":
            g["max"] = v(k[2], 3, [3, 1.5, 2, 9])
        sp["agg"]["agg"] = g
    else:
        g = {"nodes": ["a", "y"], "factors": [1, 0.5], "init": 12}
        g["min"] = v(k[0], 2, [0, 2, 1, 6])
        g["max"] = v(k[1], 12, [12, 9, 15, 3])
        g["cost"] = v(k[2], 0, [0, 0, 0, 0])
        if k[1] == "vary":
            g["init_pc"] = 1.0
        sp["vs"]["lic"] = g
    return sp


# ---------------------------------------------------------------- other units

UNITS = ((1e-3, 1.0), (1e4, 1.0), (1e6, 1e-2), (1.0, 1e-5), (1.0, 1e4))


def unit_cases(tier):
    pick = {"storage": lambda c: c["delta"] == 1 and c["variant"] in ("plain", "varmax") and c["scost"] in ((-2, 3) if c["topo"] in ("spill", "series") else (-2,)),
            "aggregated": lambda c: c["kind"] == "param" and (c["agg"] == "both" or c.get("f") == [1, 2] or c.get("w") == [1, 2] and c["lim"] == (1, 4)),
            "licence": lambda c: c["delta"] == 1 and c["mx"] == 6 and c["mn"] == 2, "domains": lambda c: c["two"] and c["conv2"] == 4.0,
            "bands": lambda c: c["last"] == 2, "mixed": lambda c: c["delta"] == 1}
    if tier == "thorough":
        pick = {k: lambda c: c.get("delta", 1) == 1 for k in pick}
    out = []
    for fam, want in pick.items():
        for c in FAMILIES[fam][0]("quick"):
            if want(c):
                for u in UNITS:
                    out.append({"fam": fam, "case": c, "unit": list(u)})
    return out


def unit_spec(c):
    return FAMILIES[c["fam"]][1](c["case"])


FAMILIES = {
    "storage": (storage_cases, storage_spec),
    "aggregated": (agg_cases, agg_spec),
    "licence": (vs_cases, vs_spec),
    "domains": (cross_cases, cross_spec),
    "bands": (piece_cases, piece_spec),
    "mixed": (mixed_cases, mixed_spec),
    "kinds": (kinds_cases, kinds_spec),
    "units": (unit_cases, unit_spec),
}


def lpsolve_ok(spec):
    for a in spec.get("agg", {}).values():
        for f in a.get("factors", []):
            if isinstance(f, dict) and "c" not in f:
                return False
        for k in ("min", "max"):
            if isinstance(a.get(k), dict):
                return False
    return True


# ---------------------------------------------------------------- histories that become infeasible

def infeasible_cases(tier):
    out = []
    T = 3
    kinds = ["full", "empty", "licence", "agg", "bounds", "second", "split", "cap", "ratio"]
    for kind in kinds:
        for h in itertools.product([0, 2], repeat=T):
            for d in itertools.product([0, 1], repeat=T) if kind in ("full", "empty", "licence") else [(0, 1, 0)]:
                out.append({"kind": kind, "h": list(h), "d": list(d)})
    return out


def infeasible_spec(c):
    k, h, d = c["kind"], c["h"], c["d"]
    sp = {"T": len(h), "nodes": {}, "edges": []}
    N, E = sp["nodes"], sp["edges"]
    H, D = {"t": h}, {"t": d}
    if k == "full":     # forced inflow, nowhere to spill
        N["inf"] = {"k": "input", "min": H, "max": H}
        N["res"] = {"k": "storage", "maxv": 4, "init": 1, "cost": -1}
        N["dem"] = {"k": "output", "max": D, "cost": -3}
        E += [["inf", "res"], ["res", "dem"]]
    elif k == "empty":  # forced demand
        N["inf"] = {"k": "input", "max": D}
        N["res"] = {"k": "storage", "maxv": 5, "minv": 1, "init": 3, "cost": 0.5}
        N["dem"] = {"k": "output", "min": H, "cost": -3, "max": 2}
        E += [["inf", "res"], ["res", "dem"]]
    elif k == "licence":
        N["a"] = {"k": "input", "min": D, "max": 3, "cost": 1}
        N["dem"] = {"k": "output", "min": H, "max": 4, "cost": -3}
        N["b"] = {"k": "input", "max": 0.5, "cost": 2}
        E += [["a", "dem"], ["b", "dem"]]
        sp["vs"] = {"lic": {"nodes": ["a"], "factors": [1], "max": 4, "min": 0, "init": 4}}
    elif k == "agg":
        N["a"] = {"k": "input", "max": H}
        N["b"] = {"k": "input", "max": 1}
        N["dem"] = {"k": "output", "max": 5, "cost": -1}
        E += [["a", "dem"], ["b", "dem"]]
        sp["agg"] = {"g": {"nodes": ["a", "b"], "weights": [1, 2], "min": 2.5}}
    elif k == "bounds":
        N["a"] = {"k": "input", "min": 1, "max": H}
        N["dem"] = {"k": "output", "max": 5, "cost": -1}
        E += [["a", "dem"]]
    elif k == "second":  # only the second scenario breaks
        N["a"] = {"k": "input", "max": {"ts": [[3] * len(h), list(h)], "g": 0}}
        N["dem"] = {"k": "output", "max": 5, "min": 1, "cost": -1}
        E += [["a", "dem"]]
        sp["S"] = [2]
    elif k == "split":
        N["a"] = {"k": "input", "min": H, "max": 3}
        N["l"] = {"k": "link", "max": 1}
        N["y"] = {"k": "output", "cost": 1}
        N["z"] = {"k": "output", "max": {"t": [0, 1, 0.5]}}
        E += [["a", "l"], ["l", "y"], ["a", "z"]]
    elif k == "cap":
        N["a"] = {"k": "input"}
        N["l"] = {"k": "link", "max": H}
        N["m"] = {"k": "link", "min": {"t": [0, 1, 2]}, "max": 3}
        N["y"] = {"k": "output", "cost": -1, "max": 9}
        E += [["a", "l"], ["l", "m"], ["m", "y"]]
    elif k == "ratio":
        N["a"] = {"k": "input", "max": H}
        N["b"] = {"k": "input", "max": 4}
        N["dem"] = {"k": "output", "max": 5, "min": 2, "cost": -1}
        E += [["a", "dem"], ["b", "dem"]]
        sp["agg"] = {"g": {"nodes": ["a", "b"], "factors": [1, 1]}}
    return sp
