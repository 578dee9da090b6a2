"""P24: editing a network keeps it consistent."""
import itertools
from collections import deque

import numpy as np

from pywr import nodes as N
from pywr.core import Model
from pywr.recorders import Recorder
from mc.harness import require

TECHNIQUE = ("explicit-state breadth-first exploration of the edits of a network (add, connect, disconnect, rename, remove, run; valid and to be refused), every transition replayed on the real model; "
             "lookups, iteration, connections and simulation are compared with a network built directly in the final form")
BOUNDS = ("11 kinds of node edited within a base network of 4 nodes; all histories of up to 3 edits out of about 30, and every edit from every abstract state reachable in 4 (thorough: 5) edits; 3 solvers, up to 2 runs in between")

INF = float("inf")
SOLVERS = ("glpk", "lpsolve", "glpk-edge")
COST = {"in": 0.53, "lnk": 0.31, "out": -9.7, "o2": -7.3, "x": 0.17, "y": 0.71, "z": 0.23}


# ---------------------------------------------------------------- the real nodes
def storage(m, name, c, **kw):
    return N.Storage(m, name, max_volume=9.0, initial_volume=4.0, cost=-1.13 - COST[c], **kw)


# kind -> constructor, slots out of it, slots in to it (None: not connectable)
KINDS = {
    "link": (lambda m, n, c, **k: N.Link(m, n, max_flow=3.0, cost=COST[c], **k), [None], [None]),
    "input": (lambda m, n, c, **k: N.Input(m, n, max_flow=2.0, cost=COST[c], **k), [None], [None]),
    "output": (lambda m, n, c, **k: N.Output(m, n, max_flow=2.5, cost=-4.0 - COST[c], **k), [None], [None]),
    "catchment": (lambda m, n, c, **k: N.Catchment(m, n, flow=1.5, **k), [None], [None]),
    "storage": (storage, [None], [None]),
    "storage2": (lambda m, n, c, **k: storage(m, n, c, inputs=2, outputs=2, **k), [0, 1], [0, 1]),
    "piecewise": (lambda m, n, c, **k: N.PiecewiseLink(m, 2, name=n, costs=[-0.57, 0.19], max_flows=[1.0, 2.0], **k), [None], [None]),
    "split": (lambda m, n, c, **k: N.MultiSplitLink(m, 1, name=n, extra_slots=1, slot_names=["a", "b"], factors=[3.0, 1.0], costs=[0.19], **k), ["a", "b"], [None]),
    "break": (lambda m, n, c, **k: N.BreakLink(m, n, max_flow=3.0, cost=COST[c], **k), [None], [None]),
    "delay": (lambda m, n, c, **k: N.DelayNode(m, n, timesteps=1, initial_flow=0.5, **k), [None], [None]),
    "loss": (lambda m, n, c, **k: N.LossLink(m, n, loss_factor=0.25, max_flow=3.0, cost=COST[c], **k), [None], [None]),
}


def objects(n):
    """role -> object, of a node and its sub-nodes"""
    out = {"": n}
    for a in ("input", "output", "sub_output", "storage", "link", "gross", "net", "agg"):
        o = getattr(n, a, None)
        if o is not None and hasattr(o, "fully_qualified_name"):
            out[a] = o
    for a in ("inputs", "outputs", "sublinks", "_extra_inputs", "_extra_outputs"):
        v = getattr(n, a, None)
        if isinstance(v, list):
            for i, o in enumerate(v):
                out["%s%d" % (a, i)] = o
    if "storage" in out:
        out["storage.input"] = out["storage"].inputs[0]
        out["storage.output"] = out["storage"].outputs[0]
    return out


class Eye(Recorder):
    """the flows and volumes of all the nodes, at the end of every step"""

    def reset(self):
        self.rows = []

    def after(self):
        row = {}
        for n in self.model.nodes.values():
            row[n.name] = np.round(np.array(n.volume if isinstance(n, N.Storage) else n.flow, dtype=float), 6) + 0.0
        self.rows.append(row)


def fresh(solver):
    m = Model(solver=solver, start="2015-01-01", end="2015-01-04", timestep=1)
    m._eye = Eye(m, name="eye")
    return m


BASE = ([("in", "in"), ("lnk", "lnk"), ("out", "out"), ("o2", "o2")], [("in", None, "lnk", None), ("lnk", None, "out", None), ("lnk", None, "o2", None)])
BASEKINDS = {"in": lambda m, n: N.Input(m, n, max_flow=7.0, cost=COST["in"]), "lnk": lambda m, n: N.Link(m, n, max_flow=6.0, cost=COST["lnk"]),
             "out": lambda m, n: N.Output(m, n, max_flow=4.0, cost=COST["out"]), "o2": lambda m, n: N.Output(m, n, max_flow=1.0, cost=COST["o2"])}


class World:
    """the real model with the nodes of the abstract state; identity -> node"""

    def __init__(self, solver):
        self.m = fresh(solver)
        self.nodes = {}

    def create(self, ident, kind, name, orig):
        """node of a kind (with the cost of the name it was first given)"""
        self.nodes[ident] = BASEKINDS[kind](self.m, name) if kind in BASEKINDS else KINDS[kind][0](self.m, name, orig)
        return self.nodes[ident]


# the abstract state: (nodes: tuple of (identity, kind, original name, name), edges: frozenset of (identity, slot, identity, slot), flags)
def start():
    nodes = tuple((n, n, n, n) for n, _ in BASE[0])
    return nodes, frozenset(BASE[1]), 0


def direct(state, solver):
    """the same network, built directly"""
    nodes, edges, _ = state
    w = World(solver)
    for ident, kind, orig, name in sorted(nodes, key=lambda n: n[3]):
        w.create(ident, kind, name, orig)
    for a, s, b, t in sorted(edges, key=repr):
        w.nodes[a].connect(w.nodes[b], from_slot=s, to_slot=t)
    return w


def shape(w):
    """names, and connections by (identity, role)"""
    role = {}
    for ident, n in w.nodes.items():
        for r, o in objects(n).items():
            role[o] = (ident, r)
    def which(o):
        return role[o] if o in role else ("of", role.get(o.parent, "nothing"), type(o).__name__)
    return {which(o) for o in w.m.graph.nodes()}, {(which(a), which(b)) for a, b in w.m.graph.edges()}


def consistent(w, state, what):
    nodes, edges, _ = state
    m = w.m
    names = sorted(n[3] for n in nodes)
    got = [n.name for n in m.nodes]
    require(len(got) == len(set(got)), "%s: names are repeated: %r" % (what, got), "names")
    require(sorted(got) == names, "%s: the nodes are %r instead of %r" % (what, sorted(got), names), "iteration")
    require(sorted(m.nodes.keys()) == names and sorted(n.name for n in m.nodes.values()) == names and sorted(k for k, _ in m.nodes.items()) == names and len(m.nodes) == len(names),
            "%s: keys, values, items and length of nodes differ" % what, "iteration")
    for k, v in m.nodes.items():
        require(v.name == k, "%s: items() gives %r for %r" % (what, v, k), "iteration")
    for ident, kind, orig, name in nodes:
        require(m.nodes[name] is w.nodes[ident] and name in m.nodes and w.nodes[ident] in m.nodes and w.nodes[ident].name == name, "%s: lookup of %r gives %r" % (what, name, m.nodes[name]), "lookup")
    for name in {"in", "lnk", "out", "o2", "x", "y", "z"} - set(names):
        require(name not in m.nodes, "%s: %r is still in nodes" % (what, name), "lookup:gone")
        try:
            got = m.nodes[name]
        except KeyError:
            pass
        else:
            require(False, "%s: lookup of %r gives %r" % (what, name, got), "lookup:gone")


def simulate(w):
    try:
        w.m.run()
    except Exception as e:
        # (which refusal it is depends on the order of the nodes)
        return "refused", None
    return "ran", w.m._eye.rows


CACHE = {}


def compare(w, state, solver, what):
    consistent(w, state, what)
    key = (state[0], state[1], solver)
    if key not in CACHE:
        if len(CACHE) > 3000:
            CACHE.clear()
        d = direct(state, solver)
        CACHE[key] = shape(d), simulate(d)
    dshape, dsim = CACHE[key]
    got = shape(w)
    require(got[0] == dshape[0], "%s: the nodes and sub-nodes differ from those of a network built directly: %r" % (what, sorted(map(str, got[0] ^ dshape[0]))), "subnodes")
    require(got[1] == dshape[1], "%s: the connections differ from those of a network built directly: %r" % (what, sorted(map(str, got[1] ^ dshape[1]))), "edges")
    sim = simulate(w)
    require(sim[0] == dsim[0], "%s on %s: the model %s, but built directly it %s" % (what, solver, sim[0], dsim[0]), "simulation:" + solver)
    if sim[0] == "ran":
        require(len(sim[1]) == len(dsim[1]), "%s on %s: %d steps instead of %d" % (what, solver, len(sim[1]), len(dsim[1])), "simulation:" + solver)
        for t, (a, b) in enumerate(zip(sim[1], dsim[1])):
            require(a.keys() == b.keys() and all(np.allclose(a[k], b[k], atol=1e-5) for k in a),
                    "%s on %s: step %d gives %s, but built directly %s" % (what, solver, t, {k: v.tolist() for k, v in a.items() if k not in b or not np.allclose(v, b[k], atol=1e-5)},
                                                                        {k: v.tolist() for k, v in b.items() if k not in a or not np.allclose(v, a[k], atol=1e-5)}), "simulation:" + solver)
    return sim[0]


# ---------------------------------------------------------------- edits
def slots(kind, out):
    return (KINDS[kind][1] if out else KINDS[kind][2]) if kind in KINDS else [None]


def alphabet(kind):
    """the edits: tuples"""
    so, si = slots(kind, True), slots(kind, False)
    ops = []
    for n in ("x", "y"):
        ops.append(("add", kind, n))
    ops += [("add", kind, "lnk"), ("bad", kind, "x"), ("bad", kind, "z")]
    for s in si:
        ops += [("con", "in", None, "x", s), ("con", "lnk", None, "x", s), ("con", "y", so[0], "x", s)]
    for s in so:
        ops += [("con", "x", s, "out", None), ("con", "x", s, "o2", None)]
    ops += [("con", "lnk", None, "y", si[-1]), ("con", "y", so[-1], "out", None), ("con", "x", "nope", "out", None), ("con", "in", "nope", "x", si[0]), ("foreign", "lnk")]
    ops += [("dis", "in", "x"), ("dis", "lnk", "x"), ("dis", "lnk", "out"), ("dis", "x", "out"), ("dis", "x", None), ("dis", "lnk", None), ("dis", "y", "x"), ("dis", "x", "lnk")]
    for s in si:
        if s is not None:
            ops.append(("disslot", "in", "x", s))
    ops += [("ren", "x", "z"), ("ren", "x", "lnk"), ("ren", "lnk", "x"), ("ren", "z", "x"), ("del", "x"), ("del", "lnk"), ("del", "o2"), ("del", "nothing"), ("delobj", "x"), ("run",)]
    return ops


def apply(state, op, kind):
    """abstract effect: (new state, refused?) or None if the edit refers to a node that is not there"""
    nodes, edges, flags = state
    by = {n[3]: n for n in nodes}
    k = {n[0]: n[1] for n in nodes}
    if op[0] == "add":
        if op[2] in by:
            return state, True
        used = {n[0] for n in nodes}
        ident = next(i for i in ("x", "y", "z", "x'", "y'", "z'") if i not in used)
        orig = op[2]
        return (nodes + ((ident, op[1], orig, op[2]),), edges, flags), False
    if op[0] == "bad":
        if op[2] in by:
            return None
        return state, True
    if op[0] == "foreign":
        return (state, True) if op[1] in by else None
    if op[0] == "con":
        if op[1] not in by or op[3] not in by:
            return None
        a, b = by[op[1]], by[op[3]]
        s, t = op[2], op[4]
        if s == "nope":
            if a[1] in ("piecewise", "break", "delay", "loss"):
                return None
            return state, True
        if s not in slots(a[1], True) or t not in slots(b[1], False) or a[0] == b[0]:
            return None
        return (nodes, edges | {(a[0], s, b[0], t)}, flags), False
    if op[0] in ("dis", "disslot"):
        if op[1] not in by or (op[2] is not None and op[2] not in by):
            return None
        a = by[op[1]]
        gone = {e for e in edges if e[0] == a[0] and (op[2] is None or e[2] == by[op[2]][0]) and (op[0] == "dis" or e[3] == op[3])}
        if op[0] == "disslot" and op[3] not in slots(by[op[2]][1], False):
            return None
        return (nodes, edges - gone, flags), not gone and op[2] is not None
    if op[0] == "ren":
        if op[1] not in by:
            return None
        if op[2] in by:
            return state, True
        return (tuple((i, kd, o, op[2]) if i == by[op[1]][0] else (i, kd, o, n) for i, kd, o, n in nodes), edges, flags | 2), False
    if op[0] in ("del", "delobj"):
        if op[1] == "nothing":
            return state, True
        if op[1] not in by:
            return None
        i = by[op[1]][0]
        return (tuple(n for n in nodes if n[0] != i), frozenset(e for e in edges if i not in (e[0], e[2])), flags | 4), False
    if op[0] == "run":
        return (nodes, edges, flags | 1), False
    raise ValueError(op)


def perform(w, before, op, after):
    """the edit on the real model"""
    by = {n[3]: n[0] for n in before[0]}

    def node(n):
        return w.nodes[by[n]]
    if op[0] == "add":
        new = [n for n in after[0] if n not in before[0]]
        if new:
            w.create(new[0][0], op[1], op[2], op[2])
        else:
            KINDS[op[1]][0](w.m, op[2], "x")
    elif op[0] == "bad":
        KINDS[op[1]][0](w.m, op[2], "x", nonsense=1)
    elif op[0] == "foreign":
        node(op[1]).connect(N.Output(Model(), "elsewhere"))
    elif op[0] == "con":
        node(op[1]).connect(node(op[3]), from_slot=op[2], to_slot=op[4])
    elif op[0] == "dis":
        node(op[1]).disconnect(*([] if op[2] is None else [node(op[2])]))
    elif op[0] == "disslot":
        node(op[1]).disconnect(node(op[2]), slot_name=op[3])
    elif op[0] == "ren":
        node(op[1]).name = op[2]
    elif op[0] == "del":
        del w.m.nodes[op[1]]
        del w.nodes[by[op[1]]]
    elif op[0] == "delobj":
        del w.m.nodes[node(op[1])]
        del w.nodes[by[op[1]]]
    elif op[0] == "run":
        simulate(w)


def replay(path, solver, kind, tr):
    """perform the edits on the real model and compare at the end"""
    state = start()
    w = World(solver)
    for ident, kd, orig, name in state[0]:
        w.create(ident, kd, name, orig)
    for a, s, b, t in BASE[1]:
        w.nodes[a].connect(w.nodes[b])
    what = ""
    for i, op in enumerate(path):
        nxt, refused = apply(state, op, kind)
        what = "%s: %s" % (kind, "; ".join(" ".join(map(str, o)) for o in path[:i + 1]))
        before = snapshot(w) if refused else None
        try:
            perform(w, state, op, nxt)
        except Exception as e:
            require(refused, "%s: the last edit fails: %r" % (what, e), "edit:" + op[0])
        else:
            require(not refused, "%s: the last edit is not refused" % what, "refuse:" + op[0])
        if refused:
            require(snapshot(w) == before, "%s: the refused edit changes the model: %r" % (what, sorted(set(map(str, snapshot(w))) ^ set(map(str, before)))), "refused:" + op[0])
        state = nxt
        tr.step(1)
    tr.count(compare(w, state, solver, what or kind))
    return state


def snapshot(w):
    g = w.m.graph
    return ([n.fully_qualified_name for n in g.nodes()], sorted((a.fully_qualified_name, b.fully_qualified_name) for a, b in g.edges()), [getattr(c, "name", c) for c in w.m.component_graph.nodes()])


def explore(cfg, tr):
    """every edit from every abstract state within the depth whose first edit is the given one"""
    kind, first, depth, full, solver = cfg
    ops = alphabet(kind)
    root = apply(start(), ops[first], kind)
    if root is None:
        return
    seen = {}
    queue = deque([((ops[first],), root[0])])
    replay((ops[first],), solver, kind, tr)
    seen[root[0]] = 1
    while queue:
        path, state = queue.popleft()
        for op in ops:
            nxt = apply(state, op, kind)
            if nxt is None:
                continue
            p = path + (op,)
            replay(p, solver, kind, tr)
            tr.run(1)
            new = nxt[0] not in seen
            if new:
                seen[nxt[0]] = len(p)
                tr.state(kind, str(nxt[0]))
            if (len(p) < full) or (new and len(p) < depth):
                queue.append((p, nxt[0]))


def explorations(tier):
    for kind in KINDS:
        n = len(alphabet(kind))
        for solver in SOLVERS:
            if kind in ("piecewise", "split") and solver == "lpsolve" and tier != "thorough":
                continue
            if solver != "glpk" and tier != "thorough":
                depth, full = 2, 2
            else:
                depth, full = (5, 3) if tier == "thorough" else (3, 3)
            for first in range(n):
                yield [kind, first, depth, full, solver]


def shadowed(cfg, tr):
    """a name that is also the name of a sub-node"""
    kind, rename, byname = cfg
    w = World("glpk")
    x = KINDS[kind][0](w.m, "x", "x")
    names = sorted({o.name for o in objects(x).values() if o is not x})
    for c in names:
        child = w.m.nodes[c]
        require(child.parent is not None and child in objects(x).values(), "%s: lookup of the sub-node %r gives %r" % (kind, c, child), "shadow:child")
        before = snapshot(w)
        if rename:
            n = N.Link(w.m, "other")
            n.name = c
        else:
            n = N.Link(w.m, c)
        require(w.m.nodes[c] is n and c in w.m.nodes and sorted(w.m.nodes.keys()) == sorted(["x", c]), "%s: lookup of the node %r gives %r" % (kind, c, w.m.nodes[c]), "shadow:lookup")
        try:
            N.Link(w.m, c)
        except ValueError:
            pass
        else:
            require(False, "%s: two nodes are named %r" % (kind, c), "shadow:names")
        del w.m.nodes[c if byname else n]
        require(snapshot(w) == before and w.m.nodes["x"] is x, "%s: removing the node %r leaves %r" % (kind, c, snapshot(w)), "shadow:remove")
        tr.step(1)
    tr.run(1)
    tr.state("shadow", kind, rename, byname)


def shadows(tier):
    for kind in KINDS:
        for rename in (False, True):
            for byname in (False, True):
                yield [kind, rename, byname]


GROUPS = {"shadowed": (shadows, shadowed), "explore": (explorations, explore)}
