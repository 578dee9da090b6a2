"""P19: output files hold exactly the results of the run."""
import bz2
import csv
import gzip
import io
import itertools
import json
import os

import numpy as np
import pandas as pd
import tables

from pywr.core import Model, Scenario
from pywr.nodes import (Input, Output, Link, Storage, AggregatedNode, AggregatedStorage, VirtualStorage, PiecewiseLink, BreakLink, LossLink, Catchment, River,
                        DelayNode)
from pywr.parameters import Parameter, IndexParameter, DeficitParameter
from pywr.recorders import Recorder, CSVRecorder, TablesRecorder
from pywr.recorders._tables_recorders import TablesRecorder2
from mc.harness import require
from mc.probe import Fn, FnIndex, require_same

TECHNIQUE = ("exhaustive enumeration of selections of nodes and parameters, scenario sets and selections, timesteppers, buffer sizes, options and histories of runs, resets, "
             "interruptions and re-set-ups on the real recorders; the files are then read back with csv and PyTables and compared, cell by cell, with what was observed step by step")
BOUNDS = ("one network with 14 nodes of 11 kinds, names that are prefixes of one another; every ordered pair of nodes and every way to name them; 9 scenario settings; "
          "5 timesteppers of up to 5 steps; buffers of 1 to 6 steps; all histories of up to 3 operations out of 9")

SC = {
    "none": ((), None),
    "one": (({"size": 1},), None),
    "three": (({"size": 3, "ensemble_names": ["lo", "mid", "hi"]},), None),
    "grid": (({"size": 2}, {"size": 3, "ensemble_names": ["x", "y", "z"]}), None),
    "slice": (({"size": 3, "slice": (1, None, None)}, {"size": 2}), None),
    "stop": (({"size": 3, "slice": (None, 2, None)}, {"size": 2}), None),
    "both": (({"size": 2}, {"size": 5, "slice": (0, 5, 2), "ensemble_names": list("pqrst")}), None),
    "last": (({"size": 3, "slice": (-2, None, None)},), None),
    "chosen": (({"size": 2}, {"size": 3, "ensemble_names": ["x", "y", "z"]}), [[1, 2], [0, 0], [1, 0]]),
    "chosen1": (({"size": 4},), [[3], [1]]),
    "chosen, sliced": (({"size": 4, "slice": (0, 2, None)}, {"size": 2}), [[3, 1], [1, 0], [0, 1]]),
}
TS = {"D": ("2000-02-27", "2000-03-02", 1), "7D": ("2000-02-20", "2000-03-18", 7), "M": ("1999-11-01", "2000-03-31", "M"), "6h": ("2000-02-28", "2000-02-29", "6h"),
      "W": ("2000-01-03", "2000-01-24", "W")}
NODES = ["a", "b", "ab", "in", "ln", "st", "out", "both", "stores", "lic", "pw", "brk", "loss"]


class See(Recorder):
    """what the model says of itself after every step"""

    def __init__(self, model, nodes, params, name="see"):
        super().__init__(model, name=name)
        self.nodes_, self.params_ = nodes, params
        for p in params:
            self.children.add(p)

    def reset(self):
        self.rows = {}
        self.order = []

    def after(self):
        ts = self.model.timestepper.current
        C = self.model.scenarios.combinations
        row = {"ts": (ts.year, ts.month, ts.day, ts.index), "when": pd.Timestamp(ts.datetime)}
        for n in self.nodes_:
            if hasattr(n, "volume"):
                row[n.name] = np.array(n.volume)
            else:
                row[n.name] = np.array(n.flow)
        for p in self.params_:
            row[p.name] = np.array([p.get_index(c) if isinstance(p, IndexParameter) else p.get_value(c) for c in C])
        if "a" in row and "pa" in row:
            # the deficit is that of this step, as soon as the step is over
            row["short"] = row["pa"] - row["a"]
        rf = self.model.solver.routes_flows_array if getattr(self.model.solver, "save_routes_flows", False) else None
        row["routes"] = None if rf is None else np.array(rf)
        self.rows[ts.index] = row
        self.order.append(ts.index)


class Net:
    def __init__(self, sc="grid", ts="D"):
        start, end, delta = TS[ts]
        m = Model(start=start, end=end, timestep=delta)
        spec, sel = SC[sc]
        for i, s in enumerate(spec):
            s = dict(s)
            if "slice" in s:
                s["slice"] = slice(*s["slice"])
            Scenario(m, "sc %d" % i if i else "first", **s)
        self.m = m
        self.k = 1.0
        h = lambda t, si, j: self.k * (1.0 + ((t + 2) * (3 * j + 2) + 5 * sum((q + 2) * v for q, v in enumerate(si))) % 11 / 4)
        P = lambda j, name=None: Fn(m, lambda t, si: h(t, si, j), name=name)
        rain, ask = P(1, "rain"), P(2, "pa")
        self.idx = FnIndex(m, lambda t, si: int(self.k * ((t + sum(si)) % 5)), name="a/i")
        src, st = Input(m, "in", max_flow=rain, min_flow=rain), Storage(m, "st", min_volume=1.0, max_volume=P(7), initial_volume=2.5, initial_volume_pc=0.25, cost=-1.0)
        st.max_volume = Fn(m, lambda t, si: 100.0 + t)
        ln = Link(m, "ln")
        a, b, ab, out = Output(m, "a", max_flow=ask, cost=-20.0), Output(m, "b", max_flow=P(3), cost=-8.0), Output(m, "ab", max_flow=0.5, cost=-9.0), Output(m, "out", cost=5.0)
        pw = PiecewiseLink(m, name="pw", nsteps=2, max_flows=[1.0, P(4, "pm")], costs=[-6.0, 1.0])
        brk = BreakLink(m, "brk", max_flow=P(5))
        loss = LossLink(m, "loss", loss_factor=0.25, max_flow=3.0)
        src.connect(ln), ln.connect(a), ln.connect(st), ln.connect(out)
        st.connect(b), ln.connect(pw), pw.connect(ab), ln.connect(brk), brk.connect(loss)
        end = Output(m, "end", cost=-3.0)
        loss.connect(end), pw.connect(end)
        st2 = Storage(m, "s2", max_volume=5.0, initial_volume=5.0)
        st2.connect(out)
        st2.allow_isolated = True
        extra = Input(m, "extra", max_flow=0.0)
        extra.connect(st2)
        self.agg = AggregatedNode(m, "both", [a, b])
        self.agg.max_flow = P(6)
        AggregatedStorage(m, "stores", [st, st2])
        VirtualStorage(m, "lic", nodes=[a, src], factors=[1.0, 0.5], max_volume=1000.0, initial_volume=900.0, min_volume=2.0)
        if sel is not None:
            m.scenarios.user_combinations = sel
        self.see = See(m, list(m.nodes), [rain, ask, self.idx])
        self.params = [rain, ask, self.idx, DeficitParameter(m, a, name="short")]
        self.n = {n.name: n for n in m.nodes}
        self.pm = m.parameters["pm"]

    def combos(self):
        return [tuple(c.indices) for c in self.m.scenarios.combinations]

    def shape(self):
        return tuple(self.m.scenarios.shape)


# ---- histories ---------------------------------------------------------------

OPS = {
    "run": lambda w: w.m.run(),
    "wet": lambda w: (setattr(w, "k", 2.5), w.m.run()),
    "dry": lambda w: (setattr(w, "k", 0.5), w.m.run()),
    "steps": lambda w: (w.m.reset(), [w.m.step() for _ in range(len(w.m.timestepper))], w.m.finish()),
    "part": lambda w: (setattr(w, "k", 2.5), w.m.reset(), [w.m.step() for _ in range(4)]),
    "stop": lambda w: (setattr(w, "k", 2.5), w.m.reset(), w.m.step(), w.m.step(), w.m.step(), w.m.finish()),
    "later": lambda w: (setattr(w, "k", 0.5), w.m.reset(start=w.m.timestepper.datetime_index[3].start_time), [w.m.step() for _ in range(3, len(w.m.timestepper))], w.m.finish()),
    "setup": lambda w: w.m.setup(),
    "crash": lambda w: crash(w),
}
FULL = ("run", "wet", "dry", "steps")
ENDS = FULL + ("stop", "later", "crash")  # the files are complete


class Boom(Exception):
    pass


def crash(w):
    w.boom.at = 3
    try:
        w.m.run()
    except Boom:
        pass
    finally:
        w.boom.at = None


class Bomb(Parameter):
    at = None

    def value(self, ts, si):
        if self.at == ts.index:
            raise Boom()
        return 0.0


def perform(w, ops):
    if "crash" in ops:
        w.boom = Bomb(w.m, name="bomb")
    w.m.setup()
    for op in ops:
        OPS[op](w)


# ---- csv ---------------------------------------------------------------------

def read_csv(path, complib, **kw):
    op = {None: open, "gzip": gzip.open, "bz2": bz2.open, "bzip2": bz2.open}[complib]
    with op(path, "rt", newline="", encoding="utf-8") as fh:
        return list(csv.reader(fh, **kw))


def check_csv(w, path, names, sid, complib, tr, note, **kw):
    rows = read_csv(path, complib, **kw)
    require(rows and rows[0] == ["Datetime"] + names, lambda: "%s: header %r, want %r" % (note, rows[:1], names), "header")
    see = w.see
    require(len(rows) - 1 == len(see.order), lambda: "%s: %d rows for %d steps" % (note, len(rows) - 1, len(see.order)), "rows")
    for r, i in zip(rows[1:], see.order):
        row = see.rows[i]
        require(pd.Timestamp(r[0]) == row["when"], lambda: "%s: row %d is labelled %s, want %s" % (note, i, r[0], row["when"]), "label")
        require(len(r) == len(names) + 1, "%s: ragged row" % note, "rows")
        for nm, cell in zip(names, r[1:]):
            want = row[nm][sid]
            require(abs(float(cell) - want) <= 1e-12 * max(1, abs(want)), lambda: "%s: step %d of %s is %s, want %r" % (note, i, nm, cell, want), "cell")
        tr.step(len(names))


def gen_csv(tier):
    for sc in SC:
        for ts in TS:
            yield {"sc": sc, "ts": ts, "nodes": None, "complib": None, "delim": ","}
    for complib in ("gzip", "bz2", "bzip2"):
        yield {"sc": "grid", "ts": "D", "nodes": None, "complib": complib, "delim": ";"}
    pairs = list(itertools.permutations(NODES, 2))
    for k in range(0, len(pairs), 12):
        yield {"sc": "slice", "ts": "D", "nodes": pairs[k:k + 12], "complib": None, "delim": "\t"}


def run_csv(cfg, tr):
    w = Net(cfg["sc"], cfg["ts"])
    recs = []
    sels = [None] if cfg["nodes"] is None else cfg["nodes"]
    ncomb = len(w.m.scenarios.get_combinations())
    for k, sel in enumerate(sels):
        for sid in range(ncomb) if cfg["nodes"] is None else [k % ncomb]:
            path = "f%d_%d.csv" % (k, sid)
            given = None if sel is None else [x if (j + k) % 2 else w.n[x] for j, x in enumerate(sel)]
            CSVRecorder(w.m, path, scenario_index=sid, nodes=given, complib=cfg["complib"], csv_kwargs={"delimiter": cfg["delim"]}, name="csv%d_%d" % (k, sid))
            recs.append((path, sorted(w.n) if sel is None else list(sel), sid))
    for turn in range(2):
        w.k = 1.0 + turn
        w.m.run()
        for path, names, sid in recs:
            check_csv(w, path, names, sid, cfg["complib"], tr, "run %d, scenario %d of %s, %s" % (turn, sid, cfg["sc"], cfg["ts"]), delimiter=cfg["delim"])
            tr.state(cfg["sc"], cfg["ts"], names, sid, turn)
    tr.run(2)
    tr.outcome = (cfg["sc"], cfg["ts"], cfg["complib"])


# ---- hdf ---------------------------------------------------------------------

def limits(w, name, t, combos):
    """lowest and highest flow or volume of a node in a step, by combination"""
    h = lambda j, si: w.k * (1.0 + ((t + 2) * (3 * j + 2) + 5 * sum((q + 2) * v for q, v in enumerate(si))) % 11 / 4)
    inf = float("inf")
    f = {"in": lambda si: (h(1, si), h(1, si)), "a": lambda si: (0.0, h(2, si)), "b": lambda si: (0.0, h(3, si)), "ab": lambda si: (0.0, 0.5), "brk": lambda si: (0.0, h(5, si)),
         "loss": lambda si: (0.0, 3.0), "pw": lambda si: (0.0, 1.0 + h(4, si)), "both": lambda si: (0.0, h(6, si)), "st": lambda si: (1.0, 100.0 + t),
         "stores": lambda si: (1.0, 105.0 + t), "lic": lambda si: (2.0, 1000.0), "extra": lambda si: (0.0, 0.0), "s2": lambda si: (0.0, 5.0),
         "brk (storage)": lambda si: (0.0, 0.0), "brk (link)": lambda si: (0.0, h(5, si))}.get(name, lambda si: (0.0, inf))
    v = [f(si) for si in combos]
    return [x[0] for x in v], [x[1] for x in v]


def check_tables(w, path, version, items, tr, note, where="/", time="/time", scenarios="/scenarios", routes=None, metadata=None, title=""):
    see = w.see
    combos, shape = w.combos(), w.shape()
    T = len(w.m.timestepper)
    with tables.open_file(path, "r") as f:
        get = lambda p: f.get_node(p)
        found = {n._v_pathname for n in f.walk_nodes("/", "CArray")}
        wanted = set()
        for where_, item in items:
            isidx = isinstance(item, IndexParameter)
            isp = isinstance(item, Parameter)
            store = hasattr(item, "volume")
            parts = [(None, None)] if version == 1 else ([("parameter_index" if isidx else "parameter", None)] if isp else
                                                        [("volume" if store else "flow", None), ("min_volume" if store else "min_flow", 0), ("max_volume" if store else "max_flow", 1)])
            for part, lim in parts:
                p = where_ if part is None else where_ + "/" + part
                wanted.add(p)
                require(p in found, lambda: "%s: no %s in the file (%r)" % (note, p, sorted(found)), "missing")
                ca = get(p)
                require(ca.shape == (T,) + shape, lambda: "%s: %s has shape %r, want %r" % (note, p, ca.shape, (T,) + shape), "shape")
                require(ca._v_attrs["PYWR_TYPE"] == type(item).__name__, "%s: type of %s" % (note, p), "type")
                att = part or ("parameter-index" if isidx else "parameter" if isp else "volume" if store else "flow")
                require(ca._v_attrs["PYWR_ATTRIBUTE"] == att, "%s: attribute of %s" % (note, p), "type")
                got = ca.read().reshape(T, -1)
                for i in see.order:
                    want = see.rows[i][item.name] if lim is None else np.array(limits(w, item.name, i, combos)[lim])
                    require_same(got[i], want, "%s: step %d of %s" % (note, i, p), "cell" if lim is None else "limit:" + item.name)
                    tr.step(got.shape[1])
        if time is not None:
            t = get(time)
            rows = [tuple(int(r[c]) for c in ("year", "month", "day", "index")) for r in t.iterrows()]
            require(rows == [see.rows[i]["ts"] for i in see.order], lambda: "%s: time labels %r, want %r" % (note, rows, [see.rows[i]["ts"] for i in see.order]), "label")
        else:
            require("/time" not in f, "%s: unwanted times" % note, "label")
        names = [s.name for s in w.m.scenarios.scenarios]
        if scenarios is not None:
            t = get(scenarios)
            rows = [(r["name"].decode(), int(r["size"])) for r in t.iterrows()]
            require(rows == [(s.name, s.size) for s in w.m.scenarios.scenarios], "%s: scenarios %r" % (note, rows), "scenarios")
            group = scenarios.rsplit("/", 1)[0]
            sel = w.m.scenarios.user_combinations
            if sel is not None:
                if version == 1:
                    t = get(group + "/scenario_combinations")
                    rows = [[int(r[n]) for n in names] for r in t.iterrows()]
                else:
                    t = get("/scenario_combinations")
                    rows = t.read().tolist()
                    require(list(t.attrs.columns) == names, "%s: names of the combinations" % note, "scenarios")
                require(rows == np.array(sel).tolist(), lambda: "%s: combinations %r" % (note, rows), "scenarios")
            elif any(s.slice is not None for s in w.m.scenarios.scenarios):
                t = get(group + "/scenario_slices")
                rows = {r["name"].decode(): slice(int(r["start"]), int(r["stop"]), int(r["step"])) for r in t.iterrows()}
                require(set(rows) == {s.name for s in w.m.scenarios.scenarios if s.slice is not None}, "%s: sliced scenarios" % note, "scenarios")
                for s in w.m.scenarios.scenarios:
                    if s.slice is not None:
                        require(list(range(s.size)[rows[s.name]]) == list(range(s.size)[s.slice]), lambda: "%s: slice of %s is %r, not %r" % (note, s.name, rows[s.name], s.slice), "scenarios")
            if version == 2 and names:
                t = get("/scenario_ensemble_names").read().tolist()
                rows = [[x.decode() if isinstance(x, bytes) else x for x in r] for r in t]
                want = [[str(s.ensemble_names[i]) for s, i in zip(w.m.scenarios.scenarios, c)] for c in combos]
                require(rows == want, lambda: "%s: ensemble names %r, want %r" % (note, rows, want), "scenarios")
        if routes:
            ca = get(routes[0])
            wanted.add(routes[0])
            R = w.m.solver.routes
            require(ca.shape == (T, len(R)) + shape, "%s: shape of route flows" % note, "routes")
            got = ca.read().reshape(T, len(R), -1)
            for i in see.order:
                require_same(got[i], see.rows[i]["routes"].T, "%s: route flows of step %d" % (note, i), "routes")
            top = lambda n: n if n.parent is None else n.parent
            if routes[1] is not None:
                rows = [(r["start"].decode(), r["end"].decode()) for r in get(routes[1]).iterrows()]
                require(rows == [(top(r[0]).name, top(r[-1]).name) for r in R], "%s: ends of the routes" % note, "routes")
        extra = found - wanted - {"/scenario_combinations", "/scenario_ensemble_names"}
        require(not extra, "%s: unexpected %r" % (note, sorted(extra)), "extra")
        require(f.title == title, lambda: "%s: the title of the file is %r, not %r" % (note, f.title, title), "title")
        for k, v in (metadata or {}).items():
            require(f.root._v_attrs[k] == v, "%s: metadata" % note, "type")


def check_frames(w, path, version, items, tr, note, routes=None):
    cls = TablesRecorder if version == 1 else TablesRecorder2
    got = dict(cls.generate_dataframes(path))
    T = len(w.m.timestepper)
    names = [s.name for s in w.m.scenarios.scenarios]
    want = {}
    for where_, item in items:
        nm = where_.rsplit("/", 1)[1]
        want[nm if version == 1 else nm + "." + ("parameter_index" if isinstance(item, IndexParameter) else "parameter" if isinstance(item, Parameter) else
                                                 "volume" if hasattr(item, "volume") else "flow")] = item
    for k, item in want.items():
        require(k in got, lambda: "%s: no frame %s in %r" % (note, k, sorted(got)), "frames")
        df = got[k]
        require_same(df.values, [w.see.rows[i][item.name] for i in range(T)], "%s: frame of %s" % (note, k), "frames")
        require([(d.year, d.month, d.day) for d in df.index] == [w.see.rows[i]["ts"][:3] for i in range(T)], "%s: dates of %s" % (note, k), "frames")
        if names:
            require(list(df.columns.names) == names, "%s: %r" % (note, df.columns.names), "frames")
            require([tuple(c) if isinstance(c, tuple) else (c,) for c in df.columns] == w.combos(), lambda: "%s: columns %r, want %r" % (note, list(df.columns), w.combos()), "frames")
        tr.step()
    if routes:
        nm = routes[0].rsplit("/", 1)[1]
        if version == 2:
            nm = (routes[0].rsplit("/", 2)[-2] or "/") + "." + nm
        require(nm in got, lambda: "%s: no frame %s in %r" % (note, nm, sorted(got)), "frames")
        df = got[nm]
        require_same(df.values, [w.see.rows[i]["routes"].T.ravel() for i in range(T)], "%s: frame of the routes" % note, "frames")
        require([(d.year, d.month, d.day) for d in df.index] == [w.see.rows[i]["ts"][:3] for i in range(T)], "%s: dates of the routes" % note, "frames")
        if names:
            require([tuple(c) for c in df.columns] == [(r,) + c for r in range(len(w.m.solver.routes)) for c in w.combos()], lambda: "%s: columns %r of the routes" % (note, list(df.columns)[:5]), "frames")
        tr.step()


def gen_hdf(tier):
    for v in (1, 2):
        for sc in SC:
            for ts in TS:
                yield {"v": v, "sc": sc, "ts": ts, "opt": "all"}
        for opt in ("named", "objects", "where", "mixed", "params", "deep", "no time", "no scenarios", "meta", "routes", "deep routes", "flows only", "file", "dirs", "twice"):
            for sc in ("three", "grid", "chosen", "slice"):
                yield {"v": v, "sc": sc, "ts": "D", "opt": opt}
    for sc in ("grid", "chosen"):
        for ts in TS:
            for b in range(1, 7):
                yield {"v": 2, "sc": sc, "ts": ts, "opt": "all", "buffer": b}
        for b in (2, 3):
            yield {"v": 2, "sc": sc, "ts": "D", "opt": "twice", "buffer": b}
        yield {"v": 2, "sc": sc, "ts": "D", "opt": "all", "size": None}
        yield {"v": 2, "sc": sc, "ts": "D", "opt": "all", "size": 0.001}
        yield {"v": 2, "sc": sc, "ts": "D", "opt": "all", "size": 0.0075}


def make(w, v, opt, path, buffer=None, **size):
    """recorder, checker's arguments"""
    kw, ck = {}, {}
    nodes = params = None
    n = w.n
    plain = lambda names, root="/": [(root + x, n[x]) for x in names]
    pi = [("/" + p.name.replace("/", "_"), p) for p in w.params]
    items = [("/" + x, o) for x, o in n.items()]
    every = [x for x in ("ab", "a", "st", "in", "b", "lic", "stores", "both", "pw")]
    if opt == "named":
        nodes, items, params = every, plain(every), ["rain", "pa"]
        items = items + pi[:2]
    elif opt == "objects":
        nodes, items, params = [n[x] for x in every], plain(every), [w.params[2], w.params[1]]
        items = items + [pi[2], pi[1]]
    elif opt == "where":
        nodes, items = [("/res/x%d" % i, n[x]) for i, x in enumerate(every)], [("/res/x%d" % i, n[x]) for i, x in enumerate(every)]
        params, items = [("/par/p", w.params[0]), ("/par/i", w.params[2])], items + [("/par/p", w.params[0]), ("/par/i", w.params[2])]
    elif opt == "mixed":
        nodes = ["ab", n["a"], ("/deep/er/b", "b"), ("/other", n["st"])]
        items = plain(["ab", "a"]) + [("/deep/er/b", n["b"]), ("/other", n["st"])]
        params, items = ["pa", ("/q/r", "rain"), w.params[2], "short"], items + [("/pa", w.params[1]), ("/q/r", w.params[0]), ("/a_i", w.params[2]), ("/short", w.params[3])]
    elif opt == "twice":  # the same node and parameter in more than one place
        nodes = [("/in/%s%d" % (x, k), n[x]) for k in range(2) for x in ("a", "st", "lic", "b")] + ["a"]
        params = [("/par/%s%d" % (p.name.replace("/", "_"), k), p) for k in range(2) for p in w.params]
        items = nodes[:-1] + plain(["a"]) + params
    elif opt == "params":
        nodes, params, items = [], list(w.params), list(pi)
    elif opt == "deep":
        kw.update(where="/run/1", time="/meta/t", scenarios="/meta/sc")
        ck.update(time="/meta/t", scenarios="/meta/sc")
        params = list(w.params)
        items = [("/run/1" + p, o) for p, o in items + pi]
    elif opt == "no time":
        kw["time"] = ck["time"] = None
    elif opt == "no scenarios":
        kw["scenarios"] = ck["scenarios"] = None
    elif opt == "meta":
        kw.update(metadata={"who": "me", "n": 3}, title="t", filter_kwds={"complevel": 3, "complib": "zlib"})
        ck["metadata"] = {"who": "me", "n": 3, "PYWR_FORMAT": v}
        ck["title"] = "t"
    elif opt == "routes":
        kw["routes_flows"] = "flows"
        ck["routes"] = ("/flows", "/routes")
    elif opt == "deep routes":
        kw.update(where="/run/1", routes_flows="flows", routes="/meta/far/r")
        ck["routes"] = ("/run/1/flows", "/meta/far/r")
        items = [("/run/1" + p, o) for p, o in items]
    elif opt == "flows only":
        kw.update(routes_flows="flows", routes=None)
        ck["routes"] = ("/flows", None)
    elif opt == "dirs":
        path = os.path.join("new%d" % v, "sub", path)
        kw["create_directories"] = True
    elif opt == "file":
        kw["file"] = True
    if v == 2:
        if buffer:
            kw["buffer_timesteps"] = buffer
        if size:
            kw["buffer_size"] = size["size"]
    cls = TablesRecorder if v == 1 else TablesRecorder2
    h = path
    if kw.pop("file", False):
        h = tables.open_file(path, "w")
    rec = cls(w.m, h, nodes=nodes, parameters=params, name="h5_%s" % path, **kw)
    return rec, path, items, ck, (h if h is not path else None)


def wipe(path):
    if os.path.exists(path):
        os.remove(path)


def run_hdf(cfg, tr):
    w = Net(cfg["sc"], cfg["ts"])
    wipe("o.h5")
    extra = {"size": cfg["size"]} if "size" in cfg else {}
    rec, path, items, ck, handle = make(w, cfg["v"], cfg["opt"], "o.h5", cfg.get("buffer"), **extra)
    for turn in range(2):
        w.k = 1.0 + turn
        w.m.run()
        note = "format %d, %s, %s, %s, run %d" % (cfg["v"], cfg["sc"], cfg["ts"], cfg["opt"], turn)
        if handle:
            require(handle.isopen, "%s: somebody else's file was closed" % note, "file")
            handle.flush()
            if turn == 1:
                handle.close()
            else:
                continue
        check_tables(w, path, cfg["v"], items, tr, note, **ck)
        if cfg["opt"] in ("all", "objects", "meta", "routes", "deep routes", "flows only") and cfg["ts"] != "6h":
            check_frames(w, path, cfg["v"], items, tr, note, ck.get("routes"))
    for c in w.combos():
        tr.state(cfg, c)
    tr.run(2)
    wipe(path)
    tr.outcome = (cfg["v"], cfg["sc"], cfg["ts"], cfg["opt"])


# ---- pairs of nodes ----------------------------------------------------------

def gen_pairs(tier):
    pairs = list(itertools.permutations(NODES, 2))
    for v in (1, 2):
        for how in range(4):
            for k in range(0, len(pairs), 13):
                yield {"v": v, "how": how, "pairs": pairs[k:k + 13]}


def run_pairs(cfg, tr):
    w = Net("grid", "D")
    cls = TablesRecorder if cfg["v"] == 1 else TablesRecorder2
    recs = []
    for k, (x, y) in enumerate(cfg["pairs"]):
        path = "p%d.h5" % k
        wipe(path)
        one = lambda nm, how: [nm, w.n[nm], ("/w/" + nm, nm), ("/w/" + nm, w.n[nm])][how]
        hows = (cfg["how"], (cfg["how"] + k) % 4)
        cls(w.m, path, nodes=[one(x, hows[0]), one(y, hows[1])], name="r%d" % k)
        recs.append((path, [("/w/" + nm if h > 1 else "/" + nm, w.n[nm]) for nm, h in zip((x, y), hows)]))
    w.m.run()
    for path, items in recs:
        check_tables(w, path, cfg["v"], items, tr, "nodes %s" % [p for p, _ in items])
        tr.state(cfg["v"], cfg["how"], [p for p, _ in items])
        wipe(path)
    tr.run()
    tr.outcome = (cfg["v"], cfg["how"])


# ---- histories of runs -------------------------------------------------------

def gen_hist(tier):
    L = 2 if tier == "quick" else 3
    words = [w for n in range(1, L + 1) for w in itertools.product(OPS, repeat=n) if w[-1] in ENDS]
    if tier == "quick":
        words += [w for w in itertools.product(("wet", "part", "later", "stop", "crash"), repeat=3) if w[-1] in ENDS]
    for what in ("csv", "gz", 1, 2, "2b2", "2b3", "2b5", "1r", "2r", "2b2r"):
        for w in words:
            yield {"what": what, "ops": w}


def run_hist(cfg, tr):
    what = cfg["what"]
    w = Net("grid", "D")
    if what in ("csv", "gz"):
        path = "h.csv" + (".gz" if what == "gz" else "")
        wipe(path)
        complib = "gzip" if what == "gz" else None
        names = ["st", "a", "ab", "lic"]
        CSVRecorder(w.m, path, scenario_index=4, nodes=names, complib=complib, name="rec")
        check = lambda note: check_csv(w, path, names, 4, complib, tr, note)
    else:
        wipe("h.h5")
        v = int(str(what)[0])
        rec, path, items, ck, _ = make(w, v, "deep routes" if str(what).endswith("r") else "mixed", "h.h5", int(what[2]) if "b" in str(what) else None)
        check = lambda note: check_tables(w, path, v, items, tr, note, **ck)
    if "crash" in cfg["ops"]:
        w.boom = Bomb(w.m, name="bomb")
    w.m.setup()
    for k, op in enumerate(cfg["ops"]):
        OPS[op](w)
        if op in ENDS:
            check("%s after %s" % (what, ", ".join(cfg["ops"][:k + 1])))
    tr.state(what, cfg["ops"])
    tr.run(len(cfg["ops"]))
    wipe(path)
    tr.outcome = (what, cfg["ops"][-1])


# ---- from a document ---------------------------------------------------------

def gen_doc(tier):
    for typ in ("csv", "tables", "tablesrecorder2"):
        for nodes in (None, ["a", "st"], ["st", "ab", "a"]):
            for params in (None, ["p", "q"], ["pq", "p"]):
                if typ == "csv" and params:
                    continue
                for steps in (1, 3):
                    yield {"type": typ, "nodes": nodes, "params": params, "steps": steps}


def run_doc(cfg, tr):
    d = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-0%d" % cfg["steps"], "timestep": 1},
         "scenarios": [{"name": "s", "size": 3}],
         "nodes": [{"name": "in", "type": "input", "max_flow": "p"}, {"name": "a", "type": "output", "max_flow": "q", "cost": -5}, {"name": "ab", "type": "output", "max_flow": "pq", "cost": -3},
                   {"name": "st", "type": "storage", "max_volume": 50, "initial_volume": 1, "cost": -1}],
         "edges": [["in", "a"], ["in", "ab"], ["in", "st"]],
         "parameters": {"p": {"type": "arrayindexedscenario", "scenario": "s", "values": [[3.0 + t + s for s in range(3)] for t in range(3)]},
                        "q": {"type": "constantscenario", "scenario": "s", "values": [1.0, 0.5, 2.0]}, "pq": {"type": "aggregated", "agg_func": "min", "parameters": ["p", "q"]}}}
    d["nodes"].append({"name": "end", "type": "output", "max_flow": 0.0})
    d["edges"].append(["st", "end"])
    rec = {"type": cfg["type"], "url": "doc.out"}
    if cfg["nodes"]:
        rec["nodes"] = cfg["nodes"]
    if cfg["params"]:
        rec["parameters"] = cfg["params"]
    if cfg["type"] == "csv":
        rec["scenario_index"] = 2
    d["recorders"] = {"rec": rec}
    wipe("doc.out")
    m = Model.loads(json.dumps(d))
    w = type("W", (), {})()
    w.m, w.k = m, 1.0
    w.see = See(m, list(m.nodes), [m.parameters[x] for x in ("p", "q", "pq")])
    w.combos = lambda: [tuple(c.indices) for c in m.scenarios.combinations]
    w.shape = lambda: tuple(m.scenarios.shape)
    for turn in range(2):
        m.run()
        names = cfg["nodes"] or sorted(n.name for n in m.nodes)
        if cfg["type"] == "csv":
            check_csv(w, "doc.out", names, 2, None, tr, "from a document")
        else:
            items = [("/" + x, m.nodes[x]) for x in names] + [("/" + x, m.parameters[x]) for x in cfg["params"] or []]
            global limits
            old = limits
            try:
                limits = lambda w_, nm, t, combos: ([0.0] * 3, {"in": [3.0 + t + s for s in range(3)], "a": [1.0, 0.5, 2.0], "ab": [1.0, 0.5, 2.0], "st": [50.0] * 3}.get(nm, [0.0] * 3))
                check_tables(w, "doc.out", 1 if cfg["type"] == "tables" else 2, items, tr, "from a document", title="t")
            finally:
                limits = old
    tr.state(cfg)
    tr.run(2)
    wipe("doc.out")
    tr.outcome = (cfg["type"],)


GROUPS = {"csv": (gen_csv, run_csv), "hdf": (gen_hdf, run_hdf), "pairs": (gen_pairs, run_pairs), "hist": (gen_hist, run_hist), "doc": (gen_doc, run_doc)}
