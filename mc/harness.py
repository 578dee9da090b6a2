"""Exhaustive exploration driver: every case of a finite space is run against the
real pywr in worker processes, compared with a reference model, and counted."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HANG_S = 240


class Violation(Exception):
    """The implementation left the behaviours the reference model allows."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def close(a, b, tol=1e-6):
    return a == b or (abs(a - b) <= tol * max(1.0, abs(a), abs(b)) and math.isfinite(a) and math.isfinite(b))


class Trace:
    """Counters filled by one case."""

    __slots__ = ("states", "transitions", "traces", "outcome", "soft", "counters")

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcome = None
        self.soft = []  # violations noted without aborting the case: (key, msg)
        self.counters = {}

    def state(self, *parts):
        """Record a reference-model state (canonical, rounded)."""
        self.states.add(hash_state(parts))

    def step(self, n=1):
        self.transitions += n

    def run(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def note(self, key, msg):
        self.soft.append((key, msg))


def canon(x):
    if isinstance(x, float):
        if x != x:
            return "nan"
        r = round(x, 6)
        return 0.0 if r == 0 else r
    if isinstance(x, (list, tuple)):
        return tuple(canon(i) for i in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if hasattr(x, "tolist"):
        return canon(x.tolist())
    return x


def hash_state(x):
    return int.from_bytes(hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).digest(), "big")


def run_case(mod, group, cfg):
    tr = Trace()
    fn = mod.GROUPS[group][1]
    viols = []
    try:
        fn(cfg, tr)
    except Violation as e:
        viols.append((e.key or group, str(e)))
    except Exception:
        tb = traceback.format_exc(limit=12)
        viols.append((group + ":unexpected-exception", "unexpected exception\n" + tb))
    viols.extend(tr.soft)
    return tr, viols


def _worker(modname, work, wid, n, cur, stamp, conn, limit):
    os.setsid()
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)  # solver chatter
    if not os.environ.get("VERIF_VERBOSE"):
        os.dup2(nul, 2)
    mod = importlib.import_module(modname)
    states = set()
    agg = dict(transitions=0, traces=0, cases=0)
    outcomes = {}
    counters = {}
    viols = []
    samples = {}
    try:
        scratch = os.path.join(os.environ["VERIF_SCRATCH"], "w%d" % wid)
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        for idx in range(wid, len(work), n):
            group, cfg = work[idx]
            cur[wid] = idx
            stamp[wid] = time.time()
            tr, vs = run_case(mod, group, cfg)
            states |= tr.states
            agg["transitions"] += tr.transitions
            agg["traces"] += tr.traces
            agg["cases"] += 1
            for k, v in tr.counters.items():
                counters[k] = counters.get(k, 0) + v
            if tr.outcome is not None:
                h = hash_state((group, tr.outcome))
                outcomes[h] = outcomes.get(h, 0) + 1
                if group not in samples:
                    samples[group] = {"group": group, "case": cfg, "outcome": repr(canon(tr.outcome))[:400]}
            for key, msg in vs:
                viols.append((idx, key, msg))
            if len({k for _, k, _ in viols}) >= limit:
                break
        cur[wid] = -1
        conn.send((states, agg, outcomes, counters, viols, samples))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def load_known():
    p = os.path.join(HOME, "known_findings.json")
    try:
        with open(p) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def explore(pid, tier):
    t0 = time.time()
    modname = "mc.checks." + pid.lower()
    mod = importlib.import_module(modname)
    work = []
    sizes = {}
    for g, (gen, _fn) in mod.GROUPS.items():
        cases = [json.loads(json.dumps(c)) for c in gen(tier)]
        sizes[g] = len(cases)
        work.extend((g, c) for c in cases)
    only = os.environ.get("VERIF_ONLY_GROUP")
    if only:
        work = [w for w in work if w[0] in only.split(",")]
    n = min(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4, 8, max(1, len(work)))
    ctx = mp.get_context("fork")
    cur = ctx.Array("q", [-1] * n, lock=False)
    stamp = ctx.Array("d", [time.time()] * n, lock=False)
    sys.stdout.flush()
    procs, conns = [], []
    for w in range(n):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, work, w, n, cur, stamp, s, 25))
        p.start()
        s.close()
        procs.append(p)
        conns.append(r)
    states, outcomes, counters, viols, samples = set(), {}, {}, [], {}
    agg = dict(transitions=0, traces=0, cases=0)
    internal = None
    pending = dict(enumerate(conns))
    while pending:
        for w in list(pending):
            c = pending[w]
            try:
                if c.poll(0.02):
                    msg = c.recv()
                    if msg[0] == "error":
                        internal = msg[1]
                    else:
                        st, a, oc, cn, vs, sm = msg
                        states |= st
                        for k in agg:
                            agg[k] += a[k]
                        for k, v in oc.items():
                            outcomes[k] = outcomes.get(k, 0) + v
                        for k, v in cn.items():
                            counters[k] = counters.get(k, 0) + v
                        viols.extend(vs)
                        for k, v in sm.items():
                            samples.setdefault(k, v)
                    del pending[w]
                    continue
            except EOFError:
                idx = cur[w]
                if idx >= 0:
                    viols.append((idx, work[idx][0] + ":process-died",
                                  "the process running this case died"))
                else:
                    internal = "worker died outside a case"
                del pending[w]
                continue
            if cur[w] >= 0 and time.time() - stamp[w] > HANG_S:
                idx = cur[w]
                viols.append((idx, work[idx][0] + ":no-termination",
                              "the case did not finish within %d s" % HANG_S))
                try:
                    os.kill(procs[w].pid, signal.SIGKILL)
                except OSError:
                    pass
                del pending[w]
    for p in procs:
        p.join(5)
    if internal:
        print(internal)
        return 2
    viols.sort(key=lambda v: v[0])
    known = {(k["property"], k["key"]): k for k in load_known().get("findings", [])}
    new = {}
    seen_known = {}
    for idx, key, msg in viols:
        k = (pid, key)
        if k in known:
            seen_known.setdefault(key, known[k])
        elif key not in new:
            new[key] = (idx, msg)
    for key, k in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(HOME, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, (key, (idx, msg)) in enumerate(sorted(new.items(), key=lambda kv: kv[1][0])[:10]):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as fh:
            json.dump({"property": pid, "group": work[idx][0], "key": key, "case": work[idx][1],
                       "message": msg, "how": "bash run.sh %s --replay %s" % (pid, path)}, fh, indent=1)
        print("group=%s key=%s case=%s\n%s" % (work[idx][0], key, json.dumps(work[idx][1])[:1500], msg[:2500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": agg["transitions"],
            "traces_validated_against_impl": agg["traces"],
            "cases": agg["cases"], "distinct_outcomes": len(outcomes),
            "groups": sizes, "counters": counters,
            "samples": list(samples.values())[:12],
            "exhaustive": agg["cases"] == len(work) and not only,
            "bounds": getattr(mod, "BOUNDS", ""),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    with open(os.path.join(HOME, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d %.1fs"
          % (pid, tier, agg["cases"], len(states), agg["transitions"], agg["traces"],
             len(outcomes), len(new), len(seen_known), wall))
    if os.environ.get("VERIF_VERBOSE"):
        print(sizes, counters)
    if not new and agg["cases"] != len(work):
        print("internal: %d of %d cases run" % (agg["cases"], len(work)))
        return 2
    return 1 if new else 0


def replay(pid, path):
    mod = importlib.import_module("mc.checks." + pid.lower())
    with open(path) as fh:
        d = json.load(fh)
    tr, vs = run_case(mod, d["group"], d["case"])
    for key, msg in vs:
        print(key, msg)
    if vs:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation on replay")
    return 0
