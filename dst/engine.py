"""Batches of simulated runs, minimisation, replay files, evidence."""
import copy
import ctypes
import faulthandler
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import seam
from .sched import NS, Chooser, HarnessError, SimAbort
from .world import World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
RUN_WALL = 25  # seconds of real time after which a single run counts as hung


class SimHang(SimAbort):
    """A simulated thread spins without ever calling the simulator."""


class Prop:
    id = None
    quick = 4000
    thorough = 80000
    max_time = 3600
    progress = False         # True: every generated program must run to its end
    level = "exploration"
    rule = ""
    assumptions = []
    real = ["every rsfile module of the POSIX path, unmodified", "the stdlib's _pyio (rsfile's base classes), unmodified"]
    stub = ["kernel (files, descriptors, range locks, pipes, stable storage, processes)", "clocks and sleeping",
            "threading / _thread / multiprocessing locks and conditions", "thread scheduling"]

    def must_end(self, program):
        return self.progress

    def gen(self, rng):
        raise NotImplementedError

    def monitors(self, program):
        return []

    def final(self, w):
        pass

    def nontrivial(self, w):
        return w.sched.switches > 0 or bool(w.sched.fault_counts)

    def stats(self, w):
        return {}

    def valid(self, program):
        """May the minimiser consider this program?"""
        return True


def load_prop(pid):
    m = importlib.import_module("dst.props." + pid.lower())
    return m.PROP


def run_seed(base, pid, i):
    return int.from_bytes(hashlib.blake2b(("%s/%s/%d" % (base, pid, i)).encode(), digest_size=8).digest(), "big")


class Outcome:
    def __init__(self, world, status, violation):
        self.w, self.status, self.violation = world, status, violation


_hang = {"world": None, "deadline": None}


def _on_alarm(sig, frame):
    w = _hang["world"]
    if w is None:
        return
    t = w.sched.current
    if t is not None and t.thread is not None and not w.sched.aborting:
        w.sched.status = "hang"
        w.sched.aborting = True
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.thread.ident), ctypes.py_object(SimHang))
        signal.setitimer(signal.ITIMER_REAL, 3)


def execute(prop, program, seed=None, trace=None):
    """One simulated run."""
    sys.unraisablehook = lambda u: None  # exceptions of finalisers (also the simulator's own) are not for the console
    ch = Chooser(seed, program.get("chooser"), trace)
    gc.disable()
    w = World(program, ch, prop.monitors(program), prop.max_time)
    w.known_sigs = known_sigs(prop.id)
    _hang["world"] = w
    signal.setitimer(signal.ITIMER_REAL, RUN_WALL)
    try:
        status = w.run()
        if w.violation is None:
            if status != "done":
                if prop.must_end(program):
                    w.violation = ("no progress (%s)" % status, describe_stuck(w, status))
            else:
                prop.final(w)
    except Exception as e:
        status = "failed"
        where = in_library(e)
        if where is None:
            raise
        # outside of the calls of the program, in something that never fails (setting options, asking for attributes...)
        w.violation = ("library failure", "%s: %s at %s" % (type(e).__name__, e, where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _hang["world"] = None
        seam.set_sim(None)
    return Outcome(w, status, w.violation)


def in_library(e):
    """Where in rsfile this exception was raised, if it was."""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    name = last.tb_frame.f_globals.get("__name__", "") if last is not None else ""
    return "%s:%d" % (name, last.tb_lineno) if name.split(".")[0].startswith("rsfile") else None


def describe_stuck(w, status):
    out = []
    for t in w.sched.tasks:
        r = w.inflight.get(t.name)
        if r is not None:
            out.append("%s in %s (waiting for: %s)" % (t.name, r.show(), t.why))
    return {"stuck": "every thread waits and nothing will ever wake it", "livelock": "no end in sight after %d steps" %
            w.sched.points, "timeout": "still not finished after %.0f simulated seconds" % ((w.sched.now / NS) - 1000),
            "hang": "a call spins without end"}.get(status, status) + ": " + "; ".join(out)


def cleanup(o):
    w = o.w
    w.boxes.clear()
    w.history = []
    for p in w.procs.values():
        p.rs = None
    gc.collect()


# ------------------------------------------------------------------ batches

def worker(pid, base, idxs, conn, deadline):
    faulthandler.enable()
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        prop = load_prop(pid)
        gc.collect()
        gc.freeze()
        agg = dict(runs=0, ops=0, switches=0, points=0, lines=0, sim=0, faults={}, status={}, stats={}, nontrivial=0,
                   digests=set(), samples=[], oktypes={})
        for i in idxs:
            if time.time() > deadline:
                break
            seed = run_seed(base, pid, i)
            program = prop.gen(random.Random(seed))
            o = execute(prop, program, seed=seed)
            w = o.w
            s = w.sched
            agg["runs"] += 1
            agg["ops"] += w.opcount
            agg["switches"] += s.switches
            agg["points"] += s.points
            agg["lines"] += s.lines
            agg["sim"] += s.now - 1000 * NS
            for k, v in s.fault_counts.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            agg["status"][o.status] = agg["status"].get(o.status, 0) + 1
            for k, v in prop.stats(w).items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            for m in w.monitors:
                for k, v in getattr(m, "stats", {}).items():
                    agg["stats"][k] = agg["stats"].get(k, 0) + v
            for r in w.history:
                k = r.op + (":" + r.exc[0] if r.exc else ":ok" if r.ok else ":skipped" if r.skipped else ":unfinished")
                agg["oktypes"][k] = agg["oktypes"].get(k, 0) + 1
            if prop.nontrivial(w):
                agg["nontrivial"] += 1
                agg["digests"].add(s.digest())
            if len(agg["samples"]) < 1 and w.opcount > 3 and prop.nontrivial(w):
                agg["samples"].append(dict(run=i, seed=seed, program=program, history=w.trace_text(40), status=o.status,
                                           schedule_and_faults=s.ch.trace()))
            if o.violation is not None:
                conn.send(("violation", i, seed, o.violation, program, s.ch.trace()))
                cleanup(o)
                conn.send(("done", agg))
                return
            cleanup(o)
        conn.send(("done", agg))
    except BaseException as e:
        conn.send(("error", "".join(traceback.format_exception(e))[-6000:]))


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, y in v.items():
                d[x] = d.get(x, 0) + y
        elif isinstance(v, set):
            a.setdefault(k, set()).update(v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        else:
            a[k] = a.get(k, 0) + v


def batch(pid, base, start, n, nproc, wall):
    """Runs start..start+n-1. Returns (aggregate, violations sorted by run, errors)."""
    ctx = multiprocessing.get_context("fork")
    deadline = time.time() + wall
    procs = []
    for j in range(nproc):
        r, wconn = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(pid, base, range(start + j, start + n, nproc), wconn, deadline))
        p.start()
        wconn.close()
        procs.append((p, r))
    agg, viol, errors = {}, [], []
    from multiprocessing.connection import wait
    live = {r: p for p, r in procs}
    while live:
        ready = wait(list(live), timeout=max(1, deadline + 60 - time.time()))
        if not ready:
            errors.append("workers did not finish in time")
            for p in live.values():
                p.kill()
            break
        for r in ready:
            try:
                m = r.recv()
            except EOFError:
                p = live.pop(r)
                p.join()
                errors.append("a worker died (exit code %s)" % p.exitcode)
                continue
            if m[0] == "violation":
                viol.append(m[1:])
            elif m[0] == "error":
                errors.append(m[1])
                live.pop(r)
            else:
                merge(agg, m[1])
                live.pop(r)
    for p, r in procs:
        p.join(5)
    viol.sort(key=lambda v: v[0])
    return agg, viol, errors


# ------------------------------------------------------------------ minimisation

def walk_ops(program):
    """Yields (container list, index) for every op, innermost last."""
    def rec(ops):
        for i, a in enumerate(ops):
            yield ops, i
            if "body" in a:
                yield from rec(a["body"])
            if "task" in a:
                yield from rec(a["task"]["ops"])
    for t in program["tasks"]:
        yield from rec(t["ops"])


def all_ids(program):
    return [ops[i]["id"] for ops, i in walk_ops(program)]


def without(program, ids):
    p = copy.deepcopy(program)

    def rec(ops):
        ops[:] = [a for a in ops if a["id"] not in ids]
        for a in ops:
            if "body" in a:
                rec(a["body"])
            if "task" in a:
                rec(a["task"]["ops"])
    for t in p["tasks"]:
        rec(t["ops"])
    return p


class Minimiser:
    def __init__(self, prop, program, trace, sig, budget_s=60, budget_n=6000):
        self.prop, self.program, self.trace, self.sig = prop, program, trace, sig
        self.end = time.time() + budget_s
        self.left = budget_n
        self.tried = 0
        self.rs = 12345

    def search(self, program, trace, seeds=6):
        """A trace with which the program still fails the same way: the given one, or one found by a few fresh
        seeds.  None if none was found."""
        if self.fails(program, trace):
            return trace
        for k in range(seeds):
            if self.left <= 0 or time.time() > self.end or not self.prop.valid(program):
                return None
            self.left -= 1
            self.tried += 1
            self.rs += 1
            try:
                o = execute(self.prop, program, seed=self.rs)
            except (Exception, HarnessError):
                return None
            ok = o.violation is not None and o.violation[0] == self.sig
            tr = o.w.sched.ch.trace()
            cleanup(o)
            if ok and self.fails(program, tr):
                return tr
        return None

    def fails(self, program, trace):
        if self.left <= 0 or time.time() > self.end:
            return False
        if not self.prop.valid(program):
            return False
        self.left -= 1
        self.tried += 1
        try:
            o = execute(self.prop, program, trace=trace)
        except Exception:
            return False
        except HarnessError:
            return False
        ok = o.violation is not None and o.violation[0] == self.sig
        cleanup(o)
        return ok

    def shrink_list(self, items, test):
        """Greedy ddmin: the smallest sublist found for which test(sublist) holds."""
        n = max(1, len(items) // 2)
        while items and n >= 1:
            i = 0
            changed = False
            while i < len(items):
                cand = items[:i] + items[i + n:]
                if test(cand):
                    items = cand
                    changed = True
                else:
                    i += n
            if n == 1 and not changed:
                break
            n = max(1, n // 2) if n > 1 else (1 if changed else 0)
        return items

    def run(self):
        p, t = self.program, self.trace
        for _ in range(4):
            before = (len(all_ids(p)), len(t["switches"]), len(t["faults"]), len(p["tasks"]))
            # tasks
            for td in list(p["tasks"]):
                q = dict(p, tasks=[x for x in p["tasks"] if x["name"] != td["name"]])
                if len(q["tasks"]):
                    tr = self.search(q, t)
                    if tr is not None:
                        p, t = q, tr
            # operations
            ids = all_ids(p)
            full = p
            cur = [t]

            def test(c):
                tr = self.search(without(full, set(ids) - set(c)), cur[0])
                if tr is None:
                    return False
                cur[0] = tr
                return True
            keep = self.shrink_list(ids, test)
            p, t = without(full, set(ids) - set(keep)), cur[0]
            # faults, then switches
            f = self.shrink_list(list(t["faults"]), lambda c: self.fails(p, dict(t, faults=c)))
            t = dict(t, faults=f)
            if self.fails(p, dict(t, switches=[])):
                t = dict(t, switches=[])
            s = self.shrink_list(list(t["switches"]), lambda c: self.fails(p, dict(t, switches=c)))
            t = dict(t, switches=s)
            # unwrap bodies, simplify arguments
            p, t = self.simplify(p, t)
            if (len(all_ids(p)), len(t["switches"]), len(t["faults"]), len(p["tasks"])) == before:
                break
        used = self.used_procs(p)
        q = dict(p, procs=[x for x in p.get("procs", ["P0"]) if x in used])
        if q["procs"] != p.get("procs") and self.fails(q, t):
            p = q
        return p, t

    def used_procs(self, p):
        return {td["proc"] for td in p["tasks"]}

    def simplify(self, p, t):
        for key, vals in (("data", None), ("length", (None, 1)), ("offset", (0,)), ("timeout", (None, 0)), ("n", (0, 1)),
                          ("buffering", (None,)), ("thread_safe", (False,)), ("whence", (0,)), ("raise", (None,)),
                          ("s", (0.01,)), ("body", None), ("start", (None,))):
            for idn in all_ids(p):
                q = copy.deepcopy(p)
                a = next(ops[i] for ops, i in walk_ops(q) if ops[i]["id"] == idn)
                if key not in a or key in a.get("fixed", ()) or key == "thread_safe" and a.get("shared_var"):
                    continue
                cands = []
                if vals is None:
                    d = a[key]
                    if key == "body":
                        continue
                    if isinstance(d, str) and len(d) > 1:
                        cands = [d[:1], d[:len(d) // 2]]
                else:
                    cands = [v for v in vals if v != a[key]]
                for v in cands:
                    if v is None:
                        a.pop(key, None)
                    else:
                        a[key] = v
                    tr = self.search(q, t, 2)
                    if tr is not None:
                        p, t = q, tr
                        break
                    q = copy.deepcopy(p)
                    a = next(ops[i] for ops, i in walk_ops(q) if ops[i]["id"] == idn)
        return p, t


# ------------------------------------------------------------------ replay files

def write_replay(pid, seed, run, program, trace, violation, history, digest, extra=None):
    os.makedirs(OUT, exist_ok=True)
    h = hashlib.blake2b(json.dumps([program, trace], sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(OUT, "replay-%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(dict(property=pid, seed=seed, run=run, signature=violation[0], violation=violation[1], program=program,
                       schedule_and_faults=trace, digest=digest, history=history, **(extra or {})), f, indent=1)
        f.write("\n")
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d.get("kind") == "custom":
        return importlib.import_module("dst.props." + d["property"].lower()).PROP.replay(d), d
    prop = load_prop(d["property"])
    o = execute(prop, d["program"], trace=d["schedule_and_faults"])
    return o, d


# ------------------------------------------------------------------ known findings

_known = {}


def known_sigs(pid):
    if pid not in _known:
        _known[pid] = {s for s, _ in known_findings(pid)}
    return _known[pid]


def known_findings(pid):
    """Lines 'finding: property=<id> signature=<sig> | <what>' of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                sig, _, what = line[len("finding: property=%s " % pid):].strip().partition(" | ")
                out.append((sig.partition("signature=")[2], what))
    return out


def check(pid, tier, seed, nproc=None, runs=None, wall=None, quiet=False):
    prop = load_prop(pid)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _on_alarm)
    n = runs or (prop.quick if tier == "quick" else prop.thorough)
    wall = wall or (float(os.environ.get("VERIF_WALL", 0)) or (400 if tier == "quick" else 3600))
    nproc = nproc or int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    agg, viol, errors = batch(pid, seed, 0, n, nproc, wall)
    nviol = 0
    code = 0
    messages = []
    if viol:
        i, rseed, violation, program, trace = viol[0]
        o = execute(prop, program, trace=trace)
        if o.violation is None or o.violation[0] != violation[0]:
            errors.append("run %d (seed %d) reported %r but its replay gave %r" % (i, rseed, violation, o.violation))
        else:
            cleanup(o)
            mini = Minimiser(prop, program, trace, violation[0], budget_s=60 if tier == "quick" else 240)
            try:
                p2, t2 = mini.run()
                o = execute(prop, p2, trace=t2)
            except Exception:  # an unminimised violation is as good
                traceback.print_exc()
                o.violation = None
            if o.violation is None:
                p2, t2 = program, trace
                o = execute(prop, p2, trace=t2)
            path = write_replay(pid, rseed, i, p2, t2, o.violation, o.w.trace_text(), o.w.sched.digest(),
                                dict(minimised_with_executions=mini.tried))
            nviol = 1
            code = 1
            messages.append("property %s violated: %s" % (pid, o.violation[0]))
            messages.append("  " + str(o.violation[1]))
            messages.append("  run %d, seed %d, minimised to %d operations, %d switches, %d faults" % (
                i, rseed, len(all_ids(p2)), len(t2["switches"]), len(t2["faults"])))
            for h in o.w.trace_text(30):
                messages.append("    " + h)
            messages.append("VIOLATION property=%s replay=%s" % (pid, path))
    if errors and not viol:
        code = 2
    if agg.get("runs", 0) == 0 and not viol:
        code = 2
        errors.append("no run completed")
    wall_s = time.time() - t0
    for sig, what in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    cov = evidence(prop, tier, seed, agg, wall_s, nviol, nproc)
    if not quiet:
        print("%s %s seed=%s: %d runs (%d distinct non-trivial), %d operations, %d switches, %.0f simulated s, "
              "%.1f s wall" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], agg.get("ops", 0),
                               agg.get("switches", 0), agg.get("sim", 0) / NS, wall_s))
    for m in messages:
        print(m)
    for e in errors[:1]:
        print("CHECK ERROR:", e, file=sys.stderr)
    sys.stdout.flush()
    return code, agg


def evidence(prop, tier, seed, agg, wall_s, nviol, nproc):
    runs = agg.get("runs", 0)
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(agg.get("digests", ())),
        rule=(prop.rule + " " if prop.rule else "") +
        "One case is one simulated run: a seeded generator draws a program (processes, threads, operations, "
        "configuration) and the seeded scheduler draws every interleaving and fault. Distinct: different digest of "
        "the recorded history (results, order, times, number of schedule points); non-trivial: the scheduler switched "
        "threads inside an operation, or a fault was injected.",
        samples=agg.get("samples", [])[:2],
        runs_per_hour=int(runs / wall_s * 3600) if wall_s else 0,
        simulated_seconds=round(agg.get("sim", 0) / NS, 3),
        operations=agg.get("ops", 0), context_switches=agg.get("switches", 0), kernel_schedule_points=agg.get("points", 0),
        line_schedule_points=agg.get("lines", 0), faults_injected=dict(sorted(agg.get("faults", {}).items())),
        outcomes_by_operation=dict(sorted(agg.get("oktypes", {}).items())), run_endings=agg.get("status", {}),
        oracle_statistics=agg.get("stats", {}), nontrivial_runs=agg.get("nontrivial", 0), worker_processes=nproc,
        components_real=prop.real, components_stubbed=prop.stub)
    d = dict(property=prop.id, tier=tier, seed=int(seed), level=prop.level, coverage=cov, wall_s=round(wall_s, 3),
             violations=nviol, assumptions=list(prop.assumptions))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    return cov
