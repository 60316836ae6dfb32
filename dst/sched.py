"""Deterministic scheduler: real threads parked and released one at a time; a seeded (or replayed) chooser decides
every switch and every fault.  Simulated time is an integer number of nanoseconds."""
import random
import sys
import threading
from hashlib import blake2b

NS = 1_000_000_000
SYSCALL_COST = 2_000  # ns of simulated time per simulated kernel call


class SimAbort(BaseException):
    """Unwinds a simulated thread when its run is over."""


class SimKill(SimAbort):
    """Unwinds a simulated thread whose process died."""


class SimInterrupt(KeyboardInterrupt):
    """What a signal handler raises inside a blocked call."""


class HarnessError(BaseException):
    """The simulator cannot carry on: never a verdict on the code under test."""


class Chooser:
    """All nondeterminism of a run: scheduling and faults.

    Random mode draws from one PRNG and records every decision that differs from the default (carry on with the current
    task; no fault).  Replay mode looks decisions up by (task, operation, local counter) and never draws."""

    def __init__(self, seed=None, cfg=None, trace=None):
        self.cfg = cfg or {}
        self.replay = trace is not None
        self.switches = {}
        self.faults = {}
        if self.replay:
            for t, o, k, target in trace.get("switches", ()):
                self.switches[(t, o, k)] = target
            for t, o, k, f in trace.get("faults", ()):
                self.faults[(t, o, k)] = tuple(f)
            self.line_left = 0
        else:
            self.rng = random.Random(seed)
            self.line_gap = self.cfg.get("line_gap", 0)  # mean number of source lines between forced looks, 0: never
            self.p_sys = self.cfg.get("p_sys", 0.2)
            self.p_park = self.cfg.get("p_park", 0.0)
            self.fault_rates = self.cfg.get("faults") or {}
            self.max_faults = self.cfg.get("max_faults", 3)
            self.nfaults = 0
            self.new_line_gap()

    def new_line_gap(self):
        if self.line_gap:
            self.line_left = 1 + int(self.rng.expovariate(1.0 / self.line_gap))
        else:
            self.line_left = 1 << 60

    def trace(self):
        return dict(switches=[[t, o, k, x] for (t, o, k), x in self.switches.items()],
                    faults=[[t, o, k, list(f)] for (t, o, k), f in self.faults.items()])


class Task:
    def __init__(self, sched, name, proc, fn):
        self.sched, self.name, self.proc, self.fn = sched, name, proc, fn
        self.index = len(sched.tasks)
        self.sem = threading.Semaphore(0)
        self.state = "runnable"  # runnable, blocked, done, dead (its process was killed)
        self.deadline = None
        self.woken = False
        self.op = 0        # index of the current operation
        self.pt = 0        # schedule points passed within this operation
        self.sysno = 0     # kernel calls made within this operation
        self.parked = False
        self.why = None    # what it is blocked on
        self.intr_at = None  # simulated time at which a blocked call gets interrupted
        self.harness = 0   # >0: running harness code inside a library callback
        self.nofault = False
        self.thread = None
        self.error = None
        self.waited = 0    # total simulated ns spent blocked

    def set_op(self, i):
        self.op, self.pt, self.sysno = i, 0, 0


class Scheduler:
    def __init__(self, chooser, max_points=60_000, max_lines=3_000_000, max_time=None):
        self.ch = chooser
        self.tasks = []
        self.current = None
        self.now = 1_000 * NS      # monotonic
        self.wall_skew = 1_700_000_000 * NS  # wall = now + skew
        self.points = 0
        self.lines = 0
        self.switches = 0
        self.max_points, self.max_lines = max_points, max_lines
        self.max_time = max_time
        self.aborting = False
        self.status = None
        self.main = threading.Semaphore(0)
        self.log = []
        self.seq = 0
        self.boot_proc = None
        self.fault_counts = {}
        self.total_delay = 0  # injected into kernel calls
        self.fault_log = []   # (task, operation, kernel call, fault)
        self.fatal = None
        self.hooks = []       # called after every kernel call: fn(task, name)
        self.timers = []      # (time, n, fn): harness events, run by whoever advances the clock
        self.ntimer = 0

    # ---- tasks
    def spawn(self, name, proc, fn):
        t = Task(self, name, proc, fn)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _main(self, t):
        t.sem.acquire()
        if not self.aborting:
            try:
                t.fn(t)
            except SimAbort:
                pass
            except BaseException as e:  # a harness bug, or something escaping the operation interpreter
                t.error = e
                self.fatal = self.fatal or e
        t.fn = None
        t.state = "done"
        if self.aborting:
            self.main.release()
            return
        t.set_op("end")
        try:
            nxt = self._next(t)
        except SimAbort:
            nxt = None
        self._transfer_out(nxt)

    def _transfer_out(self, nxt):
        if nxt is None:
            self.current = None
            self.main.release()
        else:
            self.current = nxt
            nxt.sem.release()

    def run(self):
        """Runs until every task is done, everything is stuck, or a cap is reached. Returns the status."""
        if self.tasks:
            first = self._pick(None, [t for t in self.tasks if t.state == "runnable"])
            self.current = first
            first.sem.release()
            self.main.acquire()
        self.current = None
        if self.status is None:
            self.status = "done"
        # unwind whatever is still parked
        self.aborting = True
        for t in self.tasks:
            if t.state != "done":
                t.sem.release()
                self.main.acquire()
        for t in self.tasks:
            t.thread.join()
        if self.fatal is not None:
            raise self.fatal
        return self.status

    def stop(self, status):
        """Ends the run from inside the current task."""
        if self.status is None:
            self.status = status
        t = self.current
        self.current = None
        self.aborting = True
        self.aborter = t
        # the main thread unwinds the other tasks; this one unwinds by itself
        raise SimAbort

    # ---- choosing
    def _pick(self, t, runnable, cont=None):
        """Next task to run.  cont: the current task, if it can carry on (then it is the default)."""
        ch = self.ch
        if cont is not None:
            default = cont
        else:
            default = runnable[0]
            if t is not None:
                for r in runnable:
                    if r.index > t.index:
                        default = r
                        break
        key = (t.name, t.op, t.pt) if t is not None else ("", 0, 0)
        if ch.replay:
            name = ch.switches.get(key)
            if name is not None:
                for r in runnable:
                    if r.name == name:
                        return r
            return default
        rng = ch.rng
        cands = runnable
        if cont is not None:
            cands = [r for r in runnable if r is not cont] or runnable
        free = [r for r in cands if not r.parked]
        if not free:
            for r in cands:
                r.parked = False
            free = cands
        elif ch.p_park and rng.random() < 0.02:
            for r in cands:
                r.parked = False
            free = cands
        choice = free[rng.randrange(len(free))] if len(free) > 1 else free[0]
        if cont is not None and choice is not cont and ch.p_park and rng.random() < ch.p_park:
            cont.parked = True
        if choice is not default:
            ch.switches[key] = choice.name
        return choice

    def _advance(self):
        """Nothing is runnable: jump to the next timer. False if there is none."""
        nxt = None
        for t in self.tasks:
            if t.state == "blocked" and t.deadline is not None and (nxt is None or t.deadline < nxt):
                nxt = t.deadline
        for tm in self.timers:
            if nxt is None or tm[0] < nxt:
                nxt = tm[0]
        if nxt is None:
            return False
        if nxt > self.now:
            self.now = nxt
        self._expire()
        return True

    def _expire(self):
        now = self.now
        while self.timers:
            tm = min(self.timers)
            if tm[0] > now:
                break
            self.timers.remove(tm)
            tm[2]()
        for t in self.tasks:
            if t.state == "blocked" and t.deadline is not None and t.deadline <= now:
                t.state = "runnable"
                t.deadline = None

    def at(self, when, fn):
        self.ntimer += 1
        self.timers.append((when, self.ntimer, fn))

    def _next(self, t):
        """The task to run once t cannot carry on (None: the run is over)."""
        self._expire()
        while True:
            runnable = [x for x in self.tasks if x.state == "runnable"]
            if runnable:
                return self._pick(t, runnable)
            if all(x.state in ("done", "dead") for x in self.tasks):
                return None
            if not self._advance():
                self.status = "stuck"
                return None
            if self.max_time is not None and self.now > self.max_time:
                self.status = "timeout"
                return None

    def _switch(self, t, nxt):
        if nxt is t:
            return
        self.switches += 1
        self.current = nxt
        if nxt is None:
            self.main.release()
        else:
            nxt.sem.release()
        t.sem.acquire()
        self._check(t)

    def _check(self, t):
        if self.aborting:
            raise SimAbort
        if t.proc is not None and t.proc.dead:
            raise SimKill

    # ---- called by the simulated stdlib
    def task(self):
        """The running task; raises if the run is over or its process is dead."""
        t = self.current
        if t is None:
            raise SimAbort
        if t.proc is not None and t.proc.dead:
            raise SimKill
        return t

    def point(self, what=None):
        """A place where another task may run."""
        t = self.current
        if t is None:
            raise SimAbort
        if t.proc is not None and t.proc.dead:
            raise SimKill
        if t.harness:
            return t
        self.points += 1
        t.pt += 1
        if self.points > self.max_points:
            self.stop("livelock")
        ch = self.ch
        if self.timers:
            self._expire()
        if ch.replay:
            if (t.name, t.op, t.pt) not in ch.switches:
                return t
        elif ch.rng.random() >= ch.p_sys:
            return t
        self._expire()
        if t.proc is not None and t.proc.dead:
            raise SimKill
        runnable = [x for x in self.tasks if x.state == "runnable"]
        if len(runnable) > 1:
            self._switch(t, self._pick(t, runnable, t))
        return t

    def line(self):
        """A source line of the code under test is about to run."""
        t = self.current
        if t is None or t.harness or self.aborting:
            return
        if t.proc is not None and t.proc.dead:
            raise SimKill
        self.lines += 1
        t.pt += 1
        ch = self.ch
        if ch.replay:
            if (t.name, t.op, t.pt) not in ch.switches:
                if self.lines > self.max_lines:
                    self.stop("livelock")
                return
        else:
            ch.line_left -= 1
            if ch.line_left > 0:
                if self.lines > self.max_lines:
                    self.stop("livelock")
                return
            ch.new_line_gap()
        runnable = [x for x in self.tasks if x.state == "runnable"]
        if len(runnable) > 1:
            self._switch(t, self._pick(t, runnable, t))

    def block(self, why, deadline=None, interruptible=False):
        """Parks the current task until wake() or the deadline. Returns True if woken, False on deadline."""
        t = self.task()
        t.pt += 1
        self.points += 1
        if self.points > self.max_points:
            self.stop("livelock")
        t.state = "blocked"
        t.woken = False
        t.why = why
        intr = interruptible and t.intr_at is not None
        t.deadline = deadline
        if intr and (deadline is None or t.intr_at < deadline):
            t.deadline = t.intr_at
        began = self.now
        nxt = self._next(t)
        if nxt is not t:
            self._switch(t, nxt)
        elif self.aborting or (t.proc is not None and t.proc.dead):
            self._check(t)
        if t.proc is not None and t.proc.dead:
            raise SimKill
        t.state = "runnable"
        t.deadline = None
        t.why = None
        t.waited += self.now - began
        if intr and not t.woken and self.now >= t.intr_at and (deadline is None or self.now < deadline):
            t.intr_at = None
            self.count("interrupt")
            raise SimInterrupt()
        return t.woken

    def wake(self, t):
        if t.state == "blocked":
            t.state = "runnable"
            t.deadline = None
            t.woken = True

    def syscall(self, name):
        """Entry of every simulated kernel call: schedule point, fault decision. Returns (task, fault or None)."""
        t = self.point(name)
        t.sysno += 1
        self.now += SYSCALL_COST
        ch = self.ch
        f = None
        if t.nofault or t.harness:
            return t, None
        key = (t.name, t.op, t.sysno)
        if ch.replay:
            f = ch.faults.get(key)
        elif ch.fault_rates and ch.nfaults < ch.max_faults:
            rules = ch.fault_rates.get(name)
            if rules:
                for kind, rate in rules:
                    if ch.rng.random() < rate:
                        f = self._make_fault(kind)
                        ch.nfaults += 1
                        ch.faults[key] = f
                        break
        if f is not None:
            self.fault_log.append((t.name, t.op, name, f))
            self.count(name + ":" + str(f[0]) + (":" + str(f[1]) if f[0] == "err" else ""))
            if f[0] == "delay":
                self.total_delay += f[1]
                self.block("delay", self.now + f[1])
            elif f[0] == "clock":
                self.wall_skew += f[1]
            elif f[0] == "kill":
                t.proc.kill()
                raise SimKill
        return t, f

    def _make_fault(self, kind):
        rng = self.ch.rng
        if kind == "short":
            return ("short", rng.randrange(1, 1000))  # permille of the request
        if kind == "delay":
            return ("delay", int(NS * rng.choice([0.0001, 0.01, 0.3, 2.0])))
        if kind == "clock":
            return ("clock", int(NS * rng.choice([-1, 1]) * rng.choice([0.05, 0.7, 5, 3600, 1e6])))
        if isinstance(kind, int):
            return ("err", kind)
        return (kind,)

    def count(self, what):
        self.fault_counts[what] = self.fault_counts.get(what, 0) + 1

    def record(self, *event):
        self.seq += 1
        self.log.append(event)
        return self.seq

    def digest(self):
        h = blake2b(digest_size=12)
        for e in self.log:
            h.update(repr(e).encode("utf-8", "surrogatepass"))
        h.update(repr((self.points, self.lines, self.now)).encode())
        return h.hexdigest()
