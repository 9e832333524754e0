"""Simulation kernel: one seeded scheduler, one event log, one virtual clock.

Tasks are real threads of which exactly one runs at any time.  They hand
control over only at event points (simulated I/O, entropy, key derivation,
prompt, network) and - in runs that ask for it - at source lines or bytecodes
of the package under test.  Who runs next is decided here, by the plan.
"""

import _thread
import collections
import hashlib
import random
import sys
import threading

SIM = None  # the running simulation, or None

REAL_WAIT = 60.0  # wall seconds without any event before a run counts as hung


class SimCrash(BaseException):
    """Raised inside a simulated process that was killed."""


class HarnessError(Exception):
    """The harness is wrong or was used wrongly; never a property violation."""


class Hang(Exception):
    """No simulated event for REAL_WAIT wall seconds."""


class StepCap(Exception):
    """More events than the run may take: no progress."""


class Task:
    def __init__(self, sim, tid, name, fn, proc, trace):
        self.sim = sim
        self.tid = tid
        self.name = name
        self.fn = fn
        self.proc = proc
        self.trace = trace
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"
        self.pred = None
        self.killed = False
        self.result = None
        self.error = None
        self.thread = None
        self.helper = False  # started by the package itself; may be left waiting


class Proc:
    """A simulated operating system process (or one library-using program)."""

    def __init__(self, sim, name, home, faults=(), seg=None, unbuffered=False, passwords=()):
        self.sim = sim
        self.name = name
        self.home = home
        self.version = "study"
        self.alive = True
        self.crashed = False
        self.io = 0
        self.faults = {}
        self.dyn = []  # faults placed at the nth event of a kind and target
        for f in faults:
            if "nth" in f:
                self.dyn.append([f, 0])
            else:
                self.faults.setdefault(f["at"], f)
        self.seg = seg or {}
        self.segrng = random.Random("seg:%s" % self.seg.get("seed", 0))
        self.unbuffered = unbuffered
        self.passwords = list(passwords)
        self.prompts = 0
        self.stdin = self.stdout = self.stderr = None
        self.osfds = {}  # descriptors from os.open -> what they mean
        self.fdnames = {}
        self.dups = {}  # descriptors that os.dup made of standard streams
        self.umask = 0o022
        self.modules = {}
        self.fired = []
        self.events = []
        self.sticky = {}  # target -> errno, persistent device faults
        self.closers = []
        self.code = None
        self.pending_int = False
        self.noyield = ()  # streams shared by threads: their buffers hold real locks

    def readcap(self, n):
        m = self.seg.get("read")
        if not m or n is None or n < 0:
            return n
        if m == "rand":
            return min(n, self.segrng.choice((1, 2, 3, 7, 15, 16, 17, 64, 100, 1000, 4096, 65536)))
        return min(n, m)

    def writecap(self, n):
        m = self.seg.get("write")
        if not m:
            return n
        if m == "rand":
            return max(1, min(n, self.segrng.choice((1, 2, 15, 16, 63, 64, 1000, 8192, 65536, 1 << 30))))
        return max(1, min(n, m))


class Sim:
    def __init__(self, plan=None, root=None):
        plan = plan or {}
        self.plan = plan
        self.root = root
        self.entropy = random.Random("entropy:%s" % plan.get("entropy", 0))
        self.narrow = plan.get("narrow") or 0
        self.narrowcount = 0
        self.hashseed = plan.get("hashseed", 0)
        self.hashcount = 0
        self.dirseed = plan.get("dirseed", 0)
        self.now = float(plan.get("t0", 1573380000.0))
        self.t0 = self.now
        self.clock_steps = list(plan.get("clock", ()))
        self.h = hashlib.sha256()
        self.log = collections.deque(maxlen=400)
        self.nlog = 0
        self.kinds = hashlib.sha256()
        self.kindcount = collections.Counter()
        self.steps = 0
        self.cap = plan.get("cap", 400000)
        self.lines = 0
        self.tasks = []
        self.procs = []
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        s = plan.get("sched") or {}
        self.srng = random.Random("sched:%s" % s.get("seed", 0))
        self.p_io = s.get("p_io", 0.0)
        self.p_line = s.get("p_line", 0.0)
        self.fixed = None
        if s.get("mode") == "list":
            self.fixed = {}
            for step, tid in s["switches"]:
                self.fixed[step] = tid
        self.switches = []
        self.deadlock = False
        self.capped = False
        self.heartbeat = 0
        self.aead = []
        self.hollow = None
        self.kdf = []
        self.drawn = []
        self.net = []
        self.world = {}
        self.wrote = {} if plan.get("record") else None  # file -> what was written to it
        self.fired = collections.Counter()
        self.real_kdf = bool(plan.get("real_kdf"))
        self.events_alloc = bool(plan.get("alloc_events"))
        self.bufsize = plan.get("bufsize")

    # -- log ---------------------------------------------------------------
    def note(self, *parts):
        line = "|".join(str(p) for p in parts)
        self.h.update(line.encode("utf-8", "backslashreplace") + b"\n")
        self.log.append(line)
        self.nlog += 1

    def digest(self):
        return self.h.hexdigest()

    # -- time --------------------------------------------------------------
    def clock(self):
        """Read the virtual clock; planned jumps happen at reads."""
        if self.clock_steps:
            self.now += self.clock_steps.pop(0)
        return self.now

    # -- tasks -------------------------------------------------------------
    def proc(self, *a, **k):
        p = Proc(self, *a, **k)
        self.procs.append(p)
        return p

    def spawn(self, name, fn, proc, trace=None):
        t = Task(self, len(self.tasks), name, fn, proc, trace)
        self.tasks.append(t)
        if SIM is self:
            # started by a running task: it may be scheduled from now on
            t.thread = True
            _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.lock.acquire()
        try:
            if not t.killed:
                if t.trace:
                    sys.settrace(t.trace)
                t.result = t.fn()
        except SimCrash as e:
            e.__traceback__ = None
            t.error = "crash"
        except StepCap as e:
            e.__traceback__ = None
            self.capped = True
            t.error = "cap"
        except BaseException as e:  # a harness bug: tasks catch what they expect
            t.error = e
        finally:
            sys.settrace(None)
            t.state = "done"
            t.fn = None
            self._next(t, forced=True, final=True)

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and (t.killed or t.pred()):
                out.append(t)
        return out

    def _runnable_others(self):
        return [t for t in self.tasks if t.state == "ready" and t is not self.cur]

    def _choose(self, cur, forced):
        """The scheduling decision.  Returns the task to run or None."""
        if self.fixed is not None:
            want = self.fixed.get(self.steps)
            if not forced and want is None:
                return cur
            run = self._runnable()
            if not run:
                return None
            for t in run:
                if t.tid == want:
                    self.switches.append([self.steps, t.tid])
                    return t
            return cur if not forced else run[0]
        run = self._runnable()
        if not run:
            return None
        if len(run) == 1:
            t = run[0]
        else:
            others = [t for t in run if t is not cur] if not forced else run
            t = self.srng.choice(others or run)
        if t is not cur:
            self.switches.append([self.steps, t.tid])
        return t

    def _ctx_out(self, t):
        from . import seams

        seams.leave_proc(t.proc)

    def _ctx_in(self, t):
        from . import seams

        seams.enter_proc(t.proc)

    def _next(self, cur, forced, final=False):
        """Hand control to another task (or to main when none can run)."""
        nxt = self._choose(cur, forced)
        if nxt is cur and not final:
            if cur.state == "blocked":
                cur.state = "ready"
            return
        if nxt is None or nxt.proc is not cur.proc:
            self._ctx_out(cur)
        if nxt is None:
            self.cur = None
            self.main.release()
        else:
            nxt.state = "ready"
            self.cur = nxt
            if nxt.proc is not cur.proc:
                self._ctx_in(nxt)
            nxt.lock.release()
        if final:
            return
        cur.lock.acquire()
        if cur.killed:
            raise SimCrash()

    def run(self):
        """Run all tasks to completion (or deadlock)."""
        global SIM
        if SIM is not None:
            raise HarnessError("nested simulation")
        from . import seams

        saved = seams.save_context()
        SIM = self
        old_stack = threading.stack_size()
        try:
            for t in self.tasks:
                if t.thread is None:
                    t.thread = True
                    _thread.start_new_thread(self._body, (t,))
            nxt = self._choose(None, True)
            if nxt is not None:
                self._resume(nxt)
            while True:
                left = [t for t in self.tasks if t.state != "done"]
                if not left:
                    break
                # nothing can run: deadlock; kill what is left, one at a time
                if any(not t.helper for t in left):
                    self.deadlock = True
                t = left[0]
                self.note("deadlock", t.name)
                for x in left:
                    x.killed = True
                    x.proc.alive = False
                self._resume(t)
        finally:
            SIM = None
            self.cur = None
            seams.restore_context(saved)
            threading.stack_size(old_stack)
        for t in self.tasks:
            if isinstance(t.error, BaseException):
                raise HarnessError("task %s failed: %r" % (t.name, t.error)) from t.error

    def _resume(self, t):
        t.state = "ready"
        self.cur = t
        self._ctx_in(t)
        t.lock.release()
        last = -1
        while not self.main.acquire(timeout=REAL_WAIT):
            if self.heartbeat == last:
                raise Hang("no event for %gs" % REAL_WAIT)
            last = self.heartbeat

    # -- event points --------------------------------------------------------
    def tick(self):
        self.steps += 1
        self.heartbeat += 1
        if self.steps > self.cap:
            self.capped = True
            raise StepCap()

    def line_point(self):
        t = self.cur
        if t is None:
            return
        self.tick()
        self.lines += 1
        if len(self.tasks) > 1:
            if self.fixed is not None:
                if self.steps in self.fixed:
                    self._next(t, False)
            elif self.p_line and self.srng.random() < self.p_line:
                self._next(t, False)

    def event(self, proc, kind, target="", size=0):
        """An observable action of `proc`.  May switch tasks; returns a fault."""
        t = self.cur
        if t is None:
            raise HarnessError("event outside a task: %s %s" % (kind, target))
        self.tick()
        if not proc.alive:
            raise SimCrash()
        proc.io += 1
        idx = proc.io
        proc.events.append((idx, kind, target))
        self.note(proc.name, idx, kind, target, size)
        self.kinds.update(("%s:%s;" % (proc.name, kind)).encode())
        self.kindcount[kind] += 1
        if len(self.tasks) > 1 and target not in proc.noyield:
            if self.fixed is not None:
                if self.steps in self.fixed:
                    self._next(t, False)
            elif self.p_io and self.srng.random() < self.p_io:
                self._next(t, False)
            if not proc.alive:
                raise SimCrash()
        if proc.pending_int:
            proc.pending_int = False
            raise KeyboardInterrupt()
        f = proc.faults.get(idx)
        for d in proc.dyn:
            g = d[0]
            want = g.get("target")
            if kind == g["on"] and (want is None or target == want or target.startswith(want + ":")):
                d[1] += 1
                if d[1] == g["nth"] and f is None:
                    f = dict(g, at=idx)
        return f

    def fire(self, proc, f, what):
        proc.fired.append((f["at"], what))
        self.fired[what] += 1
        self.note("FAULT", proc.name, f["at"], what)
        self.kinds.update(("!%s;" % what).encode())

    def kill(self, proc):
        proc.alive = False
        proc.crashed = True
        raise SimCrash()

    def tracer(self, opcodes=False):
        """A trace function that makes lines (or bytecodes) of the package preemptible."""
        from . import image

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.line_point()
            return local

        def enter(frame, event, arg):
            code = frame.f_code
            if image.is_age_code(code.co_filename) and code.co_name != "<module>":
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return enter

    def interrupter(self, nth=None):
        """A trace function that counts package lines and interrupts at the nth."""
        from . import image

        self.atline = None
        self.where = {}

        def local(frame, event, arg):
            if event == "line":
                self.lines += 1
                if nth == 0:
                    self.where.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.lines)
                if self.lines == nth:
                    t = self.cur
                    self.atline = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                    self.fire(t.proc, {"at": t.proc.io}, "interrupt-at-line")
                    raise KeyboardInterrupt()
                self.heartbeat += 1
            return local

        def enter(frame, event, arg):
            code = frame.f_code
            if image.is_age_code(code.co_filename) and code.co_flags & 1:
                return local
            return None

        return enter

    def pick_line(self, u, v):
        """One of the lines seen, all places in the source alike."""
        g = sorted(self.where.items())
        if not g:
            return 0
        at = g[int(u * len(g))][1]
        return at[int(v * len(at))]

    def block(self, pred):
        t = self.cur
        while not pred():
            self.tick()
            t.state = "blocked"
            t.pred = pred
            self._next(t, True)
        t.state = "ready"
        t.pred = None
