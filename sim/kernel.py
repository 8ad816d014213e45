"""The simulation kernel: one seeded source of every decision.

A `Kernel` owns

* the random streams (one independent stream per purpose, all derived from one seed),
* the event log: every seam call (file operation, pipe read, child process step, lock
  operation, ...) is one numbered event of the current scenario step,
* the fault plan: {(scenario step, event ordinal): fault},
* the virtual clock,
* the cooperative scheduler for simulated threads and sessions.

Nothing in here knows about elsie.
"""
import _thread
import hashlib
import random
import sys


class SimError(Exception):
    """The simulator itself is in trouble (never a verdict about the code under test)."""


class SimCrash(BaseException):
    """The simulated process was killed; unwinds its Python frames without any effect."""


class SimHang(BaseException):
    """The operation cannot make progress any more (deadlock or endless loop)."""


class SimAbort(BaseException):
    """Tears down the remaining tasks at the end of a run."""


class Interrupt(KeyboardInterrupt):
    """An injected Ctrl-C."""


class Fault:
    __slots__ = ("kind", "arg", "step", "op", "fired", "site", "info", "sess",
                 "task")

    def __init__(self, kind, arg=None, step=None, op=None):
        self.kind = kind
        self.arg = arg
        self.step = step
        self.op = op
        self.fired = False
        self.site = None
        self.info = ""
        self.sess = None
        self.task = None


# which fault kinds make sense at which site (used by the fault planner)
BLOCKING = frozenset(
    ("open.r", "open.w", "read", "write", "pipe.read", "pipe.write", "wait", "tool")
)


class Task:
    def __init__(self, name, session=None):
        self.name = name
        self.session = session
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.pred = None  # blocked while not None and not pred()
        self.deadline = None
        self.error = None
        self.result = None
        self.prio = 0
        self.finish_cb = None


CURRENT = None  # the active kernel


class Kernel:
    MAX_EVENTS = 400_000
    MAX_EOF_READS = 3000

    def __init__(self, seed, root, faults=(), cfg=None):
        self.seed = seed
        self.root = root
        self.cfg = cfg or {}
        self._streams = {}
        self.clock = 1_700_000_000.0
        self.t0 = self.clock
        self.step = -1
        self.ordinal = 0
        self.total_events = 0
        self.log = hashlib.sha1()
        self.trace = [] if self.cfg.get("trace") else None
        self.profile = None  # list of (step, ordinal, site, cls) when profiling
        self.plan = {}
        for f in faults:
            self.plan.setdefault((f.step, f.op), []).append(f)
        self.fired = []
        self.sites = {}
        self.active_modules = None
        self.hang = None
        self.escapes = []
        self.disk_full = False  # persistent ENOSPC until the step ends
        # scheduler
        self.main = Task("main")
        self.tasks = [self.main]
        self.cur = self.main
        self.aborting = False
        self.switches = 0
        self.sched_hash = hashlib.sha1()
        self.strategy = self.cfg.get("sched", {})
        self.sched_steps = 0
        self._prng = None
        self.change_points = None
        self.low = 0
        self.multi = False
        self.on_event = None
        self.on_mutation = None
        self.muted = 0
        self.fdtable = {}
        self.svg_store = {}
        self.stats_procs = 0

    @property
    def session(self):
        return self.cur.session

    # ------------------------------------------------------------ randomness
    def rng(self, purpose):
        r = self._streams.get(purpose)
        if r is None:
            h = hashlib.sha256(f"{self.seed}/{purpose}".encode()).digest()
            r = self._streams[purpose] = random.Random(int.from_bytes(h[:8], "big"))
        return r

    # ------------------------------------------------------------ events
    def begin_step(self, n):
        self.step = n
        self.ordinal = 0
        self.disk_full = False
        self.note(f"#{n}")

    def note(self, text):
        self.log.update(text.encode("utf8", "replace"))
        if self.trace is not None:
            self.trace.append(text)

    def event(self, site, cls="", info="", session=None):
        """One seam event. Returns a site-specific fault to apply, or None."""
        if self.muted:
            return None
        if self.aborting and self.cur is not self.main:
            raise SimAbort()
        session = session or self.session
        if session is None:
            return None
        if session.dead:
            # effects of a dead process never reach the world; callers check `dead`
            return None
        self.total_events += 1
        n = self.ordinal
        self.ordinal = n + 1
        if self.total_events > self.MAX_EVENTS:
            self.declare_hang("event budget exceeded")
        key = site + ":" + cls
        self.sites[key] = self.sites.get(key, 0) + 1
        self.note(f"{n} {site} {cls} {info} {self.cur.name}")
        if self.profile is not None:
            self.profile.append((self.step, n, site, cls))
        self.clock += 0.0001
        if self.on_event is not None:
            self.on_event(site, cls, info)
        out = None
        for f in self.plan.get((self.step, n), ()):
            if f.fired:
                continue
            f.site = key
            f.info = info
            r = self._fire(f, site, cls, session)
            if r is not None:
                out = r
        if self.multi:
            self.yield_point()
        return out

    def mark_fired(self, f):
        if not f.fired:
            f.fired = True
            f.sess = self.session.name if self.session is not None else None
            f.task = self.cur.name
            self.fired.append(f)

    def _fire(self, f, site, cls, session):
        kind = f.kind
        if kind == "crash":
            if site in ("write", "replace", "tool", "open.w"):
                return f  # crash with a partial effect, applied by the seam
            self.crash(f, session)
        if kind == "interrupt":
            if site in BLOCKING and site != "tool" and self.cur is self.main:
                self.mark_fired(f)
                if f.arg:
                    session.interrupt_children()  # Ctrl-C in a terminal reaches them as well
                raise Interrupt()
            if site == "tool":
                return f
            return None
        if kind == "edit":
            self.mark_fired(f)
            f.arg["fn"]() if callable(f.arg.get("fn")) else self.cfg["edit"](f.arg)
            return None
        return f

    def crash(self, f, session):
        if f is not None:
            self.mark_fired(f)
        session.kill()
        raise SimCrash()

    def declare_hang(self, why):
        self.hang = self.hang or why
        raise SimHang(why)

    # ------------------------------------------------------------ scheduler
    def spawn(self, name, fn, session=None):
        """Starts a simulated thread; it runs only when the scheduler picks it."""
        task = Task(name, session)
        self.tasks.append(task)
        self.multi = True

        def body():
            task.gate.acquire()
            try:
                if not self.aborting:
                    self._install_trace()
                    task.result = fn()
            except SimAbort:
                pass
            except BaseException as e:  # recorded, judged by the oracle
                task.error = e
            finally:
                sys.settrace(None)
                task.done = True
                if task.finish_cb:
                    task.finish_cb(task)
                self._finish_switch()

        _thread.start_new_thread(body, ())
        return task

    tracer = None

    def _install_trace(self):
        if self.tracer is not None:
            sys.settrace(self.tracer)

    def _ready(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None or (t.session is not None and t.session.dead) or t.pred():
                out.append(t)
        return out

    def _choose(self, ready, may_stay=True):
        """Picks the next task according to the strategy of this run."""
        self.sched_steps += 1
        if len(ready) == 1:
            return ready[0]
        st = self.strategy
        kind = st.get("kind", "random")
        r = self.rng("sched")
        cur = self.cur
        if kind == "fifo":
            if may_stay and cur in ready:
                return cur
            return ready[0]
        if kind == "pct":
            if self.change_points is None:
                k = st.get("len", 400)
                self.change_points = {
                    r.randrange(1, k) for _ in range(st.get("depth", 3))
                }
            for t in ready:
                if t.prio == 0:
                    t.prio = 1 + r.random()
            if self.sched_steps in self.change_points and cur in ready:
                self.low -= 1
                cur.prio = self.low
            return max(ready, key=lambda t: t.prio)
        if kind == "sticky":
            if may_stay and cur in ready and r.random() >= st.get("p", 0.1):
                return cur
            return ready[r.randrange(len(ready))]
        return ready[r.randrange(len(ready))]

    def yield_point(self):
        if not self.multi or self.muted:
            return
        me = self.cur
        if self.aborting:
            if me is not self.main:
                raise SimAbort()
            return
        ready = self._ready()
        if me not in ready:
            ready.append(me)
        nxt = self._choose(ready)
        if nxt is not me:
            self._switch(me, nxt)
        self._check_me(me)

    def _check_me(self, me):
        if self.aborting and me is not self.main:
            raise SimAbort()
        if self.hang and me is not self.main:
            raise SimAbort()
        s = me.session
        if s is not None and s.dead and me is not self.main:
            raise SimCrash()

    def block(self, pred, deadline=None):
        """Blocks the current task until pred() holds. False on timeout."""
        me = self.cur
        s = me.session
        while True:
            if self.aborting and me is not self.main:
                raise SimAbort()
            if s is not None and s.dead:
                raise SimCrash()
            if pred():
                return True
            if deadline is not None and self.clock >= deadline:
                return False
            me.pred = pred
            me.deadline = deadline
            ready = self._ready()
            if not ready:
                timed = [t for t in self.tasks if not t.done and t.deadline is not None]
                if timed:
                    t = min(timed, key=lambda t: t.deadline)
                    self.clock = max(self.clock, t.deadline)
                    t.pred = None
                    ready = [t]
                else:
                    me.pred = None
                    me.deadline = None
                    self.hang = self.hang or "deadlock: every thread waits"
                    if me is self.main:
                        raise SimHang(self.hang)
                    # hand over to main, which reports the hang
                    self.main.pred = None
                    self._switch(me, self.main)
                    raise SimAbort()
            nxt = self._choose(ready, may_stay=False)
            if nxt is not me:
                self._switch(me, nxt)
            me.pred = None
            me.deadline = None
            if self.hang:
                if me is self.main:
                    raise SimHang(self.hang)
                raise SimAbort()

    def _switch(self, me, nxt):
        self.switches += 1
        self.sched_hash.update(nxt.name.encode())
        self.cur = nxt
        self._activate(nxt)
        nxt.gate.release()
        me.gate.acquire()
        # resumed: whoever switched to us has set self.cur
        self.cur = me

    def _activate(self, task):
        s = task.session
        if s is not None and s is not self.active_modules:
            self.active_modules = s
            s.activate()

    def _finish_switch(self):
        """The current task ended: give the token to somebody else."""
        ready = self._ready()
        if not ready:
            timed = [t for t in self.tasks if not t.done and t.deadline is not None]
            if timed:
                t = min(timed, key=lambda t: t.deadline)
                self.clock = max(self.clock, t.deadline)
                t.pred = None
                ready = [t]
            else:
                if not self.main.done and not self.aborting:
                    self.hang = self.hang or "deadlock: every thread waits"
                self.main.pred = None
                ready = [self.main]
        if self.aborting:
            nxt = self.main if self.main in ready else ready[0]
        else:
            nxt = self._choose(ready, may_stay=False)
        nxt.pred = None
        self.cur = nxt
        self._activate(nxt)
        nxt.gate.release()

    def join_all(self, tasks):
        self.block(lambda: all(t.done for t in tasks))

    def shutdown(self):
        """Unwinds all tasks that are still alive (main calls this)."""
        self.aborting = True
        guard = 0
        for t in self.tasks[1:]:
            while not t.done:
                guard += 1
                if guard > 5000:
                    raise SimError("cannot tear down task " + t.name)
                t.pred = None
                self.main.pred = lambda: True
                self._switch(self.main, t)

    # ------------------------------------------------------------ clock
    def sleep(self, seconds):
        if not self.multi:
            self.clock += max(0.0, seconds)
            return
        self.block(lambda: False, self.clock + max(0.0, seconds))

    def digest(self):
        return self.log.hexdigest()

    @property
    def sim_time(self):
        return self.clock - self.t0
