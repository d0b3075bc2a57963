"""The simulator: cooperative tasks (real threads, exactly one running at a time), a virtual clock, an event queue and a
scheduler whose every decision is explicit in the scenario.

* A task is a thread that only runs while it holds the baton.  It gives the baton away at `point()` (stream I/O,
  application callbacks, operation boundaries), in `wait()`, in a contended lock, or at a *traced instruction*: inside
  the code under test every bytecode instruction is a step, and the scenario lists at which step of which task the
  baton moves ("preempts") or an asynchronous exception / failing allocation strikes ("asyncs").
* `threading` locks are replaced by versions that block in this scheduler, so code under test that synchronises itself
  is simulated faithfully instead of dead-locking the baton.
* Time is an integer number of virtual nanoseconds; nothing reads the real clock.
"""
import _thread
import dis
import gc
import hashlib
import heapq
import json
import sys
import threading as _threading
import types

from . import repo

STEP_NS = 100
POINT_NS = 1000


class SimAbort(BaseException):
    """Unwinds a task when the run is over (deadlock, step limit)."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


_real_lock = _thread.allocate_lock
_current = None     # the running Sim of this process, if any
EXTRA_TRACER = None  # installed in every task when a run is being probed for endless loops


def current_sim():
    return _current


def current_task():
    s = _current
    if s is None:
        return None
    return s.by_ident.get(_thread.get_ident())


class SimLock(object):
    """threading.Lock that blocks in the simulator when used by a simulated task."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        task = current_task()
        if task is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking or timeout == 0:
            return False
        while True:
            task.sim.wait(lambda: not self._l.locked(), "lock")
            if self._l.acquire(False):
                return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st


def install_locks():
    """Must run before the code under test is imported."""
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading._allocate_lock = SimLock
    _threading._RLock = SimRLock
    _threading._CRLock = None


def limit(scn):
    """Traced instructions after which a run counts as endless."""
    return 4000000 + 1500 * len(json.dumps(scn))


class Task(object):
    def __init__(self, sim, index, name, fn):
        self.sim = sim
        self.index = index
        self.name = name
        self.fn = fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.state = "ready"
        self.cond = None
        self.why = None
        self.steps = 0            # traced instructions + explicit points of this task
        self.preempts = []        # [(step, target)]
        self.asyncs = {}          # step -> exception class
        self.next_special = 1 << 62
        self.error = None
        self.generators = []
        self.places = None        # (code, instruction) -> steps at which it ran, when recording

    def arm(self):
        nxt = 1 << 62
        if self.preempts:
            nxt = self.preempts[0][0]
        if self.asyncs:
            nxt = min(nxt, min(self.asyncs))
        self.next_special = nxt


class Sim(object):
    def __init__(self, schedule=None, trace=False, step_limit=4000000, log=True):
        """schedule: {"preempts": [[task, step, target]], "asyncs": [[task, step, exc]], "choices": [int, ...]}"""
        schedule = schedule or {}
        self.trace = trace
        self.step_limit = step_limit
        self.tasks = []
        self.by_ident = {}
        self.now = 0
        self.total_steps = 0
        self.events = []
        self.eseq = 0
        self.running = None
        self.aborting = None
        self.first_error = None
        self.done = _real_lock()
        self.done.acquire()
        self.choices = list(schedule.get("choices", ()))
        self.choice_i = 0
        self.pre = {}
        for t, step, target in schedule.get("preempts", ()):
            self.pre.setdefault(t, []).append((step, target))
        self.asy = {}
        for t, step, exc in schedule.get("asyncs", ()):
            self.asy.setdefault(t, {})[step] = exc
        self.record = bool(schedule.get("record"))
        self.log_on = log
        self.log = []
        self.switches = 0
        self.preempted = 0
        self.faults = {}
        self.inter = hashlib.blake2b(digest_size=8)
        self.locals = {}

    # ---- bookkeeping ----------------------------------------------------------------------------------------------
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def note(self, *what):
        if self.log_on:
            t = self.running.index if self.running is not None else -1
            self.log.append((self.now, t) + what)

    def log_hash(self):
        h = hashlib.blake2b(digest_size=12)
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()

    # ---- time -----------------------------------------------------------------------------------------------------
    def at(self, delay, fn):
        self.eseq += 1
        heapq.heappush(self.events, (self.now + int(delay), self.eseq, fn))

    def advance(self, dt):
        self.now += dt
        while self.events and self.events[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.events)
            fn()

    # ---- tasks ----------------------------------------------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(self, len(self.tasks), name, fn)
        t.preempts = sorted(self.pre.get(t.index, ()))
        t.asyncs = dict(self.asy.get(t.index, ()))
        t.arm()
        self.tasks.append(t)
        return t

    def _boot(self, task):
        task.gate.acquire()
        self.by_ident[_thread.get_ident()] = task
        try:
            if not self.aborting:
                if self.trace:
                    sys.settrace(self._tracer)
                elif EXTRA_TRACER is not None:
                    sys.settrace(EXTRA_TRACER)
                try:
                    task.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:   # harness bug or oracle failure raised inside a task
            task.error = e
            if self.first_error is None:
                self.first_error = e
        finally:
            task.state = "done"
            del self.by_ident[_thread.get_ident()]
            if self.aborting:
                self.done.release()
            else:
                nxt = self._pick(None)
                if nxt is None:
                    self.done.release()
                else:
                    self._hand(nxt)

    def retrace(self):
        """Re-enables instruction stepping after an asynchronous exception switched it off in this thread."""
        if self.trace and not self.aborting and current_task() is not None:
            sys.settrace(self._tracer)

    def notrace(self):
        sys.settrace(None)

    def run(self):
        """Runs until every task is done.  Raises Deadlock / StepLimit / the first task error."""
        global _current
        _current = self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._boot, (t,))
            first = self._pick(None)
            if first is not None:
                self._hand(first)
                self.done.acquire()
            if self.aborting:
                for t in self.tasks:
                    while t.state != "done":
                        t.gate.release()
                        self.done.acquire()
        finally:
            _current = None
        if self.first_error is not None:
            raise self.first_error
        if isinstance(self.aborting, Exception):
            raise self.aborting

    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready" or (t.state == "blocked" and t.cond())]

    def _pick(self, prefer):
        while True:
            ready = self._runnable()
            if ready:
                break
            if self.events:
                t, _, fn = heapq.heappop(self.events)
                self.now = max(self.now, t)
                fn()
                continue
            if all(t.state == "done" for t in self.tasks):
                return None
            blocked = [(t.name, t.why) for t in self.tasks if t.state == "blocked"]
            self.aborting = Deadlock("every task is blocked and nothing is in flight: %s" % (blocked,))
            return None
        if len(ready) == 1:
            return ready[0]
        if prefer is not None and prefer in ready:
            return prefer
        if self.choice_i < len(self.choices):
            c = self.choices[self.choice_i]
        else:
            c = 0
        self.choice_i += 1
        return ready[c % len(ready)]

    def _hand(self, task):
        task.state = "running"
        task.cond = None
        self.running = task
        self.switches += 1
        self.inter.update(b"%d:%d;" % (task.index, task.steps))
        task.gate.release()

    def _switch(self, me, prefer=None):
        """`me` (already marked ready/blocked) gives up the baton."""
        nxt = self._pick(prefer)
        if nxt is me:
            me.state = "running"
            me.cond = None
            return
        if nxt is None:            # deadlock: let run() unwind everybody, one at a time
            self.done.release()
        else:
            self._hand(nxt)
        me.gate.acquire()
        if self.aborting:
            raise SimAbort()

    # ---- called by tasks ------------------------------------------------------------------------------------------
    def _me(self):
        return self.by_ident.get(_thread.get_ident())

    def point(self, label=None, strike=False):
        """An explicit scheduling point (I/O, callback, operation boundary).  strike: an asynchronous exception may be
        delivered here (the code under test is waiting for us)."""
        me = self._me()
        if me is None:
            return
        if self.aborting:
            raise SimAbort()
        if label is not None:
            self.note("pt", label)
        self.advance(POINT_NS)
        self._step(me, strike)

    def choose(self, label=None):
        """A scheduling point at which the scheduler always decides afresh who continues."""
        me = self._me()
        if me is None:
            return
        if self.aborting:
            raise SimAbort()
        self.advance(POINT_NS)
        me.state = "ready"
        self._switch(me)

    def wait(self, cond, why):
        me = self._me()
        if me is None:
            raise repo.HarnessError("wait() outside a task")
        while not cond():
            me.state = "blocked"
            me.cond = cond
            me.why = why
            self._switch(me)
        if self.aborting:
            raise SimAbort()

    def sleep(self, ns):
        flag = []
        self.at(ns, lambda: flag.append(1))
        self.wait(lambda: bool(flag), "sleep")

    def _step(self, me, strike=False):
        me.steps += 1
        self.total_steps += 1
        if self.total_steps > self.step_limit:
            self._limit()
        if me.steps >= me.next_special:
            self._special(me, strike)

    def _limit(self):
        if not self.aborting:
            self.aborting = StepLimit("more than %d steps" % self.step_limit)
            self.done.release()
            me = self._me()
            me.gate.acquire()
        untrace()
        raise SimAbort()

    def _special(self, me, frame):
        exc = None
        target = None
        while me.preempts and me.preempts[0][0] <= me.steps:
            target = me.preempts.pop(0)[1]
        for s in sorted(me.asyncs):
            if s <= me.steps and exc is None and may_strike(me.asyncs[s], frame):
                exc = me.asyncs.pop(s)
        me.arm()
        if target is not None:
            self.preempted += 1
            me.state = "ready"
            ready = [t for t in self._runnable() if t is not me]
            if ready:
                want = [t for t in ready if t.index == target] or ready
                nxt = want[0]
                self._hand(nxt)
                me.gate.acquire()
                if self.aborting:
                    untrace()
                    raise SimAbort()
            else:
                me.state = "running"
        if exc is not None:
            self.fault("async:" + exc)
            self.note("async", exc)
            if frame is not True:
                # Raising from a trace function ends tracing in this thread; as long as another thread is traced,
                # CPython 3.12 would still report the instructions of these frames, to a tracer that is gone.
                f = frame
                while f is not None:
                    f.f_trace_opcodes = False
                    f = f.f_back
                for f in me.generators:
                    f.f_trace_opcodes = False
                me.generators = []
                f = None
            raise ASYNC[exc]("injected")

    # ---- instruction stepping -------------------------------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(repo.CODE_PREFIX):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            me = self._me()
            if me is None:
                return None
            if frame.f_code.co_flags & 0x20 and me.asyncs:     # suspended generators are not found through f_back
                me.generators = [f for f in me.generators if sys.getrefcount(f) > 3] + [frame]
            return me_local(self, me)
        return None


def untrace():
    """Before an exception leaves a trace function: see _special."""
    f = sys._getframe(1)
    while f is not None:
        f.f_trace_opcodes = False
        f = f.f_back
    for g in gc.get_objects():
        if type(g) is types.GeneratorType and g.gi_frame is not None and g.gi_code.co_filename.startswith(repo.CODE_PREFIX):
            g.gi_frame.f_trace_opcodes = False


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedExit(SystemExit):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedCancel(BaseException):
    """A cancellation delivered into a thread, the way PyThreadState_SetAsyncExc or greenlet kill deliver theirs."""


ASYNC = {"KeyboardInterrupt": InjectedInterrupt, "SystemExit": InjectedExit, "MemoryError": InjectedMemoryError,
         "Cancel": InjectedCancel}


_strike = {}
AFTER_CALL = ("CALL", "CALL_FUNCTION_EX")
ALLOCATES = ("CALL", "CALL_FUNCTION_EX", "BUILD_LIST", "BUILD_MAP", "BUILD_STRING", "BINARY_OP", "FORMAT_VALUE", "GET_ITER", "BUILD_SET",
             "LIST_EXTEND", "MAKE_FUNCTION")


def _strike_table(code):
    """Where the interpreter can deliver an asynchronous exception (after a call, at a function's start, at a loop's back
    edge) and where an allocation can fail."""
    t = _strike.get(code)
    if t is None:
        inter, alloc = set(), set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            prev = ins[i - 1] if i else None
            if x.opname in ("RESUME", "JUMP_BACKWARD") or (prev is not None and prev.opname in AFTER_CALL):
                inter.add(x.offset)
            if prev is not None and prev.opname == "RESUME":
                inter.add(x.offset)
            if x.opname in ALLOCATES:
                # leaving a with block calls __exit__ with three constants: that needs no memory
                leaving = x.opname == "CALL" and i >= 3 and all(y.opname == "LOAD_CONST" and y.argval is None for y in ins[i - 3:i])
                if not leaving:
                    alloc.add(x.offset)
        t = _strike[code] = (inter, alloc)
    return t


def may_strike(exc, frame):
    if frame is True or frame is False:
        return frame
    inter, alloc = _strike_table(frame.f_code)
    return frame.f_lasti in (alloc if exc == "MemoryError" else inter)


def me_local(sim, me):
    fn = getattr(me, "local_trace", None)
    if fn is None and sim.record:
        me.places = places = {}

        def fn(frame, event, arg):
            if event == "opcode":
                if sim.aborting:
                    return fn
                me.steps = s = me.steps + 1
                sim.total_steps += 1
                sim.now += STEP_NS
                places.setdefault((frame.f_code, frame.f_lasti), []).append(s)
                if s >= me.next_special:
                    sim._special(me, frame)
                elif sim.total_steps > sim.step_limit:
                    sim._limit()
            return fn
        me.local_trace = fn
    elif fn is None:
        def fn(frame, event, arg):
            if event == "opcode":
                if sim.aborting:
                    return fn
                me.steps = s = me.steps + 1
                sim.total_steps += 1
                sim.now += STEP_NS
                if s >= me.next_special:
                    sim._special(me, frame)
                elif sim.total_steps > sim.step_limit:
                    sim._limit()
            return fn
        me.local_trace = fn
    return fn


_stores = {}
STORES = ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_DEREF", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_SLICE")
CHANGERS = {"append", "add", "update", "pop", "remove", "extend", "insert", "clear", "setdefault", "put", "discard", "reverse", "seek",
            "write", "read", "acquire", "release"}


def _store_table(code):
    """Instructions right after which another thread may see something half done."""
    t = _stores.get(code)
    if t is None:
        t = set()
        if code.co_name not in ("__init__", "__new__", "<module>"):
            ins = list(dis.get_instructions(code))
            change = False
            for i, x in enumerate(ins[:-1]):
                if x.opname in ("LOAD_ATTR", "LOAD_METHOD") and x.argval in CHANGERS:
                    change = True
                if x.opname in STORES or (change and x.opname in AFTER_CALL):
                    t.add(ins[i + 1].offset)
                    change = False if x.opname in AFTER_CALL else change
        _stores[code] = t
    return t


def pick_step(rng, task, lo=0, hi=1 << 62, kind=None):
    """One step of a recorded task: any step, any step of any instruction of the code that ran, or one right after a store.
    Code that runs rarely is otherwise lost among code that runs all the time."""
    places = task.places
    how = rng.randrange(3) if kind is None else kind
    if not places or how == 0:
        return rng.randint(max(1, lo), min(task.steps, hi)) if task.steps else 0
    keys = places
    if lo > 0 or hi < 1 << 62:
        keys = dict((k, w) for k, w in ((k, [x for x in v if lo <= x <= hi]) for k, v in places.items()) if w)
    names = list(keys)
    if how == 2:
        names = [k for k in names if k[1] in _store_table(k[0])] or names
    if not names:
        return rng.randint(max(1, lo), min(task.steps, hi))
    return rng.choice(keys[rng.choice(names)])


def run_solo(fn, step_limit=3000000, schedule=None, trace=True):
    """Runs fn() as the only task of a simulation (used to bound or interrupt a single call)."""
    sim = Sim(schedule, trace=trace, step_limit=step_limit)
    out = []
    sim.spawn("solo", lambda: out.append(fn(sim)))
    sim.run()
    return out[0] if out else None, sim
