"""Deterministic threads: real threads, one running at a time, switches by plan.

Every task is a real thread, but only the one holding the baton runs; the rest
wait on private locks.  A monitoring hook counts yield points (every line, or every
bytecode, of the library and of the standard library modules it leans on) and at points named by the plan hands
the baton on.  So the interleaving is a function of the plan alone:

    plan = {"op": 0|1, "sw": [[gap, choice], ...], "inj": [[task, step, kind], ...]}

after ``gap`` yield points the baton passes to runnable[choice]; when the list is
used up the current task runs until it ends, then the next.  ``inj`` raises an
exception inside a task at its own ``step``-th yield point (memory running out);
with "sig": 1 it counts only the points at which CPython runs signal handlers
(entry to a Python function, return from a C function, backward jumps), so that
the exception is one a signal handler could really have raised there; with "sig": 2
it counts only calls of built-in methods that may allocate (set.add, list.append...),
which then fail without having done anything.

"park": [[n, visits, hold, choice], ...] names places rather than times: when the n-th
different place (line or bytecode) of the run is visited for the visits-th time, the
task there stays put for hold yield points (0: until the others end) while others run.
Rarely visited places are as likely to be chosen as those of inner loops.

Locks the library may create are replaced by cooperative ones (install()), so a
task waiting for a lock hands the baton on; if nobody can run, that is a deadlock.
"""
from __future__ import annotations

import _thread
import sys
import threading
import types

from core import Violation

_alloc = _thread.allocate_lock
_RealRLock = threading.RLock
_mon = sys.monitoring
TOOL = 3
# modules whose Python code is interleaved (with all of the library)
STDLIB = ["functools", "reprlib", "contextlib", "_collections_abc", "collections"]


class Interrupt(BaseException):
    """What a signal handler raises in the middle of a call."""


class Kill(BaseException):
    pass


KINDS = {"interrupt": Interrupt, "memory": MemoryError, "recursion": RecursionError}

_current: "Sched | None" = None


class Task:
    def __init__(self, sched, i, name, fn):
        self.sched = sched
        self.i = i
        self.name = name
        self.fn = fn
        self.baton = _alloc()
        self.baton.acquire()
        self.result = None
        self.error = None
        self.harness = None
        self.done = False
        self.waiting = None
        self.steps = 0
        self.sigs = 0
        self.quiet = 0
        self.ident = None
        self.thread = None
        self.max_depth = None  # simulated stack: calls deeper than this fail
        self.base = None
        self.overflows = 0
        self.parked = None  # the step at which it may go on, or 0

    def stack(self, n):
        """From here on, calls more than n frames deep raise RecursionError."""
        self.max_depth = n
        self.base = sys._getframe(1)
        self.overflows = 0

    def check_stack(self, frame):
        """Called on entry to a function: is the simulated stack exhausted?"""
        if self.max_depth is None:
            return
        n = 0
        while frame is not None and frame is not self.base:
            n += 1
            frame = frame.f_back
        if n > self.max_depth:
            self.overflows += 1
            self.max_depth += 12  # headroom to unwind in
            raise RecursionError("maximum recursion depth exceeded (simulated)")


class Sched:
    def __init__(self, plan, env, max_steps=3_000_000):
        self.plan = plan
        self.env = env
        self.tasks: list[Task] = []
        self.sw = [list(x) for x in plan.get("sw", []) if len(x) == 2]
        self.inj = {}
        for t, step, kind in (x for x in plan.get("inj", []) if len(x) == 3):
            self.inj.setdefault(t, {})[step] = kind
        self.op = bool(plan.get("op"))
        self.sig = plan.get("sig") or 0
        self.left = self.sw[0][0] if self.sw else None
        self.pos = 0
        self.cur: Task | None = None
        self.main = _alloc()
        self.main.acquire()
        self.abort = False
        self.problem = None
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.fired: list = []
        self.parks = {}
        for n, visits, hold, choice in (x for x in plan.get("park", []) if len(x) == 4):
            self.parks.setdefault(n, []).append([visits, hold, choice])
        self.places: dict = {}  # place -> [parks]
        self.unpark = None

    def spawn(self, name, fn):
        t = Task(self, len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    # -- inside task threads --------------------------------------------------

    def _body(self, t: Task):
        t.baton.acquire()
        t.ident = _thread.get_ident()
        if self.abort:
            t.done = True
            return
        try:
            t.result = t.fn(t)
        except Kill:
            pass
        except Violation as v:
            self.problem = self.problem or v
        except BaseException as e:  # noqa: BLE001
            t.error = e
        t.done = True
        self._pass_on(t)

    def _pass_on(self, t):
        """t ended (or waits): give the baton to another task, or to main."""
        if self.problem is not None or self.abort:
            self._wake_main()
            return
        nxt = self._pick(0)
        if nxt is None:
            if any(not x.done for x in self.tasks):
                self.problem = Violation(
                    "deadlock", f"tasks {[x.name for x in self.tasks if not x.done]} wait for locks")
            self._wake_main()
            return
        self.cur = nxt
        nxt.baton.release()

    def _wake_main(self):
        try:
            self.main.release()
        except RuntimeError:  # main is already up
            pass

    def _pick(self, choice):
        run = [x for x in self.tasks if not x.done and x.waiting is None]
        if not run:
            return None
        run = [x for x in run if x.parked is None] or run
        return run[choice % len(run)]

    def point(self):
        """A yield point of the current task."""
        t = self.cur
        if t is None or t.quiet or _thread.get_ident() != t.ident:
            return
        t.steps += 1
        self.steps += 1
        if self.abort:
            raise Kill()
        if self.steps > self.max_steps:
            self.problem = Violation("nontermination", f"more than {self.max_steps} steps")
            self.abort = True
            raise Kill()
        if not self.sig:
            self._inject(t, t.steps)
        if self.unpark is not None and self.steps >= self.unpark:
            self._resume(t)
        elif self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self._switch(t)

    def _inject(self, t, n):
        inj = self.inj.get(t.i)
        if inj:
            kind = inj.pop(n, None)
            if kind is not None:
                self.fired.append((t.i, n, kind))
                self.env.fault("inject_" + kind)
                raise KINDS[kind](f"injected {kind}")

    def signal_point(self):
        t = self.cur
        if t is None or t.quiet or _thread.get_ident() != t.ident:
            return
        t.sigs += 1
        self._inject(t, t.sigs)

    def place(self, code, where):
        """The current task is at this place: is it to stay here for a while?"""
        key = (code, where)
        todo = self.places.get(key)
        if todo is None:
            todo = self.places[key] = self.parks.get(len(self.places), [])
        if not todo:
            return
        for p in todo:
            p[0] -= 1
            if p[0] <= 0:
                todo.remove(p)
                t = self.cur
                others = [x for x in self.tasks if not x.done and x.waiting is None and x is not t]
                free = [x for x in others if x.parked is None]
                if free:
                    t.parked = self.steps + p[1] if p[1] else 0
                    self._next_unpark()
                    self.env.probe("parked")
                    self._hand_over(t, free[p[2] % len(free)])
                    t.parked = None
                return

    def _next_unpark(self):
        self.unpark = min((x.parked for x in self.tasks if x.parked and not x.done), default=None)

    def _resume(self, t):
        for x in self.tasks:
            if x.parked and x.parked <= self.steps and not x.done:
                x.parked = None
                self._next_unpark()
                if x is not t and x.waiting is None:
                    self._hand_over(t, x)
                return
        self._next_unpark()

    def _switch(self, t):
        choice = self.sw[self.pos][1]
        self.pos += 1
        self.left = self.sw[self.pos][0] if self.pos < len(self.sw) else None
        others = [x for x in self.tasks if not x.done and x.waiting is None and x is not t and x.parked is None]
        if not others:
            return
        self._hand_over(t, others[choice % len(others)])

    def _hand_over(self, t, nxt):
        self.switches += 1
        self.env.log("switch", t.i, t.steps, nxt.i)
        self.cur = nxt
        nxt.baton.release()
        t.baton.acquire()
        if self.abort:
            raise Kill()

    def yield_now(self):
        """An explicit yield point (callbacks of the harness)."""
        self.point()

    def wait_lock(self, t, lock):
        t.waiting = lock
        self.env.log("wait", t.i)
        self._pass_on(t)
        t.baton.acquire()
        if self.abort:
            raise Kill()

    def wake(self, lock):
        for x in self.tasks:
            if x.waiting is lock:
                x.waiting = None

    # -- main ------------------------------------------------------------------

    def run(self):
        global _current
        _instrument(self.op, self.sig)
        _current = self
        try:
            for t in self.tasks:
                t.thread = _thread.start_new_thread(self._body, (t,))
            first = self._pick(self.plan.get("first", 0))
            if first is None:
                return
            self.cur = first
            first.baton.release()
            idle = 0
            last = -1
            while not self.main.acquire(timeout=5.0):
                if self.steps == last:
                    idle += 1
                    if idle >= 4:
                        raise Violation("stall", f"task {self.cur.name} makes no progress")
                else:
                    idle = 0
                last = self.steps
        finally:
            self.abort = True
            for t in self.tasks:
                if not t.done:
                    t.waiting = None
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
            self.cur = None
            _current = None
        if self.problem is not None:
            raise self.problem
        self.env.probe("switches", self.switches)
        self.env.probe("yield_points", self.steps)


_codes: list = []
_mode = None


def _walk_code(co, out):
    if co in out:
        return
    out.add(co)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, out)


def _functions(o, out, seen, depth=0):
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, types.FunctionType):
        _walk_code(o.__code__, out)
        for c in o.__closure__ or ():
            try:
                _functions(c.cell_contents, out, seen, depth + 1)
            except ValueError:
                pass
        if hasattr(o, "__wrapped__"):
            _functions(o.__wrapped__, out, seen, depth + 1)
    elif isinstance(o, type):
        for v in list(vars(o).values()):
            _functions(v, out, seen, depth + 1)
    elif isinstance(o, property):
        for v in (o.fget, o.fset, o.fdel):
            _functions(v, out, seen, depth + 1)
    elif isinstance(o, (classmethod, staticmethod)):
        _functions(o.__func__, out, seen, depth + 1)
    elif type(o).__module__ in ("functools", "_functools"):
        for n in ("func", "dispatcher", "_wrapped", "__wrapped__"):
            try:
                _functions(getattr(o, n), out, seen, depth + 1)
            except Exception:
                pass


def _code_objects():
    out: set = set()
    seen: set = set()
    mods = [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == "v8serialize" or n.startswith("v8serialize.") or n in STDLIB)]
    names = {m.__name__ for m in mods}
    for m in mods:
        for v in list(vars(m).values()):
            mod = getattr(v, "__module__", None)
            if isinstance(v, (type, types.FunctionType)) and mod not in names:
                continue
            _functions(v, out, seen)
    return sorted(out, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def _event(code, where):
    s = _current
    if s is not None:
        t = s.cur
        if t is not None and not t.quiet and _thread.get_ident() == t.ident:
            if s.parks:
                s.place(code, where)
            s.point()


def _start(code, where):
    s = _current
    if s is not None:
        t = s.cur
        if t is not None and t.max_depth is not None and _thread.get_ident() == t.ident:
            t.check_stack(sys._getframe(1))
        if s.sig == 1:
            s.signal_point()


def _c_return(code, where, fn, arg0):
    s = _current
    if s is not None and s.sig == 1:
        s.signal_point()


def _jump(code, where, dest):
    s = _current
    if s is not None and s.sig == 1 and dest < where:
        s.signal_point()


_ALLOCATING = frozenset(["add", "update", "append", "extend", "setdefault", "insert", "appendleft"])


def _call(code, where, fn, arg0):
    s = _current
    if s is not None and s.sig == 2 and type(fn) in _METHODS and fn.__name__ in _ALLOCATING:
        s.signal_point()


_METHODS = (types.MethodDescriptorType, types.BuiltinMethodType)


def _instrument(op, sig):
    """Put a callback on every line (or bytecode) of the library, for good."""
    global _mode
    if _mode == (op, sig):
        return
    if _mode is None:
        _codes.extend(_code_objects())
        if _mon.get_tool(TOOL) is None:
            _mon.use_tool_id(TOOL, "sched")
        _mon.register_callback(TOOL, _mon.events.LINE, _event)
        _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _event)
        _mon.register_callback(TOOL, _mon.events.PY_START, _start)
        _mon.register_callback(TOOL, _mon.events.C_RETURN, _c_return)
        _mon.register_callback(TOOL, _mon.events.JUMP, _jump)
        _mon.register_callback(TOOL, _mon.events.CALL, _call)
    ev = _mon.events.PY_START | (_mon.events.INSTRUCTION if op else _mon.events.LINE)
    if sig:
        ev |= _mon.events.CALL
    if sig == 1:
        ev |= _mon.events.JUMP
    for c in _codes:
        _mon.set_local_events(TOOL, c, ev)
    _mode = (op, sig)


def current_task():
    s = _current
    if s is None or s.cur is None or _thread.get_ident() != s.cur.ident:
        return None
    return s.cur


class quiet:
    """Harness code inside a task that must not be a yield point."""

    def __enter__(self):
        self.t = current_task()
        if self.t:
            self.t.quiet += 1

    def __exit__(self, *a):
        if self.t:
            self.t.quiet -= 1


class SimLock:
    """A lock which hands the baton on instead of blocking the process."""

    def __init__(self):
        self._l = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        while True:
            t = current_task()
            if t is None:
                return self._l.acquire(blocking, timeout)
            if self._l.acquire(False):
                return True
            if not blocking or timeout == 0:
                return False
            t.sched.wait_lock(t, self)

    def release(self):
        self._l.release()
        if _current is not None:
            _current.wake(self)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _alloc()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            super().release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count = self._count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def install():
    """Before the library is imported: locks it creates are cooperative."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


def gen_plan(r, n_tasks, heavy=False, op=0, park=0.45):
    """Random schedules: a few preemptions anywhere, or many everywhere."""
    style = r.random()
    sw = []
    if style < 0.35:  # a handful of preemption points
        for _ in range(r.randrange(1, 7)):
            sw.append([int(2 ** r.uniform(0, 11)), r.randrange(n_tasks)])
    elif style < 0.75:  # constant churn
        m = r.choice([1, 2, 4, 10, 30, 100])
        for _ in range(r.choice([40, 120, 300]) if not heavy else 60):
            sw.append([1 + int(r.expovariate(1 / m)), r.randrange(n_tasks)])
    elif style < 0.95:  # bursts: quiet stretches, then rapid alternation
        for _ in range(r.randrange(1, 5)):
            sw.append([int(2 ** r.uniform(2, 10)), r.randrange(n_tasks)])
            for _ in range(r.randrange(2, 30)):
                sw.append([r.randrange(1, 4), r.randrange(n_tasks)])
    plan = {"op": int(op), "sw": sw, "first": r.randrange(n_tasks), "inj": []}
    if r.random() < park:
        if r.random() < 0.6 or park == 1:
            plan["sw"] = []
        plan["park"] = [[int(r.random() ** 1.5 * (2500 if op else 420)), r.choice([1, 1, 1, 2, 3, 8]),
                         r.choice([0, 0, 30, 300, 2000]), r.randrange(n_tasks)]
                        for _ in range(r.choice([1, 1, 2, 3, 8]))]
    return plan
