"""Controlled scheduler: the real code's threads run one at a time, and every switch is a choice of the explorer.

Threads are real OS threads that pass a baton. `install()` replaces Thread, Lock, RLock, Event and Condition in the
loaded ros_bt_py modules. Scheduling points: every operation on those, every sleep, and (with `lines`) every source line
of the given files. A switch away from a task that could go on is a preemption; at most `bound` of them are taken.
Time is virtual and passes only when no task can run.
"""

import ctypes
import sys
import threading as real

from mc import standins
from mc.core import Violation

active = None  # the running scheduler


class Killed(BaseException):
    pass


def _baton():
    lock = real.Lock()
    lock.acquire()
    return lock


def _pass(lock):
    try:
        lock.release()
    except RuntimeError:
        pass


class Task:
    def __init__(self, sched, fn, name, script):
        self.sched, self.fn, self.name, self.script = sched, fn, name, script
        self.sem = _baton()
        self.pred = None  # what it waits for
        self.wake = None  # when it stops waiting
        self.started = self.done = self.unwinding = False
        self.error = None
        self.thread = real.Thread(target=self._run, daemon=True)

    def _run(self):
        self.sem.acquire()
        s = self.sched
        try:
            if s.dead:
                return
            if s.files:
                sys.settrace(s.tracer)
            self.fn()
        except Killed:
            pass
        except BaseException as ex:
            self.error = ex
            if self.script or isinstance(ex, Violation) or type(ex).__name__ in ("ReplayDivergence", "Hang"):
                s.error = s.error or ex
            else:
                s.crashed.append((self.name, ex))
        finally:
            sys.settrace(None)
            self.done = True
            if not s.dead:
                s.leave(self)

    def runnable(self):
        if self.done or not self.started:
            return False
        if self.pred is None:
            return self.wake is None or self.sched.now >= self.wake
        return self.pred() or (self.wake is not None and self.sched.now >= self.wake)


class Scheduler:
    def __init__(self, chooser, bound=0, files=(), ros=None, horizon=300.0, free=True, points=200000):
        self.ch, self.bound, self.files = chooser, bound, frozenset(files)
        self.ros = [ros] if ros is not None else []
        self.tasks, self.crashed, self.trail = [], [], []
        self.now, self.horizon, self.max_points = 0.0, horizon, points
        self.free = free
        self.current = None
        self.dead = False
        self.error = None
        self.finished = _baton()
        self.points = self.switches = 0
        self.quiet = 0

    # ------------------------------------------------------------ harness
    def spawn(self, fn, name):
        t = Task(self, fn, name, True)
        t.started = True
        self.tasks.append(t)
        t.thread.start()
        return t

    def run(self):
        """Run until every script is done."""
        global active
        active = self
        try:
            self.pick(None)
            self.finished.acquire()
        finally:
            self.dead = True
            for t in self.tasks:
                if t.started and not t.done:
                    _pass(t.sem)
                    t.thread.join(2)
                    if t.thread.is_alive():  # never comes to a scheduling point
                        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.thread.ident), ctypes.py_object(Killed))
                        t.thread.join(2)
            active = None
        if self.error is not None:
            raise self.error

    def end(self, error=None):
        if error is not None and self.error is None:
            self.error = error
        self.dead = True
        _pass(self.finished)

    # ------------------------------------------------------------ switching
    def pick(self, last):
        """Give the baton to some task that can run (not choosing `last` if it cannot)."""
        if self.error is not None or all(t.done for t in self.tasks if t.script):
            self.end()
            return None
        while True:
            options = [t for t in self.tasks if t.runnable()]
            if options:
                break
            wakes = [t.wake for t in self.tasks if t.started and not t.done and t.wake is not None]
            if not wakes:
                waiting = [t.name for t in self.tasks if t.started and not t.done]
                self.end(Violation(f"deadlock of {waiting}", repr(self.trail[-20:])))
                return None
            step = min(wakes) - self.now
            self.now = min(wakes)
            for ros in self.ros:
                ros.advance(step)
            if self.now > self.horizon:
                waiting = [t.name for t in self.tasks if t.script and not t.done]
                self.end(Violation(f"no answer for {waiting}", repr(self.trail[-20:])))
                return None
        if len(options) > 1 and self.free:
            try:
                chosen = options[self.ch.choose(len(options))]
            except BaseException as ex:
                self.end(ex)
                return None
        else:
            chosen = options[0]
        return self.give(chosen)

    def give(self, task):
        self.current = task
        self.switches += 1
        task.pred = task.wake = None
        task.sem.release()
        return task

    def wait_turn(self, task):
        task.sem.acquire()
        if self.dead and not task.unwinding:
            task.unwinding = True
            raise Killed()

    def leave(self, task):
        self.pick(task)

    def block(self, pred, timeout=None):
        """The current task waits until pred() or for `timeout`. -> pred()"""
        task = self.current
        if self.dead or task is None:
            self.die()
            return True
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        while True:
            if pred is not None and pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            task.pred, task.wake = pred if pred is not None else _never, deadline
            if self.pick(task) is not task:
                self.wait_turn(task)
            else:
                task.sem.acquire()

    def die(self):
        me = next((t for t in self.tasks if t.thread is real.current_thread()), None)
        if self.dead and me is not None and not me.unwinding:
            me.unwinding = True
            raise Killed()

    def point(self, what=""):
        """The current task could be preempted here."""
        task = self.current
        if self.dead or task is None or task.thread is not real.current_thread():
            if self.dead:
                self.die()
            return
        self.points += 1
        if self.points > self.max_points:
            self.error = Violation("no end", repr(self.trail[-20:]))
            self.end()
            self.die()
        if self.bound <= 0 or self.quiet:
            return
        others = [t for t in self.tasks if t is not task and t.runnable()]
        if not others:
            return
        pick = self.ch.choose(1 + len(others))
        if pick:
            self.bound -= 1
            self.trail.append((task.name, what, others[pick - 1].name))
            self.give(others[pick - 1])
            self.wait_turn(task)

    def sleep(self, seconds):
        self.block(None, seconds)

    def tracer(self, frame, event, arg):
        if self.quiet and self.current is not None and self.current.script:
            return None
        return self.line if frame.f_code.co_filename in self.files else None

    def line(self, frame, event, arg):
        if event == "line" and self.bound > 0 and not self.quiet:
            self.point((frame.f_code.co_name, frame.f_lineno))
        return self.line


def _never():
    return False


# ---------------------------------------------------------------- replacements


class SimThread:
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name, self.daemon, self._task = name or "tick thread", daemon, None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        s = active
        if s is None:
            raise AssertionError("a thread outside of a schedule")
        self._task = Task(s, self.run, self.name, False)
        self._task.started = True
        s.tasks.append(self._task)
        self._task.thread.start()
        s.point("start")

    def is_alive(self):
        s = active
        if s is not None:
            s.point("is_alive")
        return self._task is not None and not self._task.done

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        s = active
        if s is None:
            return
        if s.current is self._task:
            raise RuntimeError("cannot join current thread")
        s.point("join")
        s.block(lambda: self._task.done, timeout)

    @property
    def ident(self):
        return None if self._task is None else id(self._task)


class SimLock:
    recursive = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = active
        if s is None or s.current is None:
            self.depth += 1
            return True
        s.point("acquire")
        me = s.current
        if self.recursive and self.depth and self.owner is me:
            self.depth += 1
            return True
        if self.depth:
            if not blocking:
                return False
            if not s.block(lambda: self.depth == 0, None if timeout is None or timeout < 0 else timeout):
                return False
            if s.dead:
                return True
        self.owner, self.depth = me, 1
        return True

    def release(self):
        s = active
        if not self.depth:
            if s is not None and s.dead:
                return
            raise RuntimeError("release unlocked lock")
        if self.recursive and s is not None and not s.dead and s.current is not None and self.owner is not s.current:
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
        if s is not None and s.current is not None and not s.dead:
            s.point("release")

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    recursive = True


class SimEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        if active is not None:
            active.point("is_set")
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        if active is not None:
            active.point("set")

    def clear(self):
        self.flag = False
        if active is not None:
            active.point("clear")

    def wait(self, timeout=None):
        s = active
        if s is None or s.current is None:
            return self.flag
        s.point("wait")
        return s.block(lambda: self.flag, timeout)


class SimCondition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else SimRLock()
        self.waiting = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *exc):
        return self.lock.__exit__(*exc)

    def wait(self, timeout=None):
        s = active
        if s is None or s.current is None:
            return True
        ticket = [False]
        self.waiting.append(ticket)
        depth, self.lock.depth, self.lock.owner = self.lock.depth, 0, None
        done = s.block(lambda: ticket[0], timeout)
        if ticket in self.waiting:
            self.waiting.remove(ticket)
        self.lock.acquire()
        self.lock.depth = depth
        return done

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        for ticket in self.waiting[:n]:
            ticket[0] = True
        del self.waiting[:n]
        if active is not None:
            active.point("notify")

    def notify_all(self):
        self.notify(len(self.waiting))


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=self._later)
        self.interval, self.function, self.fargs, self.fkwargs = interval, function, args or (), kwargs or {}
        self.cancelled = False

    def _later(self):
        active.sleep(self.interval)
        if not self.cancelled:
            self.function(*self.fargs, **self.fkwargs)

    def cancel(self):
        self.cancelled = True


class SimTime:
    """Stands for the `time` module."""

    def __getattr__(self, name):
        import time

        return getattr(time, name)

    def sleep(self, seconds):
        if active is not None:
            active.sleep(seconds)

    def monotonic(self):
        return active.now if active is not None else 0.0

    time = perf_counter = monotonic


class SimThreading:
    Thread, Lock, RLock, Event, Condition, Timer = SimThread, SimLock, SimRLock, SimEvent, SimCondition, SimTimer

    def __getattr__(self, name):
        return getattr(real, name)

    @staticmethod
    def current_thread():
        return active.current if active is not None and active.current is not None else real.current_thread()

    @staticmethod
    def get_ident():
        return id(SimThreading.current_thread())


def install():
    """Let the loaded ros_bt_py modules use the replacements."""
    import time

    import ros_bt_py.tree_edit_manager  # noqa: F401
    import rclpy.utilities

    swap = {id(real.Thread): SimThread, id(real.Lock): SimLock, id(real.RLock): SimRLock, id(real.Event): SimEvent,
            id(real.Condition): SimCondition, id(real.Timer): SimTimer, id(real): SimThreading(), id(time): SimTime(),
            id(time.sleep): SimTime().sleep, id(real.current_thread): SimThreading.current_thread,
            id(real.get_ident): SimThreading.get_ident}
    ok = {id(rclpy.utilities.ok), id(getattr(standins.rclpy, "ok", None))}
    for name, module in list(sys.modules.items()):
        if name.startswith("ros_bt_py.") or name == "ros_bt_py":
            for key, value in list(vars(module).items()):
                if id(value) in swap:
                    setattr(module, key, swap[id(value)])
                elif id(value) in ok:
                    setattr(module, key, _ok)
    rclpy.utilities.ok = _ok
    standins.rclpy.ok = _ok


def _ok(*args, **kwargs):
    return True


def files(*names):
    import importlib

    return {importlib.import_module(n).__file__ for n in names}
