"""Execution of trees: a real TreeEditManager under the controlled scheduler, and the state machine it has to follow."""

from mc import kinds, sched, standins, treemgr as tm
from mc.core import Violation

sched.install()

import ros_bt_py_interfaces.srv as bs
from ros_bt_py.helpers import BTNodeState as B
from ros_bt_py.vendor.result import Err

R = bs.ControlTreeExecution.Request
NOTHING, ONCE, PERIODIC, UNTIL, STOP, RESET, SHUTDOWN, SETUP = range(8)
NAMES = ["nothing", "once", "periodic", "until", "stop", "reset", "shutdown", "setup"]
EDITABLE, IDLE, TICKING, WAITING, ERROR = "EDITABLE", "IDLE", "TICKING", "WAITING_FOR_TICK", "ERROR"

TREES = {
    "leaf": tm.Model([("0", "Src", "int", [])]),
    "pair": tm.Model([("0", "Flow", "0", ["1", "2"]), ("1", "Src", "int", []), ("2", "Src", "str", [])]),
    "wired": tm.Model([("0", "Flow", "0", ["1", "2"]), ("1", "Src", "int", []), ("2", "Mid", "0", [])], [("1", "n", "2", "a")]),
}


class Box:
    """A manager with a loaded tree, and what its nodes do."""

    def __init__(self, tree, answer=None, hz=10.0, **kw):
        self.run = tm.Run(**kw)
        self.m = self.run.m
        self.log = []
        self.results = []  # of the root's ticks
        self.last = None
        self.until = False
        self.answer = answer
        kinds.env.answer = self._on
        kinds.env.log = []
        if tree is not None:
            tm.load(self.run, TREES[tree] if isinstance(tree, str) else tree, tick_frequency_hz=hz)
        self.root = "n0"
        self.run.ros.sleep_hook = lambda rate: sched.active and sched.active.sleep(1.0 / rate.frequency)

    def _on(self, node, op):
        self.log.append((op, node.name))
        res = self.answer(node, op) if self.answer is not None else None
        if op == "tick":
            if not node.children:
                self.last = res or B.SUCCEEDED
            if node.name == self.root:
                self.results.append(self.last)
        return res

    def control(self, command, hz=0.0):
        return self.run.control(command, hz)

    def ticks(self):
        return sum(1 for op, name in self.log if op == "tick" and name == self.root)

    def take(self):
        log, self.log, self.results = self.log, [], []
        return log

    def states(self):
        return tuple(sorted((self.run.label(k), n.state) for k, n in self.m.nodes.items()))

    def alive(self):
        t = sched.active
        return t is not None and any(not x.done and x.started and not x.script for x in t.tasks)

    def primitives(self):
        return tuple(sorted((k, v) for k, v in vars(self.m).items() if isinstance(v, (int, float, str, bool, type(None)))))

    def snapshot(self):
        return (self.m.state, self.states(), self.m.tick_frequency_hz, self.primitives())

    def drop(self):
        kinds.env.answer = None


def explore(ctx, body, tag, start=(), cap=None):
    ctx.explore(body, tag, start, cap)


def accepted(state, command):
    """Is the command defined in this tree state? None if that is not judged."""
    if command == NOTHING:
        return state != ERROR
    if command in (ONCE, PERIODIC, UNTIL):
        return state in (EDITABLE, IDLE, WAITING)
    if command == STOP:
        return state in (TICKING, WAITING)
    if command == RESET:
        return state in (IDLE, WAITING)
    if command == SHUTDOWN:
        return True
    if command == SETUP:
        return state in (EDITABLE, IDLE, WAITING)
    return False  # unknown


def phase(s):
    """When the sleeping threads wake up."""
    return tuple(round(t.wake - s.now, 6) for t in s.tasks if not t.script and not t.done and t.wake is not None)
