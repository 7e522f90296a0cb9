"""C30: log messages."""

import itertools
import os
import sys
import uuid

from mc import standins
from mc.core import Violation
from mc.treekit import Probe

import rclpy.impl.rcutils_logger
import ros_bt_py_interfaces.srv as bs
from ros_bt_py.logging_manager import LoggingManager

ID = "C30"
TECHNIQUE = "explicit enumeration of all sequences of level changes and log calls on real logging managers and nodes against a reference filter"
NOTE = "the ROS logger is a recorder; inspect.stack is replaced by an equivalent that does not read source files"

LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "fatal": 50}
NODE_CALLS = {"debug": "logdebug", "info": "loginfo", "warn": "logwarn", "error": "logerr", "fatal": "logfatal"}
ROS = {"debug": "debug", "info": "info", "warn": "warning", "error": "error", "fatal": "fatal"}
MINIMA = [0, 10, 11, 20, 30, 40, 50, 51, 255]
HERE = os.path.abspath(__file__)


class Recorder(rclpy.impl.rcutils_logger.RcutilsLogger):
    def __init__(self, out, name=()):
        super().__init__("recorder")
        self.out, self.path = out, name

    def get_child(self, name):
        return Recorder(self.out, self.path + (name,))

    def _record(self, level):
        def record(msg, *args, **kwargs):
            self.out.append((level, msg, self.path))
            return True
        return record

    def __getattribute__(self, name):
        if name in ("debug", "info", "warning", "warn", "error", "fatal"):
            return self._record("warning" if name == "warn" else name)
        return super().__getattribute__(name)

    def log(self, message, severity, **kwargs):
        self.out.append((str(severity), message, self.path))
        return True


class Ros(standins.FakeRosNode):
    def __init__(self, out):
        super().__init__()
        self.out = out

    def get_logger(self):
        return Recorder(self.out)


def BOUNDS(tier):
    return f"minimum levels {MINIMA}, 5 levels x 2 managers (and the nodes of each) x with/without node x internal or not, sequences of {4 if tier == 'thorough' else 3} actions"


ACTIONS = [("level", m) for m in MINIMA] + [("set", m, i) for m in (20, 40) for i in (0, 1)] + \
    [("log", i, level, how) for i in (0, 1) for level in LEVELS for how in ("plain", "internal", "node", "node internal", "from node", "from node internal", "deeper")]


def shards(tier):
    return [(i,) for i in range(len(ACTIONS))]


def run(shard, ctx):
    ctx.explore(lambda ch: body(ch, ctx), "", shard)


class Side:
    def __init__(self, i):
        self.ros_log, self.messages = [], []
        self.ros = Ros(self.ros_log)
        self.manager = LoggingManager(ros_node=self.ros, publish_log_callback=self.messages.append)
        self.tree = None
        if i == 0:
            self.name_tree(uuid.UUID(int=7), "tree one")
        self.node = Probe(node_id=uuid.UUID(int=77 + i), name=f"node {i}", ros_node=self.ros, logging_manager=self.manager)

    def name_tree(self, tree_id, name):
        self.tree = (str(tree_id), name)
        self.manager.set_tree_id(tree_id)
        self.manager.set_tree_name(name)


def body(ch, ctx):
    LoggingManager.set_min_log_level(bs.SetLogLevel.Request(min_log_level=20), bs.SetLogLevel.Response())
    sides = [Side(0), Side(1)]
    level, trace = 20, []
    for step in range(4 if ctx.thorough else 3):
        action = ch.choose(ACTIONS)
        trace.append(action)
        ctx.step()
        for side in sides:
            side.ros_log.clear()
            side.messages.clear()
        if action[0] == "level":
            level = action[1]
            LoggingManager.set_min_log_level(bs.SetLogLevel.Request(min_log_level=level), bs.SetLogLevel.Response())
        elif action[0] == "set":
            level = action[1]
            sides[action[2]].manager.set_min_log_level(bs.SetLogLevel.Request(min_log_level=level), bs.SetLogLevel.Response())
        else:
            _, i, name, how = action
            side = sides[i]
            now = side.ros.now_ns
            line, function = send(side, name, how)
            other = sides[1 - i]
            if other.ros_log or other.messages:
                raise Violation(f"another manager logs: {trace}")
            want = LEVELS[name] >= level
            internal = "internal" in how
            if bool(side.ros_log) != want or len(side.ros_log) > 1:
                raise Violation(f"ROS logger: {trace}", f"{side.ros_log}, expected: {want}")
            if bool(side.messages) != (want and not internal) or len(side.messages) > 1:
                raise Violation(f"published: {trace}", f"{side.messages}, expected: {want and not internal}")
            if want and side.ros_log[0][:2] != (ROS[name], "the text"):
                raise Violation(f"wrong level or text for the ROS logger: {trace}", f"{side.ros_log}")
            for m in side.messages:
                node = (str(side.node.node_id), side.node.name) if "node" in how else ("", "")
                tree = side.tree or ("", "")
                got = (m.level, m.msg, m.tree_id, m.tree_name, m.node_id, m.node_name, m.file, m.function, m.line, m.stamp.sec * 10**9 + m.stamp.nanosec)
                exp = (LEVELS[name], "the text", *tree, *node, HERE, function, line, now)
                if got != exp:
                    raise Violation(f"wrong message: {trace}", f"{got} instead of {exp}")
        ctx.state((level, tuple(trace)))
    return trace


def send(side, level, how):
    """-> (line, function) of the call."""
    log = getattr(side.manager, level)
    kw = {"internal": True} if "internal" in how else {}
    if how.startswith("from node"):
        node = getattr(side.node, NODE_CALLS[level])
        line = sys._getframe().f_lineno; node("the text", **kw)  # noqa: E702
        return line, "send"
    if how.startswith("node"):
        kw.update(node_id=side.node.node_id, node_name=side.node.name)
    if how == "deeper":
        def deeper():
            line = sys._getframe().f_lineno; log("the text", **kw)  # noqa: E702
            return line
        return deeper(), "deeper"
    line = sys._getframe().f_lineno; log("the text", **kw)  # noqa: E702
    return line, "send"
