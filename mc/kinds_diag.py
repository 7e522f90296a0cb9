"""Node classes that record when their operations begin and end (loaded by name like any other node module)."""

from mc import standins  # noqa: F401

from ros_bt_py.helpers import BTNodeState
from ros_bt_py.node import Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Ok


class Env:
    answer = None  # answer(node, op) -> a result or None for the usual one
    log = []


env = Env()
USUAL = {"setup": BTNodeState.IDLE, "tick": BTNodeState.SUCCEEDED, "untick": BTNodeState.IDLE, "reset": BTNodeState.IDLE, "shutdown": BTNodeState.SHUTDOWN}


def _operation(op):
    def run(self):
        env.log.append(("begin", op, self.name))
        res = getattr(super(_Recorded, self), op)()
        env.log.append(("end", op, self.name, res.is_ok(), str(res.unwrap()) if res.is_ok() else type(res.unwrap_err()).__name__))
        return res
    run.__name__ = op
    return run


def _step(op):
    def run(self):
        env.log.append(("do", op, self.name))
        res = env.answer(self, op) if env.answer is not None else None
        env.log.append(("did", op, self.name))
        if res is not None and res.is_err():
            return res
        for child in self.children:
            if op == "shutdown":
                break
            out = getattr(child, op)()
            if out.is_err() or op == "tick" and out.unwrap() != BTNodeState.SUCCEEDED:
                return out
        return res if res is not None else Ok(USUAL[op])
    run.__name__ = "_do_" + op
    return run


class _Recorded(Node):
    setup, tick, untick, reset, shutdown = (_operation(op) for op in USUAL)
    _do_setup, _do_tick, _do_untick, _do_reset, _do_shutdown = (_step(op) for op in USUAL)


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Inner(_Recorded):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Outer(_Recorded, Leaf):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Other(_Recorded, Leaf):
    pass
