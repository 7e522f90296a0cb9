"""Scripted nodes and tree builders. Needs mc.standins imported first."""

import uuid

from mc import standins  # noqa: F401

import ros_bt_py.nodes  # noqa: F401
from ros_bt_py.node import Node, Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.vendor.result import Ok, Err
from ros_bt_py import data_types as dt

from mc.core import Violation

standins.quiet()

UNINIT, IDLE, RUNNING, SUCC, FAIL, BROKEN, PAUSED, SHUTDOWN = (
    BTNodeState.UNINITIALIZED,
    BTNodeState.IDLE,
    BTNodeState.RUNNING,
    BTNodeState.SUCCEEDED,
    BTNodeState.FAILED,
    BTNodeState.BROKEN,
    BTNodeState.PAUSED,
    BTNodeState.SHUTDOWN,
)


def nid(n):
    """The n-th node id."""
    return uuid.UUID(int=0xABCDEF000000 + n)


DEFAULT = {"setup": IDLE, "tick": SUCC, "untick": IDLE, "reset": IDLE, "shutdown": SHUTDOWN}


class Env:
    """What scripted leaves ask. `answer(node, op)` returns a state, an Err, or raises."""

    def __init__(self, answer=None):
        self.answer = answer
        self.log = []

    def on(self, node, op):
        res = DEFAULT[op] if self.answer is None else self.answer(node, op)
        if res is None:
            res = DEFAULT[op]
        if isinstance(res, BaseException):
            self.log.append((op, node.name, "raise"))
            raise res
        if isinstance(res, Err):
            self.log.append((op, node.name, "err"))
            return res
        self.log.append((op, node.name, res))
        return Ok(res)

    def take(self):
        log, self.log = self.log, []
        return log


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Probe(Leaf):
    """Leaf whose every step is answered by the harness."""

    env = None

    def _ask(self, op):
        env = self.env if self.env is not None else _default_env
        return env.on(self, op)

    def _do_setup(self):
        return self._ask("setup")

    def _do_tick(self):
        return self._ask("tick")

    def _do_untick(self):
        return self._ask("untick")

    def _do_reset(self):
        return self._ask("reset")

    def _do_shutdown(self):
        return self._ask("shutdown")


_default_env = Env()


def failure(text="injected"):
    return Err(BehaviorTreeException(text))


def probe(env, name, n):
    p = Probe(node_id=nid(n), name=name)
    p.env = env
    return p


def static(container, value):
    res = container.set_value(value)
    assert res.is_ok(), res
    return container


def add(parent, *children):
    for c in children:
        r = parent.add_child(c)
        if r.is_err():
            raise Violation("cannot add child", f"{parent.name} <- {c.name}: {r}")
    return parent


def ok(result, key, detail=""):
    """Unwrap or report."""
    if result.is_err():
        raise Violation(key, f"{detail} {result.err()!r}")
    return result.ok()


def expect(cond, key, detail=""):
    if not cond:
        raise Violation(key, detail)


def configured(cls, name=None, n=0, static_values=None, late=None, containers=None, **managers):
    """Instance of a node class with the given static inputs (as loading it from a message would)."""
    from copy import deepcopy

    new_inputs = dict(containers or {})
    for key, value in (static_values or {}).items():
        container = deepcopy(cls._node_config.inputs[key])
        container.reset_updated()
        res = container.set_value(value)
        if res.is_err():
            raise Violation(f"{cls.__name__}.{key} refuses {value!r}", str(res))
        new_inputs[key] = container
    node = cls(node_id=nid(n), name=name or cls.__name__, new_inputs=new_inputs, **managers)
    for key, value in (late or {}).items():
        res = node.node_config.inputs[key].set_value(value)
        if res.is_err():
            raise Violation(f"{cls.__name__}.{key} refuses {value!r}", str(res))
    return node
