"""Node classes for the tree managers' checks: one per shape of node (loaded by name like any other node module)."""

from mc import standins  # noqa: F401

from ros_bt_py import data_types as dt
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.node import Decorator, FlowControl, Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Ok

from mc.treekit import Env

env = Env()


class _Steps:
    """Every step is answered by `env` (default: the normal outcome)."""

    def _do_setup(self):
        for child in self.children:
            res = child.setup()
            if res.is_err():
                return res
        return env.on(self, "setup")

    def _do_tick(self):
        return env.on(self, "tick")

    def _do_untick(self):
        for child in self.children:
            res = child.untick()
            if res.is_err():
                return res
        return env.on(self, "untick")

    def _do_reset(self):
        for child in self.children:
            res = child.reset()
            if res.is_err():
                return res
        return env.on(self, "reset")

    def _do_shutdown(self):
        for child in self.children:
            res = child.shutdown()
            if res.is_err():
                return res
        return env.on(self, "shutdown")


class _Passing(_Steps):
    def _do_tick(self):
        state = BTNodeState.SUCCEEDED
        for child in self.children:
            res = child.tick()
            if res.is_err():
                return res
            if res.unwrap() != BTNodeState.SUCCEEDED:
                state = res.unwrap()
                break
        asked = env.on(self, "tick")
        return asked if asked.is_err() else Ok(state)


@define_bt_node(NodeConfig(inputs={"x": dt.IntType(allow_dynamic=False)}, outputs={}, max_children=None))
class Flow(_Passing, FlowControl):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=2))
class Pair(_Passing, Node):
    pass


@define_bt_node(NodeConfig(inputs={"x": dt.IntType(allow_dynamic=False)}, outputs={}, max_children=1))
class Deco(_Passing, Decorator):
    pass


@define_bt_node(NodeConfig(inputs={"kind": dt.GenericType(valid_types=[int, str])},
                           outputs={"o": dt.ReferenceType(reference="kind"), "n": dt.IntType()}, max_children=0))
class Src(_Steps, Leaf):
    count = 0

    def _do_tick(self):
        self.count += 1
        res = self.outputs.set_value("n", self.count)
        if res.is_err():
            return res
        container = self.node_config.outputs["o"].get_runtime_type()
        value = self.count if isinstance(container, dt.IntType) else f"v{self.count}"
        res = self.outputs.set_value("o", value)
        if res.is_err():
            return res
        return env.on(self, "tick")


@define_bt_node(NodeConfig(inputs={"a": dt.IntType(is_static=False), "t": dt.StringType(is_static=False),
                                   "s": dt.IntType(allow_dynamic=False)}, outputs={}, max_children=0))
class Snk(_Steps, Leaf):
    pass


@define_bt_node(NodeConfig(inputs={"a": dt.IntType(is_static=False)}, outputs={"b": dt.IntType()}, max_children=0))
class Mid(_Steps, Leaf):
    def _do_tick(self):
        res = self.inputs.get_value("a").and_then(lambda v: self.outputs.set_value("b", v + 100))
        if res.is_err():
            return res
        return env.on(self, "tick")


CLASSES = {c.__name__: c for c in (Flow, Pair, Deco, Src, Snk, Mid)}
