"""One node class per data type: output "o" and inputs "d" (dynamic) and "s" (static) of that type."""

from mc import decl, standins  # noqa: F401

from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig

from mc.kinds import _Steps

TYPES = decl.nested(1) + [("topic_name", 0), ("service_name", 0), ("action_name", 0)]
CLASSES = []


def declare(d, is_static):
    kw = dict(allow_static=is_static, allow_dynamic=not is_static, is_static=is_static)
    return decl.build(d, **kw)


for _i, _d in enumerate(TYPES):
    _cls = type(f"T{_i}", (_Steps, Leaf), {"__module__": __name__})
    CLASSES.append(define_bt_node(NodeConfig(inputs={"d": declare(_d, False), "s": declare(_d, True)},
                                             outputs={"o": decl.build(_d)}, max_children=0))(_cls))
