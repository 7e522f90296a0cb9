"""A harness for every registered node class: static configuration, dynamic inputs, environment events.

`rigs()` yields (label, make); make(env) -> Rig with a freshly created, not yet set up node.
"""

import atexit
import importlib.metadata
import os
import shutil
import tempfile
from copy import deepcopy

from mc import standins
from mc.treekit import Env, Probe, add, nid

import example_interfaces.msg as em
import example_interfaces.srv as es
import example_interfaces.action as ea
import rclpy.parameter
from rclpy.parameter import Parameter
import ros_bt_py.ros_nodes  # noqa: F401
from ros_bt_py.data_types import GENERIC_TYPE_MAP, ReferenceContainer
from ros_bt_py.node import Node

G = GENERIC_TYPE_MAP
_dir = None


def scratch():
    """A directory of this process, removed at its end."""
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix="mczoo"))
        atexit.register(_drop, *_dir)
        import multiprocessing.util

        multiprocessing.util.Finalize(None, _drop, args=_dir, exitpriority=1)
    return _dir[1]


def _drop(pid, path):
    if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)


def put(name, text):
    path = os.path.join(scratch(), name)
    with open(path, "w") as f:
        f.write(text)
    return "file://" + path


def tree_file(structure, name="sub.yaml"):
    version = importlib.metadata.version("ros_bt_py")
    return put(name, f"version: {version}\n" + standins.message_to_yaml(structure))


def make_inputs(cls, values, dynamic=(), static=()):
    """Containers for `values` ({key: value}); keys in `dynamic` become dynamic (value given later)."""
    out = {}
    config = cls._node_config.copy()
    for pass_refs in (False, True):
        for key, template in config.inputs.items():
            if key not in values and key not in dynamic:
                continue
            if isinstance(template, ReferenceContainer) != pass_refs:
                continue
            container = deepcopy(template)
            if key in dynamic:
                container.is_static = False
            elif key in values and container.allow_static:
                container.is_static = True
            out[key] = container
    for key, container in out.items():
        if isinstance(container, ReferenceContainer):
            container.set_type_map(dict(config.inputs, **out)).unwrap()
        container.reset_updated()
        if key not in dynamic:
            container.set_value(values[key]).unwrap()
            container.reset_updated()
    return out


class Rig:
    def __init__(self, cls, values=None, dynamic=None, children=0, extra=None, events=None, ros=None, managers=None, names=None,
                 env=None, name=None, n=0, kids=None, node=None):
        self.cls = cls
        self.ros = ros if ros is not None else standins.FakeRosNode()
        self.env = env or Env()
        self.dynamic = dynamic or [{}]
        keys = [k for k in self.dynamic[0] if k in cls._node_config.inputs]
        self.node = node if node is not None else cls(
            node_id=nid(n), name=name or cls.__name__, ros_node=self.ros,
            new_inputs=make_inputs(cls, values or {}, keys), **(managers or {}))
        for key in self.dynamic[0]:
            c = self.node.node_config.inputs[key]
            if c.is_static:  # added by the class itself: make it dynamic
                c.is_static = False
                if isinstance(c, ReferenceContainer) and c._inner_type is not None:
                    c._inner_type.is_static = False
        self.kids = []
        if kids is not None:
            self.kids, children = list(kids), 0
        for i in range(children):
            p = Probe(node_id=nid(n + 1 + i), name=names[i] if names else f"k{i}")
            p.env = self.env
            self.kids.append(p)
        add(self.node, *self.kids)
        self.events = dict(events(self)) if events else {}
        self.sent = 0
        self.since = (0, 0)  # calls and goals before these are ignored by the events

    def renew(self):
        self.since = (len(self.ros.calls), len(self.ros.goals))

    def stale(self):
        """What is still pending from before `renew` is answered now."""
        for call in self.ros.calls[:self.since[0]]:
            if not call["future"].done():
                call["future"].set_result(es.AddTwoInts.Response(sum=99))
        for goal in self.ros.goals[:self.since[1]]:
            if goal["handle"] is None and not goal["future"].done():
                goal["handle"] = standins.FakeGoalHandle(goal["client"], goal["number"], True)
                goal["future"].set_result(goal["handle"])
            if goal["feedback"] is not None:
                goal["feedback"](Wrapped(feedback=ea.Countdown.Feedback(current=99)))
            h = goal["handle"]
            if h is not None:
                for future in h.cancel_requests:
                    if not future.done():
                        future.set_result(Wrapped(goals_canceling=[], return_code=0))
                if h.result_future is not None and not h.result_future.done():
                    h.result_future.set_result(Wrapped(result=ea.Countdown.Result(done=True), status=5))

    def provide(self, i):
        """Give all dynamic inputs their i-th values, as an upstream node would."""
        for key, value in self.dynamic[i].items():
            res = self.node.node_config.inputs[key].set_value(value)
            assert res.is_ok(), (self.cls.__name__, key, value, res)

    @property
    def has_dynamic(self):
        return any(not c.is_static for c in self.node.node_config.inputs.values())

    def outputs(self):
        return {k: (plain(c.get_value().ok()), c.is_updated()) for k, c in self.node.node_config.outputs.items()}

    def effects(self):
        new = self.ros.log[self.sent:]
        self.sent = len(self.ros.log)
        return tuple(new)


def plain(v):
    if hasattr(v, "get_fields_and_field_types"):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


# ------------------------------------------------------------------ environment events


def respond(make):
    """Service: the oldest pending call is answered."""

    def do(rig):
        for call in rig.ros.calls[rig.since[0]:]:
            if not call["future"].done():
                call["future"].set_result(make())
                return

    return do


def _service_events(rig):
    return {
        "answer": lambda: respond(lambda: es.AddTwoInts.Response(sum=5))(rig),
        "late": lambda: rig.ros.advance(20),
    }


class Wrapped:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def action_accept(rig, ok=True):
    for goal in rig.ros.goals[rig.since[1]:]:
        if not goal["future"].done():
            goal["handle"] = standins.FakeGoalHandle(goal["client"], goal["number"], ok)
            goal["future"].set_result(goal["handle"])
            return


def action_result(rig, status=4, make=lambda: ea.Countdown.Result(done=True)):
    for goal in rig.ros.goals[rig.since[1]:]:
        h = goal["handle"]
        if h is not None and h.result_future is not None and not h.result_future.done():
            h.status = status
            h.result_future.set_result(Wrapped(result=make(), status=status))
            return


def action_cancelled(rig):
    for goal in rig.ros.goals[rig.since[1]:]:
        if goal["handle"] is not None:
            for future in goal["handle"].cancel_requests:
                if not future.done():
                    future.set_result(Wrapped(goals_canceling=[], return_code=0))
                    return


def action_feedback(rig, value=3):
    for goal in reversed(rig.ros.goals[rig.since[1]:]):
        if goal["feedback"] is not None:
            goal["feedback"](Wrapped(feedback=ea.Countdown.Feedback(current=value)))
            return


def _action_events(rig):
    return {
        "accept": lambda: action_accept(rig),
        "result": lambda: action_result(rig),
        "cancelled": lambda: action_cancelled(rig),
        "feedback": lambda: action_feedback(rig),
        "late": lambda: rig.ros.advance(40),
    }


def _topic_events(rig):
    return {
        "msg": lambda: rig.ros.deliver("/t", em.Int64(data=7)),
        "late": lambda: rig.ros.advance(3),
    }


def _clock(rig):
    return {"later": lambda: rig.ros.advance(3)}


def _wait_service_events(rig):
    rig.ros.service_ready = False

    def up():
        rig.ros.service_ready = not rig.ros.service_ready

    return {"toggle": up, "late": lambda: rig.ros.advance(20)}


def _param_events(rig):
    rig.ros.params["p"] = Parameter("p", value=3)

    def change():
        rig.ros.params["p"] = Parameter("p", value=4)

    def drop():
        rig.ros.params.pop("p", None)

    return {"change": change, "drop": drop}


# ------------------------------------------------------------------ the classes


def nested_tree():
    """A small tree with a public input and output and a part that keeps running."""
    from ros_bt_py.nodes.io import IOInput, IOOutput
    from ros_bt_py.nodes.sequence import MemorySequence
    from ros_bt_py_interfaces.msg import TreeStructure, Wiring, NodeDataLocation

    ids = [nid(100 + i) for i in range(4)]
    root = MemorySequence(node_id=ids[0], name="sub_root")
    i = IOInput(node_id=ids[1], name="in", new_inputs=make_inputs(IOInput, {"io_type": G[int]}, ["in"]))
    o = IOOutput(node_id=ids[2], name="out", new_inputs=make_inputs(IOOutput, {"io_type": G[int]}, ["in"]))
    add(root, i, o)
    w = Wiring(source=NodeDataLocation(node_id=str(ids[1]), data_key="out"),
               target=NodeDataLocation(node_id=str(ids[2]), data_key="in"))
    return TreeStructure(name="sub", root_id=str(ids[0]),
                         nodes=[n.to_structure_msg() for n in (root, i, o)], data_wirings=[w])


def spec():
    from ros_bt_py.nodes import (compare, constant, decorators, fallback, file, format, getters, io, list as nlist,
                                 maths, parallel, passthrough_node, random_number, sequence, setters)
    from ros_bt_py.ros_nodes import (action, enum, enum_switch, message_converters, param, service, subtree, throttle,
                                     time, topic, wait)

    I, F, S, L = G[int], G[float], G[str], G[list]
    ab = [{"a": 1, "b": 2}, {"a": 2, "b": 2}]
    R = {}

    def r(cls, values=None, dynamic=None, children=0, events=None, variant="", names=None):
        R[cls.__name__ + variant] = (cls, dict(values=values, dynamic=dynamic, children=children, events=events,
                                            names=names))

    for cls in (compare.Compare, compare.CompareNewOnly):
        r(cls, {"compare_type": I}, ab)
        r(cls, {"compare_type": I, "b": 2}, [{"a": 1}, {"a": 2}], variant=":static_b")
    r(compare.ALessThanB, {"operand_type": I}, ab)
    r(constant.Constant, {"constant_type": S, "constant_value": "text"})
    r(constant.Constant, {"constant_type": I, "constant_value": 7}, variant=":int")
    for cls in (decorators.IgnoreFailure, decorators.IgnoreSuccess, decorators.Inverter, decorators.UntilSuccess,
                decorators.RepeatAlways, decorators.RepeatIfFail, decorators.RepeatUntilFail, decorators.Optional):
        r(cls, children=1)
    r(decorators.IgnoreRunning, {"running_is_success": True}, children=1)
    r(decorators.Retry, {"num_retries": 2}, children=1)
    r(decorators.Repeat, {"num_repeats": 2}, children=1)
    r(decorators.RepeatNoAutoReset, {"num_repeats": 2}, [{"reset": False}, {"reset": True}], children=1)
    r(decorators.Watch, None, [{"watch": "1"}, {"watch": "2"}], children=1)
    for cls in (sequence.Sequence, sequence.MemorySequence, fallback.Fallback, fallback.MemoryFallback):
        r(cls, children=2)
    r(fallback.NameSwitch, None, [{"name": "k0"}, {"name": "nobody"}], children=2)
    r(parallel.Parallel, {"needed_successes": 1}, children=2)
    r(parallel.ParallelFailureTolerance, {"needed_successes": 1, "tolerate_failures": 1}, children=2)
    r(file.YamlList, {"element_type": S}, [{"file_path": put("l1.yaml", "- a\n- b\n")},
                                          {"file_path": put("l2.yaml", "x: 1\n")}])
    r(file.YamlDict, {"element_type": S}, [{"file_path": put("d1.yaml", "x: a\n")},
                                          {"file_path": put("d2.yaml", "- 1\n")}])
    r(format.StringConcatenation, None, [{"a": "x", "b": "y"}, {"a": "", "b": "z"}])
    r(format.FormatString, {"format_string": "a {x}"}, [{"dict": {"x": 1}}, {"dict": {"y": 2}}])
    r(format.FormatStringList, {"format_strings": ["{x}", "b{x}"]}, [{"dict": {"x": 1}}, {"dict": {"y": 2}}])
    r(format.GetFileExtension, None, [{"path": "a/b.txt"}, {"path": "c"}])
    r(getters.GetListItem, {"list_type": I, "succeed_on_stale_data": False},
      [{"list": [4, 5], "index": 1}, {"list": [4], "index": 1}])
    r(getters.GetListItem, {"list_type": I, "succeed_on_stale_data": True, "index": 0}, [{"list": [4, 5]}, {"list": []}],
      children=1, variant=":child")
    r(getters.GetDictItem, {"value_type": I, "succeed_on_stale_data": False},
      [{"dict": {"a": 1}, "key": "a"}, {"dict": {"b": 1}, "key": "a"}])
    r(getters.GetMultipleDictItems, {"value_type": I, "succeed_on_stale_data": False, "keys": ["a"]},
      [{"dict": {"a": 1}}, {"dict": {}}])
    r(getters.GetAttr, {"object_type": em.Int64, "attr_type": I, "attr_name": "data", "succeed_on_stale_data": False},
      [{"object": em.Int64(data=3)}, {"object": em.Int64(data=4)}])
    for cls in (io.IOInput, io.IOOutput):
        r(cls, {"io_type": I}, [{"in": 1}, {"in": 2}])
    r(nlist.ListLength, {"element_type": I}, [{"list": [1, 2]}, {"list": []}])
    r(nlist.InsertInList, {"element_type": I, "index": 1}, [{"list": [1, 2], "element": 9}, {"list": [], "element": 8}])
    r(nlist.IsInList, {"compare_type": I}, [{"list": [1, 2], "in": 2}, {"list": [], "in": 2}])
    r(nlist.IterateList, {"item_type": I}, [{"list": [1, 2]}, {"list": []}], children=1)
    r(nlist.IterateList, {"item_type": I}, [{"list": [1, 2]}, {"list": [5]}], variant=":alone")
    r(maths.Convert, {"input_type": I, "output_type": F}, [{"in": 1}, {"in": 2}])
    r(maths.Operation, {"operand_type": I, "operator": "+"}, ab)
    r(maths.UnaryOperation, {"operand_type": I, "operator": "neg"}, [{"in": 1}, {"in": 2}])
    r(passthrough_node.PassthroughNode, {"passthrough_type": L}, [{"in": [True]}, {"in": []}])
    r(random_number.RandomInt, {"min": 3, "max": 4})
    r(setters.AppendListItem, {"list_type": I}, [{"list": [1], "value": 2}, {"list": [], "value": 3}])
    r(setters.SetAttr, {"object_type": em.Int64, "attr_type": I, "attr_name": "data"},
      [{"object": em.Int64(), "attr_value": 2}, {"object": em.Int64(data=1), "attr_value": 3}])
    r(setters.SetDictItem, {"attr_type": I, "attr_name": "k"},
      [{"object": {"a": 1}, "attr_value": 2}, {"object": {}, "attr_value": 3}])
    r(action.Action, {"action_type": ea.Countdown, "action_name": "/act", "timeout_seconds": 30.0},
      [{"start": 1, "label": "x"}, {"start": 2, "label": "x"}], events=_action_events)
    r(enum.EnumFields, {"ros_message_type": em.Level})
    r(enum_switch.EnumSwitch, {"ros_message_type": em.Level}, [{"case": 0}, {"case": 5}], children=2,
      names=["LOW", "HIGH"])
    r(message_converters.MessageToFields, {"input_type": em.Int32List},
      [{"in": em.Int32List(values=[1], label="a")}, {"in": em.Int32List()}])
    r(message_converters.FieldsToMessage, {"output_type": em.Int32List},
      [{"values": [1], "label": "a"}, {"values": [], "label": "b"}])
    r(param.RosParam, {"param_name": "p", "param_type": I, "default_value": 1}, events=_param_events)
    r(service.Service, {"service_type": es.AddTwoInts, "service_name": "/srv", "wait_for_response_seconds": 10.0},
      [{"a": 1, "b": 2}, {"a": 3, "b": 2}], events=_service_events)
    r(service.WaitForService, {"service_type": es.AddTwoInts, "wait_for_service_seconds": 10.0},
      [{"service_name": "/srv"}, {"service_name": "/srv2"}], events=_wait_service_events)
    r(subtree.Subtree, {"subtree_path": tree_file(nested_tree())}, [{str(nid(101)) + ".in": 1}, {str(nid(101)) + ".in": 2}])
    r(throttle.Throttle, {"tick_interval": 2.0}, children=1, events=_clock)
    r(throttle.ThrottleSuccess, {"tick_interval": 2.0}, children=1, events=_clock)
    r(time.GetTimeNow, events=_clock)
    r(topic.TopicSubscriber, {"topic_type": em.Int64, "reliable": True, "transient_local": False, "depth": 1},
      [{"topic_name": "/t"}, {"topic_name": "/u"}], events=_topic_events)
    r(topic.TopicMemorySubscriber,
      {"topic_type": em.Int64, "reliable": True, "transient_local": False, "depth": 1, "memory_delay": 2.0},
      [{"topic_name": "/t"}, {"topic_name": "/u"}], events=_topic_events)
    r(topic.TopicPublisher,
      {"topic_type": em.Int64, "topic_name": "/t", "reliable": True, "transient_local": False, "depth": 1},
      [{"message": em.Int64(data=1)}, {"message": em.Int64(data=2)}])
    r(wait.Wait, {"seconds_to_wait": 2.0}, events=_clock)
    return R


_spec = None


def table():
    global _spec
    if _spec is None or _spec[0] != os.getpid():
        _spec = (os.getpid(), spec())
    return _spec[1]


def labels():
    return list(table())


def make(label, env=None, **kw):
    cls, args = table()[label]
    return Rig(cls, env=env, **args, **kw)


def parents():
    """Labels of the classes that take children, with the number of children of their rig."""
    return {label: args["children"] for label, (_, args) in table().items() if args["children"]}


class Tree:
    """A tree of rigs: spec is None (a scripted leaf) or (label, [spec, ...])."""

    def __init__(self, spec, env=None, ros=None, managers=None):
        self.env = env or Env()
        self.ros = ros if ros is not None else standins.FakeRosNode()
        self.managers = managers
        self.rigs = []
        self.leaves = []
        self.nodes = []
        self.parent = {}
        self.root = self.build(spec, "root")

    def build(self, spec, name):
        n = len(self.nodes)
        self.nodes.append(None)
        if spec is None:
            node = Probe(node_id=nid(n), name=name)
            node.env = self.env
            self.leaves.append(node)
        else:
            label, kids = spec
            args = dict(table()[label][1])
            names = args.pop("names") or [f"k{i}" for i in range(len(kids))]
            built = [self.build(k, names[i]) for i, k in enumerate(kids)]
            rig = Rig(table()[label][0], env=self.env, ros=self.ros, kids=built, name=name, n=n,
                      managers=self.managers, **args)
            self.rigs.append(rig)
            node = rig.node
            for b in built:
                self.parent[b.node_id] = node
        self.nodes[n] = node
        return node


def registered():
    """Every registered concrete class of ros_bt_py itself."""
    return sorted((m, c) for m, cs in Node.node_classes.items() if m.startswith("ros_bt_py.") for c in cs)
