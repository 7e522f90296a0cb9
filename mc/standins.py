"""Stand-ins for the ROS packages that are not installed in this sandbox.

They follow the upstream packages' documented behaviour (rosidl_runtime_py, example_interfaces,
generate_parameter_library_py's output for ros_bt_py) as far as ros_bt_py uses them, plus a
deterministic fake of rclpy.node.Node / ActionClient: clock, futures, topics, services and actions
are plain Python objects whose answers the harness decides.

Importing this module installs everything; it must be imported before any ros_bt_py module.
"""

import array
import collections
import importlib
import importlib.metadata
import os
import sys
import types

import numpy
import yaml

# ---------------------------------------------------------------- example_interfaces


_PRIM_DEFAULTS = {
    "boolean": False,
    "octet": b"\x00",
    "string": "",
    "wstring": "",
    "float": 0.0,
    "double": 0.0,
}
_PRIM_TYPES = {
    "boolean": bool,
    "octet": (bytes, bytearray),
    "string": str,
    "wstring": str,
    "float": float,
    "double": float,
}


class _MsgMeta(type):
    def __prepare__(name, bases):  # noqa: N805
        return {}


def make_message(module, name, fields, constants=None):
    """Create a class that looks like one made by rosidl_generator_py."""

    def default(ftype):
        if ftype.startswith("sequence<") or ftype.endswith("]"):
            return []
        if ftype in _PRIM_DEFAULTS:
            return _PRIM_DEFAULTS[ftype]
        if "int" in ftype and "/" not in ftype:
            return 0
        return get_message(ftype)()

    def check(ftype, fname, value):
        if ftype.startswith("sequence<") or ftype.endswith("]"):
            assert isinstance(value, (list, tuple, array.array, numpy.ndarray)), (
                f"The '{fname}' field must be a sequence"
            )
            return list(value)
        if ftype in _PRIM_TYPES:
            assert isinstance(value, _PRIM_TYPES[ftype]), (
                f"The '{fname}' field must be of type '{ftype}'"
            )
            return value
        if "int" in ftype and "/" not in ftype:
            assert isinstance(value, int), f"The '{fname}' field must be of type 'int'"
            bits = int("".join(c for c in ftype if c.isdigit()))
            low, high = (
                (0, 2**bits) if ftype.startswith("u") else (-(2 ** (bits - 1)), 2 ** (bits - 1))
            )
            assert low <= value < high, f"The '{fname}' field must be in [{low}, {high})"
            return value
        assert type(value).__name__ == ftype.split("/")[-1], (
            f"The '{fname}' field must be a sub message of type '{ftype}'"
        )
        return value

    def make_prop(fname, ftype):
        attr = "_" + fname

        def getter(self):
            return getattr(self, attr)

        def setter(self, value):
            object.__setattr__(self, attr, check(ftype, fname, value))

        return property(getter, setter)

    def __init__(self, **kwargs):
        assert all("_" + k in type(self).__slots__ for k in kwargs), (
            "Invalid arguments passed to constructor: %s" % sorted(kwargs)
        )
        for fname, ftype in fields.items():
            setattr(self, fname, kwargs[fname] if fname in kwargs else default(ftype))

    def __eq__(self, other):
        if not isinstance(other, self.__class__):
            return False
        return all(getattr(self, f) == getattr(other, f) for f in fields)

    def __repr__(self):
        args = ", ".join(f"{f}={getattr(self, f)!r}" for f in fields)
        return f"{module}.{name}({args})"

    namespace = {
        "__slots__": ["_" + f for f in fields],
        "_fields_and_field_types": dict(fields),
        "__init__": __init__,
        "__eq__": __eq__,
        "__hash__": None,
        "__repr__": __repr__,
        "__module__": module,
        "get_fields_and_field_types": classmethod(
            lambda cls: dict(cls._fields_and_field_types)
        ),
    }
    for fname, ftype in fields.items():
        namespace[fname] = make_prop(fname, ftype)
    # constants live on the metaclass, as rosidl does
    consts = dict(constants or {})
    meta_ns = {"_TYPE_SUPPORT": None, "__import_type_support__": classmethod(lambda cls: None)}
    if consts:
        meta_ns["_Metaclass_%s__constants" % name] = consts
        for key in consts:
            meta_ns[key] = property(lambda cls, key=key: consts[key])
    meta = type("Metaclass_" + name, (type,), meta_ns)
    for key in consts:
        namespace[key] = property(lambda self, key=key: consts[key])
    cls = meta(name, (), namespace)
    return cls


def _module(name, package=False):
    mod = types.ModuleType(name)
    if package:
        mod.__path__ = []
    sys.modules[name] = mod
    if "." in name:
        parent, child = name.rsplit(".", 1)
        setattr(sys.modules[parent], child, mod)
    return mod


def _install_example_interfaces():
    if "example_interfaces" in sys.modules:
        return
    _module("example_interfaces", True)
    msg = _module("example_interfaces.msg")
    srv = _module("example_interfaces.srv")
    action = _module("example_interfaces.action")
    m = "example_interfaces.msg._gen"
    msg.Empty = make_message(m, "Empty", {"structure_needs_at_least_one_member": "uint8"})
    msg.Empty._fields_and_field_types = {}
    for name, ftype in (
        ("Bool", "boolean"), ("Int64", "int64"), ("Int32", "int32"), ("UInt8", "uint8"),
        ("Float64", "double"), ("Float32", "float"), ("String", "string"), ("Byte", "octet"),
    ):
        setattr(msg, name, make_message(m, name, {"data": ftype}))
    msg.Int32List = make_message(m, "Int32List", {"values": "sequence<int32>", "label": "string"})
    msg.Nested = make_message(
        m,
        "Nested",
        {
            "inner": "example_interfaces/Int32List",
            "flag": "boolean",
            "ratio": "double",
            "names": "sequence<string, 3>",
        },
    )
    msg.Level = make_message(
        m, "Level", {"value": "uint8"}, {"LOW": 0, "MID": 1, "HIGH": 7}
    )

    def service(name, req, res):
        mod = f"example_interfaces.srv._{name.lower()}"
        request = make_message(mod, name + "_Request", req)
        response = make_message(mod, name + "_Response", res)
        setattr(srv, name + "_Request", request)
        setattr(srv, name + "_Response", response)
        cls = type(name, (), {"Request": request, "Response": response, "__module__": mod,
                              "_TYPE_SUPPORT": None})
        setattr(srv, name, cls)

    service("Trigger", {}, {"success": "boolean", "message": "string"})
    service("AddTwoInts", {"a": "int64", "b": "int64"}, {"sum": "int64"})
    service("SetBool", {"data": "boolean"}, {"success": "boolean", "message": "string"})

    mod = "example_interfaces.action._fibonacci"
    goal = make_message(mod, "Fibonacci_Goal", {"order": "int32"})
    result = make_message(mod, "Fibonacci_Result", {"sequence": "sequence<int32>"})
    feedback = make_message(mod, "Fibonacci_Feedback", {"sequence": "sequence<int32>"})
    for c in (goal, result, feedback):
        setattr(action, c.__name__, c)
    action.Fibonacci = type(
        "Fibonacci", (),
        {"Goal": goal, "Result": result, "Feedback": feedback, "__module__": mod,
         "_TYPE_SUPPORT": None},
    )
    # an action whose feedback and result differ, as most actions' do
    mod = "example_interfaces.action._countdown"
    goal = make_message(mod, "Countdown_Goal", {"start": "int32", "label": "string"})
    result = make_message(mod, "Countdown_Result", {"done": "boolean"})
    feedback = make_message(mod, "Countdown_Feedback", {"current": "int32"})
    for c in (goal, result, feedback):
        setattr(action, c.__name__, c)
    action.Countdown = type(
        "Countdown", (),
        {"Goal": goal, "Result": result, "Feedback": feedback, "__module__": mod,
         "_TYPE_SUPPORT": None},
    )


# ---------------------------------------------------------------- rosidl_runtime_py


def is_message(interface):
    return hasattr(interface, "get_fields_and_field_types")


def is_service(interface):
    return hasattr(interface, "Request") and hasattr(interface, "Response")


def is_action(interface):
    return (
        hasattr(interface, "Goal")
        and hasattr(interface, "Result")
        and hasattr(interface, "Feedback")
    )


def get_interface(identifier):
    parts = identifier.split("/")
    if len(parts) == 2:
        parts = [parts[0], "msg", parts[1]]
    if len(parts) != 3 or not all(parts):
        raise ValueError(
            f"Invalid name '{identifier}'. Expected three parts separated by '/'"
        )
    module = importlib.import_module(".".join(parts[:2]))
    interface = getattr(module, parts[2])
    if not (is_message(interface) or is_service(interface) or is_action(interface)):
        raise ValueError(f"'{identifier}' is not an interface")
    return interface


def get_message(identifier):
    interface = get_interface(identifier)
    if not is_message(interface):
        raise ValueError(f"Expected '{identifier}' to be a message")
    return interface


def get_service(identifier):
    interface = get_interface(identifier)
    if not is_service(interface):
        raise ValueError(f"Expected '{identifier}' to be a service")
    return interface


def get_action(identifier):
    interface = get_interface(identifier)
    if not is_action(interface):
        raise ValueError(f"Expected '{identifier}' to be an action")
    return interface


def set_message_fields(msg, values):
    """Set the fields of a ROS message (upstream semantics)."""
    try:
        items = values.items()
    except AttributeError:
        raise TypeError(
            "Value '%s' is expected to be a dictionary but is a %s"
            % (values, type(values).__name__)
        )
    for field_name, field_value in items:
        field = getattr(msg, field_name)
        field_type = type(field)
        if type(field_value) is field_type:
            value = field_value
        elif field_type is array.array:
            value = array.array(field.typecode, field_value)
        elif field_type is numpy.ndarray:
            value = numpy.array(field_value, dtype=field.dtype)
        else:
            try:
                value = field_type(field_value)
            except TypeError:
                value = field_type()
                set_message_fields(value, field_value)
        element = msg.get_fields_and_field_types()[field_name]
        if element.startswith("sequence<") or element.endswith("]"):
            inner = element[9:-1].split(",")[0] if element.startswith("sequence<") else element.split("[")[0]
            if "/" in inner:
                cls = get_message(inner)
                value = list(value)
                for i, item in enumerate(value):
                    sub = cls()
                    set_message_fields(sub, item)
                    value[i] = sub
        setattr(msg, field_name, value)


def _convert_value(value):
    if is_message(value):
        return message_to_ordereddict(value)
    if isinstance(value, bytes):
        # upstream: sequence of ints / chr
        return list(value) if len(value) > 1 else value[0] if value else 0
    if isinstance(value, (list, tuple, array.array, numpy.ndarray)):
        return [_convert_value(v) for v in value]
    if isinstance(value, numpy.number):
        return value.item()
    return value


def message_to_ordereddict(msg, **_):
    out = collections.OrderedDict()
    for field in msg.get_fields_and_field_types():
        out[field] = _convert_value(getattr(msg, field))
    return out


def message_to_yaml(msg, **_):
    def plain(v):
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        if isinstance(v, list):
            return [plain(x) for x in v]
        return v

    return yaml.dump(
        plain(message_to_ordereddict(msg)),
        allow_unicode=True,
        sort_keys=False,
        width=sys.maxsize,
    )


INTERFACES = {
    "message": {"example_interfaces": ["Bool", "Int64", "String"], "std_msgs": ["Header"]},
    "service": {"example_interfaces": ["AddTwoInts", "Trigger"]},
    "action": {"example_interfaces": ["Fibonacci"]},
}


def _install_rosidl_runtime_py():
    if "rosidl_runtime_py" in sys.modules:
        return
    root = _module("rosidl_runtime_py", True)
    utilities = _module("rosidl_runtime_py.utilities")
    for f in (is_message, is_service, is_action, get_interface, get_message, get_service, get_action):
        setattr(utilities, f.__name__, f)
    setter = _module("rosidl_runtime_py.set_message")
    setter.set_message_fields = set_message_fields
    convert = _module("rosidl_runtime_py.convert")
    convert.message_to_ordereddict = message_to_ordereddict
    convert.message_to_yaml = message_to_yaml
    root.set_message_fields = set_message_fields
    root.message_to_ordereddict = message_to_ordereddict
    root.message_to_yaml = message_to_yaml
    root.get_interface_packages = lambda: {
        p: [] for kind in INTERFACES.values() for p in kind
    }
    root.get_message_interfaces = lambda packages=(): {
        p: list(v) for p, v in INTERFACES["message"].items()
    }
    root.get_service_interfaces = lambda packages=(): {
        p: list(v) for p, v in INTERFACES["service"].items()
    }
    root.get_action_interfaces = lambda packages=(): {
        p: list(v) for p, v in INTERFACES["action"].items()
    }


# ---------------------------------------------------------------- package metadata, parameters


def _install_metadata():
    real = importlib.metadata.version

    def version(name):
        if name == "ros_bt_py":
            return _package_version()
        return real(name)

    importlib.metadata.version = version


def _package_version():
    import re

    import ros_bt_py

    xml = os.path.join(os.path.dirname(os.path.dirname(ros_bt_py.__file__)), "package.xml")
    try:
        with open(xml) as f:
            return re.search(r"<version>([^<]*)</version>", f.read()).group(1)
    except (OSError, AttributeError):
        return "0.6.0"


def _install_parameters():
    params = types.ModuleType("ros_bt_py.parameters")
    inner = types.ModuleType("ros_bt_py.parameters.tree_node_parameters")

    class Params:
        pass

    class ParamListener:
        def __init__(self, node):
            pass

        def get_params(self):
            return Params()

    inner.Params = Params
    inner.ParamListener = ParamListener
    params.tree_node_parameters = inner
    sys.modules["ros_bt_py.parameters"] = params
    sys.modules["ros_bt_py.parameters.tree_node_parameters"] = inner


def install():
    _install_example_interfaces()
    _install_rosidl_runtime_py()
    _install_metadata()
    _install_parameters()


install()

# ---------------------------------------------------------------- fake ROS graph

import rclpy.node  # noqa: E402
import rclpy.action.client  # noqa: E402
import rclpy.task  # noqa: E402
from rclpy.clock import ClockType  # noqa: E402
from rclpy.time import Time  # noqa: E402


class FakeClock:
    def __init__(self, graph):
        self.graph = graph
        self.clock_type = ClockType.ROS_TIME

    def now(self):
        return Time(nanoseconds=self.graph.now_ns, clock_type=ClockType.ROS_TIME)


class FakeFuture(rclpy.task.Future):
    """rclpy's own future; as with rclpy's clients, an answer to a cancelled one is dropped."""

    def __init__(self, label=""):
        super().__init__()
        self.label = label

    def __repr__(self):
        return f"FakeFuture({self.label})"

    def set_result(self, result):
        if not self.cancelled():
            super().set_result(result)


class FakeGoalHandle:
    def __init__(self, client, number, accepted):
        self.client = client
        self.number = number
        self.accepted = accepted
        self.result_future = None
        self.cancel_requests = []
        self.status = 1 if accepted else 0

    def get_result_async(self):
        self.client.graph.log.append(("get_result", self.number))
        self.result_future = FakeFuture(f"result{self.number}")
        return self.result_future

    def cancel_goal_async(self):
        self.client.graph.log.append(("cancel_goal", self.number))
        future = FakeFuture(f"cancel{self.number}")
        self.cancel_requests.append(future)
        return future


class FakeActionClient:
    def __init__(self, node, action_type, action_name, **kwargs):
        self.graph = node.graph
        self.action_type = action_type
        self.action_name = action_name
        self.destroyed = False
        self.goals = []
        self.graph.action_clients.append(self)
        self.graph.log.append(("create_action_client", action_name))

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        if not isinstance(goal, self.action_type.Goal):
            raise TypeError()
        number = self.graph.next_goal
        self.graph.next_goal += 1
        future = FakeFuture(f"goal{number}")
        self.goals.append((number, goal, future, feedback_callback))
        self.graph.goals.append(
            {"number": number, "goal": goal, "future": future, "feedback": feedback_callback,
             "handle": None, "client": self}
        )
        self.graph.log.append(("send_goal", number))
        return future

    def server_is_ready(self):
        return self.graph.action_ready

    def wait_for_server(self, timeout_sec=None):
        return self.graph.action_ready

    def destroy(self):
        self.destroyed = True
        self.graph.log.append(("destroy_action_client", self.action_name))


class FakeClient:
    def __init__(self, graph, srv_type, srv_name):
        self.graph = graph
        self.srv_type = srv_type
        self.srv_name = srv_name
        self.destroyed = False
        self.calls = []

    def call_async(self, request):
        if not isinstance(request, self.srv_type.Request):
            raise TypeError()
        future = FakeFuture(f"call{len(self.graph.calls)}")
        entry = {"request": request, "future": future, "name": self.srv_name, "client": self}
        self.calls.append(entry)
        self.graph.calls.append(entry)
        self.graph.log.append(("call", self.srv_name))
        return future

    def service_is_ready(self):
        ready = self.graph.service_ready
        return ready(self.srv_name) if callable(ready) else ready

    def wait_for_service(self, timeout_sec=None):
        return self.service_is_ready()


class FakeEndpoint:
    def __init__(self, graph, topic, msg_type, qos, callback=None):
        self.graph = graph
        self.topic = topic
        self.msg_type = msg_type
        self.qos_profile = qos
        self.callback = callback
        self.destroyed = False
        self.published = []

    def publish(self, msg):
        if not isinstance(msg, self.msg_type):
            raise TypeError()
        self.published.append(msg)
        self.graph.published.append((self.topic, msg))
        self.graph.log.append(("publish", self.topic))

    def get_subscription_count(self):
        return 1


import rclpy.impl.rcutils_logger  # noqa: E402


class _Logger(rclpy.impl.rcutils_logger.RcutilsLogger):
    def __init__(self):
        super().__init__("fake")

    def get_child(self, name):
        return self

    def _noop(self, *args, **kwargs):
        return True

    debug = info = warning = warn = error = fatal = log = _noop


class FakeRate:
    def __init__(self, graph, frequency):
        self.graph = graph
        self.frequency = frequency
        self.destroyed = False

    def sleep(self):
        self.graph.on_sleep(self)

    def destroy(self):
        self.destroyed = True


class FakeRosNode(rclpy.node.Node):
    """Deterministic rclpy node: `self.graph` is itself; the harness plays the rest of the ROS graph."""

    def __init__(self, now_ns=1_000_000_000_000, name="fake"):
        self.graph = self
        self.now_ns = now_ns
        self.log = []
        self.action_clients = []
        self.goals = []
        self.next_goal = 0
        self.action_ready = True
        self.clients_made = []
        self.calls = []
        self.service_ready = True
        self.subs = []
        self.pubs = []
        self.published = []
        self.params = {}
        self.rates = []
        self.timers_made = []
        self.fake_name = name
        self.destroy_ok = True
        self.publisher_infos = []
        self.sleep_hook = None

    def __del__(self):
        pass

    def __repr__(self):
        return "FakeRosNode()"

    # --- time
    def get_clock(self):
        return FakeClock(self)

    def advance(self, seconds):
        self.now_ns += int(seconds * 1e9)

    def create_rate(self, frequency, clock=None):
        if frequency <= 0:
            raise ValueError("frequency must be > 0")
        int(1.0 / frequency * 1e9)  # what create_timer does with it
        rate = FakeRate(self, frequency)
        self.rates.append(rate)
        return rate

    def destroy_rate(self, rate):
        rate.destroyed = True
        return True

    def on_sleep(self, rate):
        if self.sleep_hook is not None:
            self.sleep_hook(rate)

    def create_timer(self, period, callback, *args, **kwargs):
        self.timers_made.append((period, callback))

    # --- misc
    def get_logger(self):
        return _Logger()

    def get_name(self):
        return self.fake_name

    def get_namespace(self):
        return "/"

    def get_fully_qualified_name(self):
        return "/" + self.fake_name

    def resolve_topic_name(self, topic, *, only_expand=False):
        return topic if topic.startswith("/") else "/" + topic

    def get_publishers_info_by_topic(self, topic, no_mangle=False):
        return list(self.publisher_infos)

    def has_parameter(self, name):
        return name in self.params

    def get_parameter(self, name):
        from rclpy.exceptions import ParameterNotDeclaredException

        if name not in self.params:
            raise ParameterNotDeclaredException(name)
        return self.params[name]

    # --- services
    def create_client(self, srv_type, srv_name, **kwargs):
        client = FakeClient(self, srv_type, srv_name)
        self.clients_made.append(client)
        self.log.append(("create_client", srv_name))
        return client

    def destroy_client(self, client):
        if not self.destroy_ok:
            return False
        client.destroyed = True
        self.log.append(("destroy_client", client.srv_name))
        return True

    # --- topics
    def create_subscription(self, msg_type, topic, callback, qos_profile, **kwargs):
        sub = FakeEndpoint(self, topic, msg_type, qos_profile, callback)
        self.subs.append(sub)
        self.log.append(("subscribe", topic))
        return sub

    def destroy_subscription(self, subscription):
        if not self.destroy_ok:
            return False
        subscription.destroyed = True
        self.log.append(("unsubscribe", subscription.topic))
        return True

    def create_publisher(self, msg_type, topic, qos_profile=10, **kwargs):
        pub = FakeEndpoint(self, topic, msg_type, qos_profile)
        self.pubs.append(pub)
        self.log.append(("advertise", topic))
        return pub

    def destroy_publisher(self, publisher):
        if not self.destroy_ok:
            return False
        publisher.destroyed = True
        self.log.append(("unadvertise", publisher.topic))
        return True

    def deliver(self, topic, msg):
        """The rest of the graph publishes `msg`; every live subscription gets it."""
        n = 0
        for sub in self.subs:
            if not sub.destroyed and sub.topic == topic:
                sub.callback(msg)
                n += 1
        return n


rclpy.action.client.ActionClient = FakeActionClient
rclpy.action.ActionClient = FakeActionClient


# ---------------------------------------------------------------- logging manager: speed

import inspect as _inspect  # noqa: E402
import sys as _sys  # noqa: E402


def _stack(context=1):
    """inspect.stack() without its source lines, which nobody needs and which are slow to look up."""
    out, frame = [], _sys._getframe(1)
    while frame is not None:
        code = frame.f_code
        out.append(_inspect.FrameInfo(frame, code.co_filename, frame.f_lineno, code.co_name, None, None))
        frame = frame.f_back
    return out


_inspect.stack = _stack


def quiet():
    """Silences the leftover print()s of the logging manager."""
    import ros_bt_py.logging_manager as lm

    lm.print = lambda *args, **kwargs: None



def fast_yaml():
    """Use libyaml's parser where the parser itself is not the subject."""
    import yaml

    if hasattr(yaml, "CSafeLoader"):
        yaml.safe_load_all = lambda stream: yaml.load_all(stream, yaml.CSafeLoader)
        yaml.safe_load = lambda stream: yaml.load(stream, yaml.CSafeLoader)


def no_typechecks():
    """Leave out typeguard's assertions, where speed matters; call before anything of ros_bt_py is imported."""
    import sys

    import typeguard

    assert "ros_bt_py.node" not in sys.modules
    typeguard.typechecked = lambda target=None, **kwargs: target if target is not None else (lambda t: t)
