"""C52: the tree node (the process users talk to): services, topics, default tree, shutdown."""

import itertools
import os
import re
import sys
import types
import uuid

from mc import execution, files, kinds, sched, standins, treemgr as tm
from mc.core import Violation

import rclpy
import rclpy.action
import rclpy.executors
import rclpy.node
from rclpy.callback_groups import MutuallyExclusiveCallbackGroup


class Executor:
    """Records what is spun; `spin` hands over to the harness."""

    made = []

    def __init__(self, num_threads=None, *, context=None):
        self.threads = num_threads or os.cpu_count() or 1
        self.nodes = []
        Executor.made.append(self)

    def add_node(self, node):
        self.nodes.append(node)
        return True

    def remove_node(self, node):
        self.nodes.remove(node)

    def shutdown(self, timeout_sec=None):
        return True

    def spin(self):
        harness.spinning(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Single(Executor):
    def __init__(self, *, context=None):
        super().__init__(1)


rclpy.executors.MultiThreadedExecutor = Executor
rclpy.executors.SingleThreadedExecutor = Single

import ros_bt_py_interfaces.msg as bm
import ros_bt_py_interfaces.srv as bs
from diagnostic_msgs.msg import DiagnosticArray, DiagnosticStatus
from rclpy.qos import QoSDurabilityPolicy, QoSReliabilityPolicy
from ros_bt_py import tree_node
from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.helpers import BTNodeState as B
from ros_bt_py.logging_manager import LoggingManager
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.tree_edit_manager import TreeEditManager
from std_msgs.msg import Float64
from std_srvs.srv import SetBool

execution.sched.install()

ID = "C52"
TECHNIQUE = ("explicit enumeration of requests, switch settings, parameters and execution states on the real process entry point, "
             "in lockstep with managers that are called directly")
NOTE = "the ROS graph, executor and parameter library are stand-ins; the managers themselves are judged by the other properties"

TREE, PKG, DEBUG, LOG = "tree", "pkg", "debug", "log"
SERVICES = {
    "add_node": (bs.AddNode, TREE, "add_node"), "add_node_at_index": (bs.AddNodeAtIndex, TREE, "add_node_at_index"),
    "remove_node": (bs.RemoveNode, TREE, "remove_node"), "morph_node": (bs.MorphNode, TREE, "morph_node"),
    "wire_data": (bs.WireNodeData, TREE, "wire_data"), "unwire_data": (bs.WireNodeData, TREE, "unwire_data"),
    "control_tree_execution": (bs.ControlTreeExecution, TREE, "control_execution"),
    "get_subtree": (bs.GetSubtree, TREE, "get_subtree"), "generate_subtree": (bs.GenerateSubtree, TREE, "generate_subtree"),
    "debug/set_publish_subtrees": (SetBool, TREE, "set_publish_subtrees"),
    "debug/set_publish_data": (SetBool, TREE, "set_publish_data"),
    "set_options": (bs.SetOptions, TREE, "set_options"), "move_node": (bs.MoveNode, TREE, "move_node"),
    "replace_node": (bs.ReplaceNode, TREE, "replace_node"), "load_tree": (bs.LoadTree, TREE, "load_tree"),
    "load_tree_from_path": (bs.LoadTreeFromPath, TREE, "load_tree_from_path"), "clear": (bs.ClearTree, TREE, "clear"),
    "reload": (bs.ReloadTree, TREE, "reload_tree"), "change_tree_name": (bs.ChangeTreeName, TREE, "change_tree_name"),
    "debug/set_collect_node_diagnostics": (SetBool, DEBUG, "set_collect_node_diagnostics"),
    "set_log_level": (bs.SetLogLevel, LOG, "set_min_log_level"),
    "get_package_structure": (bs.GetPackageStructure, PKG, "get_installed_package_structure"),
    "get_folder_structure": (bs.GetFolderStructure, PKG, "get_folder_structure"),
    "save_tree": (bs.SaveTree, PKG, "save_tree_to_path"),
    "get_storage_folders": (bs.GetStorageFolders, PKG, "get_storage_folders"),
    "get_available_nodes": (bs.GetAvailableNodes, PKG, "get_available_nodes"),
}
STRUCT, STATE, DATA = "tree_structure_list", "tree_state_list", "tree_data_list"
TOPICS = {
    STRUCT: bm.TreeStructureList, STATE: bm.TreeStateList, DATA: bm.TreeDataList, "log_messages": bm.BTLogMessage,
    "debug/node_diagnostics": DiagnosticStatus, "debug/tick_frequency": Float64, "/diagnostics": DiagnosticArray,
    "message_types": bm.MessageTypes, "packages": bm.Packages,
}
KEPT = (STRUCT, STATE, DATA)  # a late subscriber needs the last message
CHANNELS = "message_channels"

area = None
harness = None
UUID = re.compile(r"[0-9a-f]{8}-(?:[0-9a-f]{4}-){3}[0-9a-f]{12}")


def short(name):
    """~/x and the like -> x"""
    return name[2:] if name.startswith("~/") else name


# ---------------------------------------------------------------- the tree node

BASE = tree_node.TreeNode


class Topic(standins.FakeEndpoint):
    """Takes down what is published when it is."""

    def publish(self, msg):
        super().publish(msg)
        self.graph.published[-1] = (self.topic, snap(msg) if short(self.topic) != CHANNELS else msg)


class Node(standins.FakeRosNode, BASE):
    def __init__(self, *args, **kwargs):
        standins.FakeRosNode.__init__(self)
        self.services_made = {}
        self.timers_by = []
        if "__init__" in vars(BASE):
            old, rclpy.node.Node.__init__ = rclpy.node.Node.__init__, lambda *a, **k: None
            try:
                BASE.__init__(self, *args, **kwargs)
            finally:
                rclpy.node.Node.__init__ = old
        harness.node = self
        if sched.active:
            sched.active.ros = [self]

    @property
    def default_callback_group(self):
        if not hasattr(self, "_harness_group"):
            self._harness_group = MutuallyExclusiveCallbackGroup()
        return self._harness_group

    def create_service(self, srv_type, srv_name, callback, *, callback_group=None, **kwargs):
        if srv_name in self.services_made:
            raise Violation(f"two services of one name: {srv_name}")
        entity = Entity(srv_type, srv_name, callback, callback_group or self.default_callback_group)
        self.services_made[srv_name] = entity
        return entity

    def create_publisher(self, msg_type, topic, qos_profile=10, **kwargs):
        self.pubs.append(Topic(self, topic, msg_type, qos_profile))
        return self.pubs[-1]

    def create_timer(self, period, callback, *args, **kwargs):
        super().create_timer(period, callback)
        return len(self.timers_made)

    def get_topic_names_and_types(self, no_demangle=False):
        return harness.graph[0]

    def get_service_names_and_types(self):
        return harness.graph[1]


class Entity:
    def __init__(self, srv_type, name, callback, group):
        self.srv_type, self.name, self.callback, self.callback_group = srv_type, name, callback, group
        group.add_entity(self)


rclpy.action.get_action_names_and_types = lambda node: harness.graph[2]


class Harness:
    """Runs main() of the tree node up to its spinning, then `script(side)`."""

    def __init__(self, params, script):
        self.params, self.script = params, script
        self.node = None
        self.spun = False
        self.graph = ([], [], [])

    def spinning(self, executor):
        if self.spun:
            raise KeyboardInterrupt
        self.spun = True
        if self.node is None or self.node not in executor.nodes:
            raise Violation("the tree node is not spun")
        self.threads = executor.threads
        self.script(Process(self))
        raise KeyboardInterrupt

    def run(self):
        global harness
        harness = self
        inner = sys.modules["ros_bt_py.parameters.tree_node_parameters"]
        saved = (inner.ParamListener, tree_node.TreeNode, rclpy.init, rclpy.ok, rclpy.spin, rclpy.shutdown)
        inner.ParamListener = lambda node: types.SimpleNamespace(get_params=lambda: self.params)
        tree_node.TreeNode = Node
        rclpy.init = rclpy.shutdown = lambda *a, **k: None
        rclpy.ok = lambda *a, **k: not self.spun

        def spin(node, executor=None):
            executor = executor or Single()
            executor.add_node(node)
            executor.spin()

        rclpy.spin = spin
        try:
            tree_node.main([])
        finally:
            inner.ParamListener, tree_node.TreeNode, rclpy.init, rclpy.ok, rclpy.spin, rclpy.shutdown = saved
        if not self.spun:
            raise Violation("the tree node ends before it serves anybody")


class Side:
    """What a user sees. `trace`: comparable text of everything answered and published."""

    def __init__(self):
        self.names = {}
        self.trace = []

    def text(self, obj):
        def rename(m):
            return self.names.setdefault(m.group(0), f"id{len(self.names)}")
        return UUID.sub(rename, repr(obj))

    def mark(self, what, res=None):
        """One step is over."""
        topics = {}
        for topic, msg in self.take():
            seq = topics.setdefault(topic, [])
            if not seq or seq[-1] != msg:
                seq.append(msg)
        self.trace.append((what, self.text(res), [(t, self.text(topics[t])) for t in sorted(topics)],
                           self.tree.state, sorted((str(n.state), n.name) for n in self.tree.nodes.values())))

    def last(self, topic):
        return self.latest.get(topic)

    def send(self, service, **fields):
        res = self.request(service, SERVICES[service][0].Request(**fields))
        self.mark(service, res)
        return res


class Process(Side):
    """The real tree node, through its services and topics."""

    def __init__(self, h):
        super().__init__()
        self.h, self.node = h, h.node
        self.ros = h.node
        self.tree = next(v for v in vars(h.node).values() if isinstance(v, TreeEditManager))
        self.latest = {}

    def take(self):
        out, self.ros.published[:] = [(short(t), m) for t, m in self.ros.published], []
        out = [(t, m) for t, m in out if t != CHANNELS]
        self.latest.update(out)
        return out

    def entity(self, name):
        for n, e in self.node.services_made.items():
            if short(n) == name:
                return e
        raise Violation(f"no such service: {name}")

    def request(self, name, request):
        e = self.entity(name)
        if not isinstance(request, e.srv_type.Request):
            raise Violation(f"another type of service: {name}", repr(e.srv_type))
        if not e.callback_group.can_execute(e):
            raise Violation(f"not served while something else is: {name}")
        e.callback_group.beginning_execution(e)
        try:
            res = e.callback(request, e.srv_type.Response())
        finally:
            e.callback_group.ending_execution(e)
        if not isinstance(res, e.srv_type.Response):
            raise Violation(f"no answer: {name}", repr(res))
        return res

    def tick_timers(self):
        for period, callback in list(self.ros.timers_made):
            callback()


class Direct(Side):
    """Managers called directly."""

    def __init__(self, params):
        super().__init__()
        self.ros = standins.FakeRosNode()
        self.latest = {}
        self.out = []
        pub = lambda topic: (lambda msg: self.out.append((topic, snap(msg))))  # noqa: E731
        self.pkg = PackageManager(
            tree_storage_directory_paths=params.tree_storage_paths,
            publish_message_list_callback=self.ros.create_publisher(bm.MessageTypes, "message_types"),
            publish_packages_list_callback=self.ros.create_publisher(bm.Packages, "packages"))
        self.pkg.publish_packages_list()
        self.pkg.publish_message_list()
        self.debug = DebugManager(ros_node=self.ros, node_diagnostics_publish_callback=pub("debug/node_diagnostics"))
        self.log = LoggingManager(ros_node=self.ros, publish_log_callback=pub("log_messages"))
        self.tree = TreeEditManager(
            ros_node=self.ros, module_list=params.node_modules, debug_manager=self.debug, subtree_manager=SubtreeManager(),
            logging_manager=self.log, publish_tree_structure_callback=pub(STRUCT), publish_tree_state_callback=pub(STATE),
            publish_tree_data_callback=pub(DATA), publish_diagnostic_callback=pub("/diagnostics"),
            publish_tick_frequency_callback=pub("debug/tick_frequency"), diagnostics_frequency=params.diagnostics_frequency_hz)

    def take(self):
        out = [(short(t), snap(m)) for t, m in self.ros.published] + self.out
        self.out, self.ros.published[:] = [], []
        self.latest.update(out)
        return out

    def request(self, name, request):
        cls, owner, method = SERVICES[name]
        return getattr(getattr(self, owner), method)(request, cls.Response())

    def tick_timers(self):
        for period, callback in list(self.ros.timers_made):
            callback()
        self.pkg.republish_lists()


_lists = {}


def snap(msg):
    if isinstance(msg, (bm.MessageTypes, bm.Packages)):
        if id(msg) not in _lists:
            if len(_lists) > 50:
                _lists.clear()
            _lists[id(msg)] = (msg, f"{type(msg).__name__} {hash(repr(msg))}")
        return _lists[id(msg)][1]
    return repr(msg)


# ---------------------------------------------------------------- what is run on both

def parameters(default=None, hz=1.0):
    d = dict(load_default_tree=False, load_default_tree_permissive=False, tick_frequency_hz=10.0, tree_path="", control_command=2)
    d.update(default or {})
    return types.SimpleNamespace(
        node_modules=["mc.kinds"], tree_storage_paths=[os.path.join(area.root, p) for p in ("s", "t")],
        show_traceback_on_exception=False, diagnostics_frequency_hz=hz, default_tree=types.SimpleNamespace(**d))


def scheduled(ros, script):
    """Run script under a schedule without preemptions."""
    s = sched.Scheduler(None, free=False, horizon=1000.0)
    ros.sleep_hook = lambda rate: sched.active and sched.active.sleep(1.0 / rate.frequency)
    s.ros = [ros]
    s.spawn(script, "user")
    s.run()
    return s


def both(where, params, history, first=None):
    """Run the history on the tree node and on the managers, and compare. -> the Process"""
    kept = {}

    def start(side):
        kinds.env.answer, kinds.env.log = None, []
        side.mark("start")

    def real(side):
        kept["process"] = side
        start(side)
        if first is not None:
            first(side)
        scheduled(side.ros, lambda: history(side))
        kept["log"] = kinds.env.log

    files.os.makedirs(os.path.join(area.root, "s"), exist_ok=True)
    reset()
    try:
        Harness(params, real).run()
    finally:
        kinds.env.answer = None
    reset()
    other = Direct(params)
    try:
        start(other)
        scheduled(other.ros, lambda: history(other))
    finally:
        kinds.env.answer = None
    compare(where, kept["process"], other)
    return kept["process"]


def compare(where, a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a.trace, b.trace)):
        if x == y:
            continue
        x, y = x or ("nothing",) * 5, y or ("nothing",) * 5
        for what, p, q in zip(("step", "answer", "messages", "tree state", "node states"), x, y):
            if p != q:
                if what == "messages":
                    p, q = [x for x in p if x not in q], [x for x in q if x not in p]
                raise Violation(f"{what} other than the manager's: {where}, step {i} ({x[0]})", f"\nnode    {str(p)[:1500]}\nmanager {str(q)[:1500]}")


TREE_MODEL = tm.Model([("0", "Flow", "0", ["1", "2", "3"]), ("1", "Src", "int", []), ("2", "Mid", "0", []), ("3", "Pair", "0", ["4"]),
                       ("4", "Mid", "0", [])], [("1", "n", "2", "a"), ("2", "b", "4", "a")])
GOOD = tm.tree_msg(tm.Run(), TREE_MODEL, 0x52000000)
ID_OF = {k: str(uuid.UUID(int=0x52000000 + int(k))) for k in TREE_MODEL.nodes}


def nested():
    """GOOD with a subtree of the storage folder below the node 3."""
    from ros_bt_py.ros_nodes.subtree import Subtree
    t = Subtree._node_config.copy().inputs["subtree_path"]
    t.set_value(url("s/old.yaml")).unwrap()
    tree = tm.tree_msg(tm.Run(), TREE_MODEL, 0x52000000)
    tree.nodes = list(tree.nodes) + [bm.NodeStructure(
        module=Subtree.__module__, node_class="Subtree", name="n5", node_id=str(uuid.UUID(int=0x52000005)),
        inputs=[bm.NodeIO(key="subtree_path", type=t.serialize_type(), serialized_value=t.serialize_value())])]
    next(n for n in tree.nodes if n.node_id == ID_OF["3"]).child_ids = [ID_OF["4"], tree.nodes[-1].node_id]
    return tree


def plan():
    return {"s/old.yaml": "version: 1.0.0\n" + standins.message_to_yaml(GOOD), "s/sub/x.yaml": "name: x\n", "t": None,
            "broken.yaml": "nodes: [\n", "good.yaml": "version: 1.0.0\n" + standins.message_to_yaml(GOOD),
            "unknown.yaml": "version: 1.0.0\n" + standins.message_to_yaml(tm.bad_tree("class")),
            "prefix/share/ament_index/resource_index/packages/pkg": "", "prefix/share/pkg/tree.yaml": "name: x\n"}


def reset():
    LoggingManager.set_min_log_level(bs.SetLogLevel.Request(min_log_level=20), bs.SetLogLevel.Response())  # one for the process
    area.fresh(plan())


def url(name):
    return "file://" + os.path.join(area.root, name)


def wire(a, b, c, d):
    return tm.wiring(ID_OF[a], b, ID_OF[c], d)


def requests():
    """(service, fields): at least one request for every service that is fulfilled, and some that are refused."""
    new = tm.new_node("Deco", "0", "new")
    return [
        ("add_node", dict(parent_node_id=ID_OF["3"], node=new)), ("add_node", dict(parent_node_id=ID_OF["4"], node=new)),
        ("add_node", dict(parent_node_id=tm.ZERO, node=new)),
        ("add_node_at_index", dict(parent_node_id=ID_OF["0"], node=new, new_child_index=1)),
        ("add_node_at_index", dict(parent_node_id=ID_OF["0"], node=new, new_child_index=0)),
        ("add_node_at_index", dict(parent_node_id=tm.UNKNOWN, node=new, new_child_index=0)),
        ("remove_node", dict(node_id=ID_OF["3"], remove_children=False)), ("remove_node", dict(node_id=ID_OF["3"], remove_children=True)),
        ("remove_node", dict(node_id=tm.UNKNOWN)),
        ("morph_node", dict(node_id=ID_OF["3"], new_node=new)), ("morph_node", dict(node_id=tm.GARBAGE, new_node=new)),
        ("wire_data", dict(wirings=[wire("1", "n", "4", "a")])), ("unwire_data", dict(wirings=[wire("1", "n", "2", "a")])),
        ("wire_data", dict(wirings=[wire("1", "n", "2", "a")])), ("unwire_data", dict(wirings=[wire("1", "n", "4", "a")])),
        ("get_subtree", dict(root_id=ID_OF["3"])), ("get_subtree", dict(root_id=tm.UNKNOWN)),
        ("generate_subtree", dict(node_ids=[ID_OF["0"], ID_OF["3"]])), ("generate_subtree", dict(node_ids=[ID_OF["1"]])),
        ("set_options", dict(node_id=ID_OF["1"], rename_node=True, new_name="renamed")),
        ("set_options", dict(node_id=ID_OF["0"], inputs=[i for i in tm.proto("Flow", "1").inputs if i.key == "x"])),
        ("move_node", dict(node_id=ID_OF["2"], parent_node_id=ID_OF["3"], new_child_index=0)),
        ("move_node", dict(node_id=ID_OF["0"], parent_node_id=ID_OF["3"], new_child_index=0)),
        ("replace_node", dict(old_node_id=ID_OF["2"], new_node_id=ID_OF["1"])),
        ("load_tree", dict(tree=tm.tree_msg(tm.Run(), tm.LOADED, 0x52F00000))), ("load_tree", dict(tree=tm.bad_tree("class"))),
        ("load_tree_from_path", dict(path=url("good.yaml"))), ("load_tree_from_path", dict(path=url("gone.yaml"))),
        ("clear", {}), ("reload", {}), ("change_tree_name", dict(name="other")),
        ("get_package_structure", dict(package="pkg")), ("get_package_structure", dict(package="nope")),
        ("get_folder_structure", dict(storage_folder=os.path.join(area.root, "s"))), ("get_folder_structure", dict(storage_folder="/nope")),
        ("get_storage_folders", {}), ("get_available_nodes", dict(node_modules=["mc.kinds_diag"])),
        ("save_tree", dict(storage_path=os.path.join(area.root, "s"), filename="new.yaml", tree=GOOD)),
        ("save_tree", dict(storage_path=os.path.join(area.root, "s"), filename="old.yaml", tree=GOOD, allow_overwrite=False)),
        ("save_tree", dict(storage_path=os.path.join(area.root, "prefix"), filename="old.yaml", tree=GOOD)),
    ] + [("control_tree_execution", dict(command=c, tick_frequency_hz=hz)) for c in (0, 1, 3, 4, 5, 6, 7, 9) for hz in ((0.0,) if c else (4.0,))] \
      + SWITCHES


SWITCHES = [(s, dict(data=v)) for s in ("debug/set_publish_subtrees", "debug/set_publish_data", "debug/set_collect_node_diagnostics")
            for v in (True, False)] + [("set_log_level", dict(min_log_level=v)) for v in (10, 20, 30, 40, 50)]
BEFORE = {
    "empty": [],
    "loaded": [("load_tree", dict(tree=GOOD))],
    "ticked": [("load_tree", dict(tree=GOOD)), ("debug/set_publish_data", dict(data=True)), ("control_tree_execution", dict(command=1))],
    "shut down": [("load_tree", dict(tree=GOOD)), ("control_tree_execution", dict(command=1)), ("control_tree_execution", dict(command=6))],
    "ticking": [("load_tree", dict(tree=GOOD)), ("control_tree_execution", dict(command=2, tick_frequency_hz=5.0))],
}


def ended(side):
    """End the history: what is shown to a late subscriber, timers, and no thread left."""
    side.tick_timers()
    side.mark("timers")
    side.send("control_tree_execution", command=1)
    side.send("get_subtree", root_id=ID_OF["0"])
    side.send("control_tree_execution", command=6)
    side.mark("latest", [side.last(t) for t in KEPT])


def chatty(node, op):
    """What the nodes do in these histories: they say something at every level."""
    for level in ("debug", "info", "warn", "error", "fatal"):
        getattr(node, "log" + level, getattr(node, "log_" + level, lambda *a: None))(f"{op} {level}")
    return None


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"every request of an alphabet of {len(SERVICES)} services (fulfilled and refused) by name in 5 execution states"
            f"{', and every pair of requests' if t else ''}; all {'sequences of up to 3' if t else 'pairs'} of 11 switch settings around "
            "ticks, with every topic compared; every service while a long tick request is being served; 7 default tree paths x "
            "flag x permissive x all commands x frequencies; shutdown from 8 execution states; all channel lists of up to 2 names per kind")


def shards(tier):
    out = [["service", b, i, 8] for b in BEFORE for i in range(8)] + [["switch", i, 11] for i in range(11)] + [["static"], ["busy"], ["channels"]]
    out += [["default", i, 8] for i in range(8)] + [["shutdown"]]
    if tier == "thorough":
        out += [["pairs", b, i, 64] for b in BEFORE for i in range(64)]
    return out


def run(shard, ctx):
    global area
    area = files.Area()
    os.environ["AMENT_PREFIX_PATH"] = os.path.join(area.root, "prefix")
    reset()
    try:
        globals()[shard[0]](ctx, *shard[1:])
    finally:
        area.drop()


def service(ctx, before, i, of):
    for n, (name, fields) in list(enumerate(requests()))[i::of]:
        case(ctx, ("service", before, n, name), parameters(), BEFORE[before] + [(name, fields)])


def pairs(ctx, before, i, of):
    todo = requests()
    for n, (a, b) in list(enumerate(itertools.product(todo, todo)))[i::of]:
        case(ctx, ("pair", before, n, a[0], b[0]), parameters(), BEFORE[before] + [a, b])


def case(ctx, key, params, steps):
    if ctx.stop:
        return

    def history(side):
        kinds.env.answer = chatty
        for name, fields in steps:
            side.send(name, **fields)
            if side.tree.state == "TICKING":
                sched.active.sleep(0.5)
                side.mark("a while later")
        ended(side)

    def body():
        p = both(repr(key), params, history)
        ctx.step(len(p.trace))
        ctx.outcome(tuple((t[0], t[3], tuple(x[0] for x in t[2])) for t in p.trace))
        for t in p.trace:
            ctx.state(t)

    ctx.case(repr(key), body)


def switch(ctx, i, of):
    tick = ("control_tree_execution", dict(command=1))
    for k in range(1, 4 if ctx.thorough else 3):
        for combo in itertools.product(range(len(SWITCHES)), repeat=k):
            if combo[0] != i:
                continue
            steps = [("load_tree", dict(tree=nested()))]
            for c in combo:
                steps += [SWITCHES[c], tick]
            case(ctx, ("switch", combo), parameters(), steps)


def static(ctx):
    """Names, types and delivery guarantees."""
    def body():
        def script(side):
            for name, (cls, _, _) in SERVICES.items():
                if side.entity(name).srv_type is not cls:
                    raise Violation(f"another type of service: {name}", repr(side.entity(name).srv_type))
            pubs = {short(p.topic): p for p in side.ros.pubs}
            for topic, cls in list(TOPICS.items()) + [(CHANNELS, bm.MessageChannels)]:
                if topic not in pubs:
                    raise Violation(f"no such topic: {topic}")
                if pubs[topic].msg_type is not cls:
                    raise Violation(f"another type of topic: {topic}", repr(pubs[topic].msg_type))
            for topic in KEPT:
                q = pubs[topic].qos_profile
                if q.durability != QoSDurabilityPolicy.TRANSIENT_LOCAL or q.reliability != QoSReliabilityPolicy.RELIABLE:
                    raise Violation(f"a late or lossy subscriber misses the tree: {topic}", repr(q))
            side.mark("start")
            for topic in (STRUCT, STATE, "message_types", "packages"):
                if side.last(topic) is None:
                    raise Violation(f"nothing published at the start: {topic}")
            if side.h.threads < 2:
                raise Violation("requests cannot be served while another one is")

        Harness(parameters(), script).run()

    ctx.case("names, types and guarantees", body)
    for hz in (0.5, 1.0, 4.0):
        def diag():
            def script(side):
                side.mark("start")
                for period, callback in list(side.ros.timers_made):
                    callback()
                    topics = {t for t, _ in side.take()}
                    if "/diagnostics" in topics and abs(period - 1 / hz) < 1e-9:
                        return
                raise Violation(f"no diagnostics at {hz} Hz")

            Harness(parameters(hz=hz), script).run()
        ctx.case(f"diagnostics {hz}", diag)


def busy(ctx):
    """Every service is served while a long request is."""
    for n, (name, fields) in enumerate(requests()):
        def body():
            def script(side):
                side.send("load_tree", tree=GOOD)

                def answer(node, op):
                    if op == "tick" and node.name == "n1":
                        sched.active.sleep(3.0)

                kinds.env.answer = answer
                order = []

                def long():
                    side.request("control_tree_execution", bs.ControlTreeExecution.Request(command=1))
                    order.append("long")

                def other():
                    sched.active.sleep(1.5)
                    if order:
                        raise Violation(f"harness: too late {name} {n}", repr(order))
                    side.request(name, SERVICES[name][0].Request(**fields))
                    order.append("other")

                s = sched.Scheduler(None, free=False, horizon=1000.0)
                side.ros.sleep_hook = lambda rate: sched.active and sched.active.sleep(1.0 / rate.frequency)
                s.ros = [side.ros]
                s.spawn(long, "long")
                s.spawn(other, "other")
                s.run()
                ctx.outcome((name, tuple(order)))

            reset()
            try:
                Harness(parameters(), script).run()
            finally:
                kinds.env.answer = None
            ctx.step()

        ctx.case(repr(("busy", n, name)), body)


def default(ctx, i, of):
    """The default tree is loaded and commanded as by hand."""
    paths = ["good.yaml", "gone.yaml", "broken.yaml", "unknown.yaml", "", "plain", "package"]
    full = itertools.product((True, False), paths, (False, True), range(9), (10.0, 2.0, 0.0))
    for n, (flag, path, permissive, command, hz) in list(enumerate(full))[i::of]:
        if ctx.stop:
            return
        if (not flag or path not in ("good.yaml", "package")) and (command not in (1, 2, 6) or hz != 2.0) and not ctx.thorough:
            continue
        where = {"": "", "plain": os.path.join(area.root, "good.yaml"), "package": "package://pkg/good.yaml"}.get(path, url(path))
        key = ("default", flag, path, permissive, command, hz)

        def body():
            params = parameters(dict(load_default_tree=flag, load_default_tree_permissive=permissive, tick_frequency_hz=hz,
                                     tree_path=where, control_command=command))
            traces = []

            def after(side):
                def rest():
                    sched.active.sleep(1.05)
                    side.mark("default tree")
                    side.trace.append(("log", tuple(kinds_log)))
                    side.send("control_tree_execution", command=6)
                traces.append(side)
                return rest

            kinds_log = []
            for real in (True, False):
                reset()
                area.put("prefix/share/pkg/good.yaml", plan()["good.yaml"])
                kinds_log.clear()
                kinds.env.answer = lambda node, op: kinds_log.append((op, node.name))
                try:
                    if real:
                        ros = []

                        def script(side):
                            ros.append(side.ros)
                            after(side)()

                        s = sched.Scheduler(None, free=False, horizon=1000.0)
                        h = Harness(params, script)

                        def hook(rate):
                            return sched.active and sched.active.sleep(1.0 / rate.frequency)

                        old, standins.FakeRosNode.on_sleep = standins.FakeRosNode.on_sleep, lambda self, rate: hook(rate)
                        try:
                            s.spawn(h.run, "main")
                            s.run()
                        finally:
                            standins.FakeRosNode.on_sleep = old
                    else:
                        d = Direct(params)

                        def by_hand():
                            if flag:
                                res = d.request("load_tree", bs.LoadTree.Request(tree=bm.TreeStructure(path=where), permissive=permissive))
                                if res.success:
                                    d.request("control_tree_execution", bs.ControlTreeExecution.Request(command=command, tick_frequency_hz=hz))
                            after(d)()

                        scheduled(d.ros, by_hand)
                finally:
                    kinds.env.answer = None
            compare(repr(key), *traces)
            ctx.step(len(traces[0].trace))
            ctx.outcome((flag, path, command, traces[0].trace[0][3]))
            ctx.state(traces[0].trace)

        ctx.case(repr(key), body)


def shutdown(ctx):
    """shutdown() of the tree node ends the execution from every state."""
    stories = {
        "nothing loaded": [], "loaded": [("load_tree", dict(tree=GOOD))], "ticked": BEFORE["ticked"], "shut down": BEFORE["shut down"],
        "ticking": BEFORE["ticking"], "stopped": BEFORE["ticking"] + [("control_tree_execution", dict(command=4))],
        "reset": BEFORE["ticked"] + [("control_tree_execution", dict(command=5))], "running": [("load_tree", dict(tree=GOOD)), ("control_tree_execution", dict(command=1))],
    }
    for name, steps in stories.items():
        for lazy in (False, True):
            def body():
                def history(side):
                    kinds.env.answer = lambda node, op: B.RUNNING if lazy and op == "tick" and not node.children else None
                    for s, fields in steps:
                        side.send(s, **fields)
                    was = side.tree.state
                    if was == "TICKING":
                        sched.active.sleep(0.3)
                        was = side.tree.state
                    side.node.shutdown()
                    if any(t.started and not t.done and not t.script for t in sched.active.tasks):
                        raise Violation(f"still ticking after the shutdown: {name} {lazy}")
                    states = {n.state for n in side.tree.nodes.values()}
                    if was not in ("EDITABLE", "IDLE", "ERROR") and not states <= {B.SHUTDOWN, B.UNINITIALIZED}:
                        raise Violation(f"nodes are not shut down: {name} {lazy}", repr((was, states)))
                    if B.RUNNING in states or side.tree.state in ("TICKING", "WAITING_FOR_TICK"):
                        raise Violation(f"the tree still runs: {name} {lazy}", repr((side.tree.state, states)))
                    ctx.outcome((name, lazy, was, side.tree.state))
                    ctx.step()

                try:
                    reset()
                    Harness(parameters(), lambda side: scheduled(side.ros, lambda: history(side))).run()
                finally:
                    kinds.env.answer = None

            ctx.case(repr(("shutdown", name, lazy)), body)


def channels(ctx):
    """The list of channels has every topic, service and action of the graph."""
    one = [[], [("/a", ["p/msg/A"])], [("/a", ["p/msg/A"]), ("/b", ["p/msg/B"])], [("/two", ["p/msg/A", "p/msg/B"])]]
    for n, graph in enumerate(itertools.product(one, repeat=3)):
        def body():
            def script(side):
                side.h.graph = graph
                side.ros.published.clear()
                side.tick_timers()
                msgs = [m for t, m in side.ros.published if short(t) == CHANNELS]
                if not msgs:
                    raise Violation("no list of channels is published")
                for kind, want in zip(("topics", "services", "actions"), graph):
                    got = [(c.name, c.type) for c in getattr(msgs[-1], kind)]
                    names = [x for x, _ in want]
                    if sorted(x for x, _ in got) != sorted(names) or any(t not in dict(want)[x] for x, t in got):
                        raise Violation(f"other {kind} than there are: {want}", repr(got))
                ctx.step()
                ctx.outcome(n)

            Harness(parameters(), script).run()

        ctx.case(repr(("channels", graph)), body)
