import itertools
import os
import sys
from copy import deepcopy

from mc import standins, zoo
from mc.core import Violation
from mc.treekit import Env, SUCC, nid

from ros_bt_py_interfaces.msg import NodeDataType, NodeIO, NodeStructure
from ros_bt_py_interfaces.srv import GetAvailableNodes
from ros_bt_py.data_types import ReferenceContainer
from ros_bt_py.node import Node
from ros_bt_py.package_manager import PackageManager

TECHNIQUE = ("explicit-state model checking: every registered class x every single (thorough: double) deviation of its description, "
             "and all sequences of module requests")
NOTE = ("Complete for the stated deviations. A value is only judged wrong when its kind (number, text, list, ...) is not that of the "
        "declared type or it is no JSON at all; finer value checks belong to C13 and C14.")
ID = "C50"

PKG = {
    "mc_c50_good": """
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.data_types import IntType, StringType
from ros_bt_py.vendor.result import Ok
@define_bt_node(NodeConfig(inputs={"i": IntType(allow_dynamic=False)}, outputs={"o": StringType()}, max_children=0, tags=["t1", "t2"]))
class Good(Leaf):
    '''The doc.

        indented
    '''
    def _do_setup(self): return Ok("IDLE")
    def _do_tick(self): return Ok("SUCCEEDED")
    def _do_untick(self): return Ok("IDLE")
    def _do_reset(self): return Ok("IDLE")
    def _do_shutdown(self): return Ok("SHUTDOWN")
@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Silent(Good.__mro__[1]):
    def _do_setup(self): return Ok("IDLE")
    def _do_tick(self): return Ok("SUCCEEDED")
    def _do_untick(self): return Ok("IDLE")
    def _do_reset(self): return Ok("IDLE")
    def _do_shutdown(self): return Ok("SHUTDOWN")
class Undefined(Good.__mro__[1]):
    pass
""",
    "mc_c50_empty": "x = 1\n",
    "mc_c50_missing_import": "import mc_c50_does_not_exist\n",
    "mc_c50_value_error": "raise ValueError('no')\n",
    "mc_c50_syntax": "def f(:\n",
    "mc_c50_runtime": "raise RuntimeError('no')\n",
    "mc_c50_attribute": "import os\nos.no_such_thing\n",
}
LOADABLE = {"mc_c50_good", "mc_c50_empty", "ros_bt_py.nodes.sequence", "ros_bt_py.ros_nodes"}
REQUESTS = sorted(PKG) + ["ros_bt_py.nodes.sequence", "ros_bt_py.ros_nodes", "mc_c50_nowhere", "ros_bt_py.nowhere", ".relative", ".", "a b", ""]
JSON = {"int": "3", "float": "1.5", "bool": "true", "str": '"x"', "list": "[]", "dict": "{}", "null": "null"}
KINDS = {
    NodeDataType.BOOL_TYPE: {"bool"}, NodeDataType.INT_TYPE: {"int", "bool"}, NodeDataType.FLOAT_TYPE: {"float", "int", "bool"},
    NodeDataType.STRING_TYPE: {"str"}, NodeDataType.PATH_TYPE: {"str"}, NodeDataType.LIST_TYPE: {"list"},
    NodeDataType.DICT_TYPE: {"dict"}, NodeDataType.GENERIC_TYPE: {"dict"}, NodeDataType.ROS_INTERFACE_NAME: {"str"},
}
BROKEN = ("", "{", "[1", "x", "1 2", '"', '\ud800', "nul")
MODULES = ("mc_c50_nowhere", "", ".relative", ".", "..", "os", "ros_bt_py", "a b", "mc_c50_missing_import", "mc_c50_value_error",
           "mc_c50_syntax", "mc_c50_runtime", "mc_c50_attribute", "mc_c50_empty", "\x00", "ä")
CLASSES = ("", "NoSuchClass", "node", "__class__", "Node", " ")
IDS = ("", "x", "1", "\x00", "0" * 31, "g" * 32, "None")
PLAIN = {NodeDataType.BOOL_TYPE, NodeDataType.INT_TYPE, NodeDataType.FLOAT_TYPE, NodeDataType.STRING_TYPE, NodeDataType.LIST_TYPE,
         NodeDataType.DICT_TYPE}


def BOUNDS(tier):
    return (f"{len(zoo.labels())} rigs of {len({v[0] for v in zoo.table().values()})} classes, each from its description with every single "
            f"deviation{' and every pair of deviations' if tier == 'thorough' else ''} over {len(MODULES)} modules, {len(CLASSES)} class names, "
            f"{len(IDS)} ids, every input missing, doubled, renamed, retyped, with {len(JSON) + len(BROKEN)} values; all requests of up to "
            f"{3 if tier == 'thorough' else 2} of {len(REQUESTS)} modules")


def shards(tier):
    return [["list", m] for m in REQUESTS] + [["node", x] for x in zoo.labels()]


def weight(shard):
    return 1


class Modules:
    """The modules above, importable afresh while this is entered."""

    def __enter__(self):
        self.dir = os.path.join(zoo.scratch(), "modules")
        os.makedirs(self.dir, exist_ok=True)
        for name, text in PKG.items():
            with open(os.path.join(self.dir, name + ".py"), "w") as f:
                f.write(text)
        sys.path.insert(0, self.dir)
        self.old = dict(Node.node_classes)
        self.cache = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        return self

    def __exit__(self, *a):
        sys.path.remove(self.dir)
        sys.dont_write_bytecode = self.cache
        for name in PKG:
            sys.modules.pop(name, None)
        for name in list(Node.node_classes):
            if name not in self.old:
                del Node.node_classes[name]


def run(shard, ctx):
    standins.quiet()
    with Modules():
        if shard[0] == "list":
            ctx.explore(lambda ch: listing(ch, ctx, shard[1]), shard[1])
        else:
            node(ctx, shard[1])


# ------------------------------------------------------------------ the list


def described(cls):
    conf = cls._node_config
    return (
        -1 if conf.max_children is None else conf.max_children,
        {k: c.serialize_type() for k, c in conf.inputs.items()},
        {k: c.serialize_type() for k, c in conf.outputs.items()},
    )


def check_list(key, response, must):
    seen = {}
    for d in response.available_nodes:
        if (d.module, d.node_class) in seen:
            raise Violation(f"{key}: {d.module}.{d.node_class} is listed twice")
        seen[d.module, d.node_class] = d
    real = {(m, c): cls for m, classes in Node.node_classes.items() for c, cls in classes.items()}
    if set(seen) != set(real):
        raise Violation(f"{key}: lists {sorted(set(seen) - set(real))} and not {sorted(set(real) - set(seen))}")
    for name in must:
        if name not in seen:
            raise Violation(f"{key}: does not list {name}")
    for name, d in seen.items():
        cls = real[name]
        limit, ins, outs = described(cls)
        if cls.__module__ != name[0] or cls.__name__ != name[1]:
            raise Violation(f"{key}: {name} is {cls}")
        got = (d.max_children, {i.key: i.type for i in d.inputs}, {o.key: o.type for o in d.outputs})
        if got != (limit, ins, outs) or len(d.inputs) != len(ins) or len(d.outputs) != len(outs):
            raise Violation(f"{key}: {name} is described by {got}", f"expected {(limit, ins, outs)}")
        if [i.key for i in d.inputs] != list(ins):
            raise Violation(f"{key}: the inputs of {name} are listed as {[i.key for i in d.inputs]}")
        if list(d.tags) != list(cls._node_config.tags):
            raise Violation(f"{key}: the tags of {name} are listed as {d.tags}", str(cls._node_config.tags))
        first = next((x.strip() for x in (cls.__doc__ or "").splitlines() if x.strip()), None)
        if first is not None and first not in d.doc:
            raise Violation(f"{key}: {name} is documented by {d.doc!r}")


GOOD = [("mc_c50_good", "Good"), ("mc_c50_good", "Silent")]


def listing(ch, ctx, first):
    for name in PKG:
        sys.modules.pop(name, None)
        Node.node_classes.pop(name, None)
    asked, loaded = [], False
    trace = []
    request = [first]
    for n in range(ctx.pick(2, 3)):
        if n:
            how = ch.choose(("end", "same", "new"))
            if how == "end":
                break
            more = ch.choose(REQUESTS)
            request = request + [more] if how == "same" else [more]
            trace = trace[:-1] if how == "same" else trace
        trace.append(tuple(request))
    for request in trace:
        key = f"asking for {trace[:trace.index(request) + 1]}"
        try:
            r = PackageManager.get_available_nodes(GetAvailableNodes.Request(node_modules=list(request)), GetAvailableNodes.Response())
        except Exception as ex:
            raise Violation(f"{key}: {type(ex).__name__}", repr(ex))
        ctx.step()
        ok = all(m in LOADABLE or m == "" for m in request)
        if r.success != ok:
            raise Violation(f"{key}: success={r.success}", r.error_message)
        if not ok and not r.error_message:
            raise Violation(f"{key}: failure without a message")
        if ok:
            loaded = loaded or "mc_c50_good" in request
            check_list(key, r, (GOOD if loaded else []) + [("ros_bt_py.nodes.sequence", "Sequence"), ("ros_bt_py.ros_nodes.wait", "Wait")])
            for d in r.available_nodes:
                if (d.module, d.node_class) == GOOD[0] and (list(d.tags) != ["t1", "t2"] or d.doc != "The doc.\n\nindented"
                                                            or [i.key for i in d.inputs] != ["i"] or d.max_children != 0):
                    raise Violation(f"{key}: Good is described as {d}")
                if d.node_class == "Undefined":
                    raise Violation(f"{key}: lists a class that was not defined as a node")
        ctx.state((tuple(trace[:trace.index(request) + 1]),))
    ctx.outcome(tuple(trace))
    return trace


# ------------------------------------------------------------------ instantiation


def description(label):
    """What an editor makes of the list of available nodes, given the values of the rig."""
    rig = zoo.make(label, Env(lambda n, op: SUCC if op == "tick" else None))
    cls = type(rig.node)
    r = PackageManager.get_available_nodes(GetAvailableNodes.Request(), GetAvailableNodes.Response())
    found = [d for d in r.available_nodes if (d.module, d.node_class) == (cls.__module__, cls.__name__)]
    if len(found) != 1:
        raise Violation(f"{label}: listed {len(found)} times")
    msg = NodeStructure(module=found[0].module, node_class=found[0].node_class, max_children=found[0].max_children,
                        node_id=str(nid(5)), name="Some name")
    for io in found[0].inputs:
        real = rig.node.node_config.inputs[io.key]
        io.type.is_static = real.is_static
        if isinstance(real, ReferenceContainer):
            io.type.is_static = real.is_static
        value = real.serialize_value() if real.is_static else ""
        msg.inputs.append(NodeIO(key=io.key, type=io.type, serialized_value=value))
    declared = {io.key for io in found[0].inputs}
    for k, real in rig.node.node_config.inputs.items():  # those that the class adds for these values
        if k not in declared and not real.is_static:
            msg.inputs.append(NodeIO(key=k, type=real.serialize_type(), serialized_value=""))
    return rig, msg


def copy(msg):
    return deepcopy(msg)


def shape(c):
    t = c.serialize_type()
    if t.type_identifier == NodeDataType.FLOAT_TYPE:
        t.min_value, t.max_value = (str(float(x)) if x else x for x in (t.min_value, t.max_value))
    return repr(t)


def facts(node):
    return {"in": {k: (shape(c), c.is_static, zoo.plain(c.get_value().ok()) if c.is_static else None)
                   for k, c in node.node_config.inputs.items()},
            "out": {k: shape(c) for k, c in node.node_config.outputs.items()},
            "limit": node.node_config.max_children}


def deviations(msg):
    """(name, apply, must) with must: "err", "any" (either way, but no exception), or a function(node) judging an accepted one."""
    out = []

    def add(name, change, must="err"):
        out.append((name, change, must))

    for m in MODULES:
        add(f"module {m!r}", lambda x, m=m: setattr(x, "module", m))
    for c in CLASSES:
        add(f"class {c!r}", lambda x, c=c: setattr(x, "node_class", c))
    for i in IDS:
        add(f"id {i!r}", lambda x, i=i: setattr(x, "node_id", i))
    add("no name", lambda x: setattr(x, "name", ""), lambda node: None if node.name == msg.node_class else f"is called {node.name!r}")
    add("child_ids", lambda x: setattr(x, "child_ids", [str(nid(9))]), lambda node: "has children" if node.children else None)
    plain = NodeDataType(type_identifier=NodeDataType.INT_TYPE, allow_static=True, allow_dynamic=True, is_static=True)
    add("extra input", lambda x: x.inputs.append(NodeIO(key="mc no such input", type=copy(plain), serialized_value="3")))
    add("extra dynamic input", lambda x: (x.inputs.append(NodeIO(key="mc_none", type=copy(plain), serialized_value="")),
                                          setattr(x.inputs[-1].type, "is_static", False)))
    add("extra nameless input", lambda x: x.inputs.append(NodeIO(key="", type=copy(plain), serialized_value="3")))
    add("input without a type", lambda x: x.inputs.append(NodeIO(key="mc_none")))
    by_key = {io.key: n for n, io in enumerate(msg.inputs)}
    for key, n in by_key.items():
        io = msg.inputs[n]
        add(f"without {key}", lambda x, n=n: x.inputs.pop(n), ("missing", key))
        add(f"{key} twice", lambda x, n=n: x.inputs.append(copy(x.inputs[n])), "any")
        add(f"{key} renamed", lambda x, n=n: setattr(x.inputs[n], "key", "mc_other"))
        for t in (0, 99, 255):
            add(f"{key} of unknown type {t}", lambda x, n=n, t=t: setattr(x.inputs[n].type, "type_identifier", t))
        mine = io.type.type_identifier
        for t in sorted(PLAIN):
            if t == mine:
                continue
            must = "err" if mine in PLAIN | {NodeDataType.PATH_TYPE, NodeDataType.BYTES_TYPE} and \
                not {t, mine} <= {NodeDataType.INT_TYPE, NodeDataType.FLOAT_TYPE} and \
                not {t, mine} <= {NodeDataType.STRING_TYPE, NodeDataType.PATH_TYPE} else "any"

            def retype(x, n=n, t=t):
                old = x.inputs[n].type
                new = NodeDataType(type_identifier=t, allow_static=old.allow_static, allow_dynamic=old.allow_dynamic, is_static=old.is_static)
                if t in (NodeDataType.LIST_TYPE, NodeDataType.DICT_TYPE):
                    new.value_type_identifier = [NodeDataType.INT_TYPE]
                    new.iterable_max_length = [0]
                    new.iterable_strict_length = [False]
                x.inputs[n].type = new
                x.inputs[n].serialized_value = {1: "true", 2: "3", 3: "1.5", 4: '"x"', 5: "[]", 6: "{}"}[t]
            add(f"{key} retyped {t}", retype, must)
        add(f"{key} flag flipped", lambda x, n=n: setattr(x.inputs[n].type, "is_static", not x.inputs[n].type.is_static),
            "err" if io.type.allow_static != io.type.allow_dynamic else "any")
        add(f"{key} allows nothing", lambda x, n=n: (setattr(x.inputs[n].type, "allow_static", False),
                                                     setattr(x.inputs[n].type, "allow_dynamic", False)), "any")
        if io.type.type_identifier in (NodeDataType.REFERENCE_TYPE, NodeDataType.REFERENCE_LIST_TYPE, NodeDataType.REFERENCE_DICT_TYPE):
            for target in ("mc_none", "", key):
                add(f"{key} refers to {target!r}", lambda x, n=n, target=target: setattr(x.inputs[n].type, "reference_target", target),
                    "err" if target else "any")
        if not io.type.is_static:
            continue
        kinds = KINDS.get(mine)
        for kind, text in JSON.items():
            add(f"{key} = {text}", lambda x, n=n, text=text: setattr(x.inputs[n], "serialized_value", text),
                "any" if kinds is None or kind in kinds else "err")
        for text in BROKEN:
            add(f"{key} = {text!r}", lambda x, n=n, text=text: setattr(x.inputs[n], "serialized_value", text),
                "any" if (text == "" and not io.serialized_value) or mine == NodeDataType.STRING_TYPE and False else "err")
    return out


def node(ctx, label):
    rig, msg = description(label)
    ctx.state(label)

    def whole():
        res = Node.from_msg(copy(msg), ros_node=standins.FakeRosNode())
        ctx.step()
        if res.is_err():
            raise Violation(f"{label}: cannot be instantiated from its description", str(res))
        got, want = facts(res.ok()), facts(rig.node)
        if type(res.ok()) is not type(rig.node) or str(res.ok().node_id) != str(nid(5)) or res.ok().name != "Some name":
            raise Violation(f"{label}: gives a {type(res.ok()).__name__} {res.ok().node_id} {res.ok().name!r}")
        for part in want:
            if got[part] != want[part]:
                raise Violation(f"{label}: instantiated with {part} {got[part]}", f"expected {want[part]}")
        if res.ok().state != "UNINITIALIZED" or res.ok().children or res.ok().parent is not None:
            raise Violation(f"{label}: a new node is {res.ok().state} with {res.ok().children}")
        ctx.outcome((label, "whole"))
        return label

    ctx.case(f"{label} whole", whole)
    devs = deviations(msg)
    singles = [(d,) for d in devs]
    pairs = []
    if ctx.thorough:
        pairs = [p for p in itertools.combinations(devs, 2)]
    for change in singles + pairs:
        ctx.case(f"{label} {' + '.join(c[0] for c in change)}", lambda: deviate(ctx, label, rig, msg, change))


def deviate(ctx, label, rig, msg, change):
    names = " + ".join(c[0] for c in change)
    m = copy(msg)
    for name, apply, must in change:
        try:
            apply(m)
        except (IndexError, AttributeError):
            return None
    before = repr(m)
    try:
        res = Node.from_msg(m, ros_node=standins.FakeRosNode())
    except Exception as ex:
        raise Violation(f"{label} with {names}: {type(ex).__name__}", repr(ex))
    ctx.step()
    if repr(m) != before:
        raise Violation(f"{label} with {names}: the message is changed", f"{before}\n{m}")
    ctx.outcome((label, names, res.is_ok()))
    if len(change) > 1:
        return names, res.is_ok()
    name, _, must = change[0]
    if must == "err":
        if res.is_ok():
            raise Violation(f"{label} with {names}: accepted", str(facts(res.ok())))
    elif callable(must):
        if res.is_err():
            raise Violation(f"{label} with {names}: refused", str(res))
        wrong = must(res.ok())
        if wrong:
            raise Violation(f"{label} with {names}: {wrong}")
    elif isinstance(must, tuple) and res.is_ok():
        key = must[1]
        template = type(rig.node)._node_config.inputs.get(key)
        got = res.ok().node_config.inputs.get(key)
        if template is not None and not isinstance(template, ReferenceContainer) and (got is None or zoo.plain(got.get_value().ok()) != zoo.plain(template.get_value().ok())):
            raise Violation(f"{label} with {names}: starts with {got.get_value() if got else None}", str(template.get_value()))
    return names, res.is_ok()
