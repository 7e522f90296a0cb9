"""Harness around a real TreeEditManager, and an independent reference model of tree editing.

Nodes are named by small labels (the harness maps the manager's random ids), so that states can be compared.
"""

import functools
import uuid

from mc import kinds, standins  # noqa: F401
from mc.core import Violation
from mc.zoo import G, Rig

import ros_bt_py_interfaces.msg as bm
import ros_bt_py_interfaces.srv as bs
from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.tree_edit_manager import TreeEditManager

ZERO = str(uuid.UUID(int=0))
UNKNOWN = str(uuid.UUID(int=0xDEAD))
GARBAGE = "no id"

CAP = {"Flow": None, "Pair": 2, "Deco": 1, "Src": 0, "Snk": 0, "Mid": 0}
VALUES = {
    ("Flow", "0"): {"x": 0}, ("Flow", "1"): {"x": 1}, ("Pair", "0"): {}, ("Deco", "0"): {"x": 0}, ("Deco", "1"): {"x": 1},
    ("Src", "int"): {"kind": dict(G[int])}, ("Src", "str"): {"kind": dict(G[str])},
    ("Snk", "0"): {"s": 0}, ("Snk", "1"): {"s": 1}, ("Mid", "0"): {},
}
DEFAULT = {"Flow": "0", "Pair": "0", "Deco": "0", "Src": "int", "Snk": "0", "Mid": "0"}
_protos = {}


def proto(cls, opt):
    """The structure message of a fresh node."""
    key = (cls, opt)
    if key not in _protos:
        dynamic = {"Snk": {"a": 1, "t": "x"}, "Mid": {"a": 1}}.get(cls, {})
        rig = Rig(kinds.CLASSES[cls], VALUES[key], [dynamic])
        _protos[key] = rig.node.to_structure_msg()
    return _protos[key]


def kind(t):
    """A data type message as a value (like repr, but fast)."""
    return tuple(repr(getattr(t, f)) if f in _SEQ else getattr(t, f) for f in _FIELDS)


_FIELDS = tuple(bm.NodeDataType.get_fields_and_field_types())
_SEQ = {f for f, t in bm.NodeDataType.get_fields_and_field_types().items() if "sequence" in t or "[" in t or "/" in t}


def io(items):
    return tuple((x.key, kind(x.type), x.serialized_value) for x in items)


_shapes = None


def shape_of(module, cls, inputs, outputs, cap):
    """(cls, opt) of a node with these inputs and outputs, or a description of what is strange about it."""
    global _shapes
    if _shapes is None:
        _shapes = {}
        for c, o in VALUES:
            m = proto(c, o)
            _shapes[m.module, m.node_class, io(m.inputs), io(m.outputs), m.max_children] = (c, o)
    found = _shapes.get((module, cls, inputs, outputs, cap))
    return found if found else ("strange", module, cls, inputs, outputs, cap)


def new_node(cls, opt, name="", children=(), node_id=""):
    m = proto(cls, opt)
    return bm.NodeStructure(module=m.module, node_class=m.node_class, name=name, node_id=node_id, child_ids=list(children),
                            max_children=m.max_children, inputs=list(m.inputs), outputs=list(m.outputs), tree_ref="")


def wiring(src, skey, dst, dkey):
    return bm.Wiring(source=bm.NodeDataLocation(node_id=src, data_key=skey),
                     target=bm.NodeDataLocation(node_id=dst, data_key=dkey))


@functools.lru_cache(maxsize=4096)
def _norm(text):
    try:
        return str(uuid.UUID(text))
    except ValueError:
        return None


class Run:
    """A manager and what it published. `ids`: label -> node id."""

    def __init__(self, **kw):
        self.ros = standins.FakeRosNode()
        self.structure = self.state = self.data = None
        self.published = 0
        self.capture = True
        kw.setdefault("debug_manager", DebugManager(ros_node=self.ros))
        kw.setdefault("subtree_manager", SubtreeManager())
        self.m = TreeEditManager(
            ros_node=self.ros,
            publish_tree_structure_callback=self._structure,
            publish_tree_state_callback=self._state,
            publish_tree_data_callback=self._data,
            **kw,
        )
        self.ids = {}

    # ------------------------------------------------------------ what it publishes
    def _structure(self, msg):
        self.published += 1
        if not self.capture:
            return
        self.structures = [_structure(s) for s in msg.tree_structures]
        self.structure = self.structures[-1]

    def _state(self, msg):
        self.states = [(s.tree_id, s.state, tuple((n.node_id, n.state) for n in s.node_states)) for s in msg.tree_states]
        self.state = self.states[-1]

    def _data(self, msg):
        self.datas = [(d.tree_id, [_wiring_data(w) for w in d.wiring_data]) for d in msg.tree_data]
        self.data = self.datas[-1] if self.datas else None

    # ------------------------------------------------------------ services
    def call(self, service, **fields):
        """-> response; an exception is a violation of C18."""
        cls = getattr(bs, SERVICES[service])
        request = cls.Request(**fields)
        response = cls.Response()
        res = getattr(self.m, service)(request, response)
        return res

    def control(self, command, hz=0.0):
        return self.call("control_execution", command=command, tick_frequency_hz=hz)

    # ------------------------------------------------------------ labels
    def label(self, node_id):
        u = _norm(str(node_id))
        if u is None:
            return "!"
        for k, v in self.ids.items():
            if v == u:
                return k
        return "0" if u == ZERO else "?" + u

    def id(self, label):
        return {None: ZERO, "?": UNKNOWN, "!": GARBAGE}[label] if label in (None, "?", "!") else self.ids[label]

    def wire(self, w):
        return wiring(self.id(w[0]), w[1], self.id(w[2]), w[3])

    # ------------------------------------------------------------ observations
    def shown(self):
        """The last published structure, canonical: (nodes, wirings, name, public in, public out, frequency, root)."""
        return self.canonical(self.structure)

    def canonical(self, s):
        if s is None:
            return None
        nodes = []
        for n in s["nodes"]:
            nodes.append((self.label(n[0]), n[1], shape_of(*n[2]), tuple(self.label(c) for c in n[3])))
        names = [n[0] for n in nodes]
        if len(set(names)) != len(names):
            raise Violation("a node is published twice", repr(nodes))
        wires = sorted((self.label(a), b, self.label(c), d) for a, b, c, d in s["wirings"])
        loc = [tuple(sorted((self.label(a), b) for a, b in s[k])) for k in ("public_inputs", "public_outputs")]
        return (tuple(sorted(nodes)), tuple(wires), s["name"], loc[0], loc[1], s["frequency"], self.label(s["root"]))

    def graph(self):
        """The tree that would be executed, in the same form as the first part of `shown`, and its parent links."""
        nodes, parents = [], []
        for key, node in self.m.nodes.items():
            config = node.node_config
            inputs = tuple((k, kind(c.serialize_type()), c.serialize_value() if c.is_static else "")
                           for k, c in config.inputs.items())
            outputs = tuple((k, kind(c.serialize_type()), "") for k, c in config.outputs.items())
            cap = -1 if config.max_children is None else config.max_children
            label = self.label(key)
            if key != node.node_id:
                raise Violation("a node is kept under another id than its own", f"{key} {node.node_id}")
            nodes.append((label, node.name, shape_of(type(node).__module__, type(node).__name__, inputs, outputs, cap),
                          tuple(self.label(c.node_id) for c in node.children)))
            parents.append((label, None if node.parent is None else self.label(node.parent.node_id)))
            for child in node.children:
                if self.m.nodes.get(child.node_id) is not child:
                    raise Violation("a child is not the node known by its id", repr((label, self.label(child.node_id))))
                if child.parent is not node:
                    raise Violation("a child does not know its parent", repr((label, self.label(child.node_id))))
            if node.parent is not None and self.m.nodes.get(node.parent.node_id) is not node.parent:
                raise Violation("a parent is not the node known by its id", repr(label))
        return tuple(sorted(nodes)), tuple(sorted(parents, key=repr))

    def loose_graph(self):
        try:
            return self.graph()
        except Violation as v:
            return ("broken", v.key, v.detail)

    def hidden(self):
        return (self.m.state, tuple(sorted((self.label(k), tuple(self.label(c) for c in v))
                                           for k, v in getattr(self.m, "_children", {}).items())))


SERVICES = {
    "add_node": "AddNode", "add_node_at_index": "AddNodeAtIndex", "change_tree_name": "ChangeTreeName",
    "remove_node": "RemoveNode", "morph_node": "MorphNode", "set_options": "SetOptions", "move_node": "MoveNode",
    "replace_node": "ReplaceNode", "wire_data": "WireNodeData", "unwire_data": "WireNodeData",
    "get_subtree": "GetSubtree", "generate_subtree": "GenerateSubtree", "clear": "ClearTree", "reload_tree": "ReloadTree",
    "load_tree": "LoadTree", "load_tree_from_path": "LoadTreeFromPath", "control_execution": "ControlTreeExecution",
}


def _structure(s):
    return {
        "tree_id": s.tree_id, "name": s.name, "path": s.path, "root": s.root_id, "frequency": s.tick_frequency_hz,
        "nodes": [(n.node_id, n.name, (n.module, n.node_class, io(n.inputs), io(n.outputs), n.max_children),
                   tuple(n.child_ids)) for n in s.nodes],
        "wirings": [(w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key) for w in s.data_wirings],
        "public_inputs": [(p.node_id, p.data_key) for p in s.public_inputs],
        "public_outputs": [(p.node_id, p.data_key) for p in s.public_outputs],
    }


def _wiring_data(w):
    return ((w.wiring.source.node_id, w.wiring.source.data_key, w.wiring.target.node_id, w.wiring.target.data_key),
            w.serialized_data, w.is_current)


# ================================================================ reference model

OUT = {"Src": ("o", "n"), "Mid": ("b",)}
IN = {"Snk": {"a": "int", "t": "str"}, "Mid": {"a": "int"}}


class Model:
    """nodes: label -> [cls, opt, name, parent, [children]]; wires: set of (src, key, dst, key)."""

    def __init__(self, spec=(), wires=()):
        self.nodes = {}
        self.wires = set(wires)
        self.name = "UNKNOWN TREE"
        for label, cls, opt, children in spec:
            self.nodes[label] = [cls, opt, f"n{label}", None, list(children)]
        for label, n in self.nodes.items():
            for c in n[4]:
                self.nodes[c][3] = label

    def copy(self):
        new = Model()
        new.nodes = {k: v[:4] + [list(v[4])] for k, v in self.nodes.items()}
        new.wires = set(self.wires)
        new.name = self.name
        return new

    def shown(self):
        return (tuple(sorted((k, v[2], (v[0], v[1]), tuple(v[4])) for k, v in self.nodes.items())),
                tuple(sorted(self.wires)), self.name)

    def roots(self):
        return [k for k, v in self.nodes.items() if v[3] is None]

    def under(self, label):
        out = [label]
        for x in out:
            out += self.nodes[x][4]
        return out

    def free(self, label):
        cap = CAP[self.nodes[label][0]]
        return cap is None or len(self.nodes[label][4]) < cap

    def put(self, label, parent, index):
        if parent is None:
            return
        kids = self.nodes[parent][4]
        kids.insert(index if index >= 0 else max(0, len(kids) + 1 + index), label)
        self.nodes[label][3] = parent

    def take(self, label):
        parent = self.nodes[label][3]
        if parent is not None:
            self.nodes[parent][4].remove(label)
        self.nodes[label][3] = None

    def types(self, w):
        """(type of the source, type of the target), or None if there is no such data."""
        if w[0] not in self.nodes or w[2] not in self.nodes:
            return None
        s, d = self.nodes[w[0]], self.nodes[w[2]]
        if w[1] not in OUT.get(s[0], ()):
            return None
        source = s[1] if s[0] == "Src" and w[1] == "o" else "int"
        target = IN.get(d[0], {}).get(w[3])
        if target is None:
            return None  # no such input, or one that is not dynamic
        return source, target

    def fits(self, w):
        t = self.types(w)
        return t is not None and t[0] == t[1]

    def drop(self, labels):
        self.wires = {w for w in self.wires if w[0] not in labels and w[2] not in labels}
        for x in labels:
            del self.nodes[x]

    # ------------------------------------------------------------ requests
    def apply(self, r):
        """-> the new model, None if the request has to be refused, or "any" where nothing is specified."""
        new = self.copy()
        return getattr(new, "r_" + r[0])(*r[1:])

    def r_add(self, parent, cls, index, children=()):
        if parent is not None and (parent not in self.nodes or not self.free(parent)):
            return None
        label = fresh(self.nodes)
        if any(c not in self.nodes for c in children):
            return None
        cap = CAP[cls]
        if cap is not None and len(children) > cap or len(set(children)) < len(children):
            return None
        if any(self.nodes[c][3] is not None for c in children):
            return None  # already somebody's child
        if parent is not None and any(parent in self.under(c) for c in children):
            return None
        self.nodes[label] = [cls, DEFAULT[cls], f"n{label}", None, []]
        self.put(label, parent, index)
        for c in children:
            self.put(c, label, -1)
        return self

    def r_addplain(self, parent, cls):
        return self.r_add(parent, cls, -1)

    def r_addbad(self, parent, what):
        return None

    def r_remove(self, x, below):
        if x not in self.nodes:
            return None
        gone = self.under(x) if below else [x]
        self.take(x)
        for c in self.nodes[x][4]:
            self.nodes[c][3] = None
        self.drop(gone)
        return self

    def r_move(self, x, parent, index):
        if x not in self.nodes or parent is not None and parent not in self.nodes:
            return None
        if parent is None:
            self.take(x)
            return self
        if parent in self.under(x):
            return None
        self.take(x)
        if not self.free(parent):
            return None
        self.put(x, parent, index)
        return self

    def r_replace(self, old, new):
        if old not in self.nodes or new not in self.nodes:
            return None
        if old == new:
            return "same"
        if old in self.under(new):
            return None
        if new in self.under(old) and self.nodes[new][3] != old:
            return None  # one of old's children would end up both above and below it
        kids = [c for c in self.nodes[old][4] if c != new]
        cap = CAP[self.nodes[new][0]]
        if cap is not None and len(kids) + len(self.nodes[new][4]) > cap:
            return None
        parent = self.nodes[old][3]
        loose = parent is None and self.nodes[new][3] not in (None, old)
        if parent is not None or not loose:
            self.take(new)
        for c in kids:
            self.take(c)
            self.put(c, new, -1)
        if parent is not None:
            index = self.nodes[parent][4].index(old)
            self.take(old)
            self.put(new, parent, index)
        self.drop([old])
        return "any" if loose else self

    def r_morph(self, x, cls, name):
        if x not in self.nodes:
            return None
        n = self.nodes[x]
        if cls not in CAP:
            return None
        cap = CAP[cls]
        if cap is not None and len(n[4]) > cap:
            return None
        n[0], n[1], n[2] = cls, DEFAULT[cls], name or cls
        self.wires = {w for w in self.wires if self.fits(w)}
        return self

    def r_opt(self, x, opt, rename):
        if x not in self.nodes:
            return None
        n = self.nodes[x]
        if opt is not None:
            if (n[0], opt) not in VALUES:
                return None
            n[1] = opt
        if rename is not None:
            n[2] = rename or n[0]
        self.wires = {w for w in self.wires if self.fits(w)}
        return self

    def r_wire(self, wires, lenient):
        for w in wires:
            if not self.fits(w) or any(v[2:] == w[2:] for v in self.wires):
                if lenient:
                    continue
                return None
            self.wires.add(w)
        return self

    def r_unwire(self, wires, lenient):
        for w in wires:
            if w not in self.wires:
                if lenient:
                    continue
                return None
            self.wires.remove(w)
        return self

    def r_name(self, name):
        self.name = name
        return self

    def r_reload(self):
        return self if self.nodes else "any"

    def r_clear(self):
        self.nodes, self.wires, self.name = {}, set(), "UNKNOWN TREE"
        return self

    def r_load(self, what):
        return LOADED.copy() if what == "good" else None

    def r_subtree(self, x):
        return self if x in self.nodes else None

    def r_generate(self, xs):
        return "same"


def fresh(nodes):
    i = 0
    while str(i) in nodes:
        i += 1
    return str(i)


LOADED = Model([("0", "Flow", "1", ["1", "2"]), ("1", "Src", "int", []), ("2", "Snk", "0", [])], [("1", "n", "2", "a")])
LOADED.name = "loaded"
BAD_TREES = ("empty", "path", "file", "class", "option", "child", "twice", "wiring", "id", "parents", "feed")

# ================================================================ sending requests


def bad_tree(what):
    if what in ("empty", "path", "file"):
        return bm.TreeStructure(path={"empty": "", "path": "nowhere", "file": "file:///nowhere/x.yaml"}[what])
    tree = tree_msg(Run(), LOADED, 0xBAD0000)
    n = tree.nodes
    if what == "class":
        n[2].node_class = "Nothing"
    elif what == "option":
        n[0].inputs = bad_node("option").inputs
    elif what == "child":
        n[0].child_ids = [n[1].node_id, UNKNOWN]
    elif what == "twice":
        n[2].node_id = n[1].node_id
        n[0].child_ids = [n[1].node_id]
    elif what == "wiring":
        tree.data_wirings[0].source.data_key = "zz"
    elif what == "id":
        n[2].node_id = GARBAGE
        n[0].child_ids = [n[1].node_id]
    elif what == "parents":
        tree.nodes = list(n) + [new_node("Flow", "0", "x", [n[1].node_id], str(uuid.UUID(int=0xBAD0009)))]
    elif what == "feed":
        tree.data_wirings = list(tree.data_wirings) * 2
    return tree


BAD = {"class": dict(node_class="Nothing"), "module": dict(module="mc.nowhere"), "emptymodule": dict(module="")}


def bad_node(what):
    if what in BAD:
        m = new_node("Flow", "0", "bad")
        for k, v in BAD[what].items():
            setattr(m, k, v)
        return m
    if what == "option":
        m = new_node("Flow", "0", "bad")
        m.inputs = [bm.NodeIO(key=i.key, type=i.type, serialized_value="nonsense") for i in m.inputs]
    elif what == "key":
        m = new_node("Flow", "0", "bad")
        m.inputs = list(m.inputs) + [bm.NodeIO(key="zz", type=m.inputs[0].type, serialized_value="1")]
    elif what == "type":
        m = new_node("Flow", "0", "bad")
        m.inputs = [bm.NodeIO(key=m.inputs[0].key, type=bm.NodeDataType(type_identifier=250), serialized_value="1")]
    return m


def send(run, model, r):
    """Send request `r` (described by labels). -> response"""
    kind = r[0]
    if kind in ("add", "addplain"):
        label = fresh(model.nodes)
        children = [run.id(c) for c in (r[4] if kind == "add" and len(r) > 4 else ())]
        node = new_node(r[2], DEFAULT[r[2]], f"n{label}", children)
        known = set(run.m.nodes)
        if kind == "add":
            res = run.call("add_node_at_index", parent_node_id=run.id(r[1]), node=node, new_child_index=r[3])
        else:
            res = run.call("add_node", parent_node_id=run.id(r[1]), node=node)
        added = [str(k) for k in run.m.nodes if k not in known]
        if len(added) == 1:
            run.ids[label] = added[0]
        if res.success and kind == "add" and (len(added) != 1 or res.node_id != added[0]):
            raise Violation("the answer names another node than the one added", f"{r} {res} {added}")
        return res
    if kind == "addbad":
        return run.call("add_node", parent_node_id=run.id(r[1]), node=bad_node(r[2]))
    if kind == "remove":
        return run.call("remove_node", node_id=run.id(r[1]), remove_children=r[2])
    if kind == "move":
        return run.call("move_node", node_id=run.id(r[1]), parent_node_id=run.id(r[2]), new_child_index=r[3])
    if kind == "replace":
        return run.call("replace_node", old_node_id=run.id(r[1]), new_node_id=run.id(r[2]))
    if kind == "morph":
        node = new_node(r[2], DEFAULT[r[2]], r[3]) if r[2] in CAP else bad_node(r[2])
        return run.call("morph_node", node_id=run.id(r[1]), new_node=node)
    if kind == "opt":
        inputs = []
        if r[2] is not None:
            cls = model.nodes[r[1]][0] if r[1] in model.nodes else "Flow"
            if (cls, r[2]) in VALUES:
                keys = VALUES[cls, r[2]]
                inputs = [i for i in proto(cls, r[2]).inputs if i.key in keys]
            else:
                inputs = bad_node(r[2]).inputs
        return run.call("set_options", node_id=run.id(r[1]), rename_node=r[3] is not None, new_name=r[3] or "", inputs=inputs)
    if kind in ("wire", "unwire"):
        return run.call(kind + "_data", wirings=[run.wire(w) for w in r[1]], ignore_failure=r[2])
    if kind == "name":
        return run.call("change_tree_name", name=r[1])
    if kind == "reload":
        return run.call("reload_tree")
    if kind == "clear":
        return run.call("clear")
    if kind == "load":
        if r[1] == "good":
            saved, run.ids = run.ids, {}
            res = run.call("load_tree", tree=tree_msg(run, LOADED, 0x10AD0000), permissive=False)
            if not res.success:
                run.ids = saved
            return res
        return run.call("load_tree", tree=bad_tree(r[1]), permissive=False)
    if kind == "subtree":
        return run.call("get_subtree", root_id=run.id(r[1]))
    if kind == "generate":
        return run.call("generate_subtree", node_ids=[run.id(x) for x in r[1]])
    raise AssertionError(r)


def tree_msg(run, model, first=0xABCDEF0000, **kw):
    """The model's tree as a message."""
    for label in model.nodes:
        run.ids[label] = str(uuid.UUID(int=first + int(label)))
    nodes = [new_node(v[0], v[1], v[2], [run.ids[c] for c in v[4]], run.ids[k]) for k, v in model.nodes.items()]
    kw.setdefault("tick_frequency_hz", 10.0)
    return bm.TreeStructure(name=model.name, nodes=nodes, data_wirings=[run.wire(w) for w in sorted(model.wires)], **kw)


def load(run, model, **kw):
    """Load the model's tree into the run."""
    tree = tree_msg(run, model, **kw)
    res = run.call("load_tree", tree=tree, permissive=False)
    if not res.success:
        raise Violation("a valid tree cannot be loaded", f"{model.shown()} {res.error_message}")
    return res
