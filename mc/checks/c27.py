"""C27: subtree nodes."""

import pickle
import uuid

import yaml

from mc import execution as ex, kinds, sched, treemgr as tm
from mc.core import Violation
from mc.execution import B
from mc.zoo import G, make_inputs, put, tree_file

import std_srvs.srv as ss
import ros_bt_py_interfaces.msg as bm
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.nodes.io import IOInput, IOOutput
from ros_bt_py.nodes.sequence import MemorySequence
from ros_bt_py.ros_nodes.subtree import Subtree
from ros_bt_py.vendor.result import Err

ID = "C27"
TECHNIQUE = ("explicit-state differential exploration of real Subtree nodes: all histories of node operations against the same nested tree executed directly, and all histories of edits "
             "and execution commands with the published reports compared with the subtree nodes present")
NOTE = ("the directly executed twin of the nested tree is the oracle; in- and outputs get a value before the first tick; outputs not renewed by a tick are only required to keep "
        "their value or be empty; the tree state reported for a nested tree is not judged, its node states are")


def nid(i):
    return uuid.UUID(int=0x5B0000 + i)


parsed, parse = {}, yaml.safe_load_all


def memoised(text):
    """The same text has the same meaning, every time."""
    if not isinstance(text, str):
        yield from parse(text)
        return
    if text not in parsed:
        parsed[text] = pickle.dumps(list(parse(text)))
    yield from pickle.loads(parsed[text])


yaml.safe_load_all = memoised


# ---------------------------------------------------------------- nested trees: name -> [(id, class, values, dynamic, children)], wirings
def specs():
    io = {"io_type": dict(G[int], max_value=2**64 - 1)}
    return {
        "io": ([(0, kinds.Flow, {"x": 0}, [], [1, 2, 3, 4]), (1, IOInput, io, ["in"], []), (2, kinds.Mid, {}, ["a"], []), (3, kinds.Src, {"kind": G[int]}, [], []),
                (4, IOOutput, io, ["in"], [])], [(1, "out", 2, "a"), (2, "b", 4, "in")]),
        "leaf": ([(10, kinds.Src, {"kind": G[int]}, [], [])], []),
        "memory": ([(20, MemorySequence, {}, [], [21, 22, 23, 24]), (21, IOInput, io, ["in"], []), (22, IOOutput, io, ["in"], []), (23, kinds.Src, {"kind": G[int]}, [], []),
                    (24, IOOutput, io, ["in"], [])], [(21, "out", 22, "in"), (23, "n", 24, "in")]),
        "two": ([(30, kinds.Flow, {"x": 0}, [], [31, 32, 33]), (31, kinds.Src, {"kind": G[int]}, [], []), (32, Subtree, "leaf", [], []), (33, Subtree, "out", [], [])], []),
        "out": ([(40, kinds.Flow, {"x": 0}, [], [41, 42]), (41, kinds.Src, {"kind": G[int]}, [], []), (42, IOOutput, io, ["in"], [])], [(41, "n", 42, "in")]),
    }


TREES = {}


def path(name):
    return TREES[name]


def message(name):
    """The nested tree as a message."""
    nodes, wires = specs()[name]
    out, made = [], {}
    for i, cls, values, dynamic, children in nodes:
        if cls is Subtree:
            out.append(subtree_msg(str(nid(i)), f"n{i}", path(values)))
            continue
        made[i] = cls(node_id=nid(i), name=f"n{i}", new_inputs=make_inputs(cls, values, dynamic))
        msg = made[i].to_structure_msg()
        msg.child_ids = [str(nid(c)) for c in children]
        out.append(msg)
    return bm.TreeStructure(name=name, root_id=str(nid(nodes[0][0])), nodes=out, tick_frequency_hz=10.0,
                            data_wirings=[tm.wiring(str(nid(a)), b, str(nid(c)), d) for a, b, c, d in wires])


def subtree_msg(node_id, name, where):
    t = Subtree._node_config.copy().inputs["subtree_path"]
    t.is_static = True
    t.set_value(where).unwrap()
    return bm.NodeStructure(module=Subtree.__module__, node_class="Subtree", name=name, node_id=node_id,
                            inputs=[bm.NodeIO(key="subtree_path", type=t.serialize_type(), serialized_value=t.serialize_value())])


def prepare():
    if TREES:
        return
    for name in ("leaf", "out", "io", "memory", "two"):
        TREES[name] = tree_file(message(name), f"c27_{name}.yaml")
    TREES["missing"] = "file:///nowhere/at/all.yaml"
    TREES["package"] = "package://no_such_package/x.yaml"
    TREES["broken"] = put("c27_broken.yaml", "version: 1.0.0\nnodes: {{{")
    TREES["forest"] = tree_file(forest(), "c27_forest.yaml")
    TREES["empty"] = tree_file(bm.TreeStructure(name="empty"), "c27_empty.yaml")
    loop = message("two")
    loop.nodes[0].child_ids = [loop.nodes[0].node_id]
    TREES["loop"] = tree_file(loop, "c27_loop.yaml")
    deep = message("two")
    deep.nodes[2] = subtree_msg(deep.nodes[2].node_id, "n32", TREES["broken"])
    TREES["deep"] = tree_file(deep, "c27_deep.yaml")


def forest():
    tree = message("io")
    tree.nodes[0].child_ids = tree.nodes[0].child_ids[:2]
    return tree


BAD = ("missing", "package", "broken", "empty", "loop", "deep")
GOOD = ("leaf", "io", "memory", "two", "out")
OPS = ("setup", "tick", "tick1", "tick2", "untick", "reset", "shutdown")
DEPTH = {"leaf": (6, 8), "io": (4, 6), "memory": (4, 6), "two": (4, 5), "out": (5, 7)}
EDEPTH = (3, 4)


def BOUNDS(tier):
    i = tier == "thorough"
    return (f"5 nested trees (one of them with two further subtrees), histories of {len(OPS)} node operations up to depth { {k: v[i] for k, v in DEPTH.items()} } x all results (3 states, error) of "
            f"every scripted leaf, data reports on/off; {len(BAD)} broken references; histories of {len(edits())} edits, commands and switches up to depth {EDEPTH[i]} in a tree of 3 nodes; merged by state")


def shards(tier):
    out = [("ops", t, first, on) for t in GOOD for on in (False, True) for first in (0, 1)]
    return out + [("bad", b) for b in BAD + ("forest",)] + [("edit", i) for i in range(len(edits()))]


def run(shard, ctx):
    prepare()
    if shard[0] == "ops":
        _, tree, first, on = shard
        start = (0,) if first == 0 else ()
        ctx.explore(lambda ch: operations(ch, ctx, tree, DEPTH[tree][ctx.thorough], on, first), f"{tree} {on}", start)
    elif shard[0] == "bad":
        ctx.case(shard[1], lambda: broken(ctx, shard[1]))
    else:
        ctx.explore(lambda ch: editing(ch, ctx, EDEPTH[ctx.thorough]), "edit", (shard[1],))


# ---------------------------------------------------------------- operations


class Side:
    """One of the two: the subtree node, or the nested tree itself."""

    def __init__(self, tree, nested):
        self.run = tm.Run()
        self.calls = []
        kinds.env.answer = None
        m = self.run.m
        if nested:
            res = self.run.call("load_tree", tree=bm.TreeStructure(name="main", nodes=[subtree_msg(str(nid(99)), "sub", path(tree))]), permissive=False)
        else:
            res = self.run.call("load_tree", tree=bm.TreeStructure(path=path(tree), name=tree), permissive=False)
        if not res.success:
            raise Violation(f"a valid tree cannot be loaded{' as a subtree' if nested else ''}: {tree}", res.error_message)
        self.m = m
        self.root = m.find_root().unwrap()
        self.nodes = {str(k): n for k, n in m.nodes.items()}

    def do(self, op, answer):
        self.calls = []
        kinds.env.answer = lambda node, what: self.calls.append((what, node.name)) or answer(node, what)
        try:
            if op == "setup":
                self.m.data_flow_manager.initialize(self.m.nodes, self.m.wirings).unwrap()
            res = getattr(self.root, op)()
        finally:
            kinds.env.answer = None
        return ("err",) if res.is_err() else ("ok", res.unwrap())

    def states(self):
        return tuple(sorted((str(k), n.state) for k, n in self.m.nodes.items()))


def all_states(side):
    """The states of all nodes of the twin's tree and of its own subtrees."""
    out = dict(side.states())
    for s in side.m.subtree_manager.get_subtree_states():
        out.update((n.node_id, n.state) for n in s.node_states)
    return out


def operations(ch, ctx, tree, depth, on, first):
    sub, twin = Side(tree, True), Side(tree, False)
    for side in (sub, twin):
        side.m.set_publish_data(ss.SetBool.Request(data=on), ss.SetBool.Response())
    ins = sorted(k for k in twin.nodes if isinstance(twin.nodes[k], IOInput))
    outs = sorted(k for k in twin.nodes if isinstance(twin.nodes[k], IOOutput))
    if set(sub.root.node_config.inputs) - {"subtree_path"} != {f"{k}.in" for k in ins} or set(sub.root.node_config.outputs) != {f"{k}.out" for k in outs}:
        raise Violation(f"the subtree node has other inputs and outputs than the tree: {tree}", f"{sub.root.node_config}")
    trace, given, errors = [], False, 0
    if first:
        todo = ("tick", "untick", "reset", "shutdown")
    for step in range(depth):
        op = ch.choose(OPS if step or not first else todo)
        trace.append(op)
        value = None
        if op.startswith("tick"):
            value = {"tick1": 1, "tick2": 2}.get(op, None if given else 1)
            if op != "tick" and not ins:
                return None
            op = "tick"
        if value is not None and sub.root.state not in (B.UNINITIALIZED, B.SHUTDOWN):
            given = True
            for k in ins:
                sub.root.node_config.inputs[f"{k}.in"].set_value(value).unwrap()
                twin.nodes[k].node_config.inputs["in"].set_value(value).unwrap()
        script, asked, failed = [], [], []

        def record(node, what):
            res = None
            if type(node).__name__ == "Src":
                if what == "tick":
                    res = ch.choose([B.SUCCEEDED, B.RUNNING, B.FAILED, "error"])
                elif not errors and tree in ("leaf", "two"):
                    res = ch.choose([None, "error"])
            if res == "error":
                failed.append(node.name)
                res = Err(BehaviorTreeException("fault"))
            script.append(res)
            asked.append((what, node.name))
            return res

        def replay(node, what):
            return script.pop(0) if script else None

        before = {k: sub.root.node_config.outputs[f"{k}.out"].get_value() for k in outs}
        for k in outs:
            twin.nodes[k].node_config.outputs["out"].reset_updated()
        res = sub.do(op, record)
        errors += len(failed)
        answers = list(script)
        want = twin.do(op, replay)

        def fail(what, detail=""):
            raise Violation(f"{what}: {tree} {' '.join(trace)}", f"{detail}\nsubtree node {res} {sub.root.state} {sub.calls}\ntree itself  {want} {twin.root.state} {twin.calls}\nanswers {answers}")

        if res != want:
            fail("the subtree node answers differently than the tree it contains")
        if sub.root.state != twin.root.state:
            fail("the subtree node is in another state than the tree it contains")
        if sub.calls != twin.calls:
            fail("the subtree node does other things than the tree it contains")
        for k in outs if op == "tick" and res[0] == "ok" else ():
            mine, his = sub.root.node_config.outputs[f"{k}.out"], twin.nodes[k].node_config.outputs["out"]
            if mine.is_updated() != his.is_updated() and (mine.is_updated() or mine.get_value() != before[k]):
                fail("an output is wrongly marked as (not) updated", f"{k} {mine.is_updated()}")
            if his.is_updated() and mine.get_value() != his.get_value():
                fail("an output has another value", f"{k} {mine.get_value()} {his.get_value()}")
            if not his.is_updated() and mine.get_value() != before[k] and mine.get_value().is_ok():
                fail("an output changes", f"{k} {mine.get_value()} {before[k]}")
        if op == "setup" and res[0] == "ok":
            given = not ins
        reports(sub, twin, tree, on, trace, fail)
        ctx.step()
        ctx.outcome((tree, op, res))
        key = (tree, "setup" in trace, sub.root.state, tuple(sorted(all_states(twin).items())), given, min(errors, 1), values(sub), values(twin), hidden(twin))
        ctx.state(key)
        if ctx.visited(ch, key, depth - step):
            return None
    return trace


def values(side):
    out = [(str(k), side_, key, c.serialize_value(), c.is_updated()) for k, n in side.m.nodes.items() for side_, cs in (("i", n.node_config.inputs), ("o", n.node_config.outputs))
           for key, c in cs.items()]
    return tuple(sorted(out))


def hidden(side):
    """What built-in nodes remember."""
    out = []
    for n in side.nodes.values():
        out += [(n.name, k, v) for k, v in vars(n).items() if isinstance(v, (int, float, bool)) and k != "count"]
        if type(n).__name__ == "Src":
            out.append((n.name, "count", n.count))
    return tuple(sorted(out, key=repr))


def down(state):
    """A subtree node shut down before it was ever set up need not shut down anything."""
    return B.SHUTDOWN if state == B.UNINITIALIZED else state


def reports(sub, twin, tree, on, trace, fail):
    """The nested tree, and those nested in it, are reported, once each."""
    registry = sub.m.subtree_manager
    structures = {}
    for s in registry.get_subtree_structures():
        if s.tree_id in structures:
            fail("a nested tree is reported twice", s.tree_id)
        structures[s.tree_id] = s
    sizes = sorted(len(s.nodes) for s in structures.values())
    expected = sorted([len(specs()[tree][0])] + [len(specs()[v][0]) for _, c, v, _, _ in specs()[tree][0] if c is Subtree])
    ref = str(sub.root.tree_ref)
    if sizes != expected or ref not in structures:
        fail("the nested trees are not what is reported", f"{sizes} {expected} {ref} {list(structures)}")
    if {(n.node_id, n.name) for n in structures[ref].nodes} != {(k, n.name) for k, n in twin.nodes.items()}:
        fail("another tree is reported")
    got = {}
    for s in registry.get_subtree_states():
        if s.tree_id not in structures:
            fail("states are reported for an unknown tree", s.tree_id)
        got.update((n.node_id, n.state) for n in s.node_states)
    want = all_states(twin) if sub.root.state not in (B.BROKEN, B.SHUTDOWN) else dict(twin.states())
    if "setup" in trace and any(down(v) != down(got.get(k)) for k, v in want.items()):
        fail("other states are reported than the nested nodes have", f"{got} {want}")
    data = {}
    for d in registry.get_subtree_data():
        if d.tree_id not in structures:
            fail("data is reported for an unknown tree", d.tree_id)
        data.update(((w.wiring.source.node_id, w.wiring.source.data_key, w.wiring.target.node_id, w.wiring.target.data_key), (w.serialized_data, w.is_current)) for w in d.wiring_data)
    if not on and data:
        fail("data is reported although that is off", repr(data))
    if on and trace[-1].startswith("tick") and sub.root.state in (B.RUNNING, B.SUCCEEDED, B.FAILED):
        mine = {k: v for k, v in data.items() if k[0] in twin.nodes}
        want = {(w.wiring.source.node_id, w.wiring.source.data_key, w.wiring.target.node_id, w.wiring.target.data_key): (w.serialized_data, w.is_current)
                for w in twin.m.data_flow_manager.get_wiring_data()}
        if mine != want:
            fail("other data is reported than the wirings carry", f"{mine} {want}")


# ---------------------------------------------------------------- broken references


def broken(ctx, name):
    run = tm.Run()
    before = len(run.m.nodes)
    res = run.call("add_node", parent_node_id=tm.ZERO, node=subtree_msg("", "sub", path(name)))
    ctx.step()
    ctx.state(name)
    if name == "forest":
        if res.success:
            node = next(iter(run.m.nodes.values()))
            if node.setup().is_ok():
                raise Violation("a subtree without a root is set up", repr(node.state))
        return
    if res.success:
        raise Violation(f"a subtree that cannot be loaded is accepted: {name}")
    if len(run.m.nodes) != before or run.m.subtree_manager.get_subtree_structures():
        raise Violation(f"a subtree that cannot be loaded leaves something behind: {name}", repr(run.m.nodes))


# ---------------------------------------------------------------- editing and executing with subtree nodes

A, S = str(nid(200)), str(nid(201))


def edits():
    out = [("add", t, p) for t in ("leaf", "two", "missing", "deep") for p in ("root", "full", "?")]
    out += [("add", "leaf", "kids"), ("remove", "S", False), ("remove", "root", True), ("remove", "root", False)]
    out += [("morph", "S", "Src"), ("morph", "S", "two"), ("morph", "S", "missing"), ("morph", "S", "Nothing"), ("morph", "A", "out"), ("morph", "root", "leaf"), ("morph", "root", "Flow")]
    out += [("path", "two"), ("path", "out"), ("path", "deep"), ("rename",), ("replace", "S", "A"), ("replace", "A", "S"), ("move", "S", None), ("generate",), ("clear",), ("reload",)]
    out += [("load", "good"), ("load", "bad"), ("load", "late")]
    out += [("command", c) for c in (ex.ONCE, ex.RESET, ex.SHUTDOWN, ex.SETUP, ex.STOP)] + [("publish", False), ("publish", True), ("data", True), ("data", False)]
    return out


def main_tree(late=False):
    flow = tm.new_node("Flow", "0", "root", [S, str(nid(202))], A)
    deco = tm.new_node("Deco", "0", "full", [str(nid(203))], str(nid(202)))
    src = tm.new_node("Src", "int", "A", [], str(nid(203)))
    nodes = [flow, subtree_msg(S, "S", path("two")), deco, src]
    if late:
        nodes.append(tm.new_node("Flow", "0", "x", [tm.UNKNOWN], str(nid(204))))
    return bm.TreeStructure(name="main", nodes=nodes, tick_frequency_hz=10.0)


def editing(ch, ctx, depth):
    box = ex.Box(None)
    w, m = box.run, box.m
    s = sched.Scheduler(ch, 0, ros=w.ros, free=False)
    trace = []
    if not w.call("load_tree", tree=main_tree(), permissive=False).success:
        raise Violation("a tree with a subtree cannot be loaded")
    todo = edits()

    def client():
        ticked = set()
        for step in range(depth):
            action = ch.choose(todo)
            trace.append(" ".join(map(str, action)))
            res = send(w, m, action)
            ctx.step()
            if action[0] == "command" and action[1] == ex.ONCE and res.success and m.nodes:
                ticked = {str(n.tree_ref) for n in m.nodes.values() if isinstance(n, Subtree)}

            def fail(what, detail=""):
                raise Violation(f"{what} after {'; '.join(trace)}", f"{detail}\n{res}\n{[(n.name, type(n).__name__, n.tree_ref) for n in m.nodes.values()]}")

            published(w, m, ticked, fail)
            key = (m.state, tuple(sorted((n.name, type(n).__name__, tuple(c.name for c in n.children), n.state, n.tree_ref is not None and str(n.tree_ref) in ticked,
                                          n.node_config.inputs["subtree_path"].serialize_value() if isinstance(n, Subtree) else "") for n in m.nodes.values())),
                   m.subtree_manager.get_publish_subtrees(), m.subtree_manager.get_publish_data(), m.enable_publish_data)
            ctx.state(key)
            if ctx.visited(ch, key, depth - step):
                return

    s.spawn(client, "client")
    try:
        s.run()
    finally:
        box.drop()
    if s.crashed:
        raise Violation(f"the ticking thread died after {'; '.join(trace)}", repr(s.crashed))
    return trace


def named(m, name):
    for k, n in m.nodes.items():
        if n.name == name:
            return str(k)
    return tm.UNKNOWN


def new(kind):
    if kind in TREES:
        return subtree_msg("", "S", path(kind))
    if kind == "Nothing":
        return bm.NodeStructure(module="mc.kinds", node_class="Nothing", name="S")
    return tm.new_node(kind, tm.DEFAULT[kind], "S")


def send(w, m, action):
    op = action[0]
    if op == "add":
        node = subtree_msg("", "more", path(action[1]))
        where = {"root": "root", "full": "full", "?": "?", "kids": "root"}[action[2]]
        if action[2] == "kids":
            node.child_ids = [named(m, "A")]
        return w.call("add_node", parent_node_id=named(m, where), node=node)
    if op == "remove":
        return w.call("remove_node", node_id=named(m, action[1]), remove_children=action[2])
    if op == "morph":
        return w.call("morph_node", node_id=named(m, action[1]), new_node=new(action[2]))
    if op == "path":
        return w.call("set_options", node_id=named(m, "S"), rename_node=False, new_name="", inputs=[i for i in subtree_msg("", "", path(action[1])).inputs])
    if op == "rename":
        return w.call("set_options", node_id=named(m, "S"), rename_node=True, new_name="S", inputs=[])
    if op == "replace":
        return w.call("replace_node", old_node_id=named(m, action[1]), new_node_id=named(m, action[2]))
    if op == "move":
        return w.call("move_node", node_id=named(m, action[1]), parent_node_id=tm.ZERO, new_child_index=-1)
    if op == "generate":
        return w.call("generate_subtree", node_ids=[named(m, "S")])
    if op in ("clear", "reload"):
        return w.call("clear" if op == "clear" else "reload_tree")
    if op == "load":
        tree = {"good": main_tree, "bad": lambda: tm.bad_tree("class"), "late": lambda: main_tree(True)}[action[1]]()
        return w.call("load_tree", tree=tree, permissive=False)
    if op == "command":
        return w.control(action[1])
    service = m.set_publish_subtrees if op == "publish" else m.set_publish_data
    return service(ss.SetBool.Request(data=action[1]), ss.SetBool.Response())


def published(w, m, ticked, fail):
    """What is published: the tree and, for every subtree node anywhere in it, the tree it contains."""
    w.structures = []
    m.publish_structure()
    on = m.subtree_manager.get_publish_subtrees()
    trees = {}
    for s in w.structures:
        if s["tree_id"] in trees:
            fail("a tree is published twice", s["tree_id"])
        trees[s["tree_id"]] = s
    main = w.structures[-1]
    registry = {s.tree_id: s for s in m.subtree_manager.get_subtree_structures()}
    if not on:
        if len(trees) != 1:
            fail("subtrees are published although that is off")
        return
    refs = {main["tree_id"]}
    for n in m.nodes.values():
        if n.tree_ref is not None:
            refs.add(str(n.tree_ref))
    for s in registry.values():
        for n in s.nodes:
            if n.tree_ref:
                refs.add(n.tree_ref)
    if set(trees) != refs:
        fail("not exactly the subtrees in the tree are published", f"missing {len(refs - set(trees))}, too many {[trees[t]['name'] for t in set(trees) - refs]}")
    by_path = {path(t): t for t in TREES}
    for n in m.nodes.values():
        if isinstance(n, Subtree):
            name = by_path[n.inputs.get_value("subtree_path").unwrap()]
            want = {str(nid(x[0])) for x in specs()[name][0]}
            if {x[0] for x in trees[str(n.tree_ref)]["nodes"]} != want:
                fail("another tree is published for a subtree node", f"{n.name} {name}")
    known = {t: {x[0] for x in s["nodes"]} for t, s in trees.items()}
    states = {}
    for tree_id, _, nodes in w.states:
        if tree_id in states:
            fail("states are published twice for a tree")
        states[tree_id] = {x[0] for x in nodes}
        if states[tree_id] != known.get(tree_id):
            fail("states are published for nodes that are not there", f"{tree_id} {states[tree_id]}")
    if not ticked & set(known) <= set(states):
        fail("no states are published for a subtree that was executed")
    for d in m.subtree_manager.get_subtree_data():
        if d.tree_id not in known:
            fail("data is published for a tree that is not there", d.tree_id)
