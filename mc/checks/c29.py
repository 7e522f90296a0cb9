"""C29: diagnostics."""

import ast
import itertools

from mc import kinds_diag as kd, sched, standins, treemgr as tm, zoo
from mc.core import Violation
from mc.treekit import add, failure, nid

sched.install()

import ros_bt_py_interfaces.msg as bm
from std_srvs.srv import SetBool
from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.helpers import BTNodeState as B
from ros_bt_py.vendor.result import Ok

ID = "C29"
TECHNIQUE = "explicit-state exploration: all operation sequences of small real trees with all placements of on/off switches before, inside and after each node's step, and all schedules of a concurrent switch up to a preemption bound, judged by a monitor"
NOTE = "operations that began while collection was off may or may not report their end; nodes that raise are not judged; messages are judged by name, path and the operation named in their state"

OPS = list(kd.USUAL)


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"3 trees of up to 4 nodes, 4 scripts of a leaf, operation sequences of {4 if t else 3} from 5 operations, up to {3 if t else 2} switches at any step boundary, publisher present or not; "
            f"a concurrent switch with {'2-3' if t else '1-2'} preemptions at every source line; every registered node class alone; every way a node enters a tree")


def shards(tier):
    return [("steps", t, s, a, b) for t in TREES for s in SCRIPTS for a in range(5) for b in range(5)] + \
        [("threads", t, op) for t in ("leaf", "flow") for op in OPS] + [("classes", i) for i in range(8)] + [("routes", r) for r in ROUTES]


def run(shard, ctx):
    if shard[0] == "steps":
        ctx.explore(lambda ch: steps(ch, ctx, shard[1], shard[2]), shard[1] + " " + shard[2], (shard[3], shard[4]))
    elif shard[0] == "threads":
        ctx.explore(lambda ch: threads(ch, ctx, shard[1], shard[2]), f"{shard[1]} {shard[2]}")
    elif shard[0] == "classes":
        for label in sorted(zoo.labels())[shard[1]::8]:
            for on in (True, False):
                ctx.case(("class", label, on), lambda: alone(ctx, label, on))
    else:
        ctx.case(("route", shard[1]), lambda: route(ctx, shard[1]))


# ---------------------------------------------------------------- the parts

TREES = {"leaf": ("a",), "flow": ("r", ("a",), ("b",)), "deep": ("r", ("m", ("a",)), ("b",))}
SCRIPTS = {"good": {}, "fails": {"tick": Ok(B.FAILED)}, "runs": {"tick": Ok(B.RUNNING)}, "errs": {op: failure() for op in OPS}}


class Switch:
    """A debug manager, what it publishes and when it is switched."""

    def __init__(self, on, publish=True):
        self.log = kd.env.log = []
        kd.env.answer = None
        self.ros = standins.FakeRosNode()
        self.debug = DebugManager(ros_node=self.ros, node_diagnostics_publish_callback=self.publish if publish else None)
        self.on = False
        self.set(on)

    def publish(self, msg):
        values = {v.key: v.value for v in msg.values}
        now = str(self.ros.get_clock().now())
        if values.get("stamp") != now:
            raise Violation(f"a message {values.get('state')} about {msg.name} does not bear the time it is sent at", f"{values.get('stamp')} {now}")
        self.log.append(("message", msg.name, values.get("path"), values.get("state", "")))

    def set(self, on):
        self.log.append(("switching", on))
        res = self.debug.set_collect_node_diagnostics(SetBool.Request(data=on), SetBool.Response())
        if res is None or not res.success:
            raise Violation("switching diagnostics fails", repr(on))
        self.log.append(("switched", on))
        self.on = on


def build(shape, debug, n=0):
    """-> (root, {name: path})"""
    paths = {}
    count = itertools.count(n)

    def make(spec, above):
        name = spec[0]
        node = (kd.Inner if len(spec) > 1 else kd.Outer)(node_id=nid(next(count)), name=name, debug_manager=debug)
        paths[name] = above + [name]
        add(node, *(make(s, paths[name]) for s in spec[1:]))
        return node
    return make(shape, []), paths


class Frame:
    """An operation under way: `since` is what collection may have been since the last step ended."""

    def __init__(self, op, name, state):
        self.op, self.name, self.since = op, name, set(state)
        self.waits, self.steps, self.before, self.after = True, False, False, False


def judge(log, paths, title, publishes=True):
    """The monitor. -> number of messages"""
    state = {False}  # what collection may be at this moment
    stack = []
    count = 0

    def bad(what):
        raise Violation(f"{title}: {what}", repr(log))

    def proceed(f):
        if f.waits and f.since == {True} and not f.before and publishes:
            bad(f"no message before {f.op} of {f.name}")
        if f.after:
            bad(f"the message after {f.op} of {f.name} comes before its end")
        f.waits = False

    for e in log:
        if e[0] == "switching":
            state = state | {e[1]}
            for f in stack[-1:]:
                f.since |= state
        elif e[0] == "switched":
            state = {e[1]}
        elif e[0] == "begin":
            for f in stack[-1:]:
                proceed(f)
            stack.append(Frame(e[1], e[2], state))
        elif e[0] == "do":
            proceed(stack[-1])
            stack[-1].steps = True
        elif e[0] == "did":
            stack[-1].steps, stack[-1].since = False, set(state)
        elif e[0] == "end":
            f = stack.pop()
            if f.waits and f.since == {True} and not f.before and publishes:
                bad(f"no message before {f.op} of {f.name}")
            if f.since == {True} and f.before and not f.after and publishes:
                bad(f"no message after {f.op} of {f.name}")
            for f in stack[-1:]:
                f.since = set(state)
        elif e[0] == "message":
            count += 1
            if not publishes:
                bad("a message without a publisher")
            if not stack or stack[-1].steps:
                bad("a message at no operation's begin or end")
            f = stack[-1]
            if f.since == {False}:
                bad(f"a message about {e[1]} while collection is off")
            if e[1] != f.name:
                bad(f"a message during {f.op} of {f.name} names {e[1]}")
            if path_of(e[2]) != paths[e[1]]:
                bad(f"a message about {e[1]} gives the path {e[2]}")
            if f.op.upper() not in e[3].upper().split("_"):
                bad(f"a message during {f.op} of {f.name} names the operation {e[3]!r}")
            if f.waits and not f.before and not e[3].startswith("POST"):
                f.before = True
            elif not f.after and not e[3].startswith("PRE"):
                f.after = True
            else:
                bad(f"a further message {e[3]!r} about {f.op} of {f.name}")
    if stack:
        bad("an operation did not end")
    return count


def path_of(text):
    try:
        return list(ast.literal_eval(text))
    except (ValueError, SyntaxError, TypeError):
        return text


def plain(log):
    return [e for e in log if e[0] in ("begin", "do", "end")]


_expected = {}


def expected(tree, script, ops):
    """What happens without any debug manager."""
    key = (tree, script, ops)
    if key not in _expected:
        kd.env.log = []
        kd.env.answer = lambda node, op: SCRIPTS[script].get(op) if node.name == "a" else None
        root, _ = build(TREES[tree], None)
        for op in ops:
            getattr(root, op)()
        _expected[key] = plain(kd.env.log)
    return _expected[key]


# ---------------------------------------------------------------- the checks


def steps(ch, ctx, tree, script):
    depth, most = (4, 3) if ctx.thorough else (3, 2)
    ops = tuple(OPS[ch.choose(5)] for _ in range(depth))
    want = expected(tree, script, ops)
    on = ch.choose([True, False])
    publishes = ch.choose([True, False])
    sw = Switch(on, publishes)
    left = [most if publishes else 1]
    trace = [tree, script, "on" if on else "off", "publishing" if publishes else "mute"]

    def maybe(where):
        if left[0] and ch.choose(2):
            left[0] -= 1
            trace.append("switch " + where)
            sw.set(not sw.on)

    def answer(node, op):
        sw.ros.advance(1)  # a step takes time
        maybe(f"in {op} of {node.name}")
        return SCRIPTS[script].get(op) if node.name == "a" else None

    root, paths = build(TREES[tree], sw.debug)
    kd.env.answer = answer
    for op in ops:
        maybe("before " + op)
        trace.append(op)
        try:
            getattr(root, op)()
        except Exception as ex:
            raise Violation(f"{trace}: {op} raises", repr(ex))
        ctx.step()
    if plain(sw.log) != want:
        raise Violation(f"{trace}: the operations go differently", f"{plain(sw.log)} {want}")
    n = judge(sw.log, paths, str(trace), publishes)
    ctx.state(repr(sw.log))
    ctx.outcome((tree, n))
    return trace


def threads(ch, ctx, tree, op):
    on = ch.choose([True, False])
    script = ch.choose(list(SCRIPTS))
    toggles = ch.choose([(False,), (True,), (True, False), (False, True)])
    ops = () if op == "setup" else ("setup",)
    want = expected(tree, script, ops + (op,))
    sw = Switch(on)
    root, paths = build(TREES[tree], sw.debug)
    kd.env.answer = lambda node, o: SCRIPTS[script].get(o) if node.name == "a" else None
    for o in ops:
        getattr(root, o)()
    s = sched.Scheduler(ch, (2 if tree == "leaf" else 1) + ctx.thorough, FILES)
    title = f"{tree} {script} {'on' if on else 'off'} {op} || {toggles}"

    def work():
        try:
            getattr(root, op)()
        except Exception as ex:
            raise Violation(f"{title}: {op} raises", f"{ex!r} {s.trail}")

    def toggle():
        for v in toggles:
            sw.set(v)
    s.spawn(work, "work")
    s.spawn(toggle, "switch")
    s.run()
    if plain(sw.log) != want:
        raise Violation(f"{title}: the operation goes differently", f"{plain(sw.log)} {want}")
    n = judge(sw.log, paths, title)
    ctx.step(s.points)
    ctx.state((title, repr(sw.log)))
    ctx.outcome((title, n))
    return title


def alone(ctx, label, on):
    """One node of each class: every operation reports itself exactly twice."""
    rig = zoo.make(label)
    reported = []

    def publish(msg):
        if msg.name == rig.node.name:
            reported.append({v.key: v.value for v in msg.values})
            about = {k: reported[-1].get(k) for k in ("node_id", "module", "node_class")}
            real = {"node_id": str(rig.node.node_id), "module": type(rig.node).__module__, "node_class": type(rig.node).__name__}
            if about != real:
                raise Violation(f"{label}: a message describes {about} instead of {real}")
    debug = DebugManager(ros_node=rig.ros, node_diagnostics_publish_callback=publish)
    debug.set_collect_node_diagnostics(SetBool.Request(data=on), SetBool.Response())
    rig.node.debug_manager = debug
    for op in ("setup", "tick", "tick", "untick", "tick", "reset", "shutdown"):
        if op == "tick" and rig.has_dynamic:
            rig.provide(0)
        try:
            getattr(rig.node, op)()
        except Exception as ex:
            raise Violation(f"{label}: {op} raises", repr(ex))
        states = [r.get("state", "") for r in reported]
        paths = [path_of(r.get("path")) for r in reported]
        reported.clear()
        ctx.step()
        if states != ([f"PRE_{op.upper()}", f"POST_{op.upper()}"] if on else []):
            raise Violation(f"{label}: {op} reports {states} with collection {'on' if on else 'off'}")
        if any(p != [rig.node.name] for p in paths):
            raise Violation(f"{label}: {op} reports the path {paths}")
    ctx.state((label, on))


ROUTES = ["load", "add", "add at index", "children at once", "morph", "set options", "move", "replace", "reload", "load twice"]


def structure(cls, name, node_id="", children=()):
    return bm.NodeStructure(module="mc.kinds_diag", node_class=cls, name=name, node_id=node_id, child_ids=list(children), max_children=-1 if cls == "Inner" else 0)


def route(ctx, how):
    """However the nodes came into the tree, they report."""
    sw = Switch(True)
    run = tm.Run(debug_manager=sw.debug)
    paths = {"r": ["r"], "m": ["r", "m"], "a": ["r", "m", "a"], "b": ["r", "b"]}
    ids = {k: str(nid(i)) for i, k in enumerate("rmab")}

    def ok(res):
        if not res.success:
            raise Violation(f"{how}: refused", res.error_message)
        return res

    def load():
        nodes = [structure("Inner", "r", ids["r"], [ids["m"], ids["b"]]), structure("Inner", "m", ids["m"], [ids["a"]]),
                 structure("Outer", "a", ids["a"]), structure("Outer", "b", ids["b"])]
        ok(run.call("load_tree", tree=bm.TreeStructure(name="t", nodes=nodes, tick_frequency_hz=10.0), permissive=False))

    def put(name, parent, cls, children=(), index=None):
        known = set(run.m.nodes)
        fields = dict(parent_node_id=ids[parent] if parent else tm.ZERO, node=structure(cls, name, "", children))
        ok(run.call("add_node", **fields) if index is None else run.call("add_node_at_index", new_child_index=index, **fields))
        ids[name] = str(next(k for k in run.m.nodes if k not in known))

    if how == "add":
        put("r", None, "Inner")
        put("m", "r", "Inner")
        put("b", "r", "Outer")
        put("a", "m", "Outer")
    elif how == "add at index":
        put("r", None, "Inner", index=-1)
        put("b", "r", "Outer", index=0)
        put("m", "r", "Inner", index=0)
        put("a", "m", "Outer", index=0)
    elif how == "children at once":
        put("r", None, "Inner")
        put("a", None, "Outer")
        put("m", "r", "Inner", [ids["a"]])
        put("b", "r", "Outer")
    else:
        load()
    if how == "morph":
        for name, cls in (("b", "Other"), ("m", "Inner"), ("r", "Inner")):
            ok(run.call("morph_node", node_id=ids[name], new_node=structure(cls, name)))
    elif how == "set options":
        for name in "rmab":
            new = name * 2
            ok(run.call("set_options", node_id=ids[name], rename_node=True, new_name=new))
        paths = {k * 2: [x * 2 for x in v] for k, v in paths.items()}
    elif how == "move":
        ok(run.call("move_node", node_id=ids["b"], parent_node_id=ids["m"], new_child_index=0))
        paths["b"] = ["r", "m", "b"]
    elif how == "replace":
        ok(run.call("replace_node", old_node_id=ids["m"], new_node_id=ids["a"]))
        paths = {"r": ["r"], "a": ["r", "a"], "b": ["r", "b"]}
    elif how == "reload":
        ok(run.call("reload_tree"))
    elif how == "load twice":
        load()
    match run.m.find_root():
        case Ok(root):
            pass
        case other:
            raise Violation(f"{how}: no root", repr(other))
    names = set(paths)
    sw.log.clear()
    sw.log += [("switching", True), ("switched", True)]
    for op in ("setup", "tick", "untick", "reset", "shutdown"):
        getattr(root, op)()
        ctx.step()
    told = {e[1] for e in sw.log if e[0] == "message"}
    if told != names:
        raise Violation(f"{how}: reports about {sorted(told)} instead of {sorted(names)}")
    ctx.outcome((how, judge(sw.log, paths, how)))
    ctx.state(how)


FILES = sched.files("ros_bt_py.debug_manager")
