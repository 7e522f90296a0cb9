"""C26: what is published about the tree."""

import json

from mc import execution as ex, sched, treemgr as tm
from mc.core import Violation
from mc.execution import B

from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.vendor.result import Err

import std_srvs.srv as ss
from diagnostic_msgs.msg import DiagnosticStatus as D

ID = "C26"
TECHNIQUE = "explicit-state exploration of all histories of edits, execution commands and publishing switches on the real tree manager; every published message is compared with the tree it describes"
NOTE = ("messages are judged as of the moment of publication (as ROS serialises them); structures amid an edit, states amid a tick and the structure's frequency "
        "amid an execution are not judged; node steps take no time; states merged by tree, states, data and switches")

EDITS = [("add", "0", "Src", 0), ("remove", "2", False), ("remove", "0", False), ("remove", "0", True), ("move", "1", "0", -1), ("move", "1", None, -1), ("morph", "1", "Src", "n1"),
         ("morph", "1", "Snk", "n1"), ("morph", "0", "Flow", "n0"), ("opt", "1", "str", None), ("opt", "1", None, "m1"), ("name", "other.x"), ("wire", (("1", "n", "2", "a"),), False),
         ("unwire", (("1", "n", "2", "a"),), False), ("replace", "0", "1"), ("replace", "1", "2"), ("load", "good"), ("load", "child"), ("clear",), ("reload",)]
COMMANDS = [(ex.ONCE, 0.0), (ex.PERIODIC, 0.0), (ex.PERIODIC, 20.0), (ex.UNTIL, 0.0), (ex.STOP, 0.0), (ex.RESET, 0.0), (ex.SHUTDOWN, 0.0), (ex.SETUP, 0.0), ("wait", 1)]
SWITCHES = [("data", True), ("data", False), ("subtrees", False), ("subtrees", True)]
RESULTS = [B.SUCCEEDED, B.RUNNING, B.FAILED, "error"]
DEPTH = {"wired": (3, 4), "leaf": (3, 4), "two": (3, 4), "empty": (2, 3)}
STARTS = {"wired": "wired", "leaf": "leaf", "empty": tm.Model(),
          "two": tm.Model([("0", "Flow", "0", ["1"]), ("1", "Src", "int", []), ("2", "Mid", "0", []), ("3", "Snk", "0", [])],
                          [("1", "n", "2", "a"), ("2", "b", "3", "a")])}


def BOUNDS(tier):
    i = tier == "thorough"
    return (f"{len(EDITS)} edits, {len(COMMANDS)} commands, {len(SWITCHES)} switches; histories up to depth { {k: v[i] for k, v in DEPTH.items()} } from trees of 0, 1, 3 and 4 nodes, "
            f"merged by state; leaf results {'all 4 at the first 2 ticks' if i else 'all 4 at the first tick'} of an action, repeated then")


def alphabet():
    return [("edit", e) for e in EDITS] + [("command", c) for c in COMMANDS] + SWITCHES


def shards(tier):
    return [(tree, i) for tree in STARTS for i in range(len(alphabet()))]


def run(shard, ctx):
    tree, i = shard
    ctx.explore(lambda ch: body(ch, ctx, tree, DEPTH[tree][ctx.thorough]), f"{tree} {i}", (i,))


class Ids(dict):
    def __missing__(self, label):
        return tm.UNKNOWN


class Watch(tm.Run):
    """Listens to everything that is published."""

    def __init__(self):
        self.seen = []
        self.said = None
        super().__init__(publish_diagnostic_callback=self._diagnostic)

    def _structure(self, msg):
        super()._structure(msg)
        self.seen.append(("structure", None))

    def _state(self, msg):
        super()._state(msg)
        self.seen.append(("state", self.state))

    def _data(self, msg):
        super()._data(msg)
        self.seen.append(("data", (list(self.datas), self.values() if self.datas else None)))

    def _diagnostic(self, msg):
        (self.said,) = [(s.name, s.level, s.message) for s in msg.status]

    def values(self):
        """Every value at an end of a wiring, as it is now."""
        out = {}
        for k, n in self.m.nodes.items():
            for side in ("inputs", "outputs"):
                for key, c in getattr(n.node_config, side).items():
                    out[self.label(k), side, key] = c.get_value().unwrap_or(None)
        return out

    def states_now(self):
        return tuple(sorted((str(k), n.state) for k, n in self.m.nodes.items()))


def body(ch, ctx, tree, depth):
    box = ex.Box(None)
    box.run = w = Watch()
    box.m = w.m
    w.ros.sleep_hook = lambda rate: sched.active and sched.active.sleep(1.0 / rate.frequency)
    model = (ex.TREES[STARTS[tree]] if isinstance(STARTS[tree], str) else STARTS[tree]).copy()
    if model.nodes:
        tm.load(w, model)
        w.m.publish_structure()
    script = {"left": 0, "last": None}
    fresh = 2 if ctx.thorough else 1

    def answer(node, op):
        if op != "tick":
            return None
        if node.parent is None:
            w.seen.append(("tick", None))
        if type(node).__name__ != "Src":
            return None
        if script["left"] > 0:
            script["left"] -= 1
            script["last"] = ch.choose(RESULTS)
        if script["last"] == "error":
            return Err(BehaviorTreeException("fault"))
        return script["last"]

    box.answer = answer
    s = sched.Scheduler(ch, 0, ros=w.ros, free=False)
    trace = []
    actions = alphabet()

    def client():
        m, on, named = model, False, bool(model.nodes)
        for step in range(depth):
            action = ch.choose(actions)
            script.update(left=fresh, last=None)
            trace.append(" ".join(map(str, action)))
            w.seen.clear()
            m, on, named = act(w, s, box, m, on, named, action, trace)
            if m is None:
                return
            ctx.step()
            key = (m.shown(), box.snapshot()[0:1], box.states(), w.hidden(), on, w.m.subtree_manager.publish_subtrees, w.values(), box.primitives(),
                   ex.phase(s), named, box.until, script["last"] if w.m.state == ex.TICKING else None, repr(w.m.data_flow_manager.connections and sorted(
                       (w.label(k), [(c.source_key, w.label(c.target_id), c.target_key) for c in v]) for k, v in w.m.data_flow_manager.connections.items())))
            ctx.state(key)
            if ctx.visited(ch, key, depth - step):
                return

    s.spawn(client, "client")
    try:
        s.run()
    finally:
        box.drop()
    if s.crashed:
        raise Violation(f"the ticking thread died after {'; '.join(trace)}", repr(s.crashed))
    return trace


def act(w, s, box, model, on, named, action, trace):
    kind, arg = action

    def fail(what, detail=""):
        raise Violation(f"{what} after {'; '.join(trace)}", f"{detail}\ntree {w.m.state} {w.loose_graph()} {w.states_now()}\nmodel {model.shown()}")

    editable = w.m.state == ex.EDITABLE
    if kind == "edit":
        want = model.apply(arg) if editable else None
        if arg[0] == "opt" and arg[2] and (model.nodes.get(arg[1]) or [""])[0] != "Src":
            return model, on, named
        w.ids = Ids(w.ids)
        res = tm.send(w, model, arg)
        if want in ("any", "same") or bool(res.success) != (want is not None):
            return None, on, named  # not this check's business
        if res.success:
            model = want
            if not any(k == "structure" for k, _ in w.seen):
                fail("an edit is not published")
            named = arg[0] in ("load", "reload") or named and arg[0] != "name"
        if not model.nodes:
            named = False
    elif kind == "command":
        command, x = arg
        if command == "wait":
            s.sleep(x / w.m.tick_frequency_hz)
        else:
            w.control(command, x)
            if command == ex.SHUTDOWN and len(model.roots()) > 1:  # takes such a tree apart
                model = model.copy()
                for n in model.nodes.values():
                    n[3:] = [None, []]
            s.sleep(0.25 / w.m.tick_frequency_hz)
    elif kind == "data":
        res = w.m.set_publish_data(ss.SetBool.Request(data=arg), ss.SetBool.Response())
        if not res.success:
            fail("the switch is refused", repr(res))
        if not arg and (not w.seen or w.seen[-1] != ("data", ([], None))):
            fail("switching data publishing off does not clear the data published before", repr(w.seen))
        on = arg
    elif kind == "subtrees":
        res = w.m.set_publish_subtrees(ss.SetBool.Request(data=arg), ss.SetBool.Response())
        if not res.success:
            fail("the switch is refused", repr(res))
    now(w, model, named, fail)
    history(w, model, on, fail)
    return model, on, named


def now(w, model, named, fail):
    """The last published structure and state are those of the tree."""
    if model.nodes or w.structure is not None:
        shown = w.shown()
        if shown[:3] != model.shown() or shown[0] != w.loose_graph()[0]:
            fail("the published structure is not that of the tree", f"published {shown}")
        root = w.structure["root"]
        if root not in ("", tm.ZERO) and root not in {str(k) for k in w.m.nodes}:
            fail("the published root is no node of the tree", root)
        if len(model.roots()) == 1 and root != w.ids[model.roots()[0]]:
            fail("the published root is not that of the tree", root)
        tree_id = str(w.m.tree_id.unwrap())
        if {w.structure["tree_id"], w.state[0]} != {tree_id}:
            fail("published under another tree id")
    if w.state is None or (w.state[1], tuple(sorted(w.state[2]))) != (w.m.state, w.states_now()):
        fail("the published state is not that of the tree", f"published {w.state}")
    for _, callback in w.ros.timers_made:
        callback()
    level, text = {ex.TICKING: (D.OK, "Ticking"), ex.ERROR: (D.ERROR, "Error in Behavior Tree")}.get(w.m.state, (D.WARN, "Not ticking"))
    if w.said[1:] != (level, text):
        fail("the diagnostics report another state", repr(w.said))
    if named and w.said[0] != w.m.name.rsplit(".", 1)[0]:
        fail("the diagnostics name another tree", repr(w.said))


def history(w, model, on, fail):
    """Every tick is followed by messages about it, and data messages are true."""
    parts, part = [], None
    for kind, what in w.seen:
        if kind == "tick":
            part = []
            parts.append(part)
        elif part is not None:
            part.append((kind, what))
        if kind == "data" and what[0]:
            if not on:
                fail("data is published although that is switched off")
            judge_data(w, model, what, fail)
    for part in parts:
        if not any(k == "state" for k, _ in part):
            fail("a tick is not followed by a state message", repr(w.seen))
        error = any(k == "state" and what[1] == ex.ERROR for k, what in part)
        if on and not error and not any(k == "data" and what[0] for k, what in part):
            fail("a tick is not followed by a data message", repr(w.seen))


def judge_data(w, model, what, fail):
    messages, values = what
    mine = [d for t, d in messages if t == str(w.m.tree_id.unwrap())]
    if len(mine) != 1:
        fail("not one data message for the tree", repr(messages))
    got = {}
    for (a, b, c, d), text, current in mine[0]:
        key = (w.label(a), b, w.label(c), d)
        if key in got:
            fail("a wiring is published twice", repr(mine))
        source, target = values.get((key[0], "outputs", b)), values.get((key[2], "inputs", d))
        got[key] = True
        if (json.loads(text) if text else None) != source:
            fail("another value is published than the wiring carries", f"{key}: {text!r} {source!r}")
        if current != (source == target):
            fail("a value is wrongly reported as delivered or not", f"{key}: {source!r} {target!r} {current}")
    if set(got) != model.wires:
        fail("the published wiring data is not that of the tree", f"{sorted(got)} {sorted(model.wires)}")
