"""C20: editing and executing exclude each other."""

from mc import execution as ex, kinds, sched, standins, treemgr as tm
from mc.core import Violation
from mc.execution import B

import ros_bt_py_interfaces.srv as bs
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.vendor.result import Err

ID = "C20"
TECHNIQUE = "model checking of the real code: every edit service in every execution state, and all schedules up to a preemption bound of an edit against a command or another edit, switching at every source line of the tree managers"
NOTE = "two clients at most; serial executions of the same code are the reference for concurrent edits"

MODEL = tm.Model([("0", "Flow", "0", ["1", "2", "3"]), ("1", "Src", "int", []), ("2", "Deco", "1", ["4"]), ("3", "Pair", "0", []), ("4", "Mid", "0", [])],
                 [("1", "n", "4", "a")])
OTHER = tm.Model([("0", "Flow", "1", ["1"]), ("1", "Src", "str", [])])
OTHER.name = "loaded"
FILES = sched.files("ros_bt_py.tree_exec_manager", "ros_bt_py.tree_edit_manager")


def node(cls, name, opt=None):
    return tm.new_node(cls, opt or tm.DEFAULT[cls], name)


def option(run):
    return [i for i in tm.proto("Deco", "0").inputs]


def other(run):
    ids = dict(run.ids)
    msg = tm.tree_msg(run, OTHER, 0x0771E40000)
    run.ids.clear()
    run.ids.update(ids)
    return msg


EDITS = {
    "add": lambda run, tag: run.call("add_node", parent_node_id=run.ids["3"], node=node("Flow", "new" + tag)),
    "insert": lambda run, tag: run.call("add_node_at_index", parent_node_id=run.ids["0"], node=node("Src", "new" + tag, "int"), new_child_index=0),
    "remove": lambda run, tag: run.call("remove_node", node_id=run.ids["2"], remove_children=True),
    "remove leaf": lambda run, tag: run.call("remove_node", node_id=run.ids["1"], remove_children=False),
    "move": lambda run, tag: run.call("move_node", node_id=run.ids["4"], parent_node_id=run.ids["3"], new_child_index=0),
    "move up": lambda run, tag: run.call("move_node", node_id=run.ids["3"], parent_node_id=run.ids["0"], new_child_index=0),
    "replace": lambda run, tag: run.call("replace_node", old_node_id=run.ids["2"], new_node_id=run.ids["4"]),
    "morph": lambda run, tag: run.call("morph_node", node_id=run.ids["2"], new_node=node("Pair", "morphed" + tag)),
    "options": lambda run, tag: run.call("set_options", node_id=run.ids["2"], rename_node=True, new_name="renamed" + tag, inputs=option(run)),
    "wire": lambda run, tag: run.call("wire_data", wirings=[tm.wiring(run.ids["1"], "o", run.ids["4"], "a")], ignore_failure=False),
    "unwire": lambda run, tag: run.call("unwire_data", wirings=[tm.wiring(run.ids["1"], "n", run.ids["4"], "a")], ignore_failure=False),
    "name": lambda run, tag: run.call("change_tree_name", name="called" + tag),
    "clear": lambda run, tag: run.call("clear"),
    "load": lambda run, tag: run.call("load_tree", tree=other(run), permissive=False),
    "reload": lambda run, tag: run.call("reload_tree"),
    "path": lambda run, tag: run.call("load_tree_from_path", path=tree_path(), permissive=False),
}
_path = []


def tree_path():
    if not _path:
        from mc.zoo import tree_file

        run = tm.Run()
        tm.load(run, OTHER)
        _path.append(tree_file(run.m.structure_to_msg()))
    return _path[0]


REFUSED_ANYWAY = {"wire"}  # its target is wired already
STATES = {
    "editable": ([], ex.EDITABLE), "shut down": ([ex.ONCE, ex.SHUTDOWN], ex.EDITABLE), "waiting": ([ex.ONCE], ex.WAITING),
    "idle": ([ex.ONCE, ex.STOP], ex.IDLE), "reset": ([ex.ONCE, ex.RESET], ex.IDLE), "ticking": ([ex.PERIODIC], ex.TICKING),
    "until": ([ex.UNTIL], ex.TICKING), "ended": ([ex.UNTIL, "end"], ex.IDLE), "error": ([ex.ONCE, "err"], ex.ERROR),
    "error while ticking": ([ex.PERIODIC, "err"], ex.ERROR), "setup error": (["err", ex.ONCE], ex.ERROR), "stopping": ([ex.PERIODIC, "stopping"], "STOP_REQUESTED"),
    "prepared": ([ex.SETUP], ex.EDITABLE), "first tick": (["slow", "once"], ex.TICKING),
}
COMMANDS = [ex.ONCE, ex.PERIODIC, ex.UNTIL, ex.SETUP, ex.SHUTDOWN]


def BOUNDS(tier):
    return (f"{len(EDITS)} edit requests (all edit services) in {len(STATES)} execution states, then again after shutdown; each edit against commands "
            f"{[ex.NAMES[c] for c in COMMANDS]} and all pairs of edits with "
            + ("1 preemption at every source line and 2 at every lock, thread and sleep operation" if tier == "thorough" else
               "2 preemptions at every lock, thread and sleep operation, once, shutdown and equal edits also with 1 at every source line"))


def shards(tier):
    out = [("states", s) for s in STATES]
    names = list(EDITS)
    deep = tier == "thorough"
    for e in names:
        for c in COMMANDS:
            out += [("start", e, c, "line")] if deep or c in (ex.ONCE, ex.SHUTDOWN) else []
            out += [("start", e, c, "coarse")] if deep or c == ex.PERIODIC else []
    for i, a in enumerate(names):
        for b in names[i:]:
            out += [("pair", a, b, "line")] if deep or a == b else []
            out.append(("pair", a, b, "coarse"))
    return out


def weight(shard):
    return 1


def run(shard, ctx):
    if shard[0] == "states":
        ctx.explore(lambda ch: in_state(ch, ctx, shard[1]), shard[1])
    elif shard[0] == "start":
        ctx.explore(lambda ch: against_command(ch, ctx, *shard[1:]), " ".join(map(str, shard)))
    else:
        ctx.explore(lambda ch: against_edit(ch, ctx, *shard[1:]), " ".join(map(str, shard)))


def picture(m):
    """The tree as it would be executed, by names."""
    names = {k: n.name for k, n in m.nodes.items()}
    ids = {str(k): v for k, v in names.items()}
    nodes = tuple(sorted((n.name, type(n).__name__, tuple(c.name for c in n.children), None if n.parent is None else n.parent.name,
                          tuple((k, c.serialize_value()) for k, c in n.node_config.inputs.items() if c.is_static)) for n in m.nodes.values()))
    wires = tuple(sorted((ids.get(w.source.node_id), w.source.data_key, ids.get(w.target.node_id), w.target.data_key) for w in m.wirings))
    return nodes, wires, m.name


def consistent(p):
    nodes, wires, _ = p
    names = [n[0] for n in nodes]
    return all(all(c in names for c in n[2]) and (n[3] is None or n[0] in next((x[2] for x in nodes if x[0] == n[3]), ())) for n in nodes) \
        and all(None not in w for w in wires)


def in_state(ch, ctx, state):
    steps, want = STATES[state]
    box = ex.Box(MODEL)
    s = sched.Scheduler(ch, 0, ros=box.run.ros, free=False)
    mode = [None]

    def answer(n, op):
        if mode[0] == "err" and op in ("tick", "setup") and n.name == "n1":
            return Err(BehaviorTreeException("fault"))
        if mode[0] == "slow" and op == "tick":
            s.sleep(0.5)
        return (B.SUCCEEDED if mode[0] == "end" else B.RUNNING) if op == "tick" and n.name == "n1" else None

    box.answer = answer
    edit = ch.choose(list(EDITS))

    def fail(what, detail=""):
        raise Violation(f"{edit} in state {state}: {what}", f"{detail} {box.m.state} {picture(box.m)}")

    def client():
        for step in steps:
            if step == "once":
                s.spawn(lambda: box.control(ex.ONCE), "other")
                s.sleep(0.1)
            elif step == "stopping":
                mode[0] = "slow"
                s.sleep(0.12)
                s.spawn(lambda: box.control(ex.STOP), "other")
                s.sleep(0.1)
            elif isinstance(step, str):
                mode[0] = step
                if step == "err" and box.m.state == ex.WAITING:
                    box.control(ex.ONCE)
                elif box.m.state == ex.TICKING:
                    s.sleep(0.25)
            else:
                box.control(step)
                if step in (ex.PERIODIC, ex.UNTIL):
                    s.sleep(0.05)
        if box.m.state != want:
            fail(f"state {want} is not reached")
        before, registered = picture(box.m), repr(box.m.subtree_manager.get_subtree_structures())
        ctx.state((state, edit, box.states()))
        shown = box.run.structure
        freq = box.m.tick_frequency_hz
        res = EDITS[edit](box.run, "")
        ctx.step()
        now = picture(box.m)
        if want != ex.EDITABLE:
            if res.success:
                fail("accepted while the tree is not editable")
            if not res.error_message:
                fail("refused without saying why")
            if now != before or box.m.tick_frequency_hz != freq or repr(box.m.subtree_manager.get_subtree_structures()) != registered:
                fail("refused, but the tree changes", f"{before}")
            if box.run.structure != shown:
                fail("refused, but another tree is published", f"{shown} {box.run.structure}")
            mode[0] = None
            s.sleep(1.2)
            if picture(box.m) != before:
                fail("refused, but the tree changes", f"{before}")
            res = box.control(ex.SHUTDOWN)
            if not res.success:
                fail("no shutdown", res)
            if picture(box.m) != before:
                fail("the shutdown changes the tree", f"{before}")
            res = EDITS[edit](box.run, "")
        if bool(res.success) == (edit in REFUSED_ANYWAY):
            fail("the editable tree cannot be edited" if not res.success else "accepted, although it makes no sense", res)
        ctx.outcome((edit, picture(box.m) != before))

    s.spawn(client, "client")
    try:
        s.run()
    finally:
        box.drop()
    return state, edit


def against_command(ch, ctx, edit, command, mode):
    box = ex.Box(MODEL)
    s = sched.Scheduler(ch, 0, FILES if mode == "line" else (), ros=box.run.ros, free=False)
    title = f"{edit}||{ex.NAMES[command]}"
    seen, answers = [], {}

    def fail(what, detail=""):
        raise Violation(f"{title}: {what}", f"{detail} {box.m.state} {picture(box.m)} {seen[-3:]} {answers} schedule {s.trail}")

    def answer(n, op):
        seen.append((op, n.name, picture(box.m)))
        s.point("in node")
        return B.RUNNING if op == "tick" and n.name == "n1" else None

    box.answer = answer

    def first():
        try:
            answers["edit"] = EDITS[edit](box.run, "")
        except Exception as e:
            fail("the edit raises an exception", repr(e))

    def second():
        try:
            answers["command"] = box.control(command)
        except Exception as e:
            fail("the command raises an exception", repr(e))

    def supervisor():
        s.quiet += 1
        if command == ex.SHUTDOWN:
            if not box.control(ex.ONCE).success:
                fail("no start")
            del seen[:]
        s.quiet -= 1
        before = picture(box.m)
        s.bound, s.free = (1 if mode == "line" else 2), True
        s.spawn(first, "edit")
        s.spawn(second, "command")
        s.block(lambda: len(answers) == 2)
        s.bound, s.free = 0, False
        s.quiet += 1
        s.sleep(0.25)
        after = picture(box.m)
        state = box.m.state
        if not consistent(after):
            fail("an inconsistent tree is left")
        if not answers["edit"].success and after != before:
            fail("the edit is refused, but the tree changes", before)
        executed = {p for op, who, p in seen if op in ("tick", "setup")}
        for p in executed:
            if p not in (before, after) or not consistent(p):
                fail("nodes of a half-edited tree are executed", p)
        if len(executed) > 1:
            fail("the tree is edited while it executes")
        if state in (ex.TICKING, ex.WAITING) and executed != {after}:
            fail("another tree is executed than the one there is", executed)
        if state not in (ex.EDITABLE, ex.IDLE, ex.TICKING, ex.WAITING) and consistent(after):
            if len([n for n in after[0] if n[3] is None]) == 1 and not any(n[1] == "Mid" for n in after[0]):
                fail("the tree is in an error state")
        if command == ex.SHUTDOWN:
            if not answers["command"].success or state != ex.EDITABLE:
                fail("the tree is not shut down")
        if state == ex.EDITABLE and {n.state for n in box.m.nodes.values()} - {B.SHUTDOWN, B.UNINITIALIZED}:
            fail("the tree is editable, but not shut down", box.states())
        ctx.outcome((title, state, bool(answers["edit"].success), bool(answers["command"].success)))
        ctx.state((title, state, after, s.points))
        r = box.control(ex.SHUTDOWN)
        if not r.success:
            fail("no shutdown", r)
        ctx.step(s.points)

    s.spawn(supervisor, "supervisor")
    try:
        s.run()
    finally:
        box.drop()
    if s.crashed:
        raise Violation(f"{title}: the ticking thread died", repr(s.crashed))
    return title


_serial = {}


def serial(a, b):
    """What comes out of both orders: {(answers, tree)}."""
    if (a, b) not in _serial:
        out = set()
        for order in ((0, 1), (1, 0)):
            box = ex.Box(MODEL)
            ok = {}
            for i in order:
                ok[i] = bool(EDITS[(a, b)[i]](box.run, "AB"[i]).success)
            out.add((ok[0], ok[1], picture(box.m)))
            box.drop()
        _serial[a, b] = out
    return _serial[a, b]


def against_edit(ch, ctx, a, b, mode):
    want = serial(a, b)
    box = ex.Box(MODEL)
    s = sched.Scheduler(ch, 0, FILES if mode == "line" else (), ros=box.run.ros, free=False)
    title = f"{a}||{b}"
    answers = {}

    def fail(what, detail=""):
        raise Violation(f"{title}: {what}", f"{detail} {picture(box.m)} schedule {s.trail}")

    def script(i):
        def do():
            try:
                answers[i] = bool(EDITS[(a, b)[i]](box.run, "AB"[i]).success)
            except Exception as e:
                fail("an exception", repr(e))
        return do

    def supervisor():
        s.bound, s.free = (1 if mode == "line" else 2), True
        s.spawn(script(0), "A")
        s.spawn(script(1), "B")
        s.block(lambda: len(answers) == 2)
        s.bound, s.free = 0, False
        got = (answers[0], answers[1], picture(box.m))
        if got not in want:
            fail("not what one after the other leads to", f"{got} {want}")
        shown = {n[1] for n in box.run.structure["nodes"]}
        if shown != {n[0] for n in got[2][0]}:
            fail("another tree is published", f"{shown}")
        ctx.outcome((title, got))
        ctx.state((title, got, s.points))
        ctx.step(s.points)

    s.spawn(supervisor, "supervisor")
    try:
        s.run()
    finally:
        box.drop()
    return title
