"""C31: saving trees."""

import os

import yaml

from mc import files, sched, standins
from mc.core import Violation

import ros_bt_py_interfaces.msg as bm
import ros_bt_py_interfaces.srv as bs
from ros_bt_py.package_manager import PackageManager

sched.install()

ID = "C31"
TECHNIQUE = "explicit enumeration of all save requests of an alphabet in sequences of two on the real file system, against a reference of the permitted effects, and all schedules of two concurrent saves up to a preemption bound"
NOTE = "runs as an unprivileged user in a scratch folder; symbolic links are not judged, nor which of the spellings of a configured folder are accepted; allow_rename takes precedence over allow_overwrite; a save that the operating system refuses may leave folders on the way"

STORED = "a stored tree"


def BOUNDS(tier):
    return (f"{len(FOLDERS)} storage folders, {len(NAMES)} file names, 4 combinations of flags, 2 file systems; then a second save of {len(SECOND)} names x 4; "
            f"{len(pairs())} pairs of concurrent saves with {2 if tier == 'thorough' else 1} preemption(s) at every source line")


# the area: w/s is the storage folder, w/t another one, w/missing one that does not exist yet, w/sealed one that cannot be written to
BASE = {"w/s/a.yaml": STORED, "w/s/sub/a.yaml": STORED, "w/s/dir/other.txt": "foreign", "w/t/a.yaml": STORED, "w/sx/a.yaml": "foreign",
        "out/a.yaml": "foreign", "w/s/file": "foreign", "x.yaml": "foreign", "w/sealed/a.yaml": STORED}
STATES = {"some": BASE, "many": BASE | {"w/s/a_2.yaml": STORED, "w/s/b.yaml": STORED, "w/s/a_3.yaml": STORED, "w/s/b_9.yaml": STORED, "w/s/b_2.yaml": None}}
CONFIGURED = ("w/s", "w/t", "w/missing", "w/sealed")
FOLDERS = ["w/s", "w/t", "w/missing", "w/sealed", "w", "w/sx", "w/s/", "w/s/sub", "w/./s", "w/t/../s", "w/s/..", "", "nowhere", "/"]
NAMES = ["a.yaml", "b.yaml", "b", "a", "sub/a.yaml", "sub/deep/a.yaml", "new/deep/a.yaml", "./a.yaml", "sub/../a.yaml", "sub//a.yaml", "dir/../../s/b.yaml", "../x.yaml", "../a.yaml",
         "../t/a.yaml", "../sx/a.yaml", "../s/a.yaml", "../../x.yaml", "sub/../../x.yaml", "sub/../../../out/a.yaml", "..", ".", "", "/", "dir", "dir/", "dir/.", "a.yaml/", "a.yaml/x", "file/x/y",
         "a\0b", "x" * 300, "~", "~/b.yaml", "$HOME", "a b.yaml", "\u00fc.yaml", "b_9.yaml", "b_09.yaml", ".hidden", "a.txt", "b.tar.yaml", "ABS:w/s/b.yaml", "ABS:w/s/a.yaml", "ABS:out/a.yaml",
         "ABS:w/t/b.yaml", "ABS:w/sx/a.yaml", "ABS:w/s", "\\..\\x", "...", "-", "new/", "new/.."]
SECOND = ["a.yaml", "b.yaml", "a_2.yaml", "b_9.yaml", "sub/a.yaml", "new", "new/deep/a.yaml", "../x.yaml"]
FLAGS = [(False, False), (True, False), (False, True), (True, True)]  # overwrite, rename


def shards(tier):
    return [("save", f, s) for f in range(len(FOLDERS)) for s in STATES] + [("pair", i) for i in range(len(pairs()))]


def weight(shard):
    return 3 if shard[0] == "pair" else 1


def run(shard, ctx):
    global area
    area = files.Area()
    try:
        if shard[0] == "save":
            ctx.explore(lambda ch: saves(ch, ctx, shard[2]), shard[2], (shard[1],))
        else:
            ctx.explore(lambda ch: pair(ch, ctx, *pairs()[shard[1]]), f"pair {shard[1]}")
    finally:
        area.drop()


def tree(i):
    node = bm.NodeStructure(module="m", node_class=f"C{i}", name=f"node {i}: \u00fc'\"", node_id=f"id{i}", max_children=i,
                            inputs=[bm.NodeIO(key="k", serialized_value="[1, \"x\"]")], child_ids=["x"] * i)
    return bm.TreeStructure(tree_id=f"t{i}", name=f"tree {i}", path="file:///old/place", nodes=[node] * (i % 3), tick_frequency_hz=float(i), root_id="r",
                            data_wirings=[bm.Wiring(source=bm.NodeDataLocation(node_id="a", data_key="b"))] * (i % 2))


def plain(v):
    if hasattr(v, "get_fields_and_field_types"):
        return {f: plain(getattr(v, f)) for f in v.get_fields_and_field_types()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if hasattr(v, "tolist"):
        return v.tolist()
    return v


def holds(content, i):
    """Does the file contain tree i?"""
    try:
        data = yaml.safe_load(content.decode())
    except Exception:
        return False
    want = plain(tree(i)) | {"path": ""}
    return isinstance(data, dict) and plain({k: v for k, v in data.items() if k != "version"}) == want


def send(manager, folder, name, flags, i):
    root = area.root
    storage = "/" if folder == "/" else os.path.join(root, folder) if folder not in ("", "nowhere") else folder
    filepath = os.path.join(root, name[4:]) if name.startswith("ABS:") else name
    request = bs.SaveTree.Request(storage_path=storage, filepath=filepath, tree=tree(i), allow_overwrite=flags[0], allow_rename=flags[1])
    return storage, manager.save_tree_to_path(request, bs.SaveTree.Response())


def manager():
    return PackageManager(tree_storage_directory_paths=[os.path.join(area.root, c) for c in CONFIGURED])


def judge(before, after, folder, storage, name, flags, i, res, title):
    changed = {p for p in before.keys() | after.keys() if before.get(p, 0) != after.get(p, 0)}
    written = {p for p in changed if after.get(p, None) is not None}
    gone = [p for p in changed if p not in after]
    if gone:
        raise Violation(f"{title}: disappeared", repr(gone))
    if not res.success:
        home = os.path.normpath(folder)
        if any(after[p] is not None or home not in CONFIGURED or not (p + "/").startswith(home + "/") for p in changed):
            raise Violation(f"{title}: refused, but touches files", repr(changed))
        if not res.error_message:
            raise Violation(f"{title}: refused without a reason")
        return
    if os.path.normpath(folder) not in CONFIGURED:
        raise Violation(f"{title}: not a configured storage folder, but saved", repr(res))
    inside = os.path.normpath(folder) + "/"
    target = os.path.relpath(res.file_path, area.root)
    if not target.startswith(inside):
        raise Violation(f"{title}: names a file outside the storage folder", res.file_path)
    if any(not (p + "/").startswith(inside) for p in changed):
        raise Violation(f"{title}: writes outside the storage folder", repr(changed))
    if written - {target}:
        raise Violation(f"{title}: writes further files", f"{written} {target}")
    content = after.get(target)
    if content is None or not holds(content, i):
        raise Violation(f"{title}: the file named does not contain the tree", f"{res.file_path} {content!r}")
    if target in before:
        if not flags[0]:
            raise Violation(f"{title}: replaces a file without permission", target)
        if flags[1]:
            raise Violation(f"{title}: replaces a file instead of choosing a new name", target)
    asked = os.path.relpath(os.path.abspath(os.path.join(storage, name)), area.root) if not name.startswith("ABS:") else os.path.normpath(name[4:])
    if target != asked and not (flags[1] and asked in before):
        raise Violation(f"{title}: saved under another name than asked for", f"{target} {asked}")
    if target != asked and (os.path.dirname(target) != os.path.dirname(asked) or os.path.splitext(target)[1] != os.path.splitext(asked)[1]):
        raise Violation(f"{title}: renamed to another folder or extension", f"{target} {asked}")
    made = {p for p in changed if after[p] is None}
    if any(not (target + "/").startswith(p + "/") for p in made):
        raise Violation(f"{title}: makes other folders", repr(made))


def must_succeed(before, folder, name, flags):
    """A plain name in a configured, writable folder, and nothing in the way."""
    if folder not in ("w/s", "w/t", "w/missing") or name in ("", ".") or "\0" in name or len(name) > 200 or name.startswith(("ABS:", "/")):
        return False
    parts = name.split("/")
    if "" in parts or ".." in parts or "." in parts:
        return False
    target = os.path.join(folder, name)
    for k in range(1, len(parts)):
        if before.get(os.path.join(folder, *parts[:k]), None) is not None:
            return False  # a file in place of a folder
    return target not in before or before[target] is not None and any(flags)


def saves(ch, ctx, state):
    folder = ch.choose(FOLDERS)
    area.fresh(STATES[state])
    with files.rights(area, "w/sealed"):
        m = manager()
        trace = []
        for step, names in enumerate((NAMES, SECOND)):
            if step:
                if ctx.visited(ch, key, 1):  # noqa: F821
                    return
                folder = "w/s"
            name = ch.choose(names)
            flags = ch.choose(FLAGS)
            before = area.look()
            i = step + 1
            trace.append((folder, name if len(name) < 200 else "long", "overwrite" * flags[0], "rename" * flags[1]))
            title = f"{state} {trace}"
            try:
                with files.unprivileged():
                    storage, res = send(m, folder, name, flags, i)
            except Exception as ex:
                raise Violation(f"{title}: exception", repr(ex))
            after = area.look()
            judge(before, after, folder, storage, name, flags, i, res, title)
            if not res.success and must_succeed(before, folder, name, flags):
                raise Violation(f"{title}: refused without need", res.error_message)
            ctx.step()
            ctx.state((state, sorted(after.items(), key=lambda x: x[0]), res.success))
            ctx.outcome((folder, name, flags, res.success))
            key = repr(sorted((k, v) for k, v in after.items()))
    return trace


def pairs():
    out = []
    for a, b in (("b.yaml", "b.yaml"), ("a.yaml", "a.yaml"), ("new/b.yaml", "new/b.yaml"), ("a.yaml", "a_2.yaml"), ("new", "new/b.yaml"), ("b.yaml", "sub/../b.yaml")):
        for x in range(4):
            for y in range(x if a == b else 0, 4):
                out.append((a, b, FLAGS[x], FLAGS[y]))
    return out


def pair(ch, ctx, a, b, fa, fb):
    area.fresh(BASE)
    m = manager()
    before = area.look()
    s = sched.Scheduler(ch, 2 if ctx.thorough else 1, FILES)
    title = f"{a} {fa} || {b} {fb}"
    answers = {}

    def save(who, name, flags, i):
        def do():
            try:
                answers[who] = send(m, "w/s", name, flags, i)[1]
            except Exception as ex:
                raise Violation(f"{title}: exception", f"{ex!r} {s.trail}")
        return do

    s.spawn(save("A", a, fa, 1), "A")
    s.spawn(save("B", b, fb, 2), "B")
    s.run()
    after = area.look()
    ctx.step(s.points)
    ctx.outcome((title, answers["A"].success, answers["B"].success))
    ctx.state((title, sorted(after), answers["A"].success, answers["B"].success, s.points))

    def legal(first, second):
        """Are the answers and the files those of one save after the other?"""
        have = dict(before)
        for who, name, flags, i in (first, second):
            res = answers[who]
            asked = os.path.normpath(os.path.join("w/s", name))
            folder = os.path.dirname(asked)
            blocked = asked in have and (have[asked] is None or not any(flags)) or have.get(folder) is not None
            if blocked != (not res.success):
                return False
            if not res.success:
                continue
            target = os.path.relpath(res.file_path, area.root)
            if asked not in have or not flags[1]:
                if target != asked:
                    return False
            elif target in have or os.path.dirname(target) != folder:
                return False
            have[folder] = None
            have[target] = i
        return have.keys() == after.keys() and all(
            holds(after[p], v) if isinstance(v, int) else after[p] == v for p, v in have.items())

    A, B = ("A", a, fa, 1), ("B", b, fb, 2)
    if not legal(A, B) and not legal(B, A):
        raise Violation(f"{title}: not one save after the other", f"{answers} {sorted(after)} {s.trail}")
    return title


FILES = sched.files("ros_bt_py.package_manager")
area = None
