"""C34: migrating tree files."""

import builtins
import copy
import functools
import os
import sys

import yaml

from mc import files, standins
from mc.core import Violation

from ros_bt_py.migrate_tree_files import main, migrate_legacy_tree_structure

ID = "C34"
TECHNIQUE = "explicit enumeration of all file sets, pre-existing outputs and options of an alphabet on the real file system, against a reference of the permitted effects"
NOTE = "runs as an unprivileged user in a scratch folder; versions newer than the installed one, the exit status and the printed messages are not judged"


def tree(version, name="x"):
    data = {"version": version, "tree_id": "t", "name": name, "path": "", "root_id": "r", "nodes": [{"module": "m", "node_class": "C", "name": "n: 'ü", "inputs": [
        {"key": "k", "serialized_value": "[1, 2]"}], "max_children": -1}], "tick_frequency_hz": 10.5, "data_wirings": [], "odd": {"list": [1, None, True, "1.0"]}}
    if version is None:
        del data["version"]
    return data


def dump(data):
    return yaml.safe_dump(data, sort_keys=False, allow_unicode=True)


KINDS = {  # content, must be migrated
    "1.0.0": (dump(tree("1.0.0")), True),
    "1.0": (dump(tree("1.0", "y")), True),
    "1": ("# comment\n" + dump(tree("1", "")), True),
    "front": ("version: 1.0.0\nname: z\nnodes: []\n", True),
    "back": ("name: z\nnodes: []\nversion: 1.0.0\n", True),
    "0.9": (dump(tree("0.9.9")), False),
    "pre": (dump(tree("1.0.0rc1")), False),
    "none": (dump(tree(None)), False),
    "odd": (dump(tree("new")), False),
    "null": ("version:\nname: x\n", False),
    "listed": ("version: [1, 0, 0]\nname: x\n", False),
    "list": ("- a\n- b\n", False),
    "text": ("just text", False),
    "empty": ("", False),
    "broken": ("version: 1.0.0\nname: [x\n", False),
    "two": ("version: 1.0.0\n---\nversion: 1.0.0\n", False),
    "tagged": ("version: 1.0.0\nname: !!python/object/apply:os.getcwd []\n", False),
    "deep": ("version: 1.0.0\nname: " + "[" * 800, False),
    "binary": ("\0\1\2", False),
    "missing": (None, False),
    "folder": ("FOLDER", False),
    "sealed": (dump(tree("1.0.0", "sealed")), None),
    "hidden": (dump(tree("1.0.0", "unreadable")), False),
}
NAMES = ["a.yaml", "a", "sub/a.yaml", "d.d/a", "a.b.yaml", "a_new.yaml", ".yaml", "a b.yaml"]
TAKEN = [(), ("",), ("_1",), ("", "_1"), ("", "_2"), ("", "_1", "_2", "_3")]


def BOUNDS(tier):
    return f"{len(KINDS)} kinds of files x {len(NAMES)} names x {len(TAKEN)} sets of taken output names x in place or not; all sequences of {3 if tier == 'thorough' else 2} kinds of files; all versions of the function"


def shards(tier):
    return [("one", k) for k in KINDS] + [("more", k) for k in KINDS] + [("function",)]


def run(shard, ctx):
    global area
    area = files.Area()
    try:
        if shard[0] == "one":
            ctx.explore(lambda ch: one(ch, ctx, shard[1]), shard[1])
        elif shard[0] == "more":
            ctx.explore(lambda ch: more(ch, ctx, shard[1]), shard[1])
        else:
            for k in KINDS:
                ctx.case(("function", k), lambda: function(ctx, k))
    finally:
        area.drop()


area = None


def place(name, kind):
    content, _ = KINDS[kind]
    if content == "FOLDER":
        area.put(name, None)
    elif content is not None:
        area.put(name, content)
        path = os.path.join(area.root, name)
        if kind in ("sealed", "hidden") and os.geteuid() == 0:
            os.chown(path, 0, 0)
            os.chmod(path, 0o444 if kind == "sealed" else 0o400)


def call(arguments):
    """The command line tool. -> exception"""
    argv, sys.argv, here = sys.argv, ["migrate_trees"] + arguments, os.getcwd()
    show, builtins.print = builtins.print, lambda *a, **k: None
    try:
        os.chdir(area.root)
        with files.unprivileged():
            main()
    except Exception as ex:
        return ex
    except SystemExit:
        return None
    finally:
        builtins.print = show
        sys.argv = argv
        os.chdir(here)


def outputs(name):
    base, ext = os.path.splitext(name)
    yield f"{base}_new{ext}"
    for i in range(1, 50):
        yield f"{base}_new_{i}{ext}"


def check(title, given, inplace, before, after):
    """given: [(name, kind)]"""
    expected = {}  # new or changed file -> the old content it comes from
    have = dict(before)
    for name, kind in given:
        migrated = KINDS[kind][1]
        if migrated is None:
            migrated = not inplace or os.geteuid() != 0
        if not migrated:
            continue
        if inplace:
            expected[name] = have[name]
        else:
            fresh = [p for p in after if p not in have and p not in expected and after[p] is not None and os.path.dirname(p) == os.path.dirname(name)
                     and after_of(after[p]) == want_of(have[name])]
            if not fresh:
                raise Violation(f"{title}: {name} is not migrated", repr(sorted(after)))
            chosen = next((p for p in outputs(name) if p in fresh), fresh[0])
            expected[chosen] = have[name]
    changed = {p for p in before.keys() | after.keys() if before.get(p, 0) != after.get(p, 0)}
    for p in changed:
        if p not in expected:
            raise Violation(f"{title}: touches {p}", repr((before.get(p), after.get(p))))
    for p, old in expected.items():
        if after.get(p) is None or after_of(after[p]) != want_of(old):
            raise Violation(f"{title}: {p} is not the migrated tree", repr(after.get(p)))


@functools.lru_cache(maxsize=1000)
def after_of(content):
    try:
        return yaml.safe_load(content.decode())
    except Exception:
        return "broken"


@functools.lru_cache(maxsize=1000)
def want_of(content):
    data = yaml.safe_load(content.decode())
    data["version"] = standins._package_version()
    return data


def one(ch, ctx, kind):
    name = ch.choose(NAMES)
    taken = ch.choose(TAKEN)
    inplace = ch.choose(["", "before", "after"])
    how = ch.choose(["relative", "absolute"])
    area.fresh({"other.yaml": "foreign", "other_new.yaml": "foreign"})
    place(name, kind)
    base, ext = os.path.splitext(name)
    for t in taken:
        area.put(f"{base}_new{t}{ext}", "taken")
    title = f"{kind} as {name}, taken {taken}, {'in place ' + inplace if inplace else ''} {how}"
    before = area.look()
    file = name if how == "relative" else os.path.join(area.root, name)
    error = call(["--inplace"] * (inplace == "before") + [file] + ["--inplace"] * (inplace == "after"))
    if error is not None:
        raise Violation(f"{title}: exception", repr(error))
    after = area.look()
    ctx.step()
    ctx.state((title, sorted(after)))
    ctx.outcome((kind, bool(inplace), len(after) - len(before)))
    check(title, [(name, kind)], bool(inplace), before, after)
    return title


def more(ch, ctx, first):
    kinds = [first] + [ch.choose(list(KINDS)) for _ in range(2 if ctx.thorough else 1)]
    names = ch.choose([["a.yaml", "b.yaml", "c.yaml"], ["a", "sub/a", "sub/b"], ["a.yaml", "a.yaml", "a.yaml"], ["a_new.yaml", "a.yaml", "a_new_1.yaml"], ["a.yaml", "a_new.yaml", "b.yaml"]])
    inplace = ch.choose([False, True])
    if len(set(names)) == 1:
        kinds = [first] * len(kinds)
    area.fresh({"other.yaml": "foreign"})
    given = list(zip(names, kinds))
    for name, kind in given:
        place(name, kind)
    title = f"{given} {'in place' if inplace else ''}"
    before = area.look()
    error = call(["--inplace"] * inplace + [n for n, _ in given])
    if error is not None:
        raise Violation(f"{title}: exception", repr(error))
    after = area.look()
    ctx.step(len(given))
    ctx.state((title, sorted(after)))
    ctx.outcome((tuple(kinds), inplace, len(after) - len(before)))
    if names == ["a.yaml", "a_new.yaml", "b.yaml"] and kinds[1] == "missing" and not inplace:
        return  # the file may come into being under way
    check(title, given, inplace, before, after)
    return title


def function(ctx, kind):
    """The migration itself, and loading what it accepts."""
    content, ok = KINDS[kind]
    if content is None or content == "FOLDER":
        return
    try:
        data = yaml.safe_load(content)
    except Exception:
        return
    given = copy.deepcopy(data)
    if isinstance(data, dict):
        try:
            res = migrate_legacy_tree_structure(data)
        except Exception as ex:
            raise Violation(f"function {kind}: exception", repr(ex))
        if res.is_ok() != (ok is not False or kind == "hidden"):
            raise Violation(f"function {kind}: {res}")
        if res.is_err() and data != given:
            raise Violation(f"function {kind}: a refused tree is changed", repr((given, data)))
        if res.is_ok():
            want = dict(given, version=standins._package_version())
            if res.unwrap() != want:
                raise Violation(f"function {kind}: changes more than the version", repr((want, res.unwrap())))
    ctx.step()
    ctx.state(kind)
