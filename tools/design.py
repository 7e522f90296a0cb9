"""Writes DESIGN.md from the checks' own bounds, the text below, the known findings and the planted changes.

. /opt/vp/env.sh; PYTHONPATH=/verif:$PYTHONPATH python tools/design.py   (never used by a check)
"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import standins  # noqa: E402,F401

HEAD = """# Model checking ros_bt_py

(Written by `tools/design.py` from the checks' own bounds, so that it cannot drift from them.)

Everything here decides properties by **exhaustive exploration of the real Python code** inside stated bounds: every
operation sequence up to a depth, every child result, every environment answer (message, response, clock step, I/O
fault), every thread schedule up to a preemption bound. The oracle is a small independent reference model (plain Python,
sharing no code with ros_bt_py), a second execution of the same code in a situation in which it is known to be right
(a fresh node, a serial execution, the original of a loaded tree), or an invariant on observable state. Nothing is
sampled and no solver decides anything. All 52 properties are decided this way; `not_applicable` is empty.

## Machinery

| file | what it is |
|---|---|
| `mc/core.py` | depth-first exploration by replay over lazily met choices (`Chooser`), counting of states, transitions and executions (`Ctx`), violations; |
| `mc/main.py` | the runner: shards over 8 processes, merges counters, writes evidence and replay files, compares violations with `known_findings.json`, turns hangs into violations |
| `mc/standins.py` | the ROS packages this sandbox lacks, and a deterministic ROS graph (clock, topics, services, actions, timers, rates) whose every answer is a choice of the explorer; futures are rclpy's own |
| `mc/sched.py` | controlled scheduler for real Python threads: switches at lock/thread/sleep operations and at every source line of chosen files (by tracing), virtual time, all schedules up to a preemption bound, deadlock detection |
| `mc/faults.c`, `mc/savefork.py` | an interposer on the C library's file operations and a fork server: errors, kills and power failures at every file-changing call (C32) |
| `mc/ref.py`, `flow.py`, `treekit.py` | reference models of control flow and decorators; lock-step exploration; scripted children |
| `mc/zoo.py`, `leaf.py`, `decl.py`, `kinds*.py` | rigs around every registered node class (inputs, environment events, what is observed) |
| `mc/treemgr.py`, `editing.py`, `execution.py` | the real TreeManager driven through its service handlers; editing model; execution model |
| `mc/files.py`, `kinds_diag.py` | scratch file systems with an unprivileged effective user; diagnostics monitor |
| `mc/props.py` | the single source of `properties.jsonl` and `MANIFEST.json` |
| `tools/` | making and trying planted changes and mutations; never used by a check |

*Binding to the code.* The explored system **is** the implementation: each transition calls the real method, so every
explored history is also a replay against the implementation. `traces_validated_against_impl` counts the complete
maximal histories that were executed on the real code and compared with the reference step by step. Where equal states are
merged, the fingerprint contains the reference model's state *and* the node's plain attributes (counters of calls and
timestamps relative to the clock excepted), so that two merged histories have the same future in the code too; whatever the
fingerprint misses (an attribute holding an opaque object) is covered by the unmerged exploration to a smaller depth which
precedes it in the same check.

*Observation.* Only results, states, public inputs/outputs, messages sent, calls at the stand-ins and files are compared,
never private attributes, so that refactorings stay quiet. The order in which siblings are unticked, reset and shut down
is not compared; the order of ticks is.

*Trust.* The stand-ins, the reference models, Python. For speed `typeguard`'s run-time instrumentation is switched off in the checks listed in `core.FAST`: it
would only turn a wrongly typed argument into an exception, and these checks pass rightly typed ones; it is on in all others,
among them those that feed malformed data (C13, C14, C15, C22, C50).

*Determinism.* Checks are deterministic (VERIF_SEED only permutes the order of the shards). Python is run from /repo's working
tree; if the interface definitions in /repo differ from those the installed messages were built from, `run.sh` builds them
into a scratch directory first; `mc/faults.c` is compiled when C32 runs, into a scratch directory.

*Cost.* One quick run of all 52 checks takes about 27 minutes on 8 cores, the longest about 3 minutes.

*Reproducing.* `bash run.sh CXX [--thorough] [--replay FILE]`; every VIOLATION line names a replay file with the shard,
the choices and the history.

## Unjudged by intent

Observed, and left alone because no documented contract settles it: the manager's tick-rate statistic (a duration is
published as frequency and only leads to warnings); `tick()` ignoring the result of `data_flow_manager.initialize`;
`NodeConfig.extend` changing its target before it refuses; the equality of QoS in the topic utilities; the fallback root name
in `set_diagnostics_name`; a frequency given with TICK_PERIODICALLY is not republished with the structure; `IntType()` spans
up to 2^64-1 while the generic integer spans up to 2^63-1; `pow`/`lshift` with huge operands take for ever (C42);
`FormatString` does not accept a dict of mixed types; `RosParam` cannot declare lists of text.

## Properties

"""

# what the bounds and notes of the checks do not say
MORE = {
    "C11": "A data container flags itself as updated only when its value changes; the reference does the same. What a node does with a static input that is wired is refused by C16.",
    "C13": "Refusal: an `Err` or typeguard's `TypeCheckError`.",
    "C16": "Equal types have to be accepted; different types are judged by the values the source may hold.",
    "C17": "Invariants: one parent per node, children listed once, ids unique, wirings only between existing nodes and keys, public data only of existing nodes, the structure message tells the same tree as the nodes. States are merged by their canonical tree.",
    "C19": "root_id is judged only if there is exactly one root; replace(x, x) has to change nothing.",
    "C20": "Serial executions of the same code are the oracle for concurrent edits (each concurrent outcome has to equal one of the two serial ones); `get_subtree` and `generate_subtree` are no edits.",
    "C21": "Left out: NaN, U+0085 (lost by PyYAML), `tree_ref`, the values of RandomInt, '0' against '0.0' in serialised floats.",
    "C22": "typeguard stays on, as in production.",
    "C23": "Virtual time passes only when every thread waits. Node steps take no time.",
    "C24": "Not modelled: starvation of the executor's threads (the lock's timeout is 4 periods). A command may be refused while an untick is still running after its 0.5 s of patience.",
    "C25": "Any exception type stands for all. After the fault: the state is reported, the command's answer is an error or the state ERROR, the tree can be reset, shut down and run again, and no node is left RUNNING.",
    "C26": "SHUTDOWN takes the links of a forest apart (documented in the code); the last data message may predate an edit.",
    "C27": "The oracle is a twin: the same tree executed directly. Parsing of YAML is memoised. Outputs that are set to an equal value need not be flagged as updated; UNINITIALIZED and SHUTDOWN count as equal for nested nodes that were never set up; nested states are not judged when the root is BROKEN or SHUTDOWN, nor is the nested TreeState's own state; inputs are always given before the first tick; a reference to a forest only has to fail to set up.",
    "C28": "Asking for subtree data does not depend on data publishing. Registries are nested in one place only and without cycles.",
    "C31": "The scratch folders belong to an unprivileged user whom the check becomes (effective uid), so that a save that escapes reaches nothing real.",
    "C34": "Files that an earlier file of the same run creates on the way are not judged.",
    "C37": "A server that refuses to cancel is not judged.",
    "C38": "A delivery that is under way while a subscription is destroyed is not modelled.",
    "C46": "A Parallel is charged for as many children as its result takes, as its code documents; a repeating decorator for one run of its child.",
    "C47": "UUIDs in notations that only Python accepts are not judged.",
    "C50": "A value is judged wrong only by its JSON kind.",
    "C51": "Only the nodes, public data and wirings of the answer are compared, not its name or path.",
    "C52": "Executors and parameters are stand-ins; every callback is run to its end before the next one.",
}


def main():
    props = [json.loads(line) for line in open(f"{ROOT}/properties.jsonl")]
    known = json.load(open(f"{ROOT}/known_findings.json"))
    fixed = {}
    for f in known["fixed"]:
        _, prop, commit, what = f.split(" ", 3)
        fixed.setdefault(prop[9:], []).append(f"`{commit}` {what.replace('was broken before: ', '')}")
    seeds = {}
    for id in sorted(os.listdir(f"{ROOT}/seeded")):
        meta = json.load(open(f"{ROOT}/seeded/{id}/meta.json"))
        seeds.setdefault(meta["property"], []).append((id, meta))
    results = json.load(open(f"{ROOT}/tools/seeded_results.json"))
    out = [HEAD]
    for p in props:
        m = importlib.import_module(f"mc.checks.{p['id'].lower()}")
        out.append(f"### {p['id']} {p['title']}\n\n")
        out.append(f"*Method:* {m.TECHNIQUE}.\n")
        quick, thorough = m.BOUNDS("quick"), m.BOUNDS("thorough")
        out.append(f"*Quick:* {quick}.\n")
        if thorough != quick:
            out.append(f"*Thorough:* {thorough}.\n")
        out.append(f"*Limits:* {m.NOTE}{' ' + MORE[p['id']] if p['id'] in MORE else ''}\n")
        out.append(f"*Beyond tests:* {p['why_tests_cant']}\n")
        if p["id"] in fixed:
            out.append("*Defects found and repaired:* " + "; ".join(fixed[p["id"]]) + ".\n")
        for id, meta in seeds.get(p["id"], ()):
            out.append(f"*Planted {id}:* {meta['what_it_breaks']} (needs: {meta['needs']}) - {results.get(id, 'not tried')}.\n")
        out.append("\n")
    out.append("## Known findings\n\n" + ("\n".join(f"* {f}" for f in known["findings"]) or
               "None: every genuine defect found so far was repaired by a `fix:` commit (listed above and in `known_findings.json`).") + "\n\n")
    out.append(TAIL)
    open(f"{ROOT}/DESIGN.md", "w").write("".join(out).replace("..\n", ".\n"))


TAIL = """## Planted changes and mutations

`seeded/` holds changes that each compile, pass the stable tests and break a property, with a demonstration. They are tried
with `tools/seedkit.py`; the result of the last try is listed with each property above. Besides, one-token mutations
(comparison, constant, branch, deleted statement) of single source files were generated mechanically, filtered by the
repository's own tests and run against the checks mapped to the file; surviving ones were inspected, and either were
equivalent or in log texts only, or led to a stronger check.
"""

if __name__ == "__main__":
    main()
