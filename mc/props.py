"""Single source of properties.jsonl and MANIFEST.json: `python3 mc/props.py` rewrites both.

Each entry: id, title, statement, quantifier(over, text), why, anchors(files, mechanism[(name, where)],
state[(name, meaning, where)], observe).  `CHECKS` says how each is decided.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "ros_bt_py/ros_bt_py/"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": [P + f if not f.startswith("ros_bt_py") else f for f in files],
                "mechanism": [{"name": n, "where": P + w} for n, w in mech],
                "state": [{"name": n, "meaning": m, "where": P + w} for n, m, w in state],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


SAMPLED = "The tests drive a handful of fixed child scripts and tick sequences; "

# ------------------------------------------------------------------ control flow
prop(
    "C01",
    "Sequence and Fallback tick in order and stop at the deciding child",
    "On every tick a Sequence ticks its children from the first one on, in order, stopping at the first child that does not succeed, and a Fallback stops at the first child that does not fail; the node's result is that child's result (with none deciding: Sequence SUCCEEDED, Fallback FAILED). "
    "When a tick ends with SUCCEEDED or FAILED, every child after the deciding one is halted, so that none of them is left RUNNING from an earlier tick. "
    "Untick and reset reach every child, and a reset node starts again at the first child.",
    ["histories", "inputs"],
    "all histories of tick/untick/reset up to the depth bound x all result scripts of 0..3 children (each tick of a child returns any of SUCCEEDED/FAILED/RUNNING)",
    SAMPLED + "which child decides, what was running before and what is interleaved (untick, reset) multiply into thousands of histories.",
    ["nodes/sequence.py", "nodes/fallback.py"],
    [("Sequence tick/untick/reset", "nodes/sequence.py:Sequence"), ("Fallback tick/untick/reset", "nodes/fallback.py:Fallback")],
    observe=["Node.tick()/untick()/reset() results", "state of each child", "calls each child received"],
)
prop(
    "C02",
    "Memory variants resume at the child that was running and restart after a result",
    "MemorySequence and MemoryFallback behave like Sequence and Fallback, except that a tick that follows a RUNNING tick resumes at the child that was running and does not tick earlier children again. "
    "Once the node has returned SUCCEEDED or FAILED, the next tick starts over at the first child, and so does a tick after reset. "
    "After untick a MemorySequence starts again at its first child while a MemoryFallback resumes at the child that was running.",
    ["histories", "inputs"],
    "all histories of tick/untick/reset up to the depth bound x all result scripts of 0..3 children",
    SAMPLED + "stale resume positions only show after particular RUNNING/result/untick/reset sequences.",
    ["nodes/sequence.py", "nodes/fallback.py"],
    [("MemorySequence", "nodes/sequence.py:MemorySequence"), ("MemoryFallback", "nodes/fallback.py:MemoryFallback")],
    [("resume position", "index of the child to resume at", "nodes/sequence.py:MemorySequence")],
    ["results", "which children were ticked, in order", "child states"],
)
prop(
    "C03",
    "Parallel nodes decide by thresholds and tick each child to one result per run",
    "A Parallel node ticks all children that have no result yet in the current run and keeps a finished child's result until the run is decided; it SUCCEEDs as soon as the required number of children succeeded and FAILs as soon as that number (or, with a failure tolerance, more failures than tolerated) can no longer be met, otherwise it is RUNNING. "
    "When a run is decided, children still RUNNING are halted, and the next tick starts a new run with every child reset. "
    "Setup is refused if there are fewer children than successes needed, and untick and reset reach every child.",
    ["histories", "inputs", "configurations"],
    "all thresholds x 0..3 children x all child result scripts x all tick/untick/reset histories up to the depth bound",
    SAMPLED + "thresholds, late finishers and restarts combine.",
    ["nodes/parallel.py"],
    [("Parallel", "nodes/parallel.py:Parallel"), ("ParallelFailureTolerance", "nodes/parallel.py:ParallelFailureTolerance")],
    observe=["results", "child states", "calls each child received"],
)
prop(
    "C04",
    "Switch nodes tick exactly the child selected by name",
    "A NameSwitch ticks exactly the child whose name equals its input and returns that child's result, halting any other child that is running; an EnumSwitch does the same with the child named like the enum constant whose value the input holds. "
    "If no child carries the selected name the node FAILs and ticks no child. "
    "Untick and reset reach every child.",
    ["histories", "inputs"],
    "all histories over {select each child or an unknown name, tick, untick, reset} up to the depth bound x all child result scripts",
    SAMPLED + "switching while another child is running and unknown names are not combined.",
    ["nodes/fallback.py", "ros_nodes/enum_switch.py"],
    [("NameSwitch", "nodes/fallback.py:NameSwitch"), ("EnumSwitch", "ros_nodes/enum_switch.py:EnumSwitch")],
    observe=["results", "child states", "calls each child received"],
)
prop(
    "C05",
    "Result-mapping decorators map exactly as documented and forward every signal",
    "IgnoreFailure, IgnoreSuccess, IgnoreRunning, Inverter and UntilSuccess tick their child exactly once per tick and return the documented mapping of its result (failure to success, success to failure, running to failure, swapped, failure to running) and every other result unchanged. "
    "Optional behaves like its child when the child can be executed and otherwise SUCCEEDs without ever ticking it; Watch halts its child before ticking it whenever the watched value was updated. "
    "Untick, reset and setup reach the child, and a child error is reported as an error rather than as a result.",
    ["histories", "inputs"],
    "every decorator x child present/absent x all child scripts (results and errors) x all tick/untick/reset histories up to the depth bound",
    SAMPLED + "tests tick once or twice per decorator.",
    ["nodes/decorators.py"],
    [("decorators", "nodes/decorators.py:IgnoreFailure..Watch")],
    observe=["results", "calls the child received"],
)
prop(
    "C06",
    "Counting decorators honour their counts across pauses and resets",
    "Retry keeps returning RUNNING and re-running its child after a failure until the child succeeded or the allowed number of retries is used up, and then FAILs; Repeat and RepeatNoAutoReset keep returning RUNNING after a success until the requested number of repetitions is reached and fail as soon as the child fails; RepeatAlways, RepeatIfFail and RepeatUntilFail never end except by their documented condition. "
    "A pause (untick) keeps the count and halts a running child; reset sets the count back to zero, except that RepeatNoAutoReset keeps it. "
    "Within one run the child is reset before it is run again.",
    ["histories", "inputs", "configurations"],
    "all counts 0..3 x all child scripts x all tick/untick/reset histories up to the depth bound",
    SAMPLED + "off-by-one errors and lost or kept counts need particular pause/reset points.",
    ["nodes/decorators.py"],
    [("Retry/Repeat*", "nodes/decorators.py:Retry..RepeatUntilFail")],
    [("execution count", "runs of the child so far", "nodes/decorators.py")],
    ["results", "calls the child received"],
)

# ------------------------------------------------------------------ life cycle
prop(
    "C07",
    "Every node obeys the life-cycle protocol",
    "For every node class: setup is accepted only before first use or after shutdown and leads to IDLE; tick, untick and reset are refused with an error, changing nothing, before setup, after shutdown and in state BROKEN; a successful tick ends in RUNNING, SUCCEEDED, FAILED, ASSIGNED or UNASSIGNED, untick in IDLE or PAUSED, reset in IDLE and shutdown in SHUTDOWN. "
    "A step whose implementation fails, returns an impossible state, or is attempted with an unset input ends with an error result and, where the implementation failed or an input is unset, in state BROKEN. "
    "The state a call returns is the state the node then has.",
    ["histories", "configurations"],
    "every registered node class (and scripted nodes returning every possible outcome) x all sequences of the five life-cycle operations up to the depth bound",
    "Tests call the operations in the usual order; out-of-order sequences per class are not explored.",
    ["node.py", "nodes", "ros_nodes"],
    [("life-cycle operations", "node.py:Node.setup/tick/untick/reset/shutdown")],
    [("state", "life-cycle state", "node.py:Node.state")],
    ["operation results", "Node.state"],
)
prop(
    "C08",
    "No node is left running outside the ticked path of a tree",
    "In any tree of built-in control-flow and decorator nodes (IgnoreRunning aside), when a node's tick ends with SUCCEEDED or FAILED none of its descendants is left RUNNING, and a node halted by its parent has no RUNNING descendant. "
    "After untick of the root no node in the tree is RUNNING, after reset every node that can be run is IDLE, and after shutdown every node is SHUTDOWN. "
    "No leaf is ticked twice in one tick of the root.",
    ["programs", "histories"],
    "all trees up to depth 3 built from the built-in control-flow and decorator classes with scripted leaves x all histories of root operations up to the depth bound",
    "Tests check single nodes with mock children; whole nested trees under arbitrary histories are not explored.",
    ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "ros_nodes/enum_switch.py", "ros_nodes/throttle.py"],
    [("halting of children", "nodes/*.py:_do_tick/_do_untick/_do_reset")],
    observe=["state of every node after each root operation"],
)
prop(
    "C09",
    "A reset or re-set-up node behaves like a fresh one",
    "After any history, a node that was reset (except RepeatNoAutoReset), or shut down and set up again, gives on every further history exactly the same results, outputs and external effects as a newly created and set-up node of the same configuration with the same inputs. "
    "This holds for control-flow nodes, decorators and leaf nodes alike.",
    ["histories", "configurations"],
    "every built-in node class in a small harness x all histories up to the prefix bound, then reset or shutdown+setup, x all continuation histories up to the suffix bound (differential against a fresh instance)",
    "Tests reset after one fixed prefix and look at one following tick.",
    ["node.py", "nodes", "ros_nodes"],
    [("reset", "node.py:Node.reset"), ("setup", "node.py:Node.setup")],
    observe=["results, outputs and ROS calls of the continuation"],
)
prop(
    "C10",
    "A node error is contained, reported upwards and never blocks shutdown",
    "If any node in a tree reports an error during setup, tick, untick or reset, or its outputs cannot be delivered, the operation on the root reports an error too (never a normal result) and the failing node is BROKEN. "
    "Shutting down the root afterwards, whatever failed before and even if some node's own shutdown fails, still reaches every other node of the tree exactly as in an error-free tree and leaves them SHUTDOWN.",
    ["fault_sequences", "programs"],
    "all small trees of control-flow/decorator nodes x a fault in every leaf at every operation and call number, including faults in shutdown itself",
    "The tests inject faults in a few single nodes, not at every point of a tree.",
    ["node.py", "nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py"],
    [("error propagation", "node.py:Node.tick/.shutdown"), ("children loops", "nodes/*.py")],
    observe=["root result", "node states", "shutdown calls"],
)

# ------------------------------------------------------------------ data
prop(
    "C11",
    "Wired data is delivered after the producer's tick, once, to every consumer",
    "When a node's tick ends, each of its outputs set in that tick is copied to every input wired to it and marks those inputs updated, and outputs not set in that tick change nothing downstream. "
    "An input's updated mark is seen by the consumer's next tick and is cleared by it; reset and setup mark all inputs updated and clear outputs. "
    "Incoming public data reaches exactly the inputs it names, and outgoing public data receives exactly the outputs it names.",
    ["histories", "programs"],
    "all wirings (fan-out, chains, back edges) between up to 3 nodes x all histories of producing/not producing and ticking/resetting nodes up to the depth bound",
    "Tests check single pushes; order, fan-out and freshness over histories are not explored.",
    ["data_flow_manager.py", "node.py"],
    [("push", "data_flow_manager.py:push_outputs/push_incoming_data"), ("updated flags", "node.py:Node.tick")],
    observe=["input values", "input updated flags"],
)
prop(
    "C12",
    "Data handed between nodes is never aliased",
    "A value read from or written to a node's input or output is an independent copy: changing it afterwards at the producer, at a consumer or by whoever wrote it never changes what any other node sees. "
    "This holds for every data type that can hold nested mutable values and along every wiring, and for the defaults shared by nodes of the same class.",
    ["histories", "inputs"],
    "every container type with a mutable value x every order of set/get/mutate/push over producer, two consumers and a second instance of the class",
    "Tests compare values once; mutation after hand-over is not tried.",
    ["data_types.py", "data_flow_manager.py", "node_config.py"],
    [("copies", "data_types.py:DataContainer.get_value/set_value"), ("config copy", "node_config.py:NodeConfig.copy")],
    observe=["values seen by every node after each step"],
)
prop(
    "C13",
    "Data containers accept exactly the values of their declared type",
    "A data container accepts a value exactly if it has the declared type, lies within the declared numeric and length bounds and is one of the declared allowed values; every accepted value is read back equal. "
    "A rejected value leaves the held value and its updated mark as they were, and a static container refuses another value while the one it was given is marked updated. "
    "Two declarations are compatible only if every value the source may hold is acceptable to the target.",
    ["inputs", "configurations"],
    "every container kind x bounds/allowed-value combinations x all values of a mixed-type alphabet including edge values, and all pairs of containers for compatibility",
    "Tests cover a few values per type; pairs of types and edge values are not enumerated.",
    ["data_types.py"],
    [("set_value", "data_types.py:DataContainer.set_value"), ("is_compatible", "data_types.py:*.is_compatible")],
    observe=["set_value result", "get_value", "is_compatible"],
)
prop(
    "C14",
    "Serialising a value and reading it back gives the same value",
    "For every data type and every value it accepts, the serialised form can be read back by a container of the same declared type and yields an equal value. "
    "Malformed or wrongly typed serialised values are reported as errors and leave the container unchanged, never as an escaping exception.",
    ["inputs"],
    "every container kind x every value of its alphabet x every malformed string of the alphabet",
    "Round trips are tested for a few types and values only.",
    ["data_types.py"],
    [("serialise/deserialise", "data_types.py:*.serialize_value/deserialize_value")],
    observe=["deserialised value"],
)
prop(
    "C15",
    "Serialised type descriptions are faithful",
    "The serialised description of any data type, however nested, restores a type that accepts the same values, has the same static/dynamic kind, bounds, allowed values and references, and serialises to the same description again. "
    "A description that names no known type, or contradicts itself in its flags or bounds, is rejected with an error.",
    ["inputs", "configurations"],
    "all type terms up to nesting depth 3 over all container kinds and bound/flag variants; all malformed descriptions of the alphabet",
    "The tests round-trip a few flat types.",
    ["data_types.py"],
    [("serialize_type", "data_types.py:DataContainer.serialize_type"), ("get_iotype_for_msg", "data_types.py:get_iotype_for_msg")],
    observe=["restored type behaviour"],
)
prop(
    "C16",
    "Only type-safe, existing and unique wirings are accepted",
    "A request to wire data is accepted exactly if both nodes and both data keys exist, the types are compatible, and the target input is not static and not already wired (also within the same request), and then precisely the requested wirings are added. "
    "A refused request adds no wiring at all. "
    "Unwiring removes precisely the named wirings, and an unknown wiring is reported without changing anything.",
    ["histories", "inputs"],
    "all single wirings over a tree with one node of each data type, and all sequences of wire/unwire requests of one or two wirings up to the depth bound",
    "The service tests try a few type mismatches; batches with one bad element and repeated requests are not covered.",
    ["tree_edit_manager.py", "tree_exec_manager.py"],
    [("wire/unwire", "tree_edit_manager.py:wire_data/unwire_data"), ("find wiring", "tree_exec_manager.py")],
    observe=["service response", "wirings in the published structure"],
)

# ------------------------------------------------------------------ editing
prop(
    "C17",
    "Editing never breaks the structure of the tree",
    "After any sequence of editing requests (add, remove, move, replace, morph, rename, change options, wire, unwire), accepted or refused, every node has at most one parent, parent and child links agree, there is no cycle, no node exceeds its allowed number of children, ids are unique, and every wiring names existing nodes and data and at most one wiring feeds an input. "
    "The published structure describes exactly the tree that would be executed.",
    ["histories"],
    "breadth-first exploration of all editing request sequences up to the depth bound over a small alphabet (every node as subject, every node as parent/replacement, every index), with state deduplication",
    "Tests perform a few edits in a fixed order on fixed trees.",
    ["tree_edit_manager.py", "tree_exec_manager.py", "node.py"],
    [("edit services", "tree_edit_manager.py:TreeEditManager"), ("child lists", "node.py:Node.add_child/remove_child")],
    [("nodes", "all nodes by id", "tree_exec_manager.py:TreeExecManager.nodes")],
    ["published structure", "executed node graph"],
)
prop(
    "C18",
    "A refused edit changes nothing",
    "An editing or loading request that is answered with failure leaves the tree, its wirings and its data exactly as they were before. "
    "The service answers every request, valid or not, with a response rather than an exception.",
    ["histories", "inputs", "fault_sequences"],
    "every request of the editing alphabet, valid and invalid, in every state reached within the depth bound",
    "Tests look at the success flag of failed edits, not at the remains.",
    ["tree_edit_manager.py", "tree_exec_manager.py"],
    [("edit services", "tree_edit_manager.py:TreeEditManager"), ("load", "tree_edit_manager.py:load_tree")],
    observe=["published structure before and after", "service response"],
)
prop(
    "C19",
    "Accepted edits do exactly what was asked",
    "An accepted add puts the given node, with its given name, options and children, at the requested parent and position; an accepted remove takes out the node (with its descendants if asked, otherwise only itself) and its wirings; move, replace, morph and option changes relocate or exchange exactly the named node and keep all other nodes, their order, options and still valid wirings. "
    "A node's identifier survives morphing and option changes, and a request that fits the tree is accepted.",
    ["histories", "inputs"],
    "every request of the editing alphabet in every tree reached within the depth bound, against an independent list-of-nodes reference model",
    "The tests check single edits at the default position.",
    ["tree_edit_manager.py"],
    [("edit services", "tree_edit_manager.py:TreeEditManager")],
    observe=["published structure after each request"],
)
prop(
    "C20",
    "The tree can only be edited while it is not executing",
    "While a tree is ticking, waiting for a tick or otherwise set up, every editing request is refused and changes nothing; it is accepted again after shutdown. "
    "No interleaving of an editing request with a request to start execution lets a tick run on a half-edited tree or an edit change a tree that is being executed. "
    "Two edits requested at the same time act as if one had come after the other.",
    ["schedules", "histories"],
    "every edit service in every execution state, and all schedules up to the preemption bound of an edit against a start-execution request and of two edits against each other",
    "Tests try a few services in one running state and never concurrently.",
    ["tree_edit_manager.py", "tree_exec_manager.py"],
    [("edit guard", "tree_edit_manager.py:is_edit_service"), ("execution control", "tree_exec_manager.py:control_execution")],
    observe=["service responses", "structure", "states seen by ticks"],
)
prop(
    "C21",
    "Saving and loading a tree preserves it",
    "The published structure of any tree, loaded into another manager directly or through a saved file, yields the same structure again: classes, names, order, options, wirings, public data and tick frequency. "
    "The loaded tree computes the same results and data as the original on the same inputs.",
    ["programs", "histories"],
    "all trees of the bounded generator (every node class with non-trivial options, nested, wired, with public data) saved, loaded, re-saved and executed side by side",
    "The tests load a set of hand-written files.",
    ["tree_exec_manager.py", "tree_edit_manager.py", "package_manager.py", "node.py"],
    [("to_structure_msg/from_msg", "node.py:Node.to_structure_msg/from_msg"), ("load_tree", "tree_edit_manager.py:load_tree"), ("save", "package_manager.py:save_tree")],
    observe=["structure messages", "tick results"],
)
prop(
    "C22",
    "Broken tree descriptions are refused cleanly",
    "Loading a description that is not a valid tree (unreadable, wrong version, missing or duplicate ids, missing children, cycles, unknown classes, bad option values, impossible wirings) is answered with failure, in finite time, without an escaping exception, and leaves the manager able to load a valid tree afterwards. "
    "A description that is accepted yields a tree with a valid structure.",
    ["inputs", "fault_sequences"],
    "every single mutation (and pairs of mutations in the thorough tier) of valid tree messages and files over a mutation alphabet",
    "Tests load a few broken files.",
    ["tree_edit_manager.py", "tree_exec_manager.py", "node.py"],
    [("load_tree", "tree_edit_manager.py:load_tree"), ("from_msg", "node.py:Node.from_msg")],
    observe=["service response", "structure after the response"],
)

# ------------------------------------------------------------------ execution
prop(
    "C23",
    "Execution control follows its state machine",
    "Each execution command is accepted exactly in the tree states where it is defined, answers (if accepted) with the state the tree actually ends in, and has its documented effect: one tick, continuous ticking, ticking until a result, stop, reset or shutdown. "
    "After stop no node is running and nothing ticks any more; after shutdown every node is shut down and the tree can be edited and started again; a periodic run ticks once per period until it is told to stop.",
    ["histories"],
    "all sequences of execution commands up to the depth bound x all root behaviours (result, running, error) with the ticking thread under the harness's control",
    "The tests try each command from one or two states.",
    ["tree_exec_manager.py"],
    [("control_execution", "tree_exec_manager.py:control_execution"), ("tick loop", "tree_exec_manager.py:tick/_do_tick")],
    [("tree state", "state reported for the tree", "tree_exec_manager.py:TreeExecManager.state")],
    ["service responses", "tree state", "ticks of a probe node"],
)
prop(
    "C24",
    "Concurrent execution commands never corrupt or block the tree",
    "For every interleaving of two clients' execution commands and the ticking thread, every command is answered, no two ticks of the tree overlap, and no node is ticked after a stop or shutdown was answered successfully unless a later command starts it again. "
    "When everything has come to rest, the reported tree state matches whether a thread is ticking and the tree still obeys stop and shutdown.",
    ["schedules"],
    "all schedules up to the preemption bound of two command threads and the ticking thread for every pair of commands from every starting state",
    "The tests run real threads and see one schedule per run.",
    ["tree_exec_manager.py"],
    [("control_execution", "tree_exec_manager.py:control_execution"), ("tick loop", "tree_exec_manager.py:tick")],
    observe=["service responses", "tick begin/end events", "final tree state"],
)
prop(
    "C25",
    "Problems during execution end in a reported, recoverable state",
    "If a node reports an error or raises an exception during setup or any tick of an execution, or while it is stopped, reset or shut down, the execution ends, the tree reports an error state and does not keep claiming to tick. "
    "Afterwards the tree can be shut down, whereupon it is editable and startable again.",
    ["fault_sequences", "histories"],
    "a fault (error result or exception) at every operation of every node at every tick number within the bound, for every execution command, followed by every recovery command",
    "The tests inject an error in one place.",
    ["tree_exec_manager.py", "node.py"],
    [("tick loop", "tree_exec_manager.py:tick")],
    observe=["tree state", "service responses"],
)
prop(
    "C26",
    "What is published about the tree is what the tree is",
    "The last published structure, node states, wiring data and diagnostics always describe the current tree: every node with its class, name, children and state, every wiring, its value and whether it is current, the root if there is exactly one, and the tree's name. "
    "After each edit and each command, and in every tick, a message with the new content is published if publishing it is switched on, and nothing is published about nodes that no longer exist.",
    ["histories"],
    "all histories of edits, ticks and execution commands up to the depth bound, comparing the last published messages with the tree after every step",
    "The tests rarely look at published messages.",
    ["tree_exec_manager.py", "data_flow_manager.py"],
    [("publishing", "tree_exec_manager.py:publish_structure/publish_state/publish_data")],
    observe=["published messages"],
)

# ------------------------------------------------------------------ managers
prop(
    "C27",
    "A subtree node behaves like the tree it contains",
    "A Subtree node sets up, ticks, unticks, resets and shuts down exactly the tree it refers to and returns its root's result; its inputs and outputs are that tree's public inputs and outputs, and data passes through them on every tick. "
    "The structure of a nested tree is reported exactly while a subtree node containing it exists, whatever edits and commands succeed or are refused, with the states of its nodes once it was executed; creating a subtree node for a tree that cannot be loaded fails with an error.",
    ["histories", "configurations"],
    "all histories of the node operations x all result scripts of the nested tree x public data present/absent x broken references",
    "The tests use one or two fixed subtrees.",
    ["ros_nodes/subtree.py", "subtree_manager.py"],
    [("Subtree", "ros_nodes/subtree.py:Subtree")],
    observe=["results", "inner node calls", "outputs", "reported subtrees"],
)
prop(
    "C28",
    "The subtree registry reports exactly the registered subtrees",
    "At any time the registry reports, for structures, states and data, exactly the latest entry registered for each owning node that has not been removed, in this registry and in every nested one, and nothing at all while publishing is switched off. "
    "What is reported is a copy, switching publishing reaches all nested registries including those added later, and concurrent calls neither fail nor lose an entry.",
    ["histories", "schedules"],
    "all operation sequences up to the depth bound over two owners and one level of nesting against a map model, and all schedules up to the preemption bound of pairs of operations",
    "The unit tests call each method once, single-threaded.",
    ["subtree_manager.py"],
    [("SubtreeManager", "subtree_manager.py:SubtreeManager")],
    observe=["get_subtree_structures/states/data"],
)
prop(
    "C29",
    "Diagnostics are complete and never disturb execution",
    "While diagnostics collection is on, every node operation publishes one message before and one after it, naming the node, its path from the root and the operation, and bearing the time it is sent at; while it is off nothing is published. "
    "Switching collection on or off at any moment, including in the middle of an operation, never makes an operation fail or changes its result.",
    ["histories", "schedules"],
    "all placements of on/off switches before, inside and after every node operation of a small tree",
    "The unit tests switch collection on before the operation.",
    ["debug_manager.py", "node.py"],
    [("report_state/report_tick", "debug_manager.py:DebugManager")],
    observe=["published diagnostics", "operation results"],
)
prop(
    "C30",
    "Log messages are published exactly at or above the chosen level",
    "A log message is published and handed to the ROS logger exactly if its level is at least the currently chosen minimum, for every manager alike and from the moment the level is changed. "
    "A published message carries the level, text, tree, node and calling location of the call that logged it; messages marked internal go to the ROS logger only.",
    ["histories", "inputs"],
    "all sequences of level changes and log calls over all levels, two managers, with and without tree/node, internal or not, up to the depth bound",
    "The unit tests check a few level pairs.",
    ["logging_manager.py"],
    [("LoggingManager", "logging_manager.py:LoggingManager")],
    observe=["published log messages", "ROS logger calls"],
)
prop(
    "C31",
    "Saving a tree only ever touches the one file it may",
    "A save request writes only inside the chosen storage folder, which must be one of the configured ones; an existing file is replaced only if overwriting was allowed, and with renaming allowed a new, unused name is chosen instead. "
    "A refused request touches no file at all, and a successful one names the file that was written, which contains the given tree; two saves requested at the same time act as if one had come after the other.",
    ["inputs", "histories", "schedules"],
    "all combinations of storage folder, file name (plain, nested, absolute, with parent references, wrong extension), existing files and permission flags, in sequences of two saves; all schedules up to the preemption bound of two concurrent saves",
    "Tests save a few plain names.",
    ["package_manager.py"],
    [("save_tree", "package_manager.py:save_tree"), ("save_tree_to_path", "package_manager.py:save_tree_to_path")],
    observe=["file system snapshot", "service response"],
)
prop(
    "C32",
    "A failed or interrupted save never destroys the stored tree",
    "If saving over an existing tree file fails or is interrupted at any point, the stored file still holds the complete old tree or the complete new one. "
    "A failure is reported in the response, and later saves work.",
    ["crash_points", "fault_sequences"],
    "a crash or an I/O error at every file-system operation (and every byte-prefix of each write in the thorough tier) of the save path",
    "No test injects I/O faults.",
    ["package_manager.py"],
    [("save_tree", "package_manager.py:save_tree_to_path")],
    observe=["file content after the crash", "service response"],
)
prop(
    "C33",
    "Tree listings and package look-ups match what is stored",
    "The listing of a package or storage folder contains exactly the tree files and folders present, each exactly once under its own parent, and every listed tree can be loaded by the name listed. "
    "Look-ups of unknown packages, folders or node modules are answered with failure rather than an exception.",
    ["inputs", "histories"],
    "all directory shapes up to depth 2 over a small alphabet of file kinds, and all query strings of the alphabet",
    "Tests list the fixed tree folder.",
    ["package_manager.py"],
    [("package structure", "package_manager.py:PackageManager")],
    observe=["service responses"],
)
prop(
    "C34",
    "Migrating tree files keeps the tree and never clobbers other files",
    "Migration of a tree of a supported version changes nothing but the version number, and a tree of an unsupported version is refused and left as it was. "
    "Without the in-place option no existing file is modified, a fresh file name is chosen and every file given is handled independently of the others' outcome.",
    ["inputs", "histories", "configurations"],
    "all versions of the alphabet x file sets x pre-existing outputs x in-place on/off, in all orders",
    "There are no tests of the file handling.",
    ["migrate_tree_files.py"],
    [("migrate", "migrate_tree_files.py:main/migrate_legacy_tree_structure")],
    observe=["file system before and after"],
)

# ------------------------------------------------------------------ ROS leaves
prop(
    "C35",
    "A Service node makes one call per request and reports exactly its outcome",
    "The Service node sends a request when its service name or request changed or when it starts anew after setup, untick or reset, stays RUNNING until the response or the timeout, then SUCCEEDs with that response as its outputs or FAILs on timeout, and repeats this result until the next request; it never has two calls pending and never reports the response of an earlier request. "
    "A call that is pending when the node is unticked, reset or shut down or its request changes is cancelled; the client is released on reset, when the name changes and on shutdown.",
    ["histories", "schedules"],
    "all interleavings up to the depth bound of node operations, input changes, response arrivals, cancellations and clock steps around the timeout",
    "Tests mock one response per test.",
    ["ros_nodes/service.py"],
    [("Service", "ros_nodes/service.py:ServiceForSetType"), ("Service", "ros_nodes/service.py:Service")],
    observe=["node results and outputs", "calls and cancellations at the client"],
)
prop(
    "C36",
    "WaitForService reports availability within its timeout",
    "WaitForService SUCCEEDs on a tick at which the service is available, FAILs once the timeout has passed since waiting began without it being available, and is RUNNING otherwise. "
    "Waiting begins anew after an untick, a reset or a change of the service name, and clients are released when no longer needed.",
    ["histories"],
    "all histories of node operations, availability changes, name changes and clock steps around the timeout up to the depth bound",
    "Tests check one availability pattern each.",
    ["ros_nodes/service.py"],
    [("WaitForService", "ros_nodes/service.py:WaitForService")],
    observe=["results"],
)
prop(
    "C37",
    "An Action node drives one goal at a time and never abandons one",
    "The Action node sends its goal, reports RUNNING while it is pending with the latest feedback in its outputs once the goal was accepted, and ends with the action's own result: SUCCEEDED exactly if the goal succeeded, FAILED if it was rejected, aborted, canceled or timed out (measured from its acceptance). "
    "A goal is canceled when the node is unticked, reset or shut down, when a different goal is requested, or on timeout, at whatever stage of the hand-shake this happens; afterwards the next tick sends the current goal anew. "
    "Results or feedback of an abandoned goal never reach the outputs.",
    ["histories", "schedules"],
    "all interleavings up to the depth bound of node operations, goal changes, acceptance/rejection, feedback, result, cancel responses and clock steps",
    "Tests walk a few fixed hand-shakes.",
    ["ros_nodes/action.py"],
    [("Action", "ros_nodes/action.py:ActionForSetType"), ("Action", "ros_nodes/action.py:Action")],
    observe=["results and outputs", "goals and cancellations at the server"],
)
prop(
    "C38",
    "Topic subscribers deliver each message as their contract says",
    "A TopicSubscriber is RUNNING until a message arrived since its last result, then SUCCEEDs with the newest message as output, using each message at most once; a TopicMemorySubscriber keeps the newest message, SUCCEEDing while it is fresh enough and FAILing once it is older than allowed, and is RUNNING before the first one. "
    "No message received before setup or reset, or on an old topic, is reported afterwards; every subscription is released on shutdown and when the topic changes.",
    ["histories", "schedules"],
    "all interleavings up to the depth bound of node operations, message arrivals, topic changes and clock steps around the age limit",
    "Tests deliver one message per test.",
    ["ros_nodes/topic.py"],
    [("TopicSubscriber", "ros_nodes/topic.py:TopicSubscriber"), ("TopicMemorySubscriber", "ros_nodes/topic.py:TopicMemorySubscriber")],
    observe=["results and outputs", "live subscriptions"],
)
prop(
    "C39",
    "TopicPublisher publishes every new message exactly once",
    "A TopicPublisher publishes on each tick for which a different message was provided, and on the first tick after setup or reset, exactly once and with exactly that content, on the topic named at the time, and publishes nothing otherwise. "
    "Exactly one publisher, with the current topic and quality of service, exists after a tick, and none after reset or shutdown.",
    ["histories"],
    "all histories of node operations, new messages, topic changes up to the depth bound",
    "Tests publish once.",
    ["ros_nodes/topic.py"],
    [("TopicPublisher", "ros_nodes/topic.py:TopicPublisher")],
    observe=["published messages", "live publishers"],
)
prop(
    "C40",
    "Time-based nodes honour their periods for every clock history",
    "Wait is RUNNING until its number of seconds has passed since its first tick after setup or reset and SUCCEEDs from then on (an untick pauses it without restarting the time). "
    "Throttle and ThrottleSuccess do not tick their child for a period after its last result (ThrottleSuccess: its last success) and repeat that result, respectively fail, meanwhile, and tick it on every other tick; GetTimeNow always outputs the current time. "
    "After a reset the child is not held back by earlier results.",
    ["histories"],
    "all histories of node operations and clock steps (zero, just below, exactly, just above the period) x child scripts up to the depth bound",
    "Tests use one or two clock patterns.",
    ["ros_nodes/wait.py", "ros_nodes/throttle.py", "ros_nodes/time.py"],
    [("Wait", "ros_nodes/wait.py:Wait"), ("Throttle", "ros_nodes/throttle.py")],
    observe=["results", "ticks of the child"],
)

# ------------------------------------------------------------------ leaves
prop(
    "C41",
    "Comparison, constant and pass-through leaves compute what they say",
    "Compare, CompareNewOnly, ALessThanB, IsInList and ListLength succeed or fail exactly by the relation they name on their current inputs, for every value of every type they accept, and CompareNewOnly is RUNNING while neither side was newly provided. "
    "Constant, the public-data nodes and PassthroughNode output exactly their input value; RandomInt gives exactly the integers within its bounds and never succeeds on an empty range.",
    ["inputs", "histories"],
    "all pairs of values of the typed alphabet x all update patterns up to the depth bound",
    "Tests use a few values.",
    ["nodes/compare.py", "nodes/constant.py", "nodes/io.py", "nodes/passthrough_node.py", "nodes/random_number.py", "nodes/list.py"],
    [("compare", "nodes/compare.py"), ("io", "nodes/io.py")],
    observe=["results and outputs"],
)
prop(
    "C42",
    "Arithmetic leaves compute the named function or fail",
    "Operation, UnaryOperation and Convert output exactly the named mathematical function or conversion of their inputs, for every operator and operand type they offer, whenever it is defined and the declared type can represent it. "
    "Otherwise (such as division by zero or a domain error) the node FAILs or reports an error, without an exception and without a stale result marked as new.",
    ["inputs"],
    "all operators x operand types x all pairs of an edge-value alphabet",
    "Tests use one pair of operands per operator.",
    ["nodes/maths.py"],
    [("maths", "nodes/maths.py")],
    observe=["results and outputs"],
)
prop(
    "C43",
    "List, dict and attribute leaves read and write exactly the addressed element",
    "Getter leaves output exactly the element at the given index, key or attribute and FAIL if there is none; setter leaves output a copy of the object in which exactly that element has the given value, never modifying the input object, and fail or report an error if the element cannot hold it. "
    "IterateList presents the elements one per child run in order and ends after the last, and InsertInList and AppendListItem insert at exactly the requested place.",
    ["inputs", "histories"],
    "all small lists/dicts/messages x all indices, keys and attribute paths of the alphabet, including out-of-range ones, x update patterns",
    "Tests use one structure each.",
    ["nodes/getters.py", "nodes/setters.py", "nodes/list.py"],
    [("getters", "nodes/getters.py"), ("setters", "nodes/setters.py"), ("lists", "nodes/list.py")],
    observe=["results, outputs and input objects after each tick"],
)
prop(
    "C44",
    "Text and file leaves produce exactly the documented text or data",
    "String leaves output exactly the concatenation, formatting or file extension of their inputs, and FAIL rather than break on a malformed format or missing value. "
    "File leaves output exactly the content of the named file, FAILing on missing, unreadable or wrongly structured files, and reflect the file as it was when its name was last changed or the node reset.",
    ["inputs", "histories"],
    "all format strings of a small grammar x value dictionaries; all file contents of the alphabet x sequences of path changes",
    "Tests use a few strings and files.",
    ["nodes/format.py", "nodes/file.py"],
    [("format", "nodes/format.py"), ("file", "nodes/file.py")],
    observe=["results and outputs"],
)
prop(
    "C45",
    "Message conversion leaves are inverse to each other",
    "Splitting a ROS message into fields and assembling it again yields the same message, field by field, for every supported message type; assembling sets exactly the given fields. "
    "Enumeration leaves offer exactly the constants of the message with their values, and parameter leaves output the parameter's current value or FAIL.",
    ["inputs", "histories"],
    "all message types of the alphabet x all field values of a small alphabet x node histories",
    "Tests use a single message type.",
    ["ros_nodes/message_converters.py", "ros_nodes/enum.py", "ros_nodes/param.py"],
    [("converters", "ros_nodes/message_converters.py"), ("enum", "ros_nodes/enum.py"), ("param", "ros_nodes/param.py")],
    observe=["outputs"],
)

# ------------------------------------------------------------------ cross-cutting
prop(
    "C46",
    "Utility bounds contain every possible cost",
    "For every tree of control-flow nodes whose leaves' costs lie within the leaves' own bounds, the cost of any possible execution that succeeds (fails) lies within the success (failure) bounds reported for the tree, and a bound is claimed only if it exists (a Parallel is charged for as many children as its result takes, a repeating decorator for one run of its child). "
    "A tree that contains a part without which it cannot run is reported as not executable.",
    ["programs", "inputs"],
    "all control-flow nodes x all combinations of leaf bounds from a small alphabet x all possible child results",
    "Tests compare a few hand-computed examples.",
    ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "node.py", "ros_nodes/topic.py", "ros_nodes/service.py", "ros_nodes/action.py"],
    [("utility", "nodes/*.py:_do_calculate_utility")],
    observe=["calculate_utility()"],
)
prop(
    "C47",
    "Identifier, attribute and wiring helpers are exact",
    "Converting an identifier to its message form and back gives the same identifier, and text that is no notation of an identifier is reported as invalid without an exception; a wiring is attributed to a node exactly if one of its ends names it. "
    "Nested attribute access reads and writes exactly the addressed attribute, numeric limits are those of the named ROS types, and interface names name the interface they were derived from.",
    ["inputs"],
    "all identifiers and malformed strings of the alphabet, all wirings over three nodes and malformed ends, all attribute paths up to depth 3",
    "The unit tests check one example per helper.",
    ["helpers.py", "ros_helpers.py"],
    [("helpers", "helpers.py"), ("ROS helpers", "ros_helpers.py")],
    observe=["return values"],
)
prop(
    "C48",
    "Success/error results compose lawfully and never lose an error",
    "For every combination of success and error results: mapping and chaining apply their function exactly once and only to the matching kind, pass the other kind through unchanged, and unwrapping yields the value or raises. "
    "A chain of steps that each may fail yields the final value if all succeed and otherwise exactly the first error, running no later step.",
    ["inputs", "programs"],
    "all chains up to length 3 of all combinators over success/error values, against a direct reference interpreter",
    "The vendored library is not tested here.",
    ["vendor/result/result.py"],
    [("Result", "vendor/result/result.py")],
    observe=["return values, raised errors, calls made"],
)
prop(
    "C49",
    "Node configurations merge without loss and are never shared",
    "Every instance of a node class starts from its class's declared inputs, outputs and child limit, combined with those of its base classes, and nothing done to one instance changes the declaration or another instance. "
    "Combining two declarations keeps every entry of both, and is refused with an error if the same entry is declared twice or the child limits contradict each other.",
    ["programs", "histories"],
    "all pairs of declarations over two keys and all child limits; all sequences of instance creation and change over two instances per registered class",
    "Tests extend one configuration.",
    ["node_config.py", "node.py"],
    [("NodeConfig", "node_config.py:NodeConfig.extend/copy"), ("define_bt_node", "node.py:define_bt_node")],
    observe=["configurations", "instances"],
)
prop(
    "C50",
    "Every node class can be described, found and instantiated",
    "The list of available nodes names every registered class of the requested modules with its real inputs, outputs and child limit, and each of them can be instantiated from that description alone when its static inputs are given valid values. "
    "A description with an unknown class or module, an input the class does not have, or a wrongly typed value is refused with an error rather than an exception, and an input left out keeps its declared value.",
    ["configurations", "inputs"],
    "every registered node class x all single deviations (missing, extra, mistyped input; unknown class or module)",
    "Tests instantiate a few classes from messages.",
    ["node.py", "package_manager.py", "tree_edit_manager.py"],
    [("from_msg", "node.py:Node.from_msg"), ("available nodes", "package_manager.py:get_available_nodes")],
    observe=["service responses", "instances"],
)
prop(
    "C51",
    "A part taken out of the loaded tree is exactly that part",
    "Asking for the subtree of any node of the loaded tree answers that node and everything below it as it is (class, options, names, order of children), with it as root, with the wirings between these nodes, and with exactly the data that is wired across the border as public: inputs wired from outside as public inputs, outputs wired to outside as public outputs. "
    "Generating a tree from a set of nodes, if it is accepted, answers a single tree of all the requested nodes and otherwise only ancestors of them, with classes, options, child order and the wirings among them kept; it is accepted whenever the requested nodes and their direct parents form one tree. "
    "Both answers can be loaded again and load as that tree, an unknown node is refused, and the loaded tree stays as it was, whatever edits and executions came before.",
    ["configurations", "histories"],
    "every tree shape, choice of wirings, requested node or set of nodes, and preceding edits",
    "Tests do not ask for subtrees with wirings and never generate trees.",
    ["tree_edit_manager.py", "node.py", "tree_exec_manager.py"],
    [("get_subtree", "tree_edit_manager.py:get_subtree, node.py:get_subtree_msg"), ("generate_subtree", "tree_edit_manager.py:generate_subtree")],
    observe=["service responses", "published structure"],
)
prop(
    "C52",
    "The tree node offers the managers' operations unchanged, at any time",
    "Every operation of the tree, package, debug and logging managers is offered by the tree node's process as a service of its own name and type and does what the manager does; everything the managers publish appears on its topic, and tree structure, state and data are kept for subscribers that come later. "
    "Services are answered while another request is still in progress. At the start the tree node publishes the current lists and, if configured, loads the default tree and gives it the configured command and frequency exactly as a user would by hand; if loading fails nothing is executed and the process serves requests all the same. "
    "Its shutdown ends the execution from every state, and the list of message channels names every topic, service and action with one of its types.",
    ["histories", "configurations", "schedules"],
    "every request in every execution state, every setting of the publishing, diagnostics and log level switches around ticks, every default tree configuration, every state at shutdown",
    "Tests need a running ROS system for the tree node and are not among the stable ones; they start it with a few configurations.",
    ["tree_node.py", "ros_helpers.py"],
    [("services and topics", "tree_node.py:init_publisher/init_package_manager/init_tree_manager"), ("default tree", "tree_node.py:load_default_tree"), ("channels", "ros_helpers.py:publish_message_channels")],
    observe=["service responses", "published messages", "node states"],
)



TECHNIQUE = "explicit-state model checking"
HOW = {}  # id -> (technique, level note); filled from the check modules' docstrings
NOT_YET = "the check for this property is not built yet"


def write_props():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")


def write_manifest():
    import ast

    checks, missing = [], []
    for p in PROPS:
        path = os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py")
        if not os.path.exists(path):
            missing.append({"property": p["id"], "reason": NOT_YET})
            continue
        tree = ast.parse(open(path).read())
        consts = {}
        for node in tree.body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    consts[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']}",
                "thorough_cmd": f"bash run.sh {p['id']} --thorough",
                "technique": consts["TECHNIQUE"],
                "level": consts.get("LEVEL", "model_checking"),
                "level_note": " ".join(consts["NOTE"].split()),
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": missing,
        "notes": "All checks run the real code of /repo's working tree in-process with stand-ins for the ROS "
        "middleware (mc/standins.py); bounds and counts of each run are in evidence/<id>.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(missing), "not claimed")


if __name__ == "__main__":
    write_props()
    write_manifest()
