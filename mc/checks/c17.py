"""C17: editing requests (see mc/editing.py)."""

from mc import editing

ID = "C17"
TECHNIQUE = "explicit-state breadth-first exploration of editing request sequences on the real tree manager, structural invariants in every reached state"
NOTE = "Hangs are reported by the runner's alarm."


def BOUNDS(tier):
    return (f"all sequences of {2 if tier == 'quick' else 3} requests of the alphabet (every node as subject, parent or replacement, "
            "every position, valid and invalid options, classes, ids and wirings) from 4 trees of 0 to 7 nodes")


def shards(tier):
    parts = {"empty": 2, "wide": 10, "deep": 8, "forest": 12} if tier == "quick" else \
        {"empty": 16, "wide": 64, "deep": 48, "forest": 64}
    return [[start, i, n] for start, n in parts.items() for i in range(n)]


def run(shard, ctx):
    start, part, parts = shard
    editing.explore(ctx, ID, start, (3 if start == "empty" else 2) if not ctx.thorough else 4 if start == "empty" else 3, part, parts)
