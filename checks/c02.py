"""Value and copy analysis of the text arena with symbolic sizes: growing a text
keeps its bytes, no other text is written, moved or released, and deleting the
arena releases everything; for all sequences of up to five calls and, by
induction over the arena's invariant, for one call after any history."""
from engine import arena

SHARDS = 8


def run(ctx):
    arena.all_sequences(ctx, ("content", "stable", "released", "failure", "inductive"))
    arena.induction(ctx, ("content", "stable", "released", "failure", "inductive"))
    ctx.require("content", 40)
