"""Value analysis of the text arena with symbolic sizes and linear inequalities:
where in its allocation every block lies, for all sequences of up to five calls
and, by induction over the arena's invariant, for one call after any history."""
from engine import arena

SHARDS = 8


def run(ctx):
    arena.all_sequences(ctx, ("inside", "disjoint", "zeroed", "failure", "inductive"))
    arena.induction(ctx, ("inside", "disjoint", "zeroed", "failure", "inductive"))
    ctx.require("inside", 60)
