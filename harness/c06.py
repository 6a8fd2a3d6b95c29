"""C06 Semantic validation."""
import c05

LEVEL = "model_checking"


def run(ctx):
    c05.run(ctx, "semantics")
