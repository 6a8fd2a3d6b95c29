"""C03 merge."""
import zmodel
from c01 import zip_check
LEVEL = "model_checking"


def run(ctx):
    zmodel.check(ctx, ops={"merge"})
    zip_check(ctx, "all", "merge")
