"""C02 Zipper navigation and editing act exactly at the focus."""
import zmodel
from c01 import zip_check
LEVEL = "model_checking"


def run(ctx):
    zmodel.check(ctx, ops={"get", "ent", "put", "delm", "dele", "up", "top", "sib", "next",
                           "prev", "insb", "insa", "upd"})
    zip_check(ctx, "all", "nav")
