"""The named filters, as (name, ranges of characters): spec/data/filters.json."""
import json, os
from vlib import *
_f = None
def table():
    global _f
    if _f is None: _f = json.load(open(os.path.join(SPEC, "data", "filters.json")))
    return _f
def all_filters(): return [(n, v) for n, v in sorted(table().items())]
def named(n): return (n, table()[n])
