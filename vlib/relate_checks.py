from . import boolean, relations
from .shapes import build, need


def check_relation(ns, sa, sb, hint, cache):
    r = build(ns, sa).relate_to(build(ns, sb)).name
    pair = boolean.Pair(sa, sb, hint, cache)
    e = relations.expected_relation(pair)
    need(r == e, f'relate_to gives {r}, the operands are in relation {e}')
    return r
