"""Oracles for the topological relations, straight from their documentation.

Everything is decided on the reference arrangement: which elementary pieces of
which operand lie inside / on the boundary of / outside the other one, and at
which nodes the two meet.
"""
from __future__ import annotations

from functools import cmp_to_key

from .arrangement import sgn
from .shapes import LINEAR, SHAPED

COMPLEMENT = dict(
    COMPONENT='COMPOSITE', COMPOSITE='COMPONENT', COVER='WITHIN',
    WITHIN='COVER', ENCLOSED='ENCLOSES', ENCLOSES='ENCLOSED', CROSS='CROSS',
    DISJOINT='DISJOINT', EQUAL='EQUAL', OVERLAP='OVERLAP', TOUCH='TOUCH',
)


def nodes_of(pair, label):
    arr = pair.arr
    out = set()
    for s in pair.edges[label]:
        for n in arr.on[s.index]:
            out.add(arr.find(n))
    return out


def common_nodes(pair):
    """Nodes lying on edges of both operands."""
    return nodes_of(pair, 'A') & nodes_of(pair, 'B')


def expected_relation(pair):
    ka, kb = pair.a[0], pair.b[0]
    if ka == 'empty' or kb == 'empty':
        return 'EQUAL' if ka == kb else 'DISJOINT'
    if ka in SHAPED and kb in SHAPED:
        return shaped_shaped(pair)
    if ka in LINEAR and kb in LINEAR:
        return linear_linear(pair)
    if ka in LINEAR:
        return linear_shaped(pair, 'A', 'B')
    return COMPLEMENT[linear_shaped(pair, 'B', 'A')]


def shaped_shaped(pair):
    both = only_a = only_b = False
    for sub in pair.subs:
        for a, b in zip(pair.sides(sub, 'A'), pair.sides(sub, 'B')):
            both = both or (a and b)
            only_a = only_a or (a and not b)
            only_b = only_b or (b and not a)
    touching = bool(common_nodes(pair))
    if not both:
        return 'TOUCH' if touching else 'DISJOINT'
    if only_a and only_b:
        return 'OVERLAP'
    if not only_a and not only_b:
        return 'EQUAL'
    inner, outer = ('A', 'B') if only_b else ('B', 'A')
    if not touching:
        r = 'WITHIN'
    elif all(
        pair.covered(sub, outer)
        for sub in pair.subs
        if pair.covered(sub, inner)
    ):
        r = 'COMPONENT'
    else:
        r = 'ENCLOSED'
    return r if inner == 'A' else COMPLEMENT[r]


def linear_linear(pair):
    common = only_a = only_b = False
    for sub in pair.subs:
        a, b = pair.covered(sub, 'A'), pair.covered(sub, 'B')
        common = common or (a and b)
        only_a = only_a or (a and not b)
        only_b = only_b or (b and not a)
    if not only_a and not only_b:
        return 'EQUAL'
    if not only_a:
        return 'COMPONENT'
    if not only_b:
        return 'COMPOSITE'
    if common:
        return 'OVERLAP'
    nodes = common_nodes(pair)
    if not nodes:
        return 'DISJOINT'
    return 'CROSS' if any(interleaved(pair, n) for n in nodes) else 'TOUCH'


def germs(pair, node):
    """[(line, direction +1/-1, labels)] leaving the node."""
    out = []
    for sub in pair.subs:
        if node in sub.key:
            out.append(
                (sub.line, 1 if sub.key[0] == node else -1, sub.labels())
            )
    return out


def interleaved(pair, node):
    """Do the directions of the two operands separate each other around it?"""
    gs = germs(pair, node)
    counts = [sum(1 for g in gs if lab in g[2]) for lab in 'AB']
    if min(counts) < 2:
        return False

    def vec(g):
        ln, d, _ = g
        x, y = ln.e[0] - ln.o[0], ln.e[1] - ln.o[1]
        return (x, y) if d > 0 else (-x, -y)

    def half(v):
        return 0 if v[1] > 0 or (v[1] == 0 and v[0] > 0) else 1

    items = [(half(v), v, g[2]) for g in gs for v in (vec(g),)]

    def cmp(p, q):
        if p[0] != q[0]:
            return p[0] - q[0]
        return -sgn(p[1][0] * q[1][1] - p[1][1] * q[1][0])

    items.sort(key=cmp_to_key(cmp))
    labels = ['A' if 'A' in it[2] else 'B' for it in items]
    changes = sum(
        1 for i in range(len(labels)) if labels[i] != labels[i - 1]
    )
    return changes > 2


def linear_shaped(pair, lin, shp):
    inside = on = outside = False
    for sub in pair.subs:
        if not pair.covered(sub, lin):
            continue
        if pair.covered(sub, shp):
            on = True
        elif all(pair.sides(sub, shp)):
            inside = True
        else:
            outside = True
    touching = bool(common_nodes(pair))
    if inside and outside:
        return 'CROSS'
    if inside:
        return 'ENCLOSED' if touching else 'WITHIN'
    if on and not outside:
        return 'COMPONENT'
    return 'TOUCH' if touching else 'DISJOINT'
