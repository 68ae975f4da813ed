"""Relations of boxes"""
from vlib.driver import Scene
from vlib.relations import COMPLEMENT
from vlib.shapes import need

BOUNDS = (
    'two boxes with eight arbitrary rational limits (of positive width and '
    'height for the relations, arbitrary ones for validity and equality): no '
    'bound besides'
)
ASSUMPTIONS = [
    'For relations the boxes have positive width and height; boxes that '
    'degenerate to segments or points only have to be disjoint exactly when '
    'they have no common point, and equal exactly when their limits are.',
]
PREDICATES = {
    'covers': 'COVER', 'disjoint_with': 'DISJOINT', 'enclosed_by': 'ENCLOSED',
    'encloses': 'ENCLOSES', 'equals_to': 'EQUAL', 'overlaps': 'OVERLAP',
    'touches': 'TOUCH', 'within': 'WITHIN',
}


def compare(a, b):
    return -1 if a < b else 1 if b < a else 0


def expected(a, b):
    """Relation of two rectangles from the order of their limits"""
    (al, ah, abt, at), (bl, bh, bbt, bt) = a, b
    parts = [(al, ah, bl, bh), (abt, at, bbt, bt)]
    gaps = [compare(h1, l2) for _, h1, l2, _ in parts]
    gaps += [compare(h2, l1) for l1, _, _, h2 in parts]
    if -1 in gaps:
        return 'DISJOINT'
    if 0 in gaps:
        return 'TOUCH'
    # common interior: on every side, is the first inside of the second?
    inside = [compare(al, bl), compare(abt, bbt),
              compare(bh, ah), compare(bt, at)]
    if all(v == 0 for v in inside):
        return 'EQUAL'
    if all(v > 0 for v in inside):
        return 'WITHIN'
    if all(v < 0 for v in inside):
        return 'COVER'
    if all(v >= 0 for v in inside):
        return 'ENCLOSED'
    if all(v <= 0 for v in inside):
        return 'ENCLOSES'
    return 'OVERLAP'


def regular(*p):
    return [(p[1] - p[0], 4), (p[3] - p[2], 4), (p[5] - p[4], 4),
            (p[7] - p[6], 4)]


def valid(*p):
    return [(p[1] - p[0], 6), (p[3] - p[2], 6), (p[5] - p[4], 6),
            (p[7] - p[6], 6)]


def relation(ns, p, hint, cache):
    a, b = ns.Box(*p[:4]), ns.Box(*p[4:])
    r = a.relate_to(b)
    e = expected(p[:4], p[4:])
    need(r.name == e, f'relation {r.name}, not {e}')
    c = b.relate_to(a)
    need(c.name == COMPLEMENT[e], f'swapped relation {c.name}')
    return e


def predicate(name):
    def fn(ns, p, hint, cache):
        a, b = ns.Box(*p[:4]), ns.Box(*p[4:])
        r = getattr(a, name)(b)
        need(type(r) is bool, f'{name} gives {r!r}')
        e = expected(p[:4], p[4:])
        need(r is (e == PREDICATES[name]), f'{name} is {r}, relation is {e}')
        return [e, r]

    return Scene(f'predicate:{name}', 8, fn, domain=regular, weight=10,
                 family='predicate')


def degenerate(ns, p, hint, cache):
    a, b = ns.Box(*p[:4]), ns.Box(*p[4:])
    e = (p[1] < p[4] or p[5] < p[0] or p[3] < p[6] or p[7] < p[2])
    need(a.disjoint_with(b) is e, f'disjoint_with is not {e}')
    return e


def equality(ns, p, hint, cache):
    a, b = ns.Box(*p[:4]), ns.Box(*p[4:])
    e = all(x == y for x, y in zip(p[:4], p[4:]))
    need((a == b) is e and (b == a) is e and (a != b) is not e,
         'equality is not that of limits')
    need(a.equals_to(b) is e, 'equals_to is not equality')
    if e:
        need(hash(a) == hash(b), 'equal boxes with different hashes')
    need((a.min_x, a.max_x, a.min_y, a.max_y) == tuple(p[:4]), 'limits')
    return e


def validity(ns, p, hint, cache):
    a = ns.Box(*p)
    e = p[0] <= p[1] and p[2] <= p[3]
    need(a.is_valid() is e, f'is_valid is not {e}')
    return e


def scenes(tier):
    return [
        Scene('relation', 8, relation, domain=regular, weight=20),
        *map(predicate, PREDICATES),
        Scene('degenerate', 8, degenerate, domain=valid),
        Scene('equality', 8, equality),
        Scene('validity', 4, validity),
    ]
