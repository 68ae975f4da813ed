"""Validity of multisegments"""
from vlib import giants
from vlib.arrangement import orient_value
from vlib.catalog import HUGE_LINEAR_SPECS, LARGE_LINEAR_SPECS, LINES, WARPS
from vlib.driver import Scene
from vlib.families import assume
from vlib.points import on_segment
from vlib.shapes import build, need

BOUNDS = (
    'multisegments of 2 to 6 segments: two segments with seven free '
    'coordinates in the deeper tier (five in the quick one), sets of 2 to 5 '
    'segments with one more at every rational position of an endpoint, with '
    'an arbitrary segment (four parameters), or with a group of them moved '
    'along 8 lines, sheared and scaled against the others; 5 or 6 segments on '
    'one line, one of them anywhere on it; 28 with one of these groups moved, 140 with one moved over two units, 1043 with one growing through; '
    'listed in three '
    'other orders and directions'
)
ASSUMPTIONS = [
    'Segments do not degenerate to points.',
    'Nothing is required of multisegments in which an endpoint of a segment '
    'is inside another one, as long as nothing crosses or overlaps, but that '
    'the answer is a boolean independent of order and direction.',
]


def classify(a, b, c, d):
    """'none', 'ends' (a common endpoint only), 'tee' or 'bad'"""
    s = lambda v: (v > 0) - (v < 0)
    o = [s(orient_value(a, b, c)), s(orient_value(a, b, d)),
         s(orient_value(c, d, a)), s(orient_value(c, d, b))]
    if o[0] == 0 and o[1] == 0:
        lo1, hi1 = (a, b) if less(a, b) else (b, a)
        lo2, hi2 = (c, d) if less(c, d) else (d, c)
        if less(hi1, lo2) or less(hi2, lo1):
            return 'none'
        if same(hi1, lo2) or same(hi2, lo1):
            return 'ends'
        return 'bad'
    if o[0] * o[1] < 0 and o[2] * o[3] < 0:
        return 'bad'
    for p in (a, b):
        for q in (c, d):
            if same(p, q):
                return 'ends'
    if (on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a)
            or on_segment(c, d, b)):
        return 'tee'
    return 'none'


def same(p, q):
    return p[0] == q[0] and p[1] == q[1]


def less(p, q):
    return p[0] < q[0] or (p[0] == q[0] and p[1] < q[1])


def check(ns, segs):
    for a, b in segs:
        assume(not same(a, b))
    kinds = {
        classify(*segs[i], *segs[j])
        for i in range(len(segs)) for j in range(i)
    }
    got = build(ns, ('mseg', segs)).is_valid()
    need(type(got) is bool, f'is_valid() gives {got!r}')
    if 'bad' in kinds:
        need(not got, 'reported valid although two segments cross or overlap')
    elif 'tee' not in kinds:
        need(got, 'reported invalid although segments have at most endpoints '
                  'in common')
    for order, flip in ((lambda s: s[::-1], 0), (lambda s: s[1:] + s[:1], 1),
                        (lambda s: s, 2)):
        other = [
            (b, a) if (i + flip) % 2 and flip else (a, b)
            for i, (a, b) in enumerate(order(segs))
        ]
        need(build(ns, ('mseg', other)).is_valid() is got,
             'validity depends on order or direction')
    return ['bad' if 'bad' in kinds else 'tee' if 'tee' in kinds else
            'ends' if 'ends' in kinds else 'none', got]


SETS = {
    'one': [((0, 0), (4, 2))],
    'onev': [((0, 0), (0, 3))],
    'oneh': [((0, 0), (3, 0))],
    'vee': [((0, 0), (4, 2)), ((4, 2), (1, 5))],
    'par': [((0, 0), (4, 0)), ((0, 2), (4, 2))],
    'chain': [((0, 0), (2, 0)), ((2, 0), (4, 0)), ((4, 0), (4, 3))],
    'star': [((2, 2), (0, 0)), ((4, 4), (2, 2)), ((2, 2), (4, 1)),
             ((0, 3), (2, 2))],
    'sq': [((0, 0), (3, 0)), ((3, 0), (3, 3)), ((3, 3), (0, 3)),
           ((0, 3), (0, 0))],
    'zig': [((0, 0), (2, 2)), ((2, 2), (4, 0)), ((4, 0), (6, 2)),
            ((0, 4), (6, 4))],
    'cross': [((0, 0), (4, 4)), ((0, 4), (4, 0))],
    'tee': [((0, 0), (4, 0)), ((2, 0), (2, 3))],
    'lap': [((0, 0), (3, 0)), ((1, 0), (4, 0))],
}
LARGE = {'rake30': LARGE_LINEAR_SPECS['rake30'][1]}
HUGE = {'rake140': HUGE_LINEAR_SPECS['rake140'][1]}
GROUPS = {
    'g1': [((0, 0), (3, 1))],
    'g1v': [((0, 0), (0, 2))],
    'g2': [((0, 0), (2, 0)), ((2, 0), (3, 3))],
    'g3': [((0, 0), (2, 0)), ((0, 0), (1, -2)), ((0, 0), (-1, 2))],
}


def lifted(ns, segs, f=lambda q: q):
    return [tuple(f((ns.F(x), ns.F(y))) for x, y in s) for s in segs]


def end_free(name, start, first):
    def fn(ns, p, hint, cache):
        more = [((ns.F(start[0]), ns.F(start[1])), (p[0], p[1]))]
        base = lifted(ns, SETS[name])
        return check(ns, more + base if first else base + more)

    return Scene(f'end:{name}@{start[0]},{start[1]}', 2, fn,
                 weight=5 * len(SETS[name]), family='end')


def seg_free(name):
    def fn(ns, p, hint, cache):
        return check(ns, lifted(ns, SETS[name])
                     + [((p[0], p[1]), (p[2], p[3]))])

    return Scene(f'seg:{name}', 4, fn, weight=300 * len(SETS[name]),
                 family='seg')


def moved(a, b, family):
    if family in LINES:
        f, domain = LINES[family], ()
    else:
        f, domain = WARPS[family]

    def fn(ns, p, hint, cache):
        return check(ns, lifted(ns, SETS.get(a) or LARGE[a])
                     + lifted(ns, GROUPS[b], lambda q: f(q, p)))

    return Scene(f'group:{a}:{b}:{family}', 1, fn, domain=domain,
                 family='group')


def at(name, b, x):
    def fn(ns, p, hint, cache):
        return check(ns, lifted(ns, HUGE[name]) + lifted(
            ns, GROUPS[b], lambda q: (q[0] + ns.F(x), q[1] + p[0])))

    return Scene(f'at:{name}:{b}+{x}', 1, fn, weight=90,
                 domain=lambda p: [(p + 1, 6), (p - 1, 3)], family='at')


def two(nparams):
    def fn(ns, p, hint, cache):
        z = ns.F(0)
        q = list(p)
        if nparams == 5:
            q = [p[0], p[1], ns.F(3), p[2], p[3], p[4]]
        elif nparams == 6:
            q = [*p]
        else:
            return check(ns, [((z, p[0]), (p[1], p[2])),
                              ((p[3], p[4]), (p[5], p[6]))])
        # the first segment starts in the origin
        return check(ns, [((z, z), (q[0], q[1])),
                          ((q[2], q[3]), (q[4], q[5]))])

    return Scene(f'two:{nparams}', nparams, fn, weight=10000, family='two')


# on one line: places of the endpoints
HEAPS = {
    'same': [(0, 3), (3, 0), (2, 0), (2, 0)],
    'nested': [(0, 8), (1, 7), (6, 1), (3, 4)],
    'stairs': [(0, 2), (1, 3), (4, 2), (3, 5)],
    'row': [(0, 1), (3, 2), (1, 2), (4, 3), (6, 7)],
    'bush': [(0, 8), (0, 6), (8, 4), (6, 4), (0, 7)],
}
DIRECTIONS = {'x': (1, 0), 'y': (0, 1), 'd': (2, -1)}


def heap(name, direction, place):
    dx, dy = DIRECTIONS[direction]

    def fn(ns, p, hint, cache):
        at = lambda t: (t * dx, t * dy)
        spans = [(ns.F(a), ns.F(b)) for a, b in HEAPS[name]]
        spans.insert(place, (p[0], p[1]))
        return check(ns, [(at(a), at(b)) for a, b in spans])

    return Scene(f'heap:{name}:{direction}:{place}', 2, fn,
                 weight=40, family='heap')


def scenes(tier):
    quick = tier == 'quick'
    out = []
    fams = list(LINES) + list(WARPS)
    for i, a in enumerate(SETS):
        for j, start in enumerate(((0, 0), (1, 2), (2, 0), (2, 2), (-1, 1))):
            if quick and (i + j) % 2:
                continue
            out.append(end_free(a, start, (i + j) % 4 < 2))
        for j, b in enumerate(GROUPS):
            for k, family in enumerate(fams):
                if quick and (i + 3 * j + k) % 5:
                    continue
                out.append(moved(a, b, family))
    for name in ('one', 'onev', 'vee') if quick else (
        'one', 'onev', 'oneh', 'vee', 'par', 'chain', 'sq', 'star', 'tee',
        'cross', 'lap',
    ):
        out.append(seg_free(name))
    for i, name in enumerate(HEAPS):
        for j, direction in enumerate(DIRECTIONS):
            for place in (0, 2, 4):
                if not quick or (i + j) % 3 == place // 2:
                    out.append(heap(name, direction, place))
    for i, b in enumerate(GROUPS):
        for f in fams[i::4] if quick else fams:
            out.append(moved('rake30', b, f))
    for i, b in enumerate(GROUPS):
        for x in (3 + 20 * i,) if quick else range(-2, 75, 7):
            out.append(at('rake140', b, x))
    if not quick:
        out += [two(5), two(6)]
    for k in (6, 701) if quick else range(0, 1040, 99):
        out.append(giants.multisegment_scene(k))
    return out
