"""Equality, hash and order of geometries"""
from itertools import permutations

from vlib import giants
from vlib.arrangement import orient_value
from vlib.catalog import ALL_SPECS, LINES, SPECS, WARPS, lift, reorder
from vlib.driver import Scene
from vlib.families import assume
from vlib.shapes import build, map_spec, need

BOUNDS = (
    'two points and two segments with all coordinates free; two triangles '
    'with four free coordinates each (deeper tier: six, equality only); 47 '
    'geometries of all kinds with every vertex in turn free in both '
    'coordinates against their other presentations and against themselves '
    'with that vertex elsewhere; the same moved along 8 lines, scaled, '
    'sheared, stretched, point-mirrored for agreement with the relation; 1043 edges with one vertex at every height'
)
ASSUMPTIONS = [
    'Vertices of a contour are different and it has area (hashes of contours '
    'depend on their orientation); components of a geometry are different.',
    'Agreement with the relation: parts of regions have connected interior.',
]


def same(p, q):
    return p[0] == q[0] and p[1] == q[1]


def points(ns, p, hint, cache):
    a, b = ns.Point(p[0], p[1]), ns.Point(p[2], p[3])
    if p[0] < p[2]:
        e = -1
    elif p[0] > p[2]:
        e = 1
    else:
        e = -1 if p[1] < p[3] else 1 if p[1] > p[3] else 0
    for got, want, what in (
        (a < b, e < 0, '<'), (a <= b, e <= 0, '<='), (a > b, e > 0, '>'),
        (a >= b, e >= 0, '>='), (a == b, e == 0, '=='), (a != b, e != 0, '!='),
        (b < a, e > 0, 'swapped <'), (b >= a, e <= 0, 'swapped >='),
    ):
        need(got is want, f'{what} is {got} for points in order {e}')
    if e == 0:
        need(hash(a) == hash(b), 'equal points with different hashes')
    return e


def segments(ns, p, hint, cache):
    q = [(p[2 * i], p[2 * i + 1]) for i in range(4)]
    assume(not same(q[0], q[1]))
    assume(not same(q[2], q[3]))
    a = build(ns, ('seg', q[0], q[1]))
    b = build(ns, ('seg', q[2], q[3]))
    e = (same(q[0], q[2]) and same(q[1], q[3])) or (
        same(q[0], q[3]) and same(q[1], q[2]))
    equality(a, b, e)
    return e


def equality(a, b, e):
    need((a == b) is e and (b == a) is e, f'== is not {e}')
    need((a != b) is not e and (b != a) is not e, f'!= is not {not e}')
    if e:
        need(hash(a) == hash(b), 'equal geometries with different hashes')


def rings_equal(r, s):
    n = len(r)
    if n != len(s):
        return False
    for t in (s, s[::-1]):
        for k in range(n):
            if all(same(r[i], t[(i + k) % n]) for i in range(n)):
                return True
    return False


def sets_equal(xs, ys, eq):
    """Sequences of different elements: equal as sets?"""
    return len(xs) == len(ys) and all(
        any(eq(x, y) for y in ys) for x in xs
    )


def spec_equal(a, b):
    kind = a[0]
    if kind != b[0]:
        return False
    seg_eq = lambda s, t: (same(s[0], t[0]) and same(s[1], t[1])) or (
        same(s[0], t[1]) and same(s[1], t[0]))
    poly_eq = lambda x, y: rings_equal(x[0], y[0]) and sets_equal(
        x[1], y[1], rings_equal)
    if kind == 'seg':
        return seg_eq(a[1:], b[1:])
    if kind == 'mseg':
        return sets_equal(a[1], b[1], seg_eq)
    if kind == 'contour':
        return rings_equal(a[1], b[1])
    if kind == 'poly':
        return poly_eq(a[1:], b[1:])
    return sets_equal(a[1], b[1], poly_eq)


def rings(spec):
    if spec[0] == 'contour':
        return [spec[1]]
    if spec[0] in ('poly', 'mpoly'):
        polys = [spec[1:]] if spec[0] == 'poly' else spec[1]
        return [r for b, hs in polys for r in (b, *hs)]
    return []


def regular(spec, changed):
    """Preconditions, where the changed point is concerned."""
    for r in rings(spec):
        idx = [i for i, q in enumerate(r) if q is changed]
        for i in idx:
            for q in r:
                if q is not changed:
                    assume(not same(q, changed))
            # area as seen from the smallest vertex
            n = len(r)
            for j in (i - 1, i, i + 1):
                assume(orient_value(r[(j - 1) % n], r[j % n],
                                    r[(j + 1) % n]) != 0)
    if spec[0] == 'seg':
        assume(not same(spec[1], spec[2]))
    if spec[0] == 'mseg':
        for s in spec[1]:
            assume(not same(*s))
        for i, s in enumerate(spec[1]):
            for t in spec[1][:i]:
                if not any(q is changed for q in (*s, *t)):
                    continue
                assume(not (same(s[0], t[0]) and same(s[1], t[1])))
                assume(not (same(s[0], t[1]) and same(s[1], t[0])))


def with_free(spec, index, point):
    """``spec`` with its ``index``-th point replaced."""
    seen = [-1]

    def f(q):
        seen[0] += 1
        return point if seen[0] == index else q

    return map_spec(spec, f)


def count(spec):
    seen = [0]

    def f(q):
        seen[0] += 1
        return q

    map_spec(spec, f)
    return seen[0]


def vertex(name, index, k):
    def fn(ns, p, hint, cache):
        base = lift(ns, ALL_SPECS[name])
        q = (p[0], p[1])
        a = with_free(base, index, q)
        regular(a, q)
        x = build(ns, a)
        y = build(ns, reorder(a, k))
        equality(x, y, True)
        z = build(ns, reorder(base, k))
        e = spec_equal(a, base)
        equality(x, z, e)
        return e

    return Scene(f'vertex:{name}.{index}~{k}', 2, fn,
                 weight=count(ALL_SPECS[name]), family='vertex')


def triangles(nparams):
    def fn(ns, p, hint, cache):
        one, two = ns.F(1), ns.F(2)
        zero = ns.F(0)
        if nparams == 8:
            r = [(p[0], p[1]), (p[2], p[3]), (zero, two)]
            s = [(p[4], p[5]), (p[6], p[7]), (zero, two)]
        else:
            r = [(p[2 * i], p[2 * i + 1]) for i in range(3)]
            s = [(p[6 + 2 * i], p[7 + 2 * i]) for i in range(3)]
        for t in (r, s):
            for i in range(3):
                assume(not same(t[i], t[i - 1]))
        a, b = build(ns, ('contour', r)), build(ns, ('contour', s))
        e = rings_equal(r, s)
        need((a == b) is e and (b == a) is e and (a != b) is not e,
             f'equality of triangles is not {e}')
        return e

    return Scene(f'triangles:{nparams}', nparams, fn, weight=1000,
                 family='triangles')


def kinds():
    def fn(ns, p, hint, cache):
        f = lambda q: (q[0] + p[0], q[1])
        things = [build(ns, lift(ns, SPECS[k], f)) for k in (
            'seg', 'ms2', 'ctri', 'tri', 'mp2')]
        things += [ns.Empty(), ns.Point(p[0], p[0]),
                   ns.Box(p[0], p[0], p[0], p[0])]
        for a, b in permutations(things, 2):
            need(a != b and not a == b, f'{a!r} equals {b!r}')
        for a in things:
            for b in (None, 0, 'x', (), object()):
                need(a != b and not a == b, f'{a!r} equals {b!r}')
        need(ns.Empty() == ns.Empty()
             and hash(ns.Empty()) == hash(ns.Empty()), 'empty')
        return 'different'

    return Scene('kinds', 1, fn, family='kinds')


def agreement(name, family, k):
    if family in LINES:
        f, domain = LINES[family], ()
    else:
        f, domain = WARPS[family]

    def fn(ns, p, hint, cache):
        spec = ALL_SPECS[name]
        a = build(ns, lift(ns, spec))
        sb = lift(ns, reorder(spec, k), lambda q: f(q, p))
        b = build(ns, sb)
        e = spec_equal(lift(ns, spec), sb)
        equality(a, b, e)
        r = a.relate_to(b)
        need((r is ns.Relation.EQUAL) is e,
             f'relation {r.name}, equality is {e}')
        return e

    return Scene(f'relation:{name}:{family}~{k}', 1, fn, domain=domain,
                 family='relation')


def scenes(tier):
    quick = tier == 'quick'
    out = [
        Scene('points', 4, points, family='points'),
        Scene('segments', 8, segments, weight=100, family='segments'),
        triangles(8), kinds(),
    ]
    if not quick:
        out.append(triangles(12))
    for i, name in enumerate(ALL_SPECS):
        spec = ALL_SPECS[name]
        n = count(spec)
        for index in range(n):
            if quick and (index + i) % (9 if n > 16 else 4 if n > 8 else 2
                                          if n > 5 else 1):
                continue
            for k in (1 + (index + i) % 3,) if quick else (1, 2, 3):
                out.append(vertex(name, index, k))
        if spec[0] == 'mseg':
            continue  # the same line may be divided differently
        for j, family in enumerate([*LINES, *WARPS]):
            if quick and (i + j) % (8 if n > 16 else 3) and (
                    n > 16 or family != 'flip'):
                continue
            for k in (j % 4,) if quick else range(4):
                out.append(agreement(name, family, k))
    for k, kind in enumerate(('poly', 'contour', 'mseg')):
        out.append(giants.equality_scene(kind, 300 * k + k))
    return out
