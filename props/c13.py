"""Point location by trapezoidation, whatever the order of insertion"""
import random
from math import factorial

from vlib import giants
from vlib.catalog import (
    ALL_SPECS, LARGE_LINEAR_SPECS, LARGE_SPECS, SPECS, lift, reorder, teeth,
)
from vlib.driver import Scene
from vlib.families import FREE
from vlib.points import expected_location
from vlib.shapes import Violation, build, need, ring_edges, spec_edges

# segments that end inside others
TEES = {
    'teer': ('mseg', [((0, 4), (8, 0)), ((0, 0), (4, 2))]),
    'teel': ('mseg', [((8, 4), (0, 0)), ((4, 2), (8, -2)), ((4, 2), (7, 5))]),
    'teex': ('mseg', [((0, 0), (8, 4)), ((4, 2), (2, 5)), ((1, -3), (4, 2))]),
    'teev': ('mseg', [((0, 0), (0, 6)), ((-3, 1), (0, 2)), ((0, 4), (2, 5))]),
}
ALL_SPECS = {**ALL_SPECS, **TEES}
MULTI = [k for k, s in ALL_SPECS.items() if s[0] == 'mseg']
LARGE = {k: s for k, s in {**LARGE_SPECS, **LARGE_LINEAR_SPECS}.items()
         if s[0] in ('poly', 'mseg')}
# more than 256 edges
HUGE = {
    'rake288': ('mseg', [
        ((2 * x + y % 5, 3 * y), (2 * x + 5 + y % 3, 3 * y + (x + y) % 4 - 1))
        for y in range(24) for x in range(0, 48, 4)]),
    'comb279': ('poly', teeth(70, -2) + [(140, 6)] + [
        (x, 3 + y) for x, y in teeth(69, 2)][:0:-1] + [(0, 4)], []),
}
POLY = [k for k, s in ALL_SPECS.items() if s[0] == 'poly']
BOUNDS = (
    'trapezoidations of polygons (3 to 45 edges, with holes) and '
    'multisegments (2 to 28 segments, among them T-junctions and chains of '
    'collinear segments) with the queried point at every rational '
    'point of the plane, and of 280 and 1043 edges with the point on a part of a line; '
    'the default seeder in one fixed state; every order of insertion for up to 4 edges (deeper '
    'tier: 5), 6 (deeper: 60) orders beyond; triangles and multisegments with '
    'a vertex at every rational point and the queried point on every rational '
    'point of a line'
)
ASSUMPTIONS = [
    'Polygons are valid; segments of a multisegment meet in single points that '
    'are not inside both of them.',
]
MAX_SEED = 2 ** 64 - 1


def make(ns, spec, seed):
    g = build(ns, spec)
    if seed is None:
        # the seeder by default: the same "random" order every time
        random.seed(5)
        if spec[0] == 'poly':
            return ns.Trapezoidation.from_polygon(g)
        return ns.Trapezoidation.from_multisegment(g)
    if spec[0] == 'poly':
        return ns.Trapezoidation.from_polygon(g, seeder=lambda: seed)
    return ns.Trapezoidation.from_multisegment(g, seeder=lambda: seed)


def check(ns, spec, q, seed):
    t = make(ns, spec, seed)
    point = ns.Point(*q)
    r = t.locate(point).name
    e = expected_location(spec, q)
    need(r == e, f'seed {seed}: located as {r}, the point is in {e}')
    need((point in t) is (e != 'EXTERIOR'), f'membership of a point in {e}')
    return r


def fixed(name, k, seed):
    def fn(ns, p, hint, cache):
        return check(ns, lift(
            ns, reorder(ALL_SPECS.get(name) or LARGE[name], k),
        ), (p[0], p[1]), seed)

    return Scene(f'point:{name}~{k}#{seed}', 2, fn, weight=2, family='point')


def along(name, k, seed, x):
    def fn(ns, p, hint, cache):
        return check(ns, lift(ns, reorder(HUGE[name], k)),
                     (p[0] + ns.F(x), p[0] * ns.F(3)), seed)

    return Scene(f'along:{name}~{k}#{seed}', 1, fn, weight=600,
                 domain=lambda p: [(p + 1, 6), (p - 3, 1)], family='along')


def giant(kind, k, x, seed):
    """Edges one after another make the search as deep as it gets: at the
    right end, or at the left one for an odd ``k``."""

    def fn(ns, p, hint, cache):
        ring = giants.turned(giants.zigzag(ns.F, giants.TEETH), k)
        spec = ('poly', ring, []) if kind == 'poly' else (
            'mseg', ring_edges(ring))
        return check(ns, spec, (ns.F(x) / ns.F(2), p[0]), seed)

    return Scene(f'giant:{kind}~{k}+{x}#{seed}', 1, fn, weight=900,
                 domain=giants.between(-1, 5), family='giant')


def free(name, seed):
    shape = FREE[name]

    def fn(ns, p, hint, cache):
        q = (p[2] + ns.F(1), p[2])
        return check(ns, lift(ns, shape.make(p)), q, seed)

    return Scene(f'free:{name}#{seed}', 3, fn, domain=shape.domain, weight=300,
                 family='free')


def invalid():
    def fn(ns, p, hint, cache):
        spec = lift(ns, SPECS['msx'], lambda q: (q[0] + p[0], q[1]))
        poly = lift(ns, SPECS['tri'], lambda q: (q[0] + p[0], q[1]))
        for s in (spec, poly):
            for seed, error in (
                (-1, ValueError), (MAX_SEED + 1, OverflowError),
                ('0', TypeError), ((), TypeError), (0.0, TypeError),
            ):
                try:
                    make(ns, s, seed)
                except error:
                    continue
                raise Violation(f'seed {seed!r} is accepted')
            make(ns, s, MAX_SEED)
        return 'rejected'

    return Scene('invalid-seeds', 1, fn, family='invalid-seeds')


def seeds_for(n, i, quick):
    total = factorial(n)
    if n <= (3 if quick else 4):
        return range(total)
    if n == 4:
        return range(i % 2, total, 2)
    count = 6 if quick else 60
    out = {0, total - 1, MAX_SEED}
    k = 1
    while len(out) < count:
        out.add((k * 7919 * (2 * i + 1) * 104729) % total)
        k += 1
    return sorted(out)


def scenes(tier):
    quick = tier == 'quick'
    out = [invalid()]
    for name in ('sq', 'hs', 'comb', 'ms2', 'colx', 'teer'):
        out.append(fixed(name, 0, None))
    for i, name in enumerate(POLY + MULTI):
        n = len(spec_edges(ALL_SPECS[name]))
        for j, seed in enumerate(seeds_for(n, i, quick)):
            out.append(fixed(name, (i + j) % 4, seed))
    for i, name in enumerate(LARGE):
        for seed in (None, 9 ** 9 + i) if quick else (None, 0, 7 ** 9, 9 ** 19):
            out.append(fixed(name, i, seed))
    for i, name in enumerate(HUGE):
        for j, seed in enumerate((None, 0, 7 ** 15 + i) if quick else
                                 (None, 0, 7 ** 15, MAX_SEED, 3 ** 12)):
            out.append(along(name, i + j, seed, 20 + 50 * i + 10 * j))
    for i, kind in enumerate(('poly', 'mseg')):
        for j, (k, x, seed) in enumerate((
            (1042, 2055, None), (1, 27, 7 ** 22), (1, 28, None),
            (0, 2054, 0), (1042, 1041, 9 ** 19), (521, 1042, None),
        )):
            if not quick or j in (i, i + 2):
                out.append(giant(kind, k, x, seed))
    for i, name in enumerate(('tri*', 'tri*v', 'ms*', 'quad*', 'hole*')):
        n = {'quad*': 4, 'hole*': 7, 'ms*': 2}.get(name, 3)
        seeds = list(seeds_for(n, i, quick))
        if quick:
            seeds = seeds[:: max(1, len(seeds) // 3)][:3]
        for seed in seeds:
            out.append(free(name, seed))
    return out
