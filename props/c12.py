"""Point location in every kind of geometry"""
from vlib import giants
from vlib.catalog import (
    ALL_SPECS, HUGE_LINEAR_SPECS, HUGE_SPECS, LARGE_LINEAR_SPECS, LARGE_SPECS,
    SPECS, WARPS, lift, reorder,
)
from vlib.driver import Scene
from vlib.families import FREE, assume, p_eq
from vlib.points import expected_location
from vlib.shapes import build, need

NAMES = list(SPECS)
HUGE = {**HUGE_SPECS, **HUGE_LINEAR_SPECS}
LARGE = {**LARGE_SPECS, **LARGE_LINEAR_SPECS}
BOUNDS = (
    '72 geometries of all kinds (5 of 28 to 50 edges) in up to four presentations with the queried point '
    'at every rational point of the plane; 5 of 140 and 2 of 1043 edges with the point on a '
    'line; 30 of them sheared, stretched or '
    'scaled by every rational factor with the point on a line (three '
    'parameters in the deeper tier: on the whole plane); triangles, '
    'quadrangles, holes, segments, multisegments and contours with a vertex '
    'at every rational point and the queried point at every rational point '
    '(four parameters); an arbitrary segment and an arbitrary point (six)'
)
ASSUMPTIONS = ['Geometries are valid.']


def check(ns, spec, q):
    g = build(ns, spec)
    point = ns.Point(*q)
    r = g.locate(point).name
    e = expected_location(spec, q)
    need(r == e, f'located as {r}, the point is in {e}')
    need((point in g) is (e != 'EXTERIOR'), f'membership of a point in {e}')
    return r


def fixed(name, k):
    def fn(ns, p, hint, cache):
        spec = (ALL_SPECS.get(name) or LARGE[name])
        return check(ns, lift(ns, reorder(spec, k)), (p[0], p[1]))

    return Scene(f'point:{name}~{k}', 2, fn, weight=5, family='point')


def giant(kind, x):
    def fn(ns, p, hint, cache):
        ring = giants.turned(giants.zigzag(ns.F, giants.TEETH), x)
        spec = (kind, ring, *[[]] * (kind == 'poly'))
        return check(ns, spec, (ns.F(x) / ns.F(2), p[0]))

    return Scene(f'giant:{kind}+{x}', 1, fn, weight=900,
                 domain=giants.between(-1, 5), family='giant')


def along(name, k, x):
    def fn(ns, p, hint, cache):
        return check(ns, lift(ns, reorder(HUGE[name], k)),
                     (p[0] * ns.F(3) + ns.F(x), p[0] * ns.F(2)))

    return Scene(f'along:{name}~{k}+{x}', 1, fn, weight=60, family='along')


def warped(name, family, k, nparams):
    f, domain = WARPS[family]

    def fn(ns, p, hint, cache):
        spec = lift(ns, reorder(ALL_SPECS[name], k), lambda q: f(q, p))
        q = (p[1], p[2]) if nparams == 3 else (
            p[1] + ns.F(1), p[1] * ns.F(2) - ns.F(1)
        )
        return check(ns, spec, q)

    return Scene(f'warp{nparams}:{name}:{family}~{k}', nparams, fn,
                 domain=domain, weight=30 ** (nparams - 2),
                 family=f'warp{nparams}:{family}')


def free(name):
    shape = FREE[name]
    n = shape.nparams

    def fn(ns, p, hint, cache):
        spec = shape.make(p)
        if spec[0] == 'seg':
            assume(not p_eq(ns, spec[1], spec[2]))
        return check(ns, lift(ns, spec), (p[n], p[n + 1]))

    return Scene(f'free:{name}', n + 2, fn, domain=shape.domain, weight=900,
                 family='free')


def empty():
    def fn(ns, p, hint, cache):
        return check(ns, ('empty',), (p[0], p[1]))

    return Scene('point:empty', 2, fn, family='point')


def scenes(tier):
    out = [empty()]
    quick = tier == 'quick'
    for i, name in enumerate(NAMES):
        for k in (0, 1 + i % 3) if quick else range(4):
            out.append(fixed(name, k))
        for j, family in enumerate(WARPS):
            if quick and (i + j) % 6:
                continue
            out.append(warped(name, family, i % 4, 2))
            if not quick:
                out.append(warped(name, family, (i + 1) % 4, 3))
    for i, name in enumerate(ALL_SPECS):
        if name not in SPECS:
            for k in (i % 4,) if quick else range(4):
                out.append(fixed(name, k))
    for i, name in enumerate(LARGE):
        out.append(fixed(name, i))
    for i, name in enumerate(HUGE):
        for k in (i % 4,) if quick else range(4):
            out.append(along(name, k, (60, 30, 0)[(i + k) % 3]))
    for kind in ('poly', 'contour'):
        for x in (0, 1042, 1041) if quick else range(0, 4 * giants.TEETH, 59):
            out.append(giant(kind, x))
    for name in FREE:
        out.append(free(name))
    return out
