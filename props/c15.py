"""Constrained Delaunay triangulation of a polygon"""
from vlib import giants
from vlib.catalog import ALL_SPECS, HUGE_SPECS, LARGE_SPECS, WARPS, lift, reorder
from vlib.driver import Scene
from vlib.families import FREE, assume
from vlib.meshes import check_constrained

from props.c16 import simple

MORE = {
    'spike': ('poly', [(0, 0), (8, 0), (8, 6), (4, 1), (0, 6)], []),
    'star8': (
        'poly',
        [(0, 4), (-1, 1), (-4, 0), (-1, -1), (0, -4), (1, -1), (4, 0),
         (1, 1)], [],
    ),
    'thin': ('poly', [(0, 0), (10, 1), (20, 0), (10, 2)], []),
    'trihole': (
        'poly', [(0, 0), (12, 0), (12, 10), (0, 10)],
        [[(1, 1), (4, 1), (2, 3)], [(6, 5), (9, 4), (8, 8)]],
    ),
    'bighole': (
        'poly', [(0, 0), (6, 0), (6, 6), (0, 6)],
        [[(1, 1), (5, 2), (5, 5), (3, 4), (2, 5)]],
    ),
    # edges that cross many edges of the unconstrained triangulation
    'spur7': ('poly', [(0, 0), (2, 3), (1, 8), (3, 1), (3, 8), (7, 6), (7, 2)],
              []),
    'spur7b': ('poly', [(0, 0), (2, 2), (12, 7), (2, 12), (0, 11), (1, 3),
                        (0, 5)], []),
    'hook7': ('poly', [(0, 1), (2, 4), (3, 5), (6, 7), (8, 8), (1, 2), (2, 2)],
              []),
    'fang7': ('poly', [(0, 0), (4, 0), (1, 1), (6, 0), (8, 6), (7, 7), (1, 2)],
              []),
    # an edge of the border that crosses a diagonal which, swapped, crosses
    # the edge again
    'zip8': ('poly', [(2, 3), (0, 0), (3, 4), (1, 1), (4, 3), (2, 6), (0, 3),
                      (0, 1)], []),
    'zip8b': ('poly', [(10, 9), (9, 5), (6, 2), (16, 11), (14, 2), (11, 2),
                       (11, 0), (3, 2)], []),
    'zip9': ('poly', [(1, 13), (8, 2), (15, 5), (15, 10), (3, 12), (11, 14),
                      (7, 16), (0, 13), (7, 3)], []),
    'spur14': (
        'poly', [(11, 11), (11, 17), (2, 29), (15, 22), (26, 24), (17, 6),
                 (20, 7), (27, 4), (19, 1), (18, 6), (18, 0), (2, 10),
                 (5, 12), (10, 8)], [],
    ),
}
POLY = {k: s for k, s in {**ALL_SPECS, **LARGE_SPECS}.items() if s[0] == 'poly'}
POLY.update(MORE)
BOUNDS = (
    '30 polygons of 3 to 19 vertices with up to four holes (holes touching the '
    'border or each other, triangular holes) sheared, stretched, with one '
    'vertex moving along lines (each vertex of each polygon without holes, '
    'as far as it stays valid) or over the plane, '
    'in four presentations; two of 139 edges and one of 1043 with one vertex moving a little'
)
ASSUMPTIONS = ['Polygons are valid.']


def scene(name, tag, nparams, make, domain=(), weight=1.0):
    def fn(ns, p, hint, cache):
        return check_constrained(ns, lift(ns, make(ns, p)), hint)

    return Scene(f'{tag}:{name}', nparams, fn, domain=domain,
                 weight=weight * 30 ** (nparams - 1), family=tag)


def within(lo, hi):
    return lambda *p: [(p[0] - lo, 4), (p[0] - hi, 1)]


def scenes(tier):
    quick = tier == 'quick'
    out = []
    warps = ('shear', 'sheary', 'stretch', 'flip')
    for i, (name, spec) in enumerate(POLY.items()):
        for j, w in enumerate(warps):
            f, domain = WARPS[w]
            if quick and name in ('spur14', *LARGE_SPECS) and w != 'stretch':
                continue
            if quick and (i + j) % 2 and len(spec[1]) + sum(
                    map(len, spec[2])) > 8:
                continue
            for k in ((i + j) % 4,) if quick else range(4):
                out.append(scene(
                    f'{name}~{k}', w, 1,
                    lambda ns, p, f=f, spec=spec, k=k: lift(
                        ns, reorder(spec, k), lambda q: f(q, p)
                    ), domain, len(spec[1]),
                ))
        if not quick:
            out.append(scene(
                name, 'warp2', 2,
                lambda ns, p, spec=spec: lift(ns, spec, lambda q: (
                    p[0] * q[0] + p[1] * q[1], q[1]
                )), lambda *p: [(p[0], 4)], len(spec[1]),
            ))
    for name in ('tri*', 'tri*v', 'quad*', 'hole*'):
        f = FREE[name]
        for k in (0, 1) if quick else range(4):
            out.append(scene(
                f'{name}~{k}', 'free', 2,
                lambda ns, p, f=f, k=k: reorder(f.make(p), k), f.domain,
            ))
    # one vertex of the border moves while the border stays simple
    for i, (name, index, k) in enumerate(
        (name, index, k) for name, spec in POLY.items() if not spec[2]
        for index in range(len(spec[1])) for k in range(4)
    ):
        border = POLY[name][1]
        if quick and len(border) > 20 and index % 13:
            continue
        if not quick or (index + k) % 4 == 0 or (
                len(border) == 7 and (index + k) % 2 == 0):
            dx, dy = ((1, 0), (0, 1), (1, 1), (1, -1))[k]

            def fn(ns, p, hint, cache, border=border, index=index, dx=dx,
                   dy=dy):
                out = [(ns.F(x), ns.F(y)) for x, y in border]
                x, y = out[index]
                out[index] = (x + p[0] * ns.F(dx), y + p[0] * ns.F(dy))
                assume(simple(out))
                return check_constrained(ns, ('poly', out, []), hint)

            out.append(Scene(f'drag{k}:{name}.{index}', 1, fn, weight=7,
                             family='drag'))
    for name, ring, index in (
        ('comb139', None, 5), ('comb139', None, 100), ('sieve135', 16, 3),
    ):
        def fn(ns, p, hint, cache, name=name, ring=ring, index=index):
            border, holes = HUGE_SPECS[name][1:]
            border, holes = list(border), [list(h) for h in holes]
            r = border if ring is None else holes[ring]
            x, y = r[index]
            r[index] = (ns.F(x) + p[0], ns.F(y) + p[0])
            return check_constrained(
                ns, lift(ns, ('poly', border, holes)), hint)

        out.append(Scene(f'huge:{name}.{ring}.{index}', 1, fn, weight=900,
                         domain=lambda p: [(p, 6), (p * 64 - 1, 1)],
                         family='huge'))
    # a dent of every depth, a reflex vertex of every depth
    out.append(scene('dent', 'vertex', 1, lambda ns, p: (
        'poly', [(0, 0), (6, 0), (6, 4), (3, p[0]), (0, 4)], [],
    ), within(0, 4)))
    out.append(scene('dents', 'vertex', 1, lambda ns, p: (
        'poly', [(0, 0), (3, 5 - p[0]), (6, 0), (6, 9), (3, p[0] + 4),
                 (0, 9)], [],
    ), within(1, 5)))
    out.append(scene('hole', 'vertex', 1, lambda ns, p: (
        'poly', [(0, 0), (6, 0), (6, 6), (0, 6)],
        [[(1, 1), (p[0], 2), (5, 5), (2, p[0])]],
    ), within(2, 3)))
    out.append(scene('slider', 'vertex', 1, lambda ns, p: (
        'poly', [(0, 0), (9, 0), (9, 3), (0, 3)],
        [[(p[0], 1), (p[0] + 1, 1), (p[0] + 1, 2), (p[0], 2)]],
    ), within(0, 8)))
    out.append(scene('slider3', 'vertex', 1, lambda ns, p: (
        'poly', [(0, 0), (9, 0), (9, 4), (0, 4)],
        [[(p[0], 1), (p[0] + 1, 1), (p[0], 3)], [(6, 1), (8, 1), (7, 3)]],
    ), within(0, 5)))
    out.append(scene('dent2', 'vertex2', 2, lambda ns, p: (
        'poly', [(0, 0), (6, 0), (6, 4), (p[0], p[1]), (0, 4)], [],
    ), lambda *p: [(p[1], 4), (p[1] - 4, 1), (p[0], 4), (p[0] - 6, 1)]))
    for k in (5, 700) if quick else range(0, 1040, 99):
        out.append(giants.polygon_mesh_scene(k))
    return out
