"""Tight bounding boxes"""
from vlib import giants
from vlib.catalog import ALL_SPECS as SPECS
from vlib.driver import Scene
from vlib.families import assume
from vlib.shapes import SHAPED, build, need

BOUNDS = (
    'all coordinates of a kind free at once: segments, multisegments of 2 '
    '(deeper tier: 3) segments, contours of 3 and 4 (5) vertices, polygons '
    'whose border is one of these with up to one hole inside, multipolygons '
    'of two such triangles along an axis; the 47 catalogue shapes with every '
    'vertex in turn free in both coordinates; 1043 edges with one vertex at every height'
)
ASSUMPTIONS = [
    'Validity of the geometries is not assumed but for holes, which lie '
    'within the bounding box of the border.',
]


def check(ns, spec, points):
    b = build(ns, spec).bounding_box
    need(isinstance(b, ns.Box), f'{type(b).__name__} instead of a box')
    for lo, hi, i in ((b.min_x, b.max_x, 0), (b.min_y, b.max_y, 1)):
        values = [q[i] for q in points]
        need(all(lo <= v for v in values), f'a point below the minimum {"xy"[i]}')
        need(all(v <= hi for v in values), f'a point above the maximum {"xy"[i]}')
        need(any(v == lo for v in values), f'minimum {"xy"[i]} is not attained')
        need(any(v == hi for v in values), f'maximum {"xy"[i]} is not attained')
    return [b.min_x, b.max_x, b.min_y, b.max_y]


def free(name, nparams, make, weight=1):
    def fn(ns, p, hint, cache):
        spec, points = make(ns, p)
        return check(ns, spec, points)

    return Scene(f'free:{name}', nparams, fn, weight=weight, family='free')


def on_axis(kind, n, axis):
    """All abscissas free and ordinates fixed or the other way round."""
    ys = [0, 3, 1, 4, 2, 6, 5]

    def make(ns, p):
        q = [(p[i], ns.F(ys[i])) if axis == 0 else (ns.F(ys[i]), p[i])
             for i in range(n)]
        return shape(ns, kind, q), q

    return free(f'{kind}{n}-{"xy"[axis]}', n, make, 4 ** n)


def shape(ns, kind, q):
    if kind == 'seg':
        return ('seg', q[0], q[1])
    if kind == 'mseg':
        return ('mseg', [(q[i], q[i + 1]) for i in range(0, len(q), 2)])
    if kind == 'contour':
        return ('contour', q)
    if kind == 'poly':
        return ('poly', q, [])
    return ('mpoly', [(q[:3], []), (q[3:], [])])


def full(kind, n):
    def make(ns, p):
        q = [(p[2 * i], p[2 * i + 1]) for i in range(n)]
        return shape(ns, kind, q), q

    return free(f'{kind}{n}', 2 * n, make, 16 ** n)


def vertex(name, index):
    """One point of a catalogue shape moved anywhere (where it still is the
    border that limits the shape)."""

    def fn(ns, p, hint, cache):
        spec = SPECS[name]
        seen = [-1]

        def f(q, free_allowed=True):
            seen[0] += 1
            if seen[0] == index:
                return (p[0], p[1])
            return (ns.F(q[0]), ns.F(q[1]))

        kind = spec[0]
        if kind in SHAPED:
            polys = [(spec[1], spec[2])] if kind == 'poly' else spec[1]
            out, points = [], []
            for b, hs in polys:
                nb = [f(q) for q in b]
                points += nb
                out.append((nb, [[(ns.F(x), ns.F(y)) for x, y in h]
                                 for h in hs]))
            new = ('poly', *out[0]) if kind == 'poly' else ('mpoly', out)
        elif kind == 'seg':
            new = ('seg', f(spec[1]), f(spec[2]))
            points = [new[1], new[2]]
        elif kind == 'mseg':
            new = ('mseg', [(f(a), f(b)) for a, b in spec[1]])
            points = [q for s in new[1] for q in s]
        else:
            new = ('contour', [f(q) for q in spec[1]])
            points = new[1]
        if kind in SHAPED:
            for b, hs in out:
                for h in hs:
                    for i in (0, 1):
                        lo = min(q[i] for q in h)
                        hi = max(q[i] for q in h)
                        assume(any(q[i] <= lo for q in b)
                               and any(hi <= q[i] for q in b))
        return check(ns, new, points)

    return Scene(f'vertex:{name}.{index}', 2, fn, family='vertex')


def count(spec):
    if spec[0] == 'seg':
        return 2
    if spec[0] == 'mseg':
        return 2 * len(spec[1])
    if spec[0] == 'contour':
        return len(spec[1])
    polys = [(spec[1], spec[2])] if spec[0] == 'poly' else spec[1]
    return sum(len(b) for b, _ in polys)


def scenes(tier):
    quick = False  # cheap enough
    out = []
    for kind, ns_, limit in (
        ('seg', [2], 2), ('mseg', [4] if quick else [4, 6], 0),
        ('contour', [3, 4] if quick else [3, 4, 5, 6], 3),
        ('poly', [3, 4] if quick else [3, 4, 5], 0),
        ('mpoly', [6], 0),
    ):
        for n in ns_:
            for axis in (0, 1):
                out.append(on_axis(kind, n, axis))
            if n <= limit:
                out.append(full(kind, n))
    for i, name in enumerate(SPECS):
        for index in range(count(SPECS[name])):
            if quick and (index + i) % 2 and index > 2:
                continue
            out.append(vertex(name, index))
    for k, kind in enumerate(('poly', 'contour', 'mseg')):
        out.append(giants.box_scene(kind, 300 * k))
    return out
