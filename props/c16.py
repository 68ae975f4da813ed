"""Validity and orientation of contours"""
from vlib import giants
from vlib.arrangement import orient_value
from vlib.catalog import (
    HUGE_LINEAR_SPECS, HUGE_SPECS, LARGE_LINEAR_SPECS, LARGE_SPECS,
)
from vlib.driver import Scene
from vlib.points import on_segment
from vlib.shapes import build, need, ring_edges

BOUNDS = (
    'contours of 3 to 8 vertices: a triangle with all but one coordinate '
    'free, quadrangles with two free vertices (deeper tier: pentagons as '
    'well), 12 polylines of 4 to 8 vertices (convex, concave, star shaped, '
    'with repeated and collinear vertices) with every one of their vertices '
    'free in turn, two contours of 40 vertices with one of them anywhere on a '
    'line, two of 139 with one moving a little, one of 1043 with one at every height, '
    'started elsewhere and reversed'
)
ASSUMPTIONS = []


def meet(a, b, c, d):
    """Do two closed segments have a common point?"""
    if on_segment(a, b, c) or on_segment(a, b, d):
        return True
    if on_segment(c, d, a) or on_segment(c, d, b):
        return True
    s = lambda v: (v > 0) - (v < 0)
    return (
        s(orient_value(a, b, c)) * s(orient_value(a, b, d)) < 0
        and s(orient_value(c, d, a)) * s(orient_value(c, d, b)) < 0
    )


def simple(ring):
    """No three collinear neighbours; edges meet in common vertices only."""
    n = len(ring)
    for i in range(n):
        if orient_value(ring[i - 1], ring[i], ring[(i + 1) % n]) == 0:
            return False
    edges = ring_edges(ring)
    for i in range(n):
        for j in range(i + 1, n):
            if j - i == 1 or (i == 0 and j == n - 1):
                # neighbours that are not collinear meet in the vertex only
                continue
            if meet(*edges[i], *edges[j]):
                return False
    return True


def area2(ns, ring):
    s = ns.F(0)
    for a, b in ring_edges(ring):
        s = s + (a[0] * b[1] - a[1] * b[0])
    return s


def check(ns, ring, k):
    n = len(ring)
    c = build(ns, ('contour', ring))
    expected = simple(ring)
    got = c.is_valid()
    need(type(got) is bool and got is expected,
         f'is_valid() is {got}, the contour is {"" if expected else "not "}'
         'simple')
    turned = ring[k % n:] + ring[:k % n]
    for other, what in ((turned, 'started elsewhere'),
                        (turned[::-1], 'reversed')):
        need(build(ns, ('contour', other)).is_valid() is expected,
             f'{what}: validity changes')
    if not expected:
        return 'invalid'
    area = area2(ns, ring)
    e = 'COUNTERCLOCKWISE' if area > 0 else 'CLOCKWISE'
    need(c.orientation.name == e, f'orientation {c.orientation.name}, not {e}')
    need(build(ns, ('contour', turned)).orientation is c.orientation,
         'orientation depends on the start vertex')
    r = build(ns, ('contour', turned[::-1])).orientation.name
    need({r, e} == {'COUNTERCLOCKWISE', 'CLOCKWISE'},
         'reversing does not invert orientation')
    return e


RINGS = {
    'tri': [(0, 0), (4, 1), (1, 3)],
    'sq': [(0, 0), (2, 0), (2, 2), (0, 2)],
    'dart': [(0, 0), (4, 2), (0, 4), (1, 2)],
    'bow': [(0, 0), (4, 4), (4, 0), (0, 4)],
    'pent': [(0, 0), (4, 0), (5, 3), (2, 5), (-1, 3)],
    'star5': [(0, 3), (2, -3), (-3, 1), (3, 1), (-2, -3)],
    'touch': [(0, 0), (4, 0), (4, 4), (2, 0), (0, 4)],
    'eight': [(0, 0), (2, 2), (4, 0), (4, 4), (2, 2), (0, 4)],
    'L': [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)],
    'spike': [(0, 0), (4, 0), (4, 4), (2, 1), (2, 6), (0, 4)],
    'flat': [(0, 0), (2, 0), (4, 0), (4, 4), (0, 4)],
    'comb': [(0, 0), (6, 0), (6, 3), (4, 1), (3, 3), (2, 1), (0, 3)],
    'C': [(0, 0), (5, 0), (5, 1), (1, 1), (1, 4), (5, 4), (5, 5), (0, 5)],
}


def scene(name, index, k):
    def fn(ns, p, hint, cache):
        ring = [(ns.F(x), ns.F(y)) for x, y in RINGS[name]]
        ring[index] = (p[0], p[1])
        return check(ns, ring, k)

    return Scene(f'vertex:{name}.{index}~{k}', 2, fn, weight=len(RINGS[name]),
                 family='vertex')


LARGE = {'comb40': LARGE_SPECS['comb40'][1],
         'wave40': LARGE_LINEAR_SPECS['wave40'][1]}


HUGE = {'comb139': HUGE_SPECS['comb139'][1],
        'wave140': HUGE_LINEAR_SPECS['wave140'][1]}


def along(name, index, k, d, domain=()):
    def fn(ns, p, hint, cache):
        ring = [(ns.F(x), ns.F(y))
                for x, y in LARGE.get(name) or HUGE[name]]
        x, y = ring[index]
        ring[index] = (x + p[0] * ns.F(d[0]), y + p[0] * ns.F(d[1]))
        return check(ns, ring, k)

    return Scene(f'along:{name}.{index}~{k}', 1, fn, weight=200,
                 domain=domain, family='along')


def free(name, ring, nparams, k):
    """Coordinates of ``ring`` that are integers are indices of parameters."""

    def fn(ns, p, hint, cache):
        g = lambda v: p[v] if isinstance(v, int) else ns.F(int(v))
        return check(ns, [(g(x), g(y)) for x, y in ring], k)

    return Scene(f'free:{name}~{k}', nparams, fn, weight=500, family='free')


def scenes(tier):
    quick = tier == 'quick'
    out = []
    for i, name in enumerate(RINGS):
        n = len(RINGS[name])
        for index in range(n):
            for k in (1 + (index + i) % (n - 1),) if quick else range(1, n):
                out.append(scene(name, index, k))
    for i, name in enumerate(LARGE):
        for index in range(i, len(LARGE[name]), 8 if quick else 1):
            out.append(along(name, index, 1 + index % 38,
                             ((1, 0), (0, 1), (1, 1), (3, -1))[index // 8 % 4]))
    for i, name in enumerate(HUGE):
        for index in (5, 69, 137) if quick else range(0, 139, 4):
            out.append(along(
                name, index, 130 + i, ((1, 0), (0, 1), (1, -6))[index % 3],
                lambda p: [(p * 99 + 1, 4), (p * 99 - 1, 1)],
            ))
    out.append(free('tri', [('0', '0'), (0, 1), (2, 3)], 4, 1))
    out.append(free('triv', [('0', 0), ('0', 1), (2, 3)], 4, 2))
    out.append(free('quad', [('0', '0'), ('4', '0'), (0, 1), (2, '4')], 3, 1))
    if not quick:
        out.append(free('tri5', [('0', 0), (1, 2), (3, 4)], 5, 1))
        out.append(free('quad4', [('0', '0'), ('4', '0'), (0, 1), (2, 3)], 4,
                        1))
        out.append(free('quado', [('0', '0'), (0, 1), ('4', '0'), (2, 3)], 4,
                        3))
        out.append(free(
            'pent', [('0', '0'), ('4', '0'), (0, 1), ('3', '5'), (2, '4')], 3,
            2))
    for k in (5, 700) if quick else range(0, 1040, 99):
        out.append(giants.contour_scene(k))
    return out
