"""The operands the scenes are made of (plain integer specs) and the symbolic
families of placements."""
from __future__ import annotations

from .shapes import map_spec


def sq(x, y, w, h=None):
    h = h or w
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


SHAPED_SPECS = {
    'tri': ('poly', [(0, 0), (4, 0), (0, 4)], []),
    'tri2': ('poly', [(0, 0), (2, -1), (3, 3)], []),
    'sq': ('poly', sq(0, 0, 2), []),
    'L': ('poly', [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)], []),
    'C': (
        'poly',
        [(0, 0), (5, 0), (5, 1), (1, 1), (1, 4), (5, 4), (5, 5), (0, 5)], [],
    ),
    # non-convex with teeth: several edges start at the same abscissa
    'comb': (
        'poly',
        [(0, 0), (6, 0), (6, 3), (5, 1), (4, 3), (3, 1), (2, 3), (1, 1),
         (0, 3)], [],
    ),
    'ring': ('poly', sq(0, 0, 6), [sq(2, 2, 2)]),
    # a hole that fits 'sq' and touches the border in a vertex
    'hs': ('poly', sq(0, 0, 6), [[(0, 3), (3, 1), (3, 5)]]),
    'holed2': ('poly', sq(0, 0, 8), [sq(1, 1, 2), sq(5, 3, 2)]),
    # two holes sharing a vertex
    'holest': ('poly', sq(0, 0, 6), [sq(1, 1, 2), sq(3, 3, 2)]),
    'mp2': ('mpoly', [(sq(0, 0, 2), []), (sq(3, 1, 2), [])]),
    'mpt': ('mpoly', [(sq(0, 0, 2), []), (sq(2, 2, 2), [])]),
    'mp3': (
        'mpoly',
        [(sq(0, 0, 1), []), ([(2, 0), (4, 0), (3, 2)], []),
         (sq(5, 1, 2), [])],
    ),
    'isl': ('mpoly', [(sq(0, 0, 8), [sq(1, 1, 6)]), (sq(3, 3, 2), [])]),
    # an island that touches the hole it lies in
    'islt': (
        'mpoly',
        [(sq(0, 0, 6), [sq(1, 1, 4)]), ([(1, 3), (3, 2), (3, 4)], [])],
    ),
}
# shapes that touch 'sq' like shapes in several vertices
PINCH_SPECS = {
    'bsq': ('poly', sq(0, 0, 4), []),
    'dia': ('poly', [(2, 0), (4, 2), (2, 4), (0, 2)], []),
    'bowt': ('mpoly', [([(0, 2), (2, 1), (2, 3)], []),
                       ([(4, 2), (2, 3), (3, 2)], [])]),
    'chain': ('mpoly', [([(0, 2), (1, 1), (2, 2), (1, 3)], []),
                        ([(2, 2), (3, 1), (4, 2), (3, 3)], [])]),
    'ring4': ('poly', sq(0, 0, 4), [[(1, 2), (2, 1), (3, 2), (2, 3)]]),
    'frame': ('poly', sq(-1, -1, 6), [sq(0, 0, 4)]),
}
LINEAR_SPECS = {
    'seg': ('seg', (0, 0), (4, 2)),
    'segr': ('seg', (4, 0), (0, 0)),
    'segv': ('seg', (0, 0), (0, 3)),
    'ms2': ('mseg', [((0, 0), (4, 0)), ((1, 0), (1, 2))]),
    'msx': ('mseg', [((0, 0), (2, 0)), ((3, 0), (5, 0)), ((2, 0), (3, 3))]),
    'msp': ('mseg', [((0, 0), (4, 0)), ((4, 2), (0, 2)), ((0, 1), (4, 1))]),
    # a star with centre (2, 2)
    'star': (
        'mseg',
        [((2, 2), (0, 0)), ((4, 4), (2, 2)), ((2, 2), (4, 1)),
         ((0, 3), (2, 2))],
    ),
    # a polyline whose pieces are collinear neighbours
    'msc': ('mseg', [((0, 0), (2, 0)), ((2, 0), (4, 0)), ((4, 0), (4, 2)),
                     ((4, 2), (4, 4))]),
    # a bundle of rays out of one point, all of them to the right
    'fan': (
        'mseg',
        [((0, 0), (4, 3)), ((4, -3), (0, 0)), ((0, 0), (5, 0)),
         ((-3, 1), (0, 0))],
    ),
    # two pieces passing through one another's middle points, T-junctions
    'tee': (
        'mseg',
        [((0, 0), (6, 0)), ((2, 0), (2, 3)), ((2, -3), (2, 0)),
         ((4, 0), (5, 2))],
    ),
    'zig': (
        'mseg',
        [((0, 0), (2, 2)), ((2, 2), (4, 0)), ((4, 0), (6, 2)),
         ((0, 4), (6, 4))],
    ),
    'ctri': ('contour', [(0, 0), (4, 0), (0, 4)]),
    'csq': ('contour', sq(0, 0, 2)),
    # non-convex with collinear far apart edges
    'cM': (
        'contour',
        [(0, 0), (6, 0), (6, 2), (4, 2), (3, 1), (2, 2), (0, 2)],
    ),
    'cL': ('contour', [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)]),
}
# many holes, nesting, many parts
RICH_SPECS = {
    # holes one above another, each starting later than the one below
    'holes4': ('poly', sq(0, 0, 10, 12), [
        sq(1, 1, 8, 2), sq(2, 4, 6, 2), sq(3, 7, 4, 2),
        [(4, 10), (6, 10), (5, 11)]]),
    # holes in a row, touching one another
    'beads': ('poly', sq(0, 0, 14, 6), [
        [(1, 3), (3, 1), (5, 3), (3, 5)], [(5, 3), (7, 1), (9, 3), (7, 5)],
        [(9, 3), (11, 1), (13, 3), (11, 5)]]),
    # rings inside of rings
    'nest': ('mpoly', [
        (sq(0, 0, 12), [sq(1, 1, 10)]), (sq(2, 2, 8), [sq(3, 3, 6)]),
        (sq(4, 4, 4), [[(5, 5), (7, 5), (6, 7)]])]),
    # two islands with holes in one hole
    'isl2': ('mpoly', [
        (sq(0, 0, 14, 8), [sq(1, 1, 12, 6)]), (sq(2, 2, 4), [sq(3, 3, 2)]),
        ([(8, 4), (10, 2), (12, 4), (10, 6)], [[(9, 4), (11, 4), (10, 5)]])]),
    # parts touching in corners all over
    'chess': ('mpoly', [
        (sq(0, 0, 2), []), (sq(4, 0, 2), []), (sq(2, 2, 2), []),
        (sq(0, 4, 2), []), (sq(4, 4, 2), [])]),
    # many parts side by side, one above another
    'rows': ('mpoly', [
        (sq(0, 0, 9, 1), []), (sq(1, 2, 7, 1), []),
        ([(2, 4), (7, 4), (3, 5)], []), (sq(3, 6, 3, 1), []),
        (sq(10, 3, 2, 1), [])]),
    'saw': ('poly', [
        (0, 0), (2, 3), (4, 0), (6, 3), (8, 0), (10, 3), (12, 0), (12, 5),
        (9, 4), (6, 6), (3, 4), (0, 5)], []),
}
RICH_LINEAR_SPECS = {
    'zig8': ('mseg', [((i, i % 2 * 2), (i + 1, (i + 1) % 2 * 2))
                      for i in range(8)]),
    'star8': ('mseg', [((3, 3), (3 + x, 3 + y)) if (x + y) % 2 else
                       ((3 + x, 3 + y), (3, 3))
                       for x, y in ((3, 0), (3, 2), (0, 3), (-1, 3), (-3, 0),
                                    (-3, -3), (0, -3), (2, -3))]),
    'bars': ('mseg', [((0, i), (6 - i, i)) for i in range(5)]
             + [((8, 0), (8, 4)), ((9, 4), (9, 0))]),
    'coil': ('contour', [(0, 0), (8, 0), (8, 6), (2, 6), (2, 2), (6, 2),
                         (6, 4), (4, 4), (4, 3), (3, 3), (3, 5), (7, 5),
                         (7, 1), (1, 1), (1, 7), (0, 7)]),
}
# parts far from one another: most of them outside of what is in common
SPREAD_SPECS = {
    'apart': ('mpoly', [([(0, 0), (3, -1), (4, 2), (1, 3)], []),
                        ([(6, -9), (9, -9), (8, -7)], [])]),
    'aparl': ('mpoly', [(sq(0, 8, 2), []), ([(3, 0), (7, 1), (5, 3)], []),
                        (sq(9, -8, 1), [])]),
    'slope': ('poly', [(0, 0), (10, 8), (9, 9)], []),
    'gate': ('poly', [(0, 0), (9, 0), (9, 4), (8, 1), (1, 1), (0, 7)], []),
}
SPREAD_LINEAR_SPECS = {
    'bits': ('mseg', [((1, 1), (2, 1)), ((5, 0), (6, 3)), ((9, 1), (10, 2)),
                      ((1, 7), (2, 9))]),
    'bitsv': ('mseg', [((0, 0), (0, 2)), ((3, 2), (3, -3)),
                       ((2, -6), (6, -6))]),
    # collinear pieces in no order, with a gap
    'dash': ('mseg', [((4, 0), (3, 0)), ((0, 0), (1, 0)), ((5, 0), (6, 0)),
                      ((2, 0), (1, 0)), ((6, 0), (7, 0)), ((1, 2), (1, 0))]),
    'dashd': ('mseg', [((6, 3), (4, 2)), ((0, 0), (2, 1)), ((2, 1), (4, 2)),
                       ((8, 4), (10, 5))]),
    'hook': ('contour', [(0, 0), (9, 0), (9, 3), (8, 1), (1, 1), (0, 6)]),
}
# pieces of one line that follow one another: together they are a segment
CHAIN_SPECS = {
    'col3': ('mseg', [((0, 0), (1, 0)), ((1, 0), (3, 0)), ((3, 0), (4, 0))]),
    'col2': ('mseg', [((4, 0), (1, 0)), ((0, 0), (1, 0))]),
    'colv': ('mseg', [((0, 2), (0, 0)), ((0, 3), (0, 2)), ((0, 3), (0, 4))]),
    'cold': ('mseg', [((2, 1), (4, 2)), ((0, 0), (2, 1))]),
    'colx': ('mseg', [((0, 0), (2, 0)), ((2, 0), (4, 0)), ((2, 0), (2, 3))]),
    'colgap': ('mseg', [((3, 0), (4, 0)), ((0, 0), (1, 0)), ((1, 0), (2, 0))]),
    # the inner pieces come first
    'colgap4': ('mseg', [((1, 0), (2, 0)), ((3, 0), (4, 0)), ((0, 0), (1, 0)),
                         ((4, 0), (5, 0))]),
    'col5': ('mseg', [((2, 0), (3, 0)), ((1, 0), (2, 0)), ((3, 0), (4, 0)),
                      ((5, 0), (4, 0)), ((0, 0), (1, 0))]),
    # teeth on both sides of a line
    'teeth': ('mseg', [((9, 0), (10, 0)), ((2, 0), (2, 3)), ((5, 0), (4, 3)),
                      ((5, 0), (6, -3)), ((7, 0), (7, -3))]),
    'teeth2': ('mseg', [((1, 0), (1, -2)), ((3, 3), (3, 0)), ((6, 0), (5, -3)),
                       ((6, 0), (7, 3)), ((8, 0), (8, -1)), ((8, 0), (9, 2)),
                       ((11, 0), (11, 2)), ((12, 0), (13, 0))]),
    'colfar': ('mseg', [((0, 0), (2, 0)), ((1, 5), (3, 7)), ((2, 0), (4, 0))]),
}
SPECS = {**SHAPED_SPECS, **LINEAR_SPECS}


def teeth(n, up, dx=2, y=0):
    return [(i * dx // 2, y + up * (i % 2)) for i in range(2 * n)]


# as many parts as time allows: whatever sets in with size
LARGE_SPECS = {
    # 41 edges: teeth above and below
    'comb40': ('poly', teeth(10, -2) + [(20, 6)] + [
                   (x, 3 + y) for x, y in teeth(9, 2)][:0:-1] + [(0, 4)], []),
    # a border with 12 holes
    'sieve': ('poly', sq(0, 0, 17, 9), [
        ([(x, y), (x + 2, y), (x + 1, y + 2)] if (x + y) % 2 else
         [(x, y + 1), (x + 1, y), (x + 2, y + 1), (x + 1, y + 2)])
        for x in (1, 5, 8, 13) for y in (1, 4, 6)]),
    # 14 parts, some of them touching in corners
    'flock': ('mpoly', [
        (([(x, y), (x + 2, y), (x, y + 2)] if (x + y) % 4 else sq(x, y, 2)),
         []) for x, y in (
            (0, 0), (2, 2), (4, 0), (6, 2), (8, 0), (10, 3), (0, 4), (3, 5),
            (6, 5), (9, 6), (0, 7), (2, 9), (5, 8), (12, 0))]),
}
LARGE_LINEAR_SPECS = {
    'rake30': ('mseg', [((i, 0), (i, 2 + i % 3)) for i in range(10)]
               + [((2 * i, -1 - i % 2), (2 * i + 3, -4)) for i in range(10)][:4]
               + [((i + 1, 7), (i, 7 + i % 2)) for i in range(0, 16, 2)]
               + [((12, i), (13, i)) for i in range(6)]),
    'wave40': ('contour', teeth(12, 2) + [
        (x, y + 4) for x, y in teeth(8, -1, 2)][::-1]),
}
# more than 256 events of a sweep, edges of a triangulation, ...
HUGE_SPECS = {
    'comb139': ('poly', teeth(35, -2) + [(70, 6)] + [
        (x, 3 + y) for x, y in teeth(34, 2)][:0:-1] + [(0, 4)], []),
    'sieve135': ('poly', sq(0, 0, 72, 6), [
        ([(x, 1 + x % 2), (x + 1, 1), (x + 1, 3)] if x % 5 < 2 else
         [(x, 2), (x + 1, 1), (x + 2, 3), (x + 1, 4)])
        for x in range(1, 71) if x % 5 < 3]),
    'flock138': ('mpoly', [
        ([(x, x % 3), (x + 1, x % 3), (x, x % 3 + 2)], [])
        for x in range(0, 69, 3)] + [
        ([(x, 5), (x + 1, 4 + x % 5), (x + 2, 5)] if x % 5 > 1
         else [(x, 4), (x + 2, 5), (x + 1, 6)], [])
        for x in range(0, 69, 3)]),
}
HUGE_LINEAR_SPECS = {
    'rake140': ('mseg', [((i, 0), (i, 2 + i % 3)) for i in range(70)]
                + [((i + 1, 7), (i, 7 + i % 2)) for i in range(0, 70, 2)]
                + [((i, -2), (i + 2, -1)) for i in range(0, 70, 2)]),
    'wave140': ('contour', teeth(40, 2) + [
        (x, y + 4) for x, y in teeth(30, -1, 2)][::-1]),
}
ALL_SPECS = {**SPECS, **PINCH_SPECS, **RICH_SPECS, **RICH_LINEAR_SPECS,
             **SPREAD_SPECS, **SPREAD_LINEAR_SPECS, **CHAIN_SPECS}


# -- placements: (point, params) -> point
def line(dx, dy, cx=0, cy=0):
    return lambda q, p: (q[0] + p[0] * dx + cx, q[1] + p[0] * dy + cy)


def plane(q, p):
    return (q[0] + p[0], q[1] + p[1])


def scale(cx, cy, ox=0, oy=0):
    """Scaling about (cx, cy), then a fixed shift."""
    return lambda q, p: (
        p[0] * (q[0] - cx) + cx + ox, p[0] * (q[1] - cy) + cy + oy,
    )


def shear(ox=0, oy=0):
    return lambda q, p: (q[0] + p[0] * q[1] + ox, q[1] + oy)


def shear_y(ox=0, oy=0):
    return lambda q, p: (q[0] + ox, q[1] + p[0] * q[0] + oy)


def stretch(ox=0, oy=0):
    return lambda q, p: (p[0] * q[0] + ox, q[1] + oy)


# (name, number of parameters, function, domain)
def positive(*params):
    return [(params[0], 4)]


def nonzero(*params):
    return [(params[0], 5)]


LINES = {
    'h': line(1, 0, 0, 1),
    'h0': line(1, 0),
    'v': line(0, 1, 1, 0),
    'v0': line(0, 1),
    'd': line(1, 1),
    'g': line(3, 1, -7, -2),
    's': line(2, 1),
    'n': line(1, -1, 0, 2),
}
WARPS = {
    'scale': (scale(0, 0), positive),
    'scalec': (scale(1, 1), positive),
    'flip': (scale(0, 0, 4, 4), nonzero),
    'shear': (shear(), ()),
    'sheary': (shear_y(1, 1), ()),
    'stretch': (stretch(), positive),
}


def reorder(spec, k):
    """Another presentation of the same geometry: rotated / reversed rings,
    swapped segment ends, permuted components."""
    kind = spec[0]
    if k == 0 or kind == 'empty':
        return spec

    def ring(r, j):
        j %= len(r)
        r = r[j:] + r[:j]
        return r[::-1] if k & 1 else r

    def poly(b, hs):
        return (ring(b, k), [ring(h, k + i + 1) for i, h in enumerate(hs)][::-1])

    if kind == 'seg':
        return ('seg', spec[2], spec[1]) if k & 1 else spec
    if kind == 'mseg':
        segs = [
            (b, a) if (i + k) & 1 else (a, b)
            for i, (a, b) in enumerate(spec[1])
        ]
        j = k % len(segs)
        return ('mseg', (segs[j:] + segs[:j])[::-1])
    if kind == 'contour':
        return ('contour', ring(spec[1], k))
    if kind == 'poly':
        return ('poly', *poly(spec[1], spec[2]))
    return ('mpoly', [poly(b, hs) for b, hs in spec[1]][::-1])


def lift(ns, spec, f=None):
    """Spec over the scalars of ``ns``, optionally through a placement."""
    F = ns.F

    def g(q):
        q = (F(q[0]) if isinstance(q[0], int) else q[0],
             F(q[1]) if isinstance(q[1], int) else q[1])
        return q if f is None else f(q)

    return map_spec(spec, g)
