"""Components are exposed as given"""
import re
from itertools import product

from vlib.catalog import ALL_SPECS, lift, reorder
from vlib.driver import Scene
from vlib.families import assume
from vlib.shapes import build, need, ring_edges
from props.c20 import (
    count, regular, rings_equal, same, sets_equal, spec_equal, with_free,
)

BOUNDS = (
    '47 geometries of all kinds in two to four presentations, one vertex at a '
    'time at every rational point; contours and multisegments of up to five '
    'components with all coordinates free; every index from -n - 1 to n, '
    'every slice with limits from -n - 1 to n + 1 and steps of -2 to 2; '
    'numbers of components from none to the least allowed'
)
ASSUMPTIONS = [
    'Vertices of a contour with a hash are different and it has area.',
]


def points_same(a, b):
    return a is b or (a.x == b.x and a.y == b.y)


def raises(f, *types):
    try:
        f()
    except types:
        return True
    return False


def as_tuple(view, items, eq, full):
    """``view`` behaves as the tuple of ``items``."""
    n = len(items)
    need(len(view) == n, f'{len(view)} components, given {n}')
    got = list(view)
    need(len(got) == n and all(eq(g, e) for g, e in zip(got, items)),
         'iterating gives other components')
    back = list(reversed(view))
    need(len(back) == n and all(eq(g, e) for g, e in zip(back, items[::-1])),
         'iterating backwards gives other components')
    for i in range(-n, n):
        need(eq(view[i], items[i]), f'[{i}] is another component')
    for i in (-n - 1, n, n + 3):
        need(raises(lambda: view[i], IndexError), f'[{i}] is accepted')
    limits = [None, *range(-n - 1, n + 2)] if full else [None, -2, 0, 1, n]
    for i, j, k in product(limits, limits, (None, 1, 2, -1, -2)):
        part = view[i:j:k]
        e = items[i:j:k]
        need(len(part) == len(e)
             and all(eq(part[m], e[m]) for m in range(len(e))),
             f'[{i}:{j}:{k}] is another part')
        if (i, j, k) == (None, None, None):
            need(part == view and not part != view
                 and hash(part) == hash(view), 'full slice differs')
        elif len(e) != n:
            need(part != view and not part == view,
                 f'[{i}:{j}:{k}] equals the whole')


def searching(view, items, eq, value, full):
    n = len(items)
    hits = [i for i in range(n) if eq(items[i], value)]
    need((value in view) is bool(hits), 'membership of a component')
    need(view.count(value) == len(hits), 'count of a component')
    limits = range(-n - 1, n + 2) if full else (-n, -1, 1, n)
    bounds = [(), *((i,) for i in limits), *product(limits, limits)]
    for b in bounds:
        i, j, _ = slice(*b if len(b) > 1 else (*b, None)).indices(n) \
            if b else (0, n, 1)
        e = [h for h in hits if i <= h < j]
        try:
            got = view.index(value, *b)
        except ValueError:
            got = None
        need(got == (e[0] if e else None),
             f'index with limits {b}: {got}, not {e[:1]}')


def tokens(ns, make):
    """Evaluate the text made by ``make`` as a user would."""
    names = {k: getattr(ns, k) for k in (
        'Box', 'Contour', 'Empty', 'Multipolygon', 'Multisegment', 'Point',
        'Polygon', 'Segment')}
    if ns.name == 'real':
        from rithm.fraction import Fraction
        from rithm.integer import Int

        text = re.sub(r'(-?\d+)/(\d+)', r'Fraction(\1, \2)', make())
        return eval(text, {**names, 'Fraction': Fraction, 'Int': Int})
    values = []

    def token(self):
        values.append(self)
        return f'V[{len(values) - 1}]'

    cls = ns.F
    saved = cls.__repr__, cls.__str__
    cls.__repr__ = cls.__str__ = token
    try:
        text = make()
    finally:
        cls.__repr__, cls.__str__ = saved
    return eval(text, {**names, 'V': values})


def data(v):
    """What a geometry says it is made of, as a spec."""
    xy = lambda q: (q.x, q.y)
    name = type(v).__name__
    ring = lambda c: [xy(q) for q in c.vertices]
    poly = lambda q: (ring(q.border), [ring(h) for h in q.holes])
    if name == 'Segment':
        return ('seg', xy(v.start), xy(v.end))
    if name == 'Multisegment':
        return ('mseg', [(xy(s.start), xy(s.end)) for s in v.segments])
    if name == 'Contour':
        return ('contour', ring(v))
    if name == 'Polygon':
        return ('poly', *poly(v))
    if name == 'Multipolygon':
        return ('mpoly', [poly(q) for q in v.polygons])
    raise AssertionError(name)


def identical(a, b):
    """The same nested data in the same order?"""
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(identical(x, y) for x, y in zip(a, b)))
    return a == b


def components(ns, g, spec, full):
    seg_eq = lambda a, b: a is b or (
        (points_same(a.start, b.start) and points_same(a.end, b.end))
        or (points_same(a.start, b.end) and points_same(a.end, b.start)))
    kind = spec[0]
    ring = lambda c: [(q.x, q.y) for q in c.vertices]
    ring_eq = lambda a, b: a is b or rings_equal(ring(a), ring(b))
    poly_eq = lambda a, b: a is b or (
        ring_eq(a.border, b.border)
        and sets_equal(list(a.holes), list(b.holes), ring_eq))
    if kind == 'contour':
        pts = [ns.Point(*q) for q in spec[1]]
        as_tuple(g.vertices, pts, points_same, full)
        searching(g.vertices, pts, points_same, pts[-1], full)
        edges = [ns.Segment(ns.Point(*a), ns.Point(*b))
                 for a, b in joined(g, spec[1])]
        as_tuple(g.segments, edges, seg_eq, full)
        searching(g.segments, edges, seg_eq, edges[1], full)
        need(g.vertices == build(ns, spec).vertices
             and g.segments == build(ns, spec).segments,
             'sequences of equal contours differ')
    elif kind == 'mseg':
        segs = [build(ns, ('seg', *s)) for s in spec[1]]
        as_tuple(g.segments, segs, seg_eq, full)
        searching(g.segments, segs, seg_eq, segs[-1], full)
        need(g.segments == build(ns, spec).segments, 'sequences differ')
    elif kind == 'poly':
        holes = [build(ns, ('contour', h)) for h in spec[2]]
        as_tuple(g.holes, holes, ring_eq, full)
        if holes:
            searching(g.holes, holes, ring_eq, holes[-1], full)
        need(g.holes == build(ns, spec).holes, 'sequences differ')
    elif kind == 'mpoly':
        polys = [build(ns, ('poly', *q)) for q in spec[1]]
        as_tuple(g.polygons, polys, poly_eq, full)
        searching(g.polygons, polys, poly_eq, polys[-1], full)
        need(g.polygons == build(ns, spec).polygons, 'sequences differ')


def joined(g, ring):
    """Edges join consecutive vertices and the last with the first."""
    edges = [((s.start.x, s.start.y), (s.end.x, s.end.y)) for s in g.segments]
    n = len(ring)
    need(len(edges) == n, f'{len(edges)} edges, {n} vertices')
    ex = ring_edges(ring)
    either = lambda a, b: (same(a[0], b[0]) and same(a[1], b[1])) or (
        same(a[0], b[1]) and same(a[1], b[0]))
    for k in range(n):
        if all(either(edges[i], ex[(i + k) % n]) for i in range(n)):
            return edges
    need(False, 'edges do not join consecutive vertices')


def exposed(ns, spec, full=True):
    g = build(ns, spec)
    need(identical(data(g), spec), 'made of other components than given')
    components(ns, g, spec, full)
    need(identical(data(g), spec), 'components change on being read')
    # the sequences passed in are not kept
    for form in (repr, str):
        other = tokens(ns, lambda: form(g))
        need(type(other) is type(g), f'{form.__name__} is of another kind')
        need(identical(data(other), spec),
             f'{form.__name__} is of another geometry')
        need(other == g, f'{form.__name__} is of another geometry')
    return spec[0]


def vertex(name, index, k, full):
    def fn(ns, p, hint, cache):
        q = (p[0], p[1])
        a = with_free(lift(ns, reorder(ALL_SPECS[name], k)), index, q)
        regular(a, q)
        return exposed(ns, a, full)

    return Scene(f'vertex:{name}.{index}~{k}', 2, fn,
                 weight=count(ALL_SPECS[name]), family='vertex')


def free_contour(n):
    def fn(ns, p, hint, cache):
        ring = [(p[2 * i], p[2 * i + 1]) for i in range(n)]
        for i in range(n):
            for j in range(i):
                assume(not same(ring[i], ring[j]))
        c = build(ns, ('contour', ring))
        need(identical(data(c), ('contour', ring)), 'other vertices')
        joined(c, ring)
        return 'contour'

    return Scene(f'contour:{n}', 2 * n, fn, weight=20, family='free')


def free_segments(n):
    def fn(ns, p, hint, cache):
        segs = [((p[4 * i], p[4 * i + 1]), (p[4 * i + 2], p[4 * i + 3]))
                for i in range(n)]
        for s in segs:
            assume(not same(*s))
        spec = ('mseg', segs) if n > 1 else ('seg', *segs[0])
        g = build(ns, spec)
        need(identical(data(g), spec), 'other endpoints')
        if n > 1:
            need(len(g.segments) == n, 'number of segments')
        return spec[0]

    return Scene(f'segments:{n}', 4 * n, fn, weight=20, family='free')


def numbers():
    """Too few components are rejected, just enough are not; the sequence
    passed in may change later."""

    def fn(ns, p, hint, cache):
        pt = lambda i: ns.Point(p[0] + i, p[1] + i * i)
        pts = [pt(i) for i in range(6)]
        segs = [ns.Segment(pts[i], pts[i + 1]) for i in range(4)]
        tri = lambda i: ns.Contour([pts[i], pts[i + 1], pts[i + 2]])
        polys = [ns.Polygon(tri(i), []) for i in range(3)]
        for cls, parts, least, attr in (
            (ns.Contour, pts, 3, 'vertices'), (ns.Multisegment, segs, 2,
                                               'segments'),
            (ns.Multipolygon, polys, 2, 'polygons'),
        ):
            for n in range(least):
                need(raises(lambda: cls(parts[:n]), ValueError),
                     f'{cls.__name__} of {n} is accepted')
                need(raises(lambda: cls(tuple(parts[:n])), ValueError),
                     f'{cls.__name__} of {n} is accepted')
            for n in range(least, len(parts) + 1):
                given = parts[:n]
                g = cls(given)
                h = cls(tuple(parts[:n]))
                need(g == h, 'list and tuple differ')
                given[0] = given[-1]
                given.pop()
                view = getattr(g, attr)
                need(len(view) == n and all(a is b for a, b in zip(
                    view, parts)), f'{cls.__name__} shares the list given')
                need(len(getattr(g, attr)) == n, 'number of components')
        holes = [tri(0), tri(1)]
        g = ns.Polygon(tri(2), holes)
        holes.clear()
        need(len(g.holes) == 2, 'Polygon shares the list given')
        need(len(ns.Polygon(tri(2), []).holes) == 0, 'no holes')
        for x, y in ((1, 2), (ns.F(1), ns.F(2))):
            q = ns.Point(x, y)
            need(type(q.x) is ns.F and type(q.y) is ns.F, 'coordinates')
            need(q == ns.Point(y - 1, x + 1), 'integers as coordinates')
        need(ns.Point(0.5, -0.25) == ns.Point(ns.F(1) / 2, ns.F(-1) / 4),
             'floats as coordinates')
        b = ns.Box(1, p[0], 3, 4.5)
        need((b.min_x, b.max_x, b.min_y, b.max_y) == (
            ns.F(1), p[0], ns.F(3), ns.F(9) / 2), 'limits of a box')
        for form in (repr, str):
            o = tokens(ns, lambda: form(b))
            need(type(o) is ns.Box and o == b, f'{form.__name__} of a box')
            q = tokens(ns, lambda: form(pts[3]))
            need(type(q) is ns.Point and points_same(q, pts[3]),
                 f'{form.__name__} of a point')
            need(tokens(ns, lambda: form(ns.Empty())) == ns.Empty(),
                 f'{form.__name__} of the empty geometry')
        return 'numbers'

    return Scene('numbers', 2, fn, family='numbers')


def scenes(tier):
    quick = tier == 'quick'
    out = [numbers(), *map(free_contour, (3, 4, 5)),
           *map(free_segments, (1, 2, 3))]
    for i, name in enumerate(ALL_SPECS):
        n = count(ALL_SPECS[name])
        for index in range(n):
            if quick and (index + i) % (8 if n > 16 else 3 if n > 4 else 1):
                continue
            for k in ((index + i) % 4,) if quick else range(4):
                out.append(vertex(name, index, k, not quick or n < 6))
    return out
