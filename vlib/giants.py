"""Operands of some 1000 edges: deeper than Python's stack, ids of events and
edges far beyond the cached small integers, long queues and sweep lines.

The arrangement of such operands is out of reach, so what is expected is
spelled out: a line of teeth against a strip of height ``t`` (a parameter), for
which every result is the same small piece over and over."""
from __future__ import annotations

from . import boolean, relations
from .arrangement import orient_value
from .driver import Scene
from .meshes import in_circle
from .shapes import build, need, ring_edges

TEETH = 520  # teeth of the zigzag: 2 * TEETH + 2 edges
FEW = 4
CROWD = 1050  # points of a triangulation


def zigzag(f, n, low=None):
    """Teeth with tips at height 0 under a roof; ``low`` is the height of the
    tip in the middle."""
    ring = [(f(i), f(2 - 2 * (i % 2))) for i in range(2 * n + 1)]
    ring += [(f(2 * n), f(4)), (f(0), f(4))]
    if low is not None:
        middle = n // 2 * 2 + 1
        ring[middle] = (f(middle), low)
    return ring


def strip(f, n, t):
    return [(f(0), f(-1)), (f(2 * n), f(-1)), (f(2 * n), t), (f(0), t)]


def tips(f, n, t):
    """Parts of the teeth under the height ``t``."""
    return [
        [(i - t / f(2), t), (f(i), f(0)), (i + t / f(2), t)]
        for i in map(f, range(1, 2 * n, 2))
    ]


def gaps(f, n, t):
    """What is between the teeth over the height ``t``, whole ones only."""
    return [
        [(i - f(1) + t / f(2), t), (i, f(2)), (i + f(1) - t / f(2), t)]
        for i in map(f, range(2, 2 * n, 2))
    ]


def cut_zigzag(f, n, t):
    ring = []
    for i in range(2 * n + 1):
        if i % 2:
            ring += [(f(i) - t / f(2), t), (f(i) + t / f(2), t)]
        else:
            ring.append((f(i), f(2)))
    return ring + [(f(2 * n), f(4)), (f(0), f(4))]


def cut_strip(f, n, t):
    ring = [(f(0), f(-1)), (f(2 * n), f(-1)), (f(2 * n), t)]
    for i in range(2 * n - 1, 0, -2):
        ring += [(f(i) + t / f(2), t), (f(i), f(0)), (f(i) - t / f(2), t)]
    return ring + [(f(0), t)]


def both(f, n, t):
    border = [
        (f(0), f(-1)), (f(2 * n), f(-1)), (f(2 * n), t),
        (f(2 * n) - f(1) + t / f(2), t), (f(2 * n), f(2)), (f(2 * n), f(4)),
        (f(0), f(4)), (f(0), f(2)), (f(1) - t / f(2), t), (f(0), t),
    ]
    return border, gaps(f, n, t)


def shaped_result(op, f, n, t, swap):
    if op == 'and':
        return [(r, []) for r in tips(f, n, t)]
    if op == 'or':
        return [both(f, n, t)]
    if op == 'sub':
        return [((cut_strip if swap else cut_zigzag)(f, n, t), [])]
    return [(cut_zigzag(f, n, t), []), (cut_strip(f, n, t), [])]


# -- comparing: numbers of the same form are equal, others are looked at again
# with the real numbers before anything is reported
def key(v):
    return getattr(v, 'i', v)


def vertex(p):
    return (key(p[0]), key(p[1]))


def edges_of(pairs):
    return frozenset(frozenset((vertex(a), vertex(b))) for a, b in pairs)


def ring_of(points):
    return edges_of(ring_edges(points))


def parts_of(parts):
    return {(ring_of(b), frozenset(map(ring_of, hs))) for b, hs in parts}


def points_of(contour):
    return [(v.x, v.y) for v in contour.vertices]


def read_parts(ns, value):
    if isinstance(value, ns.Polygon):
        polygons = [value]
    else:
        need(isinstance(value, ns.Multipolygon),
             f'result of type {type(value).__name__}')
        polygons = list(value.polygons)
    return [
        (points_of(p.border), [points_of(h) for h in p.holes])
        for p in polygons
    ]


def check_parts(ns, value, expected):
    got = read_parts(ns, value)
    need(len(got) == len(expected),
         f'{len(got)} polygons, expected {len(expected)}')
    need(parts_of(got) == parts_of(expected),
         'the polygons are not the expected ones')


def check_pieces(ns, value, expected):
    """Pieces up to vertices within straight stretches."""
    need(isinstance(value, (ns.Multisegment, ns.Contour)),
         f'result of type {type(value).__name__}')
    pairs = [((s.start.x, s.start.y), (s.end.x, s.end.y))
             for s in value.segments]
    need(len(edges_of(pairs)) == len(pairs), 'a piece is given twice')
    keep = {vertex(p) for e in expected for p in e}
    ends = {}
    for a, b in pairs:
        ends.setdefault(vertex(a), []).append((a, b))
        ends.setdefault(vertex(b), []).append((b, a))
    result, seen = [], set()
    for v, leaving in ends.items():
        if v not in keep:
            continue
        for a, b in leaving:
            first = a
            while vertex(b) not in keep:
                others = [e for e in ends[vertex(b)]
                          if vertex(e[1]) != vertex(a)]
                need(len(others) == 1, f'vertex {b} is not expected')
                c = others[0][1]
                need((b[0] - a[0]) * (c[1] - b[1])
                     == (b[1] - a[1]) * (c[0] - b[0]),
                     f'vertex {b} is not expected')
                a, b = b, c
                seen.add(vertex(a))
            result.append((first, b))
    need(seen | keep >= set(ends), 'a piece is off the expected ones')
    need(edges_of(result) == edges_of(expected),
         'the pieces are not the expected ones')


# -- scenes
def between(low, high):
    return lambda t: [(t - low, 4), (t - high, 1)]


def turned(points, k):
    points = points[k:] + points[:k]
    return points[::-1] if k % 2 else points


def shaped_scene(op, swap, k):
    def fn(ns, p, hint, cache):
        f, t = ns.F, p[0]
        a = build(ns, ('poly', turned(zigzag(f, TEETH), k), []))
        b = build(ns, ('poly', strip(f, TEETH, t), []))
        if swap:
            a, b = b, a
        r = boolean.apply(op, a, b)
        check_parts(ns, r, shaped_result(op, f, TEETH, t, swap))
        return type(r).__name__

    return Scene(f'giant:{op}{":swap" if swap else ""}~{k}', 1, fn,
                 weight=2000, domain=between(0, 2), family='giant')


def lines_of(ring):
    return ring_edges(ring)


def cut_lines(f, n, t, inside):
    """Parts of the line of teeth under or over the height ``t``."""
    out = []
    for i in range(1, 2 * n, 2):
        i = f(i)
        left, right = (i - t / f(2), t), (i + t / f(2), t)
        if inside:
            out += [(left, (i, f(0))), ((i, f(0)), right)]
        else:
            out += [((i - f(1), f(2)), left), (right, (i + f(1), f(2)))]
    if not inside:
        out += lines_of([(f(0), f(2)), (f(0), f(4)), (f(2 * n), f(4)),
                         (f(2 * n), f(2))])[:3]
    return out


def line_region_scene(op, swap, k):
    def fn(ns, p, hint, cache):
        f, t = ns.F, p[0]
        a = build(ns, ('contour', turned(zigzag(f, TEETH), k)))
        b = build(ns, ('poly', strip(f, TEETH, t), []))
        r = boolean.apply(op, b, a) if swap else boolean.apply(op, a, b)
        check_pieces(ns, r, cut_lines(f, TEETH, t, op == 'and'))
        return type(r).__name__

    return Scene(f'giant:line-{op}{":swap" if swap else ""}~{k}', 1, fn,
                 weight=2000, domain=between(0, 2), family='giant')


def linear_scene(op, k):
    """The line of teeth and a segment through all of the teeth."""

    def fn(ns, p, hint, cache):
        f, t = ns.F, p[0]
        ring = zigzag(f, TEETH)
        a = build(ns, ('contour', turned(ring, k)))
        b = build(ns, ('seg', (f(0), t), (f(2 * TEETH), t)))
        r = boolean.apply(op, a, b)
        if op == 'and':
            need(isinstance(r, ns.Empty), 'the intersection is not empty')
        elif op == 'sub':
            check_pieces(ns, r, ring_edges(ring))
        else:
            xs = [f(0)]
            for i in range(1, 2 * TEETH, 2):
                xs += [f(i) - t / f(2), f(i) + t / f(2)]
            xs.append(f(2 * TEETH))
            check_pieces(
                ns, r,
                cut_lines(f, TEETH, t, True) + cut_lines(f, TEETH, t, False)
                + [((x, t), (y, t)) for x, y in zip(xs, xs[1:])],
            )
        return type(r).__name__

    return Scene(f'giant:{op}~{k}', 1, fn, weight=2000,
                 domain=between(0, 2), family='giant')


def bent(f, n, t):
    return zigzag(f, n, t)


def around(f, n, t):
    return [(f(-1), -t), (f(2 * n + 1), -t), (f(2 * n + 1), f(5)),
            (f(-1), f(5))]


def relation_scene(first, second, other, swap, k):
    """Relation to ``other`` of the teeth, many of which ought to make no
    difference to few of them."""

    def specs(f, n, t):
        a = (first, turned(zigzag(f, n), k), *[[]] * (first == 'poly'))
        b = (second, other(f, n, t), *[[]] * (second == 'poly'))
        return (b, a) if swap else (a, b)

    def fn(ns, p, hint, cache):
        a, b = specs(ns.F, TEETH, p[0])
        r = build(ns, a).relate_to(build(ns, b)).name
        e = relations.expected_relation(
            boolean.Pair(*specs(ns.F, FEW, p[0]), hint, cache)
        )
        need(r == e, f'relate_to gives {r}, the operands are in relation {e}')
        return r

    return Scene(
        f'giant:{first}:{second}:{other.__name__}'
        f'{":swap" if swap else ""}~{k}',
        1, fn, weight=2000, domain=between(-1, 1), family='giant',
    )


def relation_scenes(first, second, quick, offset=0):
    out = []
    for i, other in enumerate((bent, around, strip)):
        for swap in (False, True):
            if quick and (i + swap + offset) % 2:
                continue
            out.append(relation_scene(first, second, other, swap, 2 + i))
    return out


# -- triangulations: as many triangles, and a look at neighbours only; a mesh
# without overlaps whose edges are locally Delaunay is Delaunay
def sign(v):
    return (v > 0) - (v < 0)


def read_mesh(triangles, points):
    """Directed edge -> opposite vertex, of triangles turned
    counter-clockwise."""
    ids = {vertex(p): i for i, p in enumerate(points)}
    halves = {}
    for k, t in enumerate(triangles):
        corners = [ids.get(vertex(p)) for p in points_of(t)]
        need(len(corners) == 3, f'triangle {k} has {len(corners)} vertices')
        need(None not in corners, f'triangle {k} has a foreign vertex')
        s = sign(orient_value(*[points[i] for i in corners]))
        need(s, f'triangle {k} is degenerate')
        a, b, c = corners if s > 0 else corners[::-1]
        for u, v, w in ((a, b, c), (b, c, a), (c, a, b)):
            need((u, v) not in halves, 'triangles overlap')
            halves[(u, v)] = w
    return halves


def check_mesh(halves, points, boundary):
    got = {e for e in halves if (e[1], e[0]) not in halves}
    need(got == boundary, f'{len(got - boundary)} foreign edges on the '
         f'boundary of the triangles, {len(boundary - got)} missing')
    for (u, v), w in halves.items():
        x = halves.get((v, u))
        if x is not None and u < v:
            need(not in_circle(points[u], points[v], points[w],
                               points[x]) > 0, 'an edge is not Delaunay')


def polygon_mesh_scene(k):
    def fn(ns, p, hint, cache):
        ring = turned(zigzag(ns.F, TEETH, p[0]), k)
        t = ns.ConstrainedDelaunayTriangulation.from_polygon(
            build(ns, ('poly', ring, []))
        )
        halves = read_mesh(t.triangles, ring)
        n = len(ring)
        need(len(halves) == 3 * (n - 2), f'{len(halves) // 3} triangles')
        e = [(i, (i + 1) % n) for i in range(n)]
        check_mesh(halves, ring, {(b, a) if k % 2 else (a, b) for a, b in e})
        need(ring_of(points_of(t.border)) == ring_of(ring),
             'the border is not that of the polygon')
        return ['mesh', n - 2]

    return Scene(f'giant:mesh~{k}', 1, fn, weight=2000,
                 domain=lambda t: [(t * 8 + 1, 4), (t * 8 - 1, 1)],
                 family='giant')


def cloud_scene(moving):
    """A crowd within a triangle."""

    def fn(ns, p, hint, cache):
        f = ns.F
        points = [(f(-400), f(-1)), (f(400), f(-2)), (f(1), f(4 * CROWD))]
        points += [
            (f(x), f(y) + (p[0] if i == moving else f(0)))
            for i, (x, y) in enumerate(
                (7 * i * i % 61 - 30, i + i % 7) for i in range(1, CROWD)
            )
        ]
        t = ns.DelaunayTriangulation.from_points(
            [ns.Point(*q) for q in points]
        )
        halves = read_mesh(t.triangles, points)
        n = len(points)
        need(len(halves) == 3 * (2 * n - 5), f'{len(halves) // 3} triangles')
        check_mesh(halves, points, {(0, 1), (1, 2), (2, 0)})
        need(ring_of(points_of(t.border)) == ring_of(points[:3]),
             'the border is not that of the hull')
        return ['mesh', 2 * n - 5]

    return Scene(f'giant:crowd.{moving}', 1, fn, weight=2000,
                 domain=lambda t: [(t * 64, 4), (t * 64 - 1, 1)],
                 family='giant')


# -- contours, multisegments, boxes, equality
def contour_scene(k):
    """One of the tips rises through the others and the roof."""

    def fn(ns, p, hint, cache):
        t = p[0]
        ring = turned(zigzag(ns.F, TEETH, t), k)
        c = build(ns, ('contour', ring))
        valid = c.is_valid()
        need(valid is (t < 4 and t != 2), f'is_valid() is {valid}')
        if not valid:
            return 'invalid'
        o = c.orientation.name
        need(o == ('CLOCKWISE' if k % 2 else 'COUNTERCLOCKWISE'),
             f'orientation {o}')
        return o

    return Scene(f'giant:contour~{k}', 1, fn, weight=2000,
                 domain=between(-1, 5), family='giant')


def multisegment_scene(k):
    """A segment grows up to an edge and through it."""

    def fn(ns, p, hint, cache):
        f, t = ns.F, p[0]
        x = f(TEETH) + f(1) / f(2)
        segments = ring_edges(turned(zigzag(f, TEETH), k))
        segments.insert(k, ((x, t), (x, f(-2))))
        valid = build(ns, ('mseg', segments)).is_valid()
        if t != 1:
            need(valid is (t < 1), f'is_valid() is {valid}')
        return valid

    return Scene(f'giant:multisegment~{k}', 1, fn, weight=2000,
                 domain=between(-1, 3), family='giant')


def box_scene(kind, k):
    def fn(ns, p, hint, cache):
        f, t = ns.F, p[0]
        ring = turned(zigzag(f, TEETH, t), k)
        g = build(ns, {'poly': ('poly', ring, []), 'contour': ('contour', ring),
                       'mseg': ('mseg', ring_edges(ring))}[kind])
        b = g.bounding_box
        need(b.min_x == 0 and b.max_x == 2 * TEETH
             and b.min_y == (t if t < 0 else f(0))
             and b.max_y == (t if t > 4 else f(4)),
             'the bounding box is not the smallest one')
        return 'box'

    return Scene(f'giant:box:{kind}~{k}', 1, fn, weight=900, family='giant')


def equality_scene(kind, k):
    def fn(ns, p, hint, cache):
        f, t = ns.F, p[0]
        spec = lambda ring: {
            'poly': ('poly', ring, []), 'contour': ('contour', ring),
            'mseg': ('mseg', ring_edges(ring))}[kind]
        a = build(ns, spec(zigzag(f, TEETH)))
        b = build(ns, spec(turned(zigzag(f, TEETH, t), k)))
        need((a == b) is (t == 0) and (b == a) is (t == 0)
             and (a != b) is not (t == 0),
             'equality is not that of the point sets')
        if t == 0:
            need(hash(a) == hash(b), 'hashes of equal geometries differ')
        return a == b

    return Scene(f'giant:equality:{kind}~{k}', 1, fn, weight=900,
                 domain=between(-1, 2), family='giant')
