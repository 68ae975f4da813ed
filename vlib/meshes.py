"""Oracles for triangulations."""
from __future__ import annotations

from .arrangement import orient_value, sgn
from .points import on_segment
from .shapes import build, describe, need, ring_edges, spec_edges, xy


def in_circle(a, b, c, d):
    """> 0: d strictly inside the circumcircle of counter-clockwise a, b, c."""
    ax, ay = a[0] - d[0], a[1] - d[1]
    bx, by = b[0] - d[0], b[1] - d[1]
    cx, cy = c[0] - d[0], c[1] - d[1]
    return (
        (ax * ax + ay * ay) * (bx * cy - by * cx)
        - (bx * bx + by * by) * (ax * cy - ay * cx)
        + (cx * cx + cy * cy) * (ax * by - ay * bx)
    )


def distinct(points):
    out = []
    for q in points:
        if not any(q[0] == r[0] and q[1] == r[1] for r in out):
            out.append(q)
    return out


def index_of(points, q, hint):
    # numbers of the same form are equal
    kx, ky = getattr(q[0], 'i', None), getattr(q[1], 'i', None)
    if kx is not None and ky is not None:
        for i, r in enumerate(points):
            if getattr(r[0], 'i', -1) == kx and getattr(r[1], 'i', -1) == ky:
                return i
    hx, hy = hint(q[0]), hint(q[1])
    order = range(len(points))
    if hx is not None:
        order = sorted(
            order,
            key=lambda i: not (
                hint(points[i][0]) == hx and hint(points[i][1]) == hy
            ),
        )
    for i in order:
        if q[0] == points[i][0] and q[1] == points[i][1]:
            return i
    return None


def read_triangles(ns, triangles, points, hint):
    """-> list of counter-clockwise index triples"""
    out = []
    for k, t in enumerate(triangles):
        need(isinstance(t, ns.Contour), f'triangle {k} is not a contour')
        vs = [xy(v) for v in t.vertices]
        need(len(vs) == 3, f'triangle {k} has {len(vs)} vertices')
        ids = [index_of(points, v, hint) for v in vs]
        need(None not in ids, f'triangle {k} has a vertex that is not given')
        need(len(set(ids)) == 3, f'triangle {k} has a repeated vertex')
        s = sgn(orient_value(*[points[i] for i in ids]))
        need(s != 0, f'triangle {k} is degenerate')
        if s < 0:
            ids[1], ids[2] = ids[2], ids[1]
        out.append(tuple(ids))
    return out


def half_edges(triangles):
    """directed edge -> opposite vertex"""
    out = {}
    for a, b, c in triangles:
        for u, v, w in ((a, b, c), (b, c, a), (c, a, b)):
            need((u, v) not in out, 'triangles overlap')
            out[(u, v)] = w
    return out


def check_delaunay(ns, pts, hint):
    t = ns.DelaunayTriangulation.from_points([ns.Point(*q) for q in pts])
    triangles = list(t.triangles)
    points = distinct(pts)
    ids = read_triangles(ns, triangles, points, hint)
    n = len(points)
    flat = n < 3 or all(
        sgn(orient_value(points[0], points[1], q)) == 0 for q in points[2:]
    )
    if flat:
        need(not ids, 'triangles of points on a line')
        return ['flat', n]
    need(bool(ids), 'no triangles')
    halves = half_edges(ids)
    for a, b, c in ids:
        for i in range(n):
            if i not in (a, b, c):
                need(
                    not in_circle(points[a], points[b], points[c],
                                  points[i]) > 0,
                    f'point {i} lies inside of the circumcircle of a triangle',
                )
    boundary = [e for e in halves if (e[1], e[0]) not in halves]
    for u, v in boundary:
        for i in range(n):
            if i not in (u, v):
                need(
                    not orient_value(points[u], points[v], points[i]) < 0,
                    'the triangles do not cover the convex hull',
                )
    check_border(ns, t.border, points, boundary, hint)
    return ['mesh', len(ids), len(boundary)]


def check_border(ns, border, points, boundary, hint):
    """``border`` runs along the boundary edges without redundant vertices."""
    need(isinstance(border, ns.Contour), 'border is not a contour')
    vs = [xy(v) for v in border.vertices]
    ids = [index_of(points, v, hint) for v in vs]
    need(None not in ids, 'border has a vertex that is not given')
    need(len(set(ids)) == len(ids), 'border has a repeated vertex')
    nxt = dict(boundary)
    need(len(nxt) == len(boundary), 'boundary is not a ring')
    start = ids[0]
    need(start in nxt, 'border has a vertex inside')
    ring, u = [start], nxt[start]
    while u != start and len(ring) <= len(boundary):
        ring.append(u)
        need(u in nxt, 'boundary is not a ring')
        u = nxt[u]
    need(len(ring) == len(boundary), 'boundary is not a single ring')
    corners = [
        v for i, v in enumerate(ring)
        if sgn(orient_value(points[ring[i - 1]], points[v],
                            points[ring[(i + 1) % len(ring)]])) != 0
    ]
    k = corners.index(start) if start in corners else None
    need(k is not None, 'border has a redundant vertex')
    corners = corners[k:] + corners[:k]
    need(
        ids == corners or ids == [corners[0]] + corners[:0:-1],
        'border is not the outline of the triangles',
    )


def split_ring(ring, points):
    """Directed edges of a ring, cut at the given points lying on them."""
    out = []
    for a, b in ring_edges(ring):
        ax = 0 if a[0] != b[0] else 1
        d = sgn(b[ax] - a[ax])
        inner = [
            q for q in points
            if sgn(q[ax] - a[ax]) * d > 0 and sgn(b[ax] - q[ax]) * d > 0
            and sgn(orient_value(a, b, q)) == 0
        ]
        chain = [a]
        while inner:
            best = inner[0]
            for q in inner[1:]:
                if sgn(q[ax] - best[ax]) * d < 0:
                    best = q
            inner.remove(best)
            chain.append(best)
        chain.append(b)
        out += list(zip(chain, chain[1:]))
    return out


def area2(ring):
    return sum(
        (a[0] * b[1] - a[1] * b[0] for a, b in ring_edges(ring)[1:]),
        ring[0][0] * ring[1][1] - ring[0][1] * ring[1][0],
    )


def check_constrained(ns, spec, hint):
    """``spec``: a polygon"""
    t = ns.ConstrainedDelaunayTriangulation.from_polygon(build(ns, spec))
    triangles = list(t.triangles)
    points = distinct([a for a, b in spec_edges(spec)])
    ids = read_triangles(ns, triangles, points, hint)
    halves = half_edges(ids)
    boundary = {e for e in halves if (e[1], e[0]) not in halves}
    expected = set()
    for ring, sign in [(spec[1], 1)] + [(h, -1) for h in spec[2]]:
        oriented = ring if sgn(area2(ring)) == sign else ring[::-1]
        for a, b in split_ring(oriented, points):
            expected.add((index_of(points, a, hint),
                          index_of(points, b, hint)))
    missing, extra = expected - boundary, boundary - expected
    need(
        not missing and not extra,
        f'triangles do not tile the polygon: {len(missing)} of its edges '
        f'missing, {len(extra)} foreign boundary edges',
    )
    for (u, v), w in halves.items():
        x = halves.get((v, u))
        if x is not None and u < v:
            need(
                not in_circle(points[u], points[v], points[w], points[x]) > 0,
                'an inner edge is not Delaunay',
            )
    border = [
        (index_of(points, a, hint), index_of(points, b, hint))
        for a, b in split_ring(
            spec[1] if sgn(area2(spec[1])) > 0 else spec[1][::-1], points
        )
    ]
    check_border(ns, t.border, points, border, hint)
    return ['mesh', len(ids), len(boundary)]
