"""Building inputs through the public API and reading results back."""
from __future__ import annotations


class Violation(Exception):
    """The code under test broke the property on this path."""


def need(condition, message):
    if not condition:
        raise Violation(message)


# A shape spec is plain data over (x, y) pairs:
#   ('seg', p, q) | ('mseg', [(p, q), ...]) | ('contour', [p, ...])
#   ('poly', [p, ...], [[p, ...], ...]) | ('mpoly', [(border, holes), ...])
#   ('empty',)


def build(ns, spec):
    kind = spec[0]
    P = ns.Point
    if kind == 'empty':
        return ns.Empty()
    if kind == 'seg':
        return ns.Segment(P(*spec[1]), P(*spec[2]))
    if kind == 'mseg':
        return ns.Multisegment(
            [ns.Segment(P(*p), P(*q)) for p, q in spec[1]]
        )
    if kind == 'contour':
        return ns.Contour([P(*p) for p in spec[1]])
    if kind == 'poly':
        return _polygon(ns, spec[1], spec[2])
    if kind == 'mpoly':
        return ns.Multipolygon([_polygon(ns, b, h) for b, h in spec[1]])
    raise ValueError(kind)


def _polygon(ns, border, holes):
    P = ns.Point
    return ns.Polygon(
        ns.Contour([P(*p) for p in border]),
        [ns.Contour([P(*p) for p in h]) for h in holes],
    )


def map_spec(spec, f):
    """Apply f to every point of a spec."""
    kind = spec[0]
    if kind == 'empty':
        return spec
    if kind == 'seg':
        return ('seg', f(spec[1]), f(spec[2]))
    if kind == 'mseg':
        return ('mseg', [(f(p), f(q)) for p, q in spec[1]])
    if kind == 'contour':
        return ('contour', [f(p) for p in spec[1]])
    if kind == 'poly':
        return (
            'poly', [f(p) for p in spec[1]],
            [[f(p) for p in h] for h in spec[2]],
        )
    return (
        'mpoly',
        [
            ([f(p) for p in b], [[f(p) for p in h] for h in hs])
            for b, hs in spec[1]
        ],
    )


def ring_edges(ring):
    return [(ring[i], ring[(i + 1) % len(ring)]) for i in range(len(ring))]


def spec_edges(spec):
    kind = spec[0]
    if kind == 'empty':
        return []
    if kind == 'seg':
        return [(spec[1], spec[2])]
    if kind == 'mseg':
        return list(spec[1])
    if kind == 'contour':
        return ring_edges(spec[1])
    polys = [(spec[1], spec[2])] if kind == 'poly' else spec[1]
    out = []
    for b, hs in polys:
        out += ring_edges(b)
        for h in hs:
            out += ring_edges(h)
    return out


def spec_points(spec):
    seen = []
    for e in spec_edges(spec):
        seen.append(e[0])
        if spec[0] in ('seg', 'mseg'):
            seen.append(e[1])
    return seen


SHAPED = ('poly', 'mpoly')
LINEAR = ('seg', 'mseg', 'contour')


def xy(p):
    return (p.x, p.y)


def describe(ns, value):
    """Canonical nested data of a public value; scalars stay scalars."""
    if isinstance(value, ns.Point):
        return ['P', value.x, value.y]
    if isinstance(value, ns.Segment):
        return ['S', describe(ns, value.start), describe(ns, value.end)]
    if isinstance(value, ns.Contour):
        return ['C'] + [describe(ns, v) for v in value.vertices]
    if isinstance(value, ns.Multisegment):
        return ['MS'] + [describe(ns, v) for v in value.segments]
    if isinstance(value, ns.Polygon):
        return [
            'PG', describe(ns, value.border),
            [describe(ns, h) for h in value.holes],
        ]
    if isinstance(value, ns.Multipolygon):
        return ['MPG'] + [describe(ns, v) for v in value.polygons]
    if isinstance(value, ns.Box):
        return ['B', value.min_x, value.max_x, value.min_y, value.max_y]
    if isinstance(value, ns.Empty):
        return ['E']
    if isinstance(value, (ns.Location, ns.Orientation, ns.Relation)):
        return str(value.name)
    if isinstance(value, (list, tuple)):
        return [describe(ns, v) for v in value]
    if value is None or isinstance(value, (bool, int, str, ns.F)):
        return value
    return repr(type(value))


def map_scalars(data, cls, f):
    if isinstance(data, cls):
        return f(data)
    if isinstance(data, list):
        return [map_scalars(v, cls, f) for v in data]
    return data
