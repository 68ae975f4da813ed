"""Scene families: which operands are put together and what is symbolic."""
from __future__ import annotations

from . import boolean
from .arrangement import orient_value
from .catalog import (
    ALL_SPECS, HUGE_LINEAR_SPECS, HUGE_SPECS, LARGE_LINEAR_SPECS, LARGE_SPECS,
    LINES, WARPS, lift, plane, reorder,
)
from .driver import Scene
from .explore import Infeasible
from .shapes import build, describe, map_spec, need, spec_edges

SPECS = {**ALL_SPECS, **LARGE_SPECS, **LARGE_LINEAR_SPECS, **HUGE_SPECS,
         **HUGE_LINEAR_SPECS}
FAMILIES = {k: (1, f, ()) for k, f in LINES.items()}
FAMILIES.update({k: (1, f, d) for k, (f, d) in WARPS.items()})
FAMILIES.update({
    # every position in the plane
    'plane': (2, plane, ()),
    # every position along the abscissa and every positive width
    'widen': (
        2, lambda q, p: (p[0] * q[0] + p[1], q[1]),
        lambda *p: [(p[0], 4)],
    ),
    # every position along the ordinate and every horizontal shear
    'slide': (2, lambda q, p: (q[0] + p[0] * q[1], q[1] + p[1]), ()),
    # every size and every position along the diagonal
    'zoom': (
        2, lambda q, p: (p[0] * q[0] + p[1], p[0] * q[1] + p[1]),
        lambda *p: [(p[0], 4)],
    ),
})
FAMILIES.update({
    f'at{x}': (
        1, lambda q, p, x=x: (q[0] + p[0] + x, q[1] + p[0] + 1),
        lambda *p: [(p[0], 6), (1 - p[0], 4)],
    )
    for x in (3, 33, 65)
})
LINE_NAMES = list(LINES)
WARP_NAMES = list(WARPS)


def assume(condition):
    """A precondition of the property: other paths are not its business."""
    if not condition:
        raise Infeasible('precondition')


class Pairing:
    """Operand ``a`` as it stands, operand ``b`` moved by the family."""

    def __init__(self, a, b, family, ka=0, kb=0, swap=False):
        self.a, self.b, self.family = a, b, family
        self.ka, self.kb, self.swap = ka, kb, swap
        self.nparams, self.place, self.domain = FAMILIES[family]
        self.name = (
            f'{a}{"~%d" % ka if ka else ""}:{b}{"~%d" % kb if kb else ""}'
            f':{family}{":swap" if swap else ""}'
        )

    def specs(self, ns, p):
        sa = lift(ns, reorder(SPECS[self.a], self.ka))
        sb = lift(
            ns, reorder(SPECS[self.b], self.kb), lambda q: self.place(q, p)
        )
        return (sb, sa) if self.swap else (sa, sb)


def pairings(first, second, families, per_pair=None, offset=0, variants=True,
             swap=False):
    """Pairs of operands with ``per_pair`` of the families each (rotating)."""
    out = []
    i = offset
    for a in first:
        for b in second:
            chosen = (
                families if per_pair is None else
                [families[(i * per_pair + j + i // len(families))
                          % len(families)] for j in range(per_pair)]
            )
            for f in dict.fromkeys(chosen):
                k = (i * 7 + len(out) * 3) if variants else 0
                out.append(
                    Pairing(a, b, f, k % 4 if variants else 0,
                            (k // 4) % 4 if variants else 0,
                            swap and bool((i + len(out)) & 1))
                )
            i += 1
    return out


def size(spec):
    return len(spec_edges(spec))


def thinned(pairs, limit, offset=0):
    """Keep every pair of small operands and a share of the larger ones."""
    out = []
    for i, p in enumerate(pairs):
        n = size(SPECS[p.a]) * size(SPECS[p.b])
        step = max(1, round(n / limit))
        if (i + offset) % step == 0:
            out.append(p)
    return out


def pair_scene(prefix, pairing, check, weight=1.0):
    """``check(ns, sa, sb, hint, cache)`` -> outcome"""

    def fn(ns, p, hint, cache):
        sa, sb = pairing.specs(ns, p)
        return check(ns, sa, sb, hint, cache)

    return Scene(
        f'{prefix}:{pairing.name}', pairing.nparams, fn,
        domain=pairing.domain, weight=weight * 30 ** (pairing.nparams - 1),
        family=f'{prefix}:{pairing.family}',
    )


RICH_FAMILIES = ['h', 'g', 'v', 'd', 's']


def rich_scenes(prefix, first, second, check, quick, step, offset=0):
    """Large operands: every ``step``-th pair in the quick tier."""
    return [
        pair_scene(prefix, p, check, 5)
        for i, p in enumerate(pairings(
            first, second, RICH_FAMILIES, 1 if quick else None, offset,
        ))
        if not quick or (i + offset) % step == 0
    ]


def spread_scenes(prefix, first, second, check, quick, step=1, offset=0):
    """Operands most parts of which are away from the other one: every
    ``step``-th pair, along one line each, in the quick tier."""
    return [
        pair_scene(f'{prefix}spread', p, check, 2)
        for i, p in enumerate(pairings(
            first, second, LINE_NAMES if quick else LINE_NAMES + WARP_NAMES,
            1 if quick else None, offset,
        ))
        if not quick or (i + offset) % step == 0
    ]


def large_scenes(prefix, first, second, check, quick, offset=0, step=1):
    """Operands of some 40 edges along lines."""
    return [
        pair_scene(f'{prefix}large', p, check, 100)
        for i, p in enumerate(pairings(
            first, second, LINE_NAMES, 1 if quick else 4, offset,
        ))
        if not quick or (i + offset) % step == 0
    ]


def huge_scenes(prefix, pairs, check):
    """Operands of 135 edges and more, the second one (or the first one, when
    that is the small one) on one unit of a line."""
    out = []
    for i, (a, b) in enumerate(pairs):
        swap = size(SPECS[a]) < size(SPECS[b])
        if swap:
            a, b = b, a
        out.append(pair_scene(
            f'{prefix}huge',
            Pairing(a, b, f'at{(65, 33, 3)[i % 3]}', 0, 0, swap), check, 300,
        ))
    return out


# -- one free vertex: both coordinates of it are symbolic
class Free:
    """``ring`` with vertex ``index`` replaced by the two parameters, in a
    shape made by ``wrap``; ``domain`` keeps the shape valid."""

    def __init__(self, name, make, domain=(), nparams=2):
        self.name, self.make, self.domain = name, make, domain
        self.nparams = nparams


def _side(mask, a, b):
    def f(*p):
        from .scalar import S

        a_, b_ = [tuple(S(v) for v in q) for q in (a, b)]
        return [(orient_value(a_, b_, (p[0], p[1])), mask)]

    return f


def _and(*fs):
    return lambda *p: [x for f in fs for x in f(*p)]


FREE = {
    # a triangle with an arbitrary third vertex (either orientation)
    'tri*': Free(
        'tri*', lambda p: ('poly', [(0, 0), (4, 1), (p[0], p[1])], []),
        _side(5, (0, 0), (4, 1)),
    ),
    'tri*v': Free(
        'tri*v', lambda p: ('poly', [(0, 0), (0, 4), (p[0], p[1])], []),
        _side(5, (0, 0), (0, 4)),
    ),
    # a quadrangle with a vertex anywhere beyond its diagonal
    'quad*': Free(
        'quad*',
        lambda p: ('poly', [(0, 0), (4, 0), (4, 4), (p[0], p[1])], []),
        _and(_side(4, (0, 0), (4, 4)), _side(5, (0, 0), (4, 0)),
             _side(5, (4, 0), (4, 4))),
    ),
    # a square with a triangular hole one vertex of which is free inside
    'hole*': Free(
        'hole*',
        lambda p: ('poly', [(0, 0), (6, 0), (6, 6), (0, 6)],
                   [[(1, 1), (p[0], p[1]), (2, 1)]]),
        _and(_side(4, (1, 1), (2, 1)),
             lambda *p: [(p[0], 6), (p[0] - 6, 3), (p[1] - 6, 3)]),
    ),
    'seg*': Free(
        'seg*', lambda p: ('seg', (0, 1), (p[0], p[1])),
        None,
    ),
    'ms*': Free(
        'ms*',
        lambda p: ('mseg', [((0, 0), (4, 0)), ((0, 0), (p[0], p[1]))]),
        _side(5, (0, 0), (4, 0)),
    ),
    'ctri*': Free(
        'ctri*', lambda p: ('contour', [(0, 0), (4, 1), (p[0], p[1])]),
        _side(5, (0, 0), (4, 1)),
    ),
    # an arbitrary segment: four parameters
    'seg**': Free(
        'seg**', lambda p: ('seg', (p[0], p[1]), (p[2], p[3])), None,
        nparams=4,
    ),
}
FREE['seg*'].domain = ()
FREE['seg**'].domain = ()


def free_scene(prefix, a, free, check, swap=False, weight=1.0, shift=(0, 0),
               k=0):
    """Fixed catalogue operand ``a`` against a shape with a free vertex."""
    free = FREE[free]

    def fn(ns, p, hint, cache):
        sa = lift(ns, reorder(SPECS[a], k),
                  lambda q: (q[0] + shift[0], q[1] + shift[1]))
        spec = free.make(p)
        if spec[0] == 'seg':
            assume(not (p_eq(ns, spec[1], spec[2])))
        sb = lift(ns, spec)
        if swap:
            sa, sb = sb, sa
        return check(ns, sa, sb, hint, cache)

    return Scene(
        f'{prefix}:{a}{"~%d" % k if k else ""}@{shift[0]},{shift[1]}'
        f':{free.name}{":swap" if swap else ""}',
        free.nparams, fn, domain=free.domain, weight=weight * 40,
        family=f'{prefix}:{free.name}',
    )


def p_eq(ns, p, q):
    return ns.F(p[0]) == q[0] and ns.F(p[1]) == q[1]


# -- rails: an operand that lies along an edge of the other one
def _rail(kind, u, v, p, q, side):
    """A shape with a side from the ``p``-th to the ``q``-th part of uv."""
    dx, dy = v[0] - u[0], v[1] - u[1]
    start = (u[0] + dx * p, u[1] + dy * p)
    end = (u[0] + dx * q, u[1] + dy * q)
    nx, ny = (dy, -dx) if side < 0 else (-dy, dx)
    # a vertex off the rail, halfway of the edge
    apex = ((u[0] * 2 + dx + nx) / 2, (u[1] * 2 + dy + ny) / 2)
    far = (end[0] + dx * 2, end[1] + dy * 2)
    if kind == 'bar':
        return ('seg', start, end)
    if kind == 'barf':
        return ('mseg', [(apex, end), (start, end)])
    if kind == 'col':
        return ('mseg', [(start, end), (far, end)])
    if kind == 'colv':
        return ('mseg', [(end, apex), (end, far), (start, end)])
    if kind == 'dash':
        return ('mseg', [(start, end), (apex, far)])
    if kind == 'tent':
        return ('contour', [start, end, apex])
    if kind == 'tri':
        return ('poly', [start, end, apex], [])
    top = [(q[0] + nx, q[1] + ny) for q in (end, start)]
    if kind == 'hut':
        return ('contour', [start, end, *top])
    if kind == 'box':
        return ('poly', [start, end, *top], [])
    raise ValueError(kind)


# where the end of the rail that does not move is
STOPS = ((0, 1), (1, 3), (1, 1), (-1, 2), (1, 2), (3, 2))


def rail_scene(prefix, a, index, kind, stop, side, check, swap=False, k=0):
    """``stop`` None: both ends of the rail are anywhere on the line of the
    edge; otherwise one end is there, and the other one anywhere."""
    u, v = spec_edges(SPECS[a])[index]
    nparams = 2 if stop is None else 1

    def fn(ns, p, hint, cache):
        F = ns.F
        sa = lift(ns, reorder(SPECS[a], k))
        first = p[1] if stop is None else F(stop[0]) / stop[1]
        spec = _rail(
            kind, (F(u[0]), F(u[1])), (F(v[0]), F(v[1])), first, p[0], side
        )
        return check(ns, *((spec, sa) if swap else (sa, spec)), hint, cache)

    def domain(*p):
        if stop is None:
            return [(p[0] - p[1], 4 if kind in ('col', 'colv') else 5)]
        d = p[0] * stop[1] - stop[0]
        # the pieces of a chain follow one another: the first one is in front
        return [(d, 4 if kind in ('col', 'colv') else 5)]

    return Scene(
        f'{prefix}:{a}{"~%d" % k if k else ""}.{index}:{kind}'
        f'{"" if stop is None else "@%d/%d" % stop}'
        f'{"-" if side < 0 else "+"}{":swap" if swap else ""}',
        nparams, fn, domain=domain, weight=20 if stop is None else 1,
        family=f'{prefix}:{kind}',
    )


def rail_scenes(prefix, names, kinds, check, quick, offset=0, swap=None,
                free=('bar',), most=10 ** 9):
    """Every shape of ``names`` in turn with something along its edges; in
    the quick tier one edge, one kind and one stop of each (rotating), except
    for the kinds in ``free``, both ends of which are free."""
    out = []
    i = offset
    for a in names:
        n = len(spec_edges(SPECS[a]))
        for j, kind in enumerate(kinds):
            both = kind in free
            edges = [(i * 5 + j) % n] if quick else range(n)
            if n > most and (i + j) % 2 and quick:
                edges = []
            for e in edges:
                i += 1
                for stop in (
                    [None] if both else
                    [STOPS[i % len(STOPS)]] if quick else STOPS[:4]
                ):
                    for side in (
                        (1,) if kind == 'bar' else
                        ((1, -1)[(i // 2) % 2],) if quick else (1, -1)
                    ):
                        i += 1
                        out.append(rail_scene(
                            prefix, a, e, kind, stop, side, check,
                            bool((i // 3) & 1) if swap is None else swap,
                            i % 4,
                        ))
            i += 1
    return out


def chain_rail_scenes(prefix, names, check, quick, offset=0, swaps=(False,)):
    """A segment from any point to any other one of the line of a chain, with
    the pieces of the chain in several orders."""
    out = []
    for i, a in enumerate(names, offset):
        for swap in swaps:
            for k in (0, 1 + i % 3) if quick else range(4):
                for index in (0, 1) if a == 'colx' else (0,):
                    out.append(rail_scene(
                        prefix, a, index, 'bar', None, 1, check, swap, k
                    ))
    return out


# -- pivots: an operand with a vertex in common, turned about it
PIVOT_RAYS = ((1, 0), (0, 1), (-1, 1), (2, -1), (-1, -2), (-1, 0), (0, -1))


def _pivot(kind, v, w, part, ray, t):
    """A shape with the vertex ``v``, a side along vw, the other one turned:
    its end moves along a line past ``v``."""
    side = (v[0] + (w[0] - v[0]) * part, v[1] + (w[1] - v[1]) * part)
    end = (v[0] + ray[0] - ray[1] * t, v[1] + ray[1] + ray[0] * t)
    if kind == 'spoke':
        return ('seg', v, end)
    if kind == 'elbow':
        return ('mseg', [(side, v), (v, end)])
    return ('contour' if kind == 'cwedge' else 'poly', [side, v, end], [])[
        :2 if kind == 'cwedge' else 3]


def pivot_scene(prefix, a, index, kind, part, ray, check, swap=False, k=0):
    v, w = spec_edges(SPECS[a])[index]
    if k & 1:
        v, w = w, v

    def fn(ns, p, hint, cache):
        F = ns.F
        sa = lift(ns, reorder(SPECS[a], k))
        spec = _pivot(
            kind, (F(v[0]), F(v[1])), (F(w[0]), F(w[1])),
            F(part[0]) / part[1], ray, p[0],
        )
        if kind != 'spoke':
            assume(orient_value(*spec_points3(spec)) != 0)
        return check(ns, *((spec, sa) if swap else (sa, spec)), hint, cache)

    return Scene(
        f'{prefix}:{a}{"~%d" % k if k else ""}.{index}:{kind}'
        f'@{part[0]}/{part[1]}/{ray[0]},{ray[1]}{":swap" if swap else ""}',
        1, fn, family=f'{prefix}:{kind}',
    )


def spec_points3(spec):
    if spec[0] == 'mseg':
        return spec[1][0][0], spec[1][0][1], spec[1][1][1]
    return spec[1][:3]


PARTS = ((1, 1), (1, 2), (3, 2))


def pivot_scenes(prefix, names, kinds, check, quick, offset=0, swap=None):
    out = []
    i = offset
    for a in names:
        n = len(spec_edges(SPECS[a]))
        for j, kind in enumerate(kinds):
            for e in [(i * 3 + j) % n] if quick else range(n):
                i += 1
                for part in [PARTS[i % 3]] if quick else PARTS:
                    for ray in (
                        [PIVOT_RAYS[(i * 2 + j) % 7]] if quick else
                        PIVOT_RAYS[:4]
                    ):
                        i += 1
                        out.append(pivot_scene(
                            prefix, a, e, kind, part, ray, check,
                            bool((i // 3) & 1) if swap is None else swap,
                            i % 4,
                        ))
            i += 1
    return out


# -- the checks shared by several properties
def checked_shaped(op):
    def check(ns, sa, sb, hint, cache):
        x, y = build(ns, sa), build(ns, sb)
        r = boolean.apply(op, x, y)
        pair = boolean.Pair(sa, sb, hint, cache)
        boolean.check_shaped(ns, pair, op, r)
        return describe(ns, r)

    return check


def checked_linear(op):
    def check(ns, sa, sb, hint, cache):
        x, y = build(ns, sa), build(ns, sb)
        r = boolean.apply(op, x, y)
        pair = boolean.Pair(sa, sb, hint, cache)
        boolean.check_linear(ns, pair, op, r)
        return describe(ns, r)

    return check
