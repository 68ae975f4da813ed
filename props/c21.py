"""Operations do not depend on presentation and leave operands alone"""
from vlib import boolean
from vlib.catalog import LINEAR_SPECS, SHAPED_SPECS, reorder
from vlib.families import (
    LINE_NAMES, WARP_NAMES, free_scene, pair_scene, pairings, thinned,
)
from vlib.shapes import SHAPED, build, describe, need

LIN, SHP = list(LINEAR_SPECS), list(SHAPED_SPECS)
BOUNDS = (
    'every supported pair of 30 geometries, one operand moved along 8 lines '
    '(every rational position), scaled, sheared, stretched or point-mirrored, '
    'or with a vertex at every rational point: each operation on the operands '
    'as given, presented in one (deeper tier: three) other ways, and swapped '
    'when the operation is commutative; three of up to 17 operations and '
    'queries on the same two objects, in both orders one after the other, '
    'and again on fresh ones'
)
ASSUMPTIONS = ['Operands are valid.']


def same_set(ns, first, second):
    """Regions have one presentation but for order; lines may be divided
    differently."""
    if first == second:
        return True
    lines = (ns.Segment, ns.Multisegment)
    return (
        isinstance(first, lines) and isinstance(second, lines)
        and pieces(first) == pieces(second)
    )


def pieces(line):
    """Point set of a line: its maximal collinear pieces."""
    segments = getattr(line, 'segments', None) or [line]
    todo = [tuple(sorted(((s.start.x, s.start.y), (s.end.x, s.end.y)),
                         key=Key)) for s in segments]
    todo.sort(key=lambda s: (Key(s[0]), Key(s[1])))
    done = []
    while todo:
        a, b = todo.pop(0)
        merged = True
        while merged:
            merged = False
            for c, d in todo:
                if c[0] == b[0] and c[1] == b[1] and (
                    (b[0] - a[0]) * (d[1] - b[1])
                    == (b[1] - a[1]) * (d[0] - b[0])
                ):
                    todo.remove((c, d))
                    b = d
                    merged = True
                    break
        done.append((a, b))
    return sorted(done, key=lambda s: (Key(s[0]), Key(s[1])))


class Key:
    def __init__(self, p):
        self.p = p

    def __eq__(self, other):
        return self.p[0] == other.p[0] and self.p[1] == other.p[1]

    def __lt__(self, other):
        p, q = self.p, other.p
        return p[0] < q[0] or (p[0] == q[0] and p[1] < q[1])


def check(op, ks):
    def fn(ns, sa, sb, hint, cache):
        x, y = build(ns, sa), build(ns, sb)
        before = describe(ns, [x, y])
        hashes = [hash(x), hash(y)] if ns.name == 'real' else None
        r = boolean.apply(op, x, y)
        need(describe(ns, [x, y]) == before, f'{op} changes its operands')
        if hashes:
            need([hash(x), hash(y)] == hashes, f'{op} changes its operands')
        for k in ks:
            for a, b in ((reorder(sa, k), reorder(sb, k + 1)),):
                other = boolean.apply(op, build(ns, a), build(ns, b))
                need(type(other) is type(r) or not shaped(ns, r, other),
                     f'{op}: {type(r).__name__}, presented differently '
                     f'{type(other).__name__}')
                need(same_set(ns, r, other),
                     f'{op} depends on the presentation of the operands')
        if op != 'sub':
            other = boolean.apply(op, y, x)
            need(same_set(ns, r, other), f'{op} is not commutative')
        return describe(ns, r)

    return fn


OPS = ('and', 'or', 'sub', 'xor')


def allowed(op, sa, sb):
    a, b = sa[0] in SHAPED, sb[0] in SHAPED
    if a == b or op == 'and':
        return True
    return op == 'sub' and sa[0] != 'seg' and b


def history(order):
    """Queries and operations on the same two objects, over and over: what
    each of them answers does not depend on what was asked before."""
    def fn(ns, sa, sb, hint, cache):
        x, y = build(ns, sa), build(ns, sb)
        before = describe(ns, [x, y])
        point = y.segments[0].start if hasattr(y, 'segments') else (
            y.start if hasattr(y, 'start') else vertex(y))
        asks = [(f'{op}', lambda op=op: boolean.apply(op, x, y))
                for op in OPS if allowed(op, sa, sb)]
        asks += [(f'swapped {op}', lambda op=op: boolean.apply(op, y, x))
                 for op in ('sub', 'and') if allowed(op, sb, sa)]
        asks += [
            ('relate_to', lambda: x.relate_to(y).name),
            ('swapped relate_to', lambda: y.relate_to(x).name),
            ('locate', lambda: x.locate(point).name),
            ('own locate', lambda: y.locate(point).name),
            ('in', lambda: point in x),
            ('bounding_box', lambda: x.bounding_box),
            ('equality', lambda: x == y),
        ]
        if hasattr(x, 'is_valid'):
            asks.append(('is_valid', lambda: x.is_valid()))
        if sa[0] == 'poly':
            asks += [
                ('Trapezoidation', lambda: ns.Trapezoidation.from_polygon(
                    x, seeder=lambda: 7).locate(point).name),
                ('Triangulation',
                 lambda: ns.ConstrainedDelaunayTriangulation.from_polygon(
                     x).triangles),
            ]
        n = len(asks)
        chosen = [asks[order % n], asks[(order + 5) % n],
                  asks[(order + 6) % n]]
        answers = {}
        for name, ask in (*chosen, *chosen[::-1]):
            answer = ask()
            if name in answers:
                need(same_answer(answer, answers[name]),
                     f'{name} asked again gives another answer')
            answers[name] = answer
            need(describe(ns, [x, y]) == before,
                 f'{name} changes its operands')
        # of equal, fresh objects
        x, y = build(ns, sa), build(ns, sb)
        for name, ask in chosen[1:]:
            need(same_answer(ask(), answers[name]),
                 f'{name} gives another answer for fresh objects')
        return [describe(ns, v) for v in answers.values()]

    return fn


def same_answer(a, b):
    if isinstance(a, list):
        # triangles, in any order
        return len(a) == len(b) and all(t in b for t in a)
    return a == b


def vertex(y):
    y = getattr(y, 'polygons', [y])[0]
    return getattr(y, 'border', y).vertices[0]


def shaped(ns, *values):
    return any(isinstance(v, (ns.Polygon, ns.Multipolygon)) for v in values)


def scenes(tier):
    quick = tier == 'quick'
    out = []
    n = 0
    for pre, first, second, ops, step, limit in (
        ('ss', SHP, SHP, ('and', 'or', 'sub', 'xor'), 3, 30),
        ('ll', LIN, LIN, ('and', 'or', 'sub', 'xor'), 2, 12),
        ('ls', LIN, SHP, ('and', 'sub'), 3, 12),
        ('sl', SHP, LIN, ('and',), 4, 12),
    ):
        for families, cap in ((LINE_NAMES, limit), (WARP_NAMES, limit / 3)):
            for i, p in enumerate(thinned(
                pairings(first, second, families, 1 if quick else 4, n),
                cap if quick else 10 ** 9,
            )):
                n += 1
                if quick and i % step:
                    continue
                for op in (ops[n % len(ops)],) if quick else ops:
                    if op == 'sub' and LINEAR_SPECS.get(p.a, ' ')[0] == 'seg' \
                            and p.b in SHP:
                        continue
                    ks = [1 + n % 3] if quick else [1, 2, 3]
                    s = pair_scene(f'{pre}-{op}', p, check(op, ks))
                    out.append(s)
            for i, p in enumerate(thinned(
                pairings(first, second, families, 1, n), cap,
            )):
                if not quick or (i + n) % (4 * step) == 0:
                    out.append(pair_scene(
                        f'{pre}-history', p, history(i + n), 2,
                    ))
        if pre in ('ss', 'll'):
            frees = (('tri*', 'quad*', 'hole*', 'tri*v') if pre == 'ss' else
                     ('seg*', 'ms*', 'ctri*'))
            for i, a in enumerate(first[::4] if quick else first):
                for j, f in enumerate(frees):
                    if quick and (i + j) % (8 if f == 'tri*v' else 4):
                        continue
                    op = ops[(i + j) % 4]
                    out.append(free_scene(f'{pre}-{op}-free', a, f,
                                          check(op, [1 + (i + j) % 3]),
                                          shift=(1, 1)))
    return out
