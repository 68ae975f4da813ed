"""The empty set, an operand with itself, and unsupported combinations"""
import operator

from vlib import boolean
from vlib.catalog import LINEAR_SPECS, SHAPED_SPECS, SPECS, lift, reorder
from vlib.driver import Scene
from vlib.families import FREE, assume, p_eq, pairings, pair_scene
from vlib.shapes import SHAPED, Violation, build, describe, need

NAMES = list(SPECS)
BOUNDS = (
    'every kind of compound geometry (30 catalogue shapes scaled, sheared, '
    'mirrored, moved over the plane; triangles, quadrangles, holes, segments, '
    'multisegments and contours with a vertex at every rational point; '
    'arbitrary segments): all four operations and the relation with the empty '
    'geometry on either side, with the same object and with an equal one '
    'presented differently; every unsupported pair of kinds'
)
ASSUMPTIONS = ['Operands are valid.']
OPS = dict(zip(('and', 'or', 'sub', 'xor'), (
    operator.and_, operator.or_, operator.sub, operator.xor
)))


def same(first, second):
    return type(first) is type(second) and first == second


def check_empty(ns, x):
    e = ns.Empty()
    for op, (right, left) in dict(
        # x op empty, empty op x
        [('and', ('e', 'e')), ('or', ('x', 'x')), ('sub', ('x', 'e')),
         ('xor', ('x', 'x'))]
    ).items():
        f = OPS[op]
        for got, want, text in ((f(x, e), right, f'x {op} empty'),
                                (f(e, x), left, f'empty {op} x')):
            need(same(got, x if want == 'x' else e),
                 f'{text} is not {"x" if want == "x" else "empty"}')
    need(x.relate_to(e) is ns.Relation.DISJOINT, 'x relates to empty')
    need(e.relate_to(x) is ns.Relation.DISJOINT, 'empty relates to x')
    need(x != e and e != x, 'x equals empty')
    for op, f in OPS.items():
        need(same(f(e, e), e), f'empty {op} empty')
    need(e.relate_to(e) is ns.Relation.EQUAL, 'empty against empty')


def check_self(ns, x, y, sx, hint, cache):
    """``y`` is the same point set (maybe the same object)."""
    e = ns.Empty()
    need(x.relate_to(y) is ns.Relation.EQUAL, 'x is not in relation EQUAL with itself')
    for op in ('sub', 'xor'):
        if op == 'sub' or True:
            r = OPS[op](x, y)
            need(same(r, e), f'x {op} x is {type(r).__name__}, not empty')
    pair = boolean.Pair(sx, sx, hint, cache)
    for op in ('and', 'or'):
        r = OPS[op](x, y)
        if sx[0] in SHAPED:
            boolean.check_shaped(ns, pair, op, r)
        else:
            boolean.check_linear(ns, pair, op, r)
    return describe(ns, r)


def check_empty_scene(ns, sa, sb, hint, cache):
    x = build(ns, sb)
    check_empty(ns, x)
    return 'laws'


def check_self_scene(k):
    def check(ns, sa, sb, hint, cache):
        x = build(ns, sb)
        y = x if k == 0 else build(ns, reorder(sb, k))
        return check_self(ns, x, y, sb, hint, cache)

    return check


def free_alone(name, kind, check):
    free = FREE[name]

    def fn(ns, p, hint, cache):
        spec = free.make(p)
        if spec[0] == 'seg':
            assume(not p_eq(ns, spec[1], spec[2]))
        return check(ns, None, lift(ns, spec), hint, cache)

    return Scene(f'{kind}:{name}', free.nparams, fn, domain=free.domain,
                 weight=50, family=f'{kind}:{name}')


def unsupported(a, b):
    """Combining a linear geometry with a region other than by intersection
    or by subtracting the region from a compound linear geometry."""

    def fn(ns, p, hint, cache):
        f = lambda q: (q[0] + p[0], q[1] - p[0])
        x = build(ns, lift(ns, SPECS[a], f))
        y = build(ns, lift(ns, SPECS[b]))
        for first, second, ops in (
            (x, y, ('or', 'xor') + (('sub',) if SPECS[a][0] == 'seg' else ())),
            (y, x, ('or', 'xor', 'sub')),
        ):
            for op in ops:
                try:
                    r = OPS[op](first, second)
                except TypeError:
                    continue
                raise Violation(
                    f'{type(first).__name__} {op} {type(second).__name__} '
                    f'gives {type(r).__name__}'
                )
        for g in (x, y, ns.Empty()):
            for other in (1, None, 'x', ns.Point(ns.F(0), ns.F(0))):
                for op, f_ in OPS.items():
                    for args in ((g, other), (other, g)):
                        try:
                            f_(*args)
                        except TypeError:
                            continue
                        raise Violation(f'{op} with {other!r} is accepted')
        return 'rejected'

    return Scene(f'unsupported:{a}:{b}', 1, fn, family='unsupported')


def scenes(tier):
    out = []
    quick = tier == 'quick'
    families = ['g', 'scale', 'shear', 'sheary', 'flip', 'stretch', 'plane',
                'widen', 'slide', 'zoom']
    for i, b in enumerate(NAMES):
        for j, p in enumerate(pairings(
            ['seg'], [b], families[i % 5::5] if quick else families
        )):
            out.append(pair_scene('empty', p, check_empty_scene))
            for k in ((i + j) % 4,) if quick else range(4):
                out.append(pair_scene(f'self{k}', p, check_self_scene(k)))
    for f in FREE:
        out.append(free_alone(f, 'empty-free', check_empty_scene))
        for k in (1,) if quick else range(4):
            out.append(free_alone(f, f'self{k}-free', check_self_scene(k)))
    lin = ['seg', 'ms2', 'ctri']
    for a in lin:
        for b in ('tri', 'mp2'):
            out.append(unsupported(a, b))
    return out
