"""Relations are converse to each other and do not depend on coordinates axes"""
from vlib.catalog import (
    CHAIN_SPECS, HUGE_LINEAR_SPECS, HUGE_SPECS, LARGE_LINEAR_SPECS,
    LARGE_SPECS, SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, free_scene, huge_scenes, large_scenes,
    pair_scene, pairings, pivot_scenes,
    rail_scenes, thinned,
)
from vlib.relations import COMPLEMENT
from vlib.shapes import build, map_spec, need

NAMES = list(SPECS)
BOUNDS = (
    'every ordered pair of 30 geometries of all kinds, one operand moved '
    'along 8 lines (every rational position), scaled, sheared, stretched, '
    'point-mirrored, or with a vertex at every rational point of the plane; '
    'every shape (and 11 chains of collinear segments) with something along '
    'one of its edges or turned about one of its vertices; '
    '5 of 28 to 50 edges with small ones; 5 of 140 with one moved over a '
    'unit of a line; compared with the swapped operands and with both operands mirrored about '
    'each axis and transposed'
)
ASSUMPTIONS = ['Operands are valid.']
MAPS = {
    'mirrored in x': lambda q: (-q[0], q[1]),
    'mirrored in y': lambda q: (q[0], -q[1]),
    'transposed': lambda q: (q[1], q[0]),
    'rotated': lambda q: (-q[1], q[0]),
}


def check(names):
    def fn(ns, sa, sb, hint, cache):
        x, y = build(ns, sa), build(ns, sb)
        r = x.relate_to(y)
        c = y.relate_to(x)
        need(
            c is r.complement and r is c.complement
            and c.name == COMPLEMENT[r.name],
            f'relation {r.name} one way round, {c.name} the other way round',
        )
        for name in names:
            f = MAPS[name]
            m = build(ns, map_spec(sa, f)).relate_to(
                build(ns, map_spec(sb, f))
            )
            need(m is r, f'relation {r.name}, {name}: {m.name}')
        return r.name

    return fn


def scenes(tier):
    quick = tier == 'quick'
    maps = list(MAPS)
    out = []
    for i, p in enumerate(thinned(
        pairings(NAMES, NAMES, LINE_NAMES, 1 if quick else None),
        9 if quick else 10 ** 9,
    )):
        if quick and i % 2:
            continue
        out.append(pair_scene(
            'line', p, check([maps[i % 4]] if quick else maps)))
    for i, p in enumerate(thinned(
        pairings(NAMES, NAMES, WARP_NAMES, 1 if quick else None, 1),
        3 if quick else 10 ** 9,
    )):
        if quick and i % 2:
            continue
        out.append(pair_scene(
            'warp', p, check([maps[i % 4]] if quick else maps)))
    for i, a in enumerate(NAMES[::4] if quick else NAMES):
        for f in (('tri*', 'seg*', 'ms*', 'ctri*')[i % 4],) if quick else (
            'tri*', 'tri*v', 'quad*', 'hole*', 'seg*', 'ms*', 'ctri*'
        ):
            out.append(free_scene('free', a, f, check([maps[i % 4]]),
                                  shift=(1, 1), k=i % 4))
    names = NAMES + list(CHAIN_SPECS)
    for i, kinds in enumerate((('bar', 'tri'), ('col', 'box'), ('tent',),
                               ('hut', 'barf'))):
        out += rail_scenes('rail', names[i % 2::2] if quick else names, kinds,
                           check([maps[i]]), quick, i, free=())
    for i, kind in enumerate(('spoke', 'elbow', 'cwedge', 'wedge')):
        out += pivot_scenes('pivot', names[i % 2::2] if quick else names,
                            [kind], check([maps[i]]), quick, i)
    large = [*LARGE_SPECS, *LARGE_LINEAR_SPECS]
    for i, b in enumerate(('seg', 'sq', 'ms2', 'L')):
        out += large_scenes('', large, [b], check([maps[i]]), quick, i, 2)
    huge = [*HUGE_SPECS, *HUGE_LINEAR_SPECS]
    for i, b in enumerate(('seg', 'sq', 'ms2', 'L')):
        out += huge_scenes('', [
            (a, b) for j, a in enumerate(huge) if not quick or (i + j) % 2
        ], check([maps[i]]))
    return out
