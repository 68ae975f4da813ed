"""Topological relation of linear geometries with regions, both ways round"""
from vlib import giants
from vlib.catalog import (
    CHAIN_SPECS, HUGE_LINEAR_SPECS, HUGE_SPECS, LARGE_LINEAR_SPECS,
    LARGE_SPECS, LINEAR_SPECS,
    RICH_LINEAR_SPECS, RICH_SPECS, SHAPED_SPECS,
    SPREAD_LINEAR_SPECS, SPREAD_SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, free_scene, huge_scenes,
    large_scenes, pair_scene, pairings, pivot_scenes,
    rail_scenes, rich_scenes, spread_scenes, thinned,
)
from vlib.relate_checks import check_relation as check

from props.c06 import ASSUMPTIONS  # noqa: F401

LIN, SHP = list(LINEAR_SPECS), list(SHAPED_SPECS)
BOUNDS = (
    'operands: 15 segments, multisegments and contours of 1 to 9 segments '
    'against 15 polygons and multipolygons of 3 to 12 edges, both ways round; '
    '4 of 7 to 16 segments and 7 regions of up to 36 edges with small ones; '
    '2 lines and 3 regions of 28 to 50 edges with small ones; 5 of 140 '
    'edges with small ones moved over a unit of a line; 1043 edges and a strip, a frame or the same ones but for a vertex; '
    '5 against 4 with parts far apart; 11 chains of collinear segments; '
    'something along every edge and turned about every vertex; '
    'one operand moved along 8 lines (every rational position), scaled, '
    'sheared, stretched, point-mirrored, moved over the whole plane, with one '
    'endpoint at every rational point, or an arbitrary segment (four '
    'parameters); different presentations'
)


def scenes(tier):
    out = []
    quick = tier == 'quick'
    for j, (first, second) in enumerate(((LIN, SHP), (SHP, LIN))):
        pre = ('ls', 'sl')[j]
        for p in thinned(
            pairings(first, second, LINE_NAMES, 1 if quick else None, 3 * j),
            30 if quick else 10 ** 9, j,
        ):
            out.append(pair_scene(f'{pre}-line', p, check))
        for p in thinned(
            pairings(first, second, WARP_NAMES, 1 if quick else None, j),
            8 if quick else 10 ** 9, j,
        ):
            out.append(pair_scene(f'{pre}-warp', p, check))
        planes = (
            [(first[0], second[0]), (first[1], second[2])] if quick else
            [(a, b) for a in first for b in second]
        )
        for a, b in planes:
            for p in pairings([a], [b], ['plane']):
                out.append(pair_scene(f'{pre}-plane', p, check, 10))
        for i, a in enumerate(SHP if not quick else SHP[j::4]):
            for f in ('seg*', 'ms*', 'ctri*') if not quick else (
                ('seg*', 'ms*', 'ctri*')[i % 3],
            ):
                out.append(free_scene(f'{pre}-free', a, f, check,
                                      swap=first is LIN, k=i % 4))
        for a in ('tri',) if quick else ('tri', 'sq', 'tri2', 'L'):
            out.append(free_scene(f'{pre}-free', a, 'seg**', check,
                                  swap=first is LIN))
        for i, (a, b) in enumerate((
            (list(RICH_LINEAR_SPECS), ['tri', 'ring', 'mpt']),
            (['seg', 'ms2', 'csq'], list(RICH_SPECS)),
        )):
            if first is SHP:
                a, b = b, a
            out += rich_scenes(f'{pre}-rich', a, b, check, quick, 4, i + j)
        for n, (a, b) in enumerate((
            (list(LARGE_LINEAR_SPECS), ['tri', 'ring']),
            (['ms2', 'csq'], list(LARGE_SPECS)),
        )):
            if first is SHP:
                a, b = b, a
            out += large_scenes(f'{pre}-', a, b, check, quick, n + j)
        huge = [(a, b) for a in HUGE_LINEAR_SPECS for b in ('tri', 'hs')]
        huge += [(b, a) for a in HUGE_SPECS for b in ('ms2', 'csq')]
        if first is SHP:
            huge = [(b, a) for a, b in huge]
        out += huge_scenes(f'{pre}-', huge[j % 2::2] if quick else huge, check)
        kinds = ('poly', 'contour') if first is SHP else ('contour', 'poly')
        out += giants.relation_scenes(*kinds, quick, j)
        a, b = list(SPREAD_LINEAR_SPECS), list(SPREAD_SPECS)
        if first is SHP:
            a, b = b, a
        out += spread_scenes(f'{pre}-', a, b, check, quick, 1, j)
        a, b = list(CHAIN_SPECS), ['sq', 'hs', 'mpt', 'L']
        if first is SHP:
            a, b = b, a
        out += spread_scenes(f'{pre}-', a, b, check, quick, 1, j)
        # lines along the edges of a region
        kinds = ('bar', 'barf', 'dash', 'tent', 'hut', 'col', 'colv')
        out += rail_scenes(f'{pre}-rail', SHP, kinds, check, quick, 7 * j,
                           swap=first is LIN)
        kinds = ('spoke', 'elbow', 'cwedge')
        out += pivot_scenes(f'{pre}-pivot', SHP, kinds, check, quick, 7 * j,
                            swap=first is LIN)
        out += rail_scenes(f'{pre}-rail', list(RICH_SPECS), ('barf', 'tent'),
                           check, quick, 7 * j, swap=first is LIN)
        # a region along the edges of a line
        out += rail_scenes(f'{pre}-rail', LIN, ('tri', 'box'), check, quick,
                           7 * j + 1, swap=first is SHP)
        out += pivot_scenes(f'{pre}-pivot', LIN, ('wedge',), check, quick,
                            7 * j + 1, swap=first is SHP)
    return out
