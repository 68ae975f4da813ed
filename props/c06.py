"""Intersection and difference of linear geometries with regions"""
from vlib import giants
from vlib.catalog import (
    CHAIN_SPECS, HUGE_LINEAR_SPECS, HUGE_SPECS, LARGE_LINEAR_SPECS,
    LARGE_SPECS, LINEAR_SPECS,
    RICH_LINEAR_SPECS, RICH_SPECS, SHAPED_SPECS,
    SPREAD_LINEAR_SPECS, SPREAD_SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, checked_linear, free_scene, huge_scenes,
    large_scenes, pair_scene, pairings,
    pivot_scenes, rail_scenes, rich_scenes, spread_scenes, thinned,
)

LIN, SHP = list(LINEAR_SPECS), list(SHAPED_SPECS)
# a region is not subtracted from a single segment: unsupported by the API
COMPOUND = [k for k in LIN if LINEAR_SPECS[k][0] != 'seg']
BOUNDS = (
    'operands: 15 segments, multisegments and contours of 1 to 9 segments '
    'against 15 polygons and multipolygons of 3 to 12 edges; 4 of 7 to 16 '
    'segments and 7 regions of up to 36 edges with small ones; 2 '
    'lines and 3 regions of 28 to 50 edges with small ones; 5 of 140 edges with '
    'small ones moved over a unit of a line; 1043 edges and a strip of every height; 5 linear '
    'ones against 4 regions with parts far apart; 11 chains of collinear '
    'segments; something along every edge and turned about every vertex; linear & region, '
    'region & linear, linear - region; one operand moved along 8 lines (every '
    'rational position), scaled, sheared, stretched, point-mirrored, moved '
    'over the whole plane, with one endpoint at every rational point, or an '
    'arbitrary segment (four parameters); different presentations'
)
ASSUMPTIONS = ['Operands are valid.']


def scenes(tier):
    out = []
    for j, (op, first, second) in enumerate(
        (('and', LIN, SHP), ('and', SHP, LIN), ('sub', COMPOUND, SHP))
    ):
        check = checked_linear(op)
        pre = op if first is not SHP else op + 'r'
        if tier == 'quick':
            for p in thinned(pairings(first, second, LINE_NAMES, 1, 3 * j),
                             24, j):
                out.append(pair_scene(f'{pre}-line', p, check))
            for p in thinned(pairings(first, second, WARP_NAMES, 1, j), 6, j):
                out.append(pair_scene(f'{pre}-warp', p, check))
            planes = [(first[0], second[0])]
        else:
            for p in pairings(first, second, LINE_NAMES):
                out.append(pair_scene(f'{pre}-line', p, check))
            for p in pairings(first, second, WARP_NAMES):
                out.append(pair_scene(f'{pre}-warp', p, check))
            planes = [(a, b) for a in first for b in second]
        for a, b in planes:
            for p in pairings([a], [b], ['plane']):
                out.append(pair_scene(f'{pre}-plane', p, check, 10))
        swap = first is not SHP
        fixed = SHP if tier != 'quick' else SHP[j::5]
        for i, a in enumerate(fixed):
            free = ('seg*', 'ms*', 'ctri*')[op == 'sub':]
            for f in free if tier != 'quick' else (
                free[(i + j) % len(free)],
            ):
                out.append(
                    free_scene(f'{pre}-free', a, f, check, swap=swap, k=i % 4)
                )
        quick = tier == 'quick'
        for i, (a, b) in enumerate((
            (list(RICH_LINEAR_SPECS), ['tri', 'ring']),
            (['ms2', 'csq'], list(RICH_SPECS)),
        )):
            if first is SHP:
                a, b = b, a
            out += rich_scenes(f'{pre}-rich', a, b, check, quick, 7, i + j)
        for n, (a, b) in enumerate((
            (list(LARGE_LINEAR_SPECS), ['tri', 'ring']),
            (['ms2', 'csq'], list(LARGE_SPECS)),
        )):
            if first is SHP:
                a, b = b, a
            out += large_scenes(f'{pre}-', a, b, check, quick, n + j)
        huge = [(a, b) for a in HUGE_LINEAR_SPECS for b in ('tri', 'hs')]
        huge += [(b, a) for a in HUGE_SPECS for b in ('ms2', 'csq')]
        if first is SHP:
            huge = [(b, a) for a, b in huge]
        out += huge_scenes(f'{pre}-', huge[j % 2::2] if quick else huge, check)
        out.append(giants.line_region_scene(op, first is SHP, j + 3))
        a, b = list(SPREAD_LINEAR_SPECS), list(SPREAD_SPECS)
        if first is SHP:
            a, b = b, a
        out += spread_scenes(f'{pre}-', a, b, check, quick, 2, j)
        a, b = list(CHAIN_SPECS), ['sq', 'hs', 'mpt', 'L']
        if first is SHP:
            a, b = b, a
        out += spread_scenes(f'{pre}-', a, b, check, quick, 2, j)
        # lines along the edges of a region
        kinds = ('bar', 'barf', 'dash', 'tent', 'hut', 'col',
                 'colv')[op == 'sub':]
        out += rail_scenes(f'{pre}-rail', SHP, kinds, check, quick, 7 * j,
                           swap=first is not SHP)
        kinds = ('spoke', 'elbow', 'cwedge')[op == 'sub':]
        out += pivot_scenes(f'{pre}-pivot', SHP, kinds, check, quick, 7 * j,
                            swap=first is not SHP)
        out += rail_scenes(f'{pre}-rail', list(RICH_SPECS), ('barf', 'tent'),
                           check, quick, 7 * j, swap=first is not SHP)
        # a region along the edges of a line
        names = COMPOUND if op == 'sub' else LIN
        out += rail_scenes(f'{pre}-rail', names, ('tri', 'box'), check, quick,
                           7 * j + 1, swap=first is SHP)
        out += pivot_scenes(f'{pre}-pivot', names, ('wedge',), check, quick,
                            7 * j + 1, swap=first is SHP)
        if op == 'sub':
            continue
        for a in ('tri',) if tier == 'quick' else ('tri', 'sq', 'tri2', 'L'):
            out.append(free_scene(f'{pre}-free', a, 'seg**', check, swap=swap))
    return out
