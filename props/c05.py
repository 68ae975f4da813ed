"""Set operations of linear geometries"""
from vlib import giants
from vlib.catalog import (
    CHAIN_SPECS, HUGE_LINEAR_SPECS, LARGE_LINEAR_SPECS, LINEAR_SPECS,
    RICH_LINEAR_SPECS, SPREAD_LINEAR_SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, chain_rail_scenes, checked_linear, free_scene,
    huge_scenes, large_scenes, pair_scene, pairings, pivot_scenes, rail_scenes, rich_scenes,
    spread_scenes, thinned,
)

NAMES = list(LINEAR_SPECS)
SPREAD = list(SPREAD_LINEAR_SPECS)
OPS = ('and', 'or', 'sub', 'xor')
BOUNDS = (
    'operands: 15 segments, multisegments and contours of 1 to 9 segments '
    '(parallel, collinear neighbours, stars, fans, T-junctions, zigzags), '
    'every ordered pair with all four operations; 4 of 7 to 16 segments with 4 '
    'small ones; 2 of 28 and 40; 2 of 140 with small ones moved over '
    'a unit of a line; 1043 edges and a segment of every height across; 5 with parts far apart or in collinear dashes with one '
    'another; 11 chains of collinear segments; a segment from '
    'any point to any other of the line of each; every shape with something along '
    'one of its edges or turned about one of its vertices; one operand moved along 8 '
    'lines (every rational position), scaled, sheared, stretched, '
    'point-mirrored (every rational factor), moved over the whole plane, with '
    'one endpoint at every rational point, or an arbitrary segment; segments '
    'listed in different orders and directions'
)
ASSUMPTIONS = [
    'Operands are valid: segments of a multisegment meet in single points '
    'only, contours are simple without collinear neighbour edges.',
]


def scenes(tier):
    out = []
    for j, op in enumerate(OPS):
        check = checked_linear(op)
        if tier == 'quick':
            for p in thinned(pairings(NAMES, NAMES, LINE_NAMES, 1, 3 * j),
                             20, j):
                out.append(pair_scene(f'{op}-line', p, check))
            for p in thinned(pairings(NAMES, NAMES, WARP_NAMES, 1, j), 4, j):
                out.append(pair_scene(f'{op}-warp', p, check))
            planes = [('seg', 'seg'), ('seg', 'ctri')]
            fixed = NAMES[j::4]
        else:
            for p in pairings(NAMES, NAMES, LINE_NAMES):
                out.append(pair_scene(f'{op}-line', p, check))
            for p in pairings(NAMES, NAMES, WARP_NAMES):
                out.append(pair_scene(f'{op}-warp', p, check))
            planes = [(a, b) for a in NAMES for b in NAMES]
            fixed = NAMES
        for a, b in planes:
            for p in pairings([a], [b], ['plane']):
                out.append(pair_scene(f'{op}-plane', p, check, 10))
        for i, a in enumerate(fixed):
            for f in ('seg*', 'ms*', 'ctri*') if tier != 'quick' else (
                ('seg*', 'ms*', 'ctri*')[(i + j) % 3],
            ):
                out.append(
                    free_scene(f'{op}-free', a, f, check,
                               swap=bool((i + j) & 1), k=i % 4)
                )
        for a in ('seg',) if tier == 'quick' else ('seg', 'segv', 'msx'):
            out.append(free_scene(f'{op}-free', a, 'seg**', check))
        rich, poor = list(RICH_LINEAR_SPECS), ['seg', 'ms2', 'csq', 'zig']
        quick = tier == 'quick'
        out += rich_scenes(f'{op}-rich', rich, poor, check, quick, 4, j)
        out += rich_scenes(f'{op}-rich', poor, rich, check, quick, 4, j + 1)
        if not quick:
            out += rich_scenes(f'{op}-rich', rich, rich, check, True, 1, j)
        large = list(LARGE_LINEAR_SPECS)
        out += large_scenes(f'{op}-', large, ['seg', 'csq'], check, quick, j)
        out += large_scenes(f'{op}-', ['ms2'], large, check, quick, j)
        huge = [(a, b) for a in HUGE_LINEAR_SPECS for b in ('seg', 'csq')]
        huge += [(b, a) for a, b in huge]
        out += huge_scenes(
            f'{op}-', huge[j % 4::3] if quick else huge, check,
        )
        out.append(giants.linear_scene(op, j + 3))
        out += spread_scenes(f'{op}-', SPREAD, SPREAD, check, quick, 3, j)
        # pieces of one line
        chains = list(CHAIN_SPECS)
        out += spread_scenes(f'{op}-', chains, chains, check, quick, 2, 7 * j)
        some = ['seg', 'csq', 'ms2']
        out += spread_scenes(f'{op}-', chains, some, check, quick, 1, 7 * j)
        out += spread_scenes(f'{op}-', some, chains, check, quick, 1, 7 * j)
        out += chain_rail_scenes(f'{op}-chain-rail', chains, check, quick, j,
                                 swaps=(bool(j & 1),))
        out += rail_scenes(f'{op}-rail', chains, ('bar', 'col', 'colv', 'tent'), check,
                           quick, 7 * j + 1, free=('bar', 'col'))
        kinds = ('bar', 'barf', 'dash', 'tent', 'hut', 'col', 'colv')
        out += rail_scenes(f'{op}-rail', NAMES, kinds, check, quick, 7 * j)
        kinds = ('spoke', 'elbow', 'cwedge')
        out += pivot_scenes(f'{op}-pivot', NAMES, kinds, check, quick, 7 * j)
    return out
