"""Topological relation of linear geometries"""
from vlib import giants
from vlib.catalog import (
    CHAIN_SPECS, HUGE_LINEAR_SPECS, LARGE_LINEAR_SPECS, LINEAR_SPECS,
    RICH_LINEAR_SPECS, SPREAD_LINEAR_SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, chain_rail_scenes, free_scene,
    huge_scenes, large_scenes, pair_scene,
    pairings, pivot_scenes, rail_scenes, rich_scenes, spread_scenes, thinned,
)
from vlib.relate_checks import check_relation as check

from props.c05 import ASSUMPTIONS, BOUNDS  # noqa: F401

NAMES = list(LINEAR_SPECS)
SPREAD = list(SPREAD_LINEAR_SPECS)


def scenes(tier):
    out = []
    quick = tier == 'quick'
    for p in thinned(pairings(NAMES, NAMES, LINE_NAMES, 3 if quick else None),
                     60 if quick else 10 ** 9, 1):
        out.append(pair_scene('line', p, check))
    for p in thinned(pairings(NAMES, NAMES, WARP_NAMES, 1 if quick else None),
                     12 if quick else 10 ** 9, 1):
        out.append(pair_scene('warp', p, check))
    planes = (
        [('seg', 'seg'), ('seg', 'ctri'), ('ms2', 'segr')] if quick else
        [(a, b) for a in NAMES for b in NAMES]
    )
    for a, b in planes:
        for p in pairings([a], [b], ['plane']):
            out.append(pair_scene('plane', p, check, 10))
    for i, a in enumerate(NAMES):
        for f in (('seg*', 'ms*', 'ctri*')[i % 3],) if quick else (
            'seg*', 'ms*', 'ctri*'
        ):
            out.append(free_scene('free', a, f, check, swap=bool(i & 1),
                                  k=i % 4))
    for a in ('seg', 'segv') if quick else ('seg', 'segv', 'msx', 'msp',
                                             'ctri'):
        out.append(free_scene('free', a, 'seg**', check))
    rich, poor = list(RICH_LINEAR_SPECS), ['seg', 'ms2', 'csq', 'zig']
    out += rich_scenes('rich', rich, poor, check, quick, 1)
    out += rich_scenes('rich', poor, rich, check, quick, 1, 1)
    if not quick:
        out += rich_scenes('rich', rich, rich, check, True, 1)
    large = list(LARGE_LINEAR_SPECS)
    out += large_scenes('', large, ['seg', 'csq'], check, quick, 0, 1)
    out += large_scenes('', ['ms2', 'seg'], large, check, quick, 0, 1)
    huge = [(a, b) for a in HUGE_LINEAR_SPECS for b in ('seg', 'csq', 'ms2')]
    huge += [(b, a) for a, b in huge]
    out += huge_scenes('', huge, check)
    out += giants.relation_scenes('contour', 'contour', quick)
    out += spread_scenes('', SPREAD, SPREAD, check, quick)
    # pieces of one line
    chains = list(CHAIN_SPECS)
    out += spread_scenes('', chains, chains, check, quick, 2, 0)
    some = ['seg', 'csq', 'ms2']
    out += spread_scenes('', chains, some, check, quick, 1, 0)
    out += spread_scenes('', some, chains, check, quick, 1, 0)
    out += chain_rail_scenes('chain-rail', chains, check, quick,
                             swaps=(False, True))
    out += rail_scenes('rail', chains, ('bar', 'col', 'colv', 'tent'), check,
                       quick, 0 + 1, free=('bar', 'col'))
    kinds = ('bar', 'barf', 'dash', 'tent', 'hut', 'col', 'colv')
    out += rail_scenes('rail', NAMES, kinds, check, quick)
    kinds = ('spoke', 'elbow', 'cwedge')
    out += pivot_scenes('pivot', NAMES, kinds, check, quick)
    return out
