"""Topological relation of regions"""
from vlib import giants
from vlib.catalog import (
    HUGE_SPECS, LARGE_SPECS, PINCH_SPECS, RICH_SPECS, SHAPED_SPECS, SPREAD_SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, free_scene, huge_scenes, large_scenes,
    pair_scene, pairings, pivot_scenes,
    rail_scenes, rich_scenes, spread_scenes, thinned,
)
from vlib.relate_checks import check_relation as check

NAMES = list(SHAPED_SPECS)
SPREAD = list(SPREAD_SPECS)
from props.shaped_ops import ASSUMPTIONS, BOUNDS  # noqa: E402,F401


def scenes(tier):
    out = []
    if tier == 'quick':
        for p in thinned(pairings(NAMES, NAMES, LINE_NAMES, 1, 3), 60, 1):
            out.append(pair_scene('line', p, check))
        for p in thinned(pairings(NAMES, NAMES, WARP_NAMES, 1, 2), 14, 1):
            out.append(pair_scene('warp', p, check))
        planes = [('tri', 'tri2'), ('sq', 'tri')]
    else:
        for p in pairings(NAMES, NAMES, LINE_NAMES):
            out.append(pair_scene('line', p, check))
        for p in pairings(NAMES, NAMES, WARP_NAMES):
            out.append(pair_scene('warp', p, check))
        for p in pairings(NAMES[:6], NAMES, ['plane', 'widen', 'slide',
                                              'zoom'], 1):
            out.append(pair_scene('plane2', p, check, 10))
        planes = [(a, b) for a in NAMES[:8] for b in NAMES[:8]]
    for a, b in planes:
        for p in pairings([a], [b], ['plane']):
            out.append(pair_scene('plane', p, check, 10))
    fixed = NAMES[::3] if tier == 'quick' else NAMES
    for i, a in enumerate(fixed):
        frees = ['tri*', 'tri*v', 'quad*', 'hole*']
        if tier == 'quick':
            frees = [frees[i % 4]]
        for f in frees:
            out.append(free_scene('free', a, f, check, swap=bool(i & 1),
                                  shift=(1, 1), k=i % 4))
    quick = tier == 'quick'
    pinch, rich = list(PINCH_SPECS), list(RICH_SPECS)
    for p in pairings(pinch, pinch, LINE_NAMES + WARP_NAMES,
                      1 if quick else None, 5):
        out.append(pair_scene('pinch', p, check))
    poor = ['sq', 'tri2', 'dia', 'mp2', 'mpt']
    out += rich_scenes('rich', rich, poor, check, quick, 2)
    out += rich_scenes('rich', poor, rich, check, quick, 2, 1)
    if not quick:
        out += rich_scenes('rich', rich, rich, check, True, 1)
    large = list(LARGE_SPECS)
    out += large_scenes('', large, ['sq', 'tri2'], check, quick)
    out += large_scenes('', ['L'], large, check, quick, 0, 2)
    huge = [(a, b) for a in HUGE_SPECS for b in ('sq', 'tri2')]
    huge += [(b, a) for a, b in huge]
    out += huge_scenes('', huge, check)
    out += giants.relation_scenes('poly', 'poly', quick)
    out += spread_scenes('', SPREAD, SPREAD, check, quick)
    out += rail_scenes('rail', NAMES, ('tri', 'box', 'tri', 'box')[:4 if quick
                       else 2], check, quick, free=())
    out += rail_scenes('rail', rich, ('tri', 'box'), check, quick, 1, free=())
    out += pivot_scenes('pivot', NAMES, ('wedge',) * (2 if quick else 1),
                        check, quick)
    return out
