"""Set operations of regions (polygons and multipolygons), all four."""
from vlib import giants
from vlib.catalog import (
    HUGE_SPECS, LARGE_SPECS, PINCH_SPECS, RICH_SPECS, SHAPED_SPECS, SPREAD_SPECS,
)
from vlib.families import (
    LINE_NAMES, WARP_NAMES, checked_shaped, free_scene, huge_scenes, large_scenes,
    pair_scene,
    pairings, pivot_scenes, rail_scenes, rich_scenes, spread_scenes, thinned,
)

NAMES = list(SHAPED_SPECS)
SPREAD = list(SPREAD_SPECS)
BOUNDS = (
    'operands: 15 polygons and multipolygons of 3 to 12 edges (convex, '
    'concave, with one or two holes, holes touching the border or each other, '
    'disjoint and touching parts, islands in holes), every ordered pair; 6 '
    'shapes touching each other in several vertices; 7 of up to 36 edges with '
    'many holes, parts and levels of nesting with 5 small ones; 4 whose '
    'parts lie far apart; 3 of 40 to 50 edges (teeth, 12 holes, 14 parts); 3 of 138 with a small one '
    'moved over a unit of a line; 1042 teeth '
    'edges and a strip of every height across them (expected results spelled '
    'out, the stack of a program of the user); every shape with another one lying along one of '
    'its edges (from any rational point to any other) or turned about one of '
    'its vertices; one '
    'operand moved along 8 lines (every rational position), scaled, sheared, '
    'stretched, point-mirrored (every rational factor), moved over the whole '
    'plane, or with one vertex at every rational point of the plane; contours '
    'presented clockwise and counter-clockwise from different start vertices'
)
ASSUMPTIONS = [
    'Operands are valid: simple contours without collinear neighbour edges, '
    'holes inside the border and not overlapping, parts of a multipolygon '
    'without common interior or common boundary of positive length.',
]


def scenes(op, tier):
    check = checked_shaped(op)
    offset = dict(zip(('and', 'or', 'sub', 'xor'), range(4)))[op]
    out = []
    if tier == 'quick':
        for p in thinned(
            pairings(NAMES, NAMES, LINE_NAMES, 1, offset * 2), 40, offset
        ):
            out.append(pair_scene('line', p, check))
        for p in thinned(
            pairings(NAMES, NAMES, WARP_NAMES, 1, offset), 7, offset
        ):
            out.append(pair_scene('warp', p, check))
        planes = [('tri', 'tri2'), ('sq', 'tri')]
    else:
        for p in pairings(NAMES, NAMES, LINE_NAMES):
            out.append(pair_scene('line', p, check))
        for p in pairings(NAMES, NAMES, WARP_NAMES):
            out.append(pair_scene('warp', p, check))
        for p in pairings(NAMES[:6], NAMES, ['plane', 'widen', 'slide',
                                              'zoom'], 1):
            out.append(pair_scene('plane2', p, check, 10))
        planes = [(a, b) for a in NAMES[:8] for b in NAMES[:8]]
    for a, b in planes:
        for p in pairings([a], [b], ['plane']):
            out.append(pair_scene('plane', p, check, 10))
    # operands touching in several vertices
    families = ['h0', 'v0', 'd', 'scale', 'shear', 'stretch']
    for p in pairings(list(PINCH_SPECS), list(PINCH_SPECS), families,
                      1 if tier == 'quick' else None, offset):
        out.append(pair_scene('pinch', p, check))
    # many holes and parts
    rich, poor = list(RICH_SPECS), ['sq', 'tri2', 'dia', 'mp2', 'mpt']
    quick = tier == 'quick'
    out += rich_scenes('rich', rich, poor, check, quick, 6, offset)
    out += rich_scenes('rich', poor, rich, check, quick, 6, offset + 1)
    if not quick:
        out += rich_scenes('rich', rich, rich, check, True, 1, offset)
    large = list(LARGE_SPECS)
    out += large_scenes('', large, ['sq', 'tri2'], check, quick, offset)
    out += large_scenes('', ['L'], large, check, quick, offset, 2)
    huge = list(HUGE_SPECS)
    pairs = [(a, b) for a in huge for b in ('sq', 'tri2')]
    pairs += [(b, a) for a, b in pairs]
    out += huge_scenes('', pairs[offset::4] if quick else pairs, check)
    for swap in ((bool(offset % 2),) if quick else (False, True)):
        out.append(giants.shaped_scene(op, swap, offset + 5))
    out += spread_scenes('', SPREAD, SPREAD, check, quick, 2, offset)
    out += rail_scenes('rail', NAMES, ('tri', 'box', 'tri', 'box')[:4 if quick
                       else 2], check, quick, 7 * offset, free=())
    out += rail_scenes('rail', rich, ('box',), check, quick, 7 * offset,
                       free=())
    out += pivot_scenes('pivot', NAMES, ('wedge',) * (2 if quick else 1),
                        check, quick, 7 * offset)
    fixed = ['tri', 'sq', 'L'] if tier == 'quick' else NAMES
    for i, a in enumerate(fixed):
        frees = ['tri*', 'tri*v', 'quad*', 'hole*']
        if tier == 'quick':
            frees = [frees[(i + offset) % 4]]
        for f in frees:
            out.append(
                free_scene('free', a, f, check, swap=bool((i + offset) & 1),
                           shift=(1, 1), k=i % 4)
            )
    return out
