"""Delaunay triangulation of a set of points"""
from vlib import giants
from vlib.driver import Scene
from vlib.meshes import check_delaunay

BOUNDS = (
    'sets of 1 to 30 points (grids, cocircular, collinear, clusters, '
    'duplicates) with one point at every rational point of the plane, with '
    'two points moving along lines, clouds of 10 to 30 points with one of '
    'them moving along a line, of 100, 120 and 1052 points with one moving a little, and 1 to 3 points all but one coordinate '
    'of which are symbolic (up to four parameters)'
)
ASSUMPTIONS = []
SETS = {
    'one': [(0, 0)],
    'two': [(0, 0), (4, 1)],
    'twov': [(0, 0), (0, 3)],
    'three': [(0, 0), (4, 0), (1, 3)],
    'line3': [(0, 0), (2, 0), (4, 0)],
    'vline3': [(0, 0), (0, 2), (0, 4)],
    'diag3': [(0, 0), (2, 2), (4, 4)],
    'square': [(0, 0), (2, 0), (2, 2), (0, 2)],
    'line4': [(0, 0), (2, 1), (4, 2), (6, 3)],
    'kite': [(0, 0), (4, 1), (3, 5), (-2, 3)],
    'dup': [(0, 0), (0, 0), (3, 1), (3, 1), (1, 3)],
    'pent': [(0, 0), (4, 0), (5, 3), (2, 5), (-1, 3)],
    'grid5': [(0, 0), (2, 0), (0, 2), (2, 2), (1, 1)],
    'cocirc6': [(5, 0), (-5, 0), (0, 5), (0, -5), (3, 4), (-3, -4)],
    'grid6': [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)],
    'col6': [(0, 0), (0, 1), (0, 2), (3, 0), (3, 1), (3, 2)],
    'mixed7': [(0, 0), (6, 0), (0, 6), (6, 6), (3, 2), (2, 4), (4, 3)],
    'tri7': [(0, 0), (2, 0), (4, 0), (6, 0), (0, 3), (0, 6), (3, 3)],
    'grid8': [(0, 0), (1, 0), (2, 0), (0, 1), (2, 1), (0, 2), (1, 2), (2, 2)],
}


def cloud(n, seed, w, h):
    # n points of the (2w + 1) x (2h + 1) lattice, by a linear congruence
    state, out = seed, []
    while len(out) < n:
        state = (state * 1103515245 + 12345) % 2 ** 31
        x = (state >> 8) % (2 * w + 1) - w
        state = (state * 1103515245 + 12345) % 2 ** 31
        y = (state >> 8) % (2 * h + 1) - h
        if (x, y) not in out:
            out.append((x, y))
    return out


# clouds in which merging of two parts removes several edges in a row
CLOUDS = {
    'tall10': cloud(10, 1, 3, 20), 'tall10b': cloud(10, 2, 3, 20),
    'tall11': cloud(11, 3, 4, 24), 'tall12': cloud(12, 4, 3, 20),
    'tall13': cloud(13, 5, 3, 30),
    'wide10': cloud(10, 6, 20, 3), 'wide12': cloud(12, 7, 24, 3),
    'round10': cloud(10, 8, 12, 12), 'round12': cloud(12, 9, 12, 12),
    'wide30': cloud(30, 10, 40, 8), 'tall24': cloud(24, 11, 5, 60),
    'lattice12': [(x, y) for x in range(4) for y in range(3)],
}

HUGE = {'wide120': cloud(120, 12, 90, 30), 'tall100': cloud(100, 13, 9, 200)}


def scene(name, tag, nparams, points, domain=(), weight=1.0):
    def fn(ns, p, hint, cache):
        F = ns.F
        pts = []
        for q in points(F, p):
            pts.append(tuple(F(v) if isinstance(v, int) else v for v in q))
        return check_delaunay(ns, pts, hint)

    return Scene(f'{tag}:{name}', nparams, fn, domain=domain,
                 weight=weight * 20 ** (nparams - 1), family=tag)


def insert(base, i, q):
    i %= len(base) + 1
    return list(base[:i]) + [q] + list(base[i:])


def scenes(tier):
    quick = tier == 'quick'
    out = []
    for i, (name, base) in enumerate(SETS.items()):
        n = len(base)
        limit = 6 if quick else 8
        # one point anywhere
        if n <= limit:
            out.append(scene(
                name, 'free', 2,
                lambda F, p, base=base, i=i: insert(base, i, (p[0], p[1])),
                weight=n,
            ))
        # one point along a line
        for j, (dx, dy, cx, cy) in enumerate(
            ((1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 0, 0), (1, 2, 0, 0),
             (2, -1, 3, 1), (1, 0, 0, 0), (0, 1, 0, 0))
        ):
            if quick and (i + j) % 3 and n > 5:
                continue
            out.append(scene(
                name, f'line{j}', 1,
                lambda F, p, base=base, i=i, d=(dx, dy, cx, cy): insert(
                    base, i + 1,
                    (p[0] * F(d[0]) + F(d[2]), p[0] * F(d[1]) + F(d[3])),
                ), weight=n,
            ))
        # two points at once
        for j, d in enumerate(((1, 0, 0, 1, -1, 2), (1, 1, 0, -1, 1, 3))):
            if quick and (i + j) % 2 and n > 4:
                continue
            out.append(scene(
                name, f'pair{j}', 1,
                lambda F, p, base=base, i=i, d=d: insert(
                    insert(base, i, (p[0] * F(d[0]) + F(d[1]),
                                     p[0] * F(d[2]))),
                    i + 2, (p[0] * F(d[3]) + F(d[4]), F(d[5]) + p[0])
                ), weight=n,
            ))
        # the whole set sheared / squeezed
        if n >= 3:
            for tag, f in (
                ('shear', lambda q, p: (q[0] + p[0] * q[1], q[1])),
                ('sheary', lambda q, p: (q[0], q[1] + p[0] * q[0])),
                ('squeeze', lambda q, p: (q[0], p[0] * q[1])),
                ('squeezex', lambda q, p: (p[0] * q[0], q[1])),
            ):
                out.append(scene(
                    name, tag, 1,
                    lambda F, p, base=base, f=f: [
                        f((F(x), F(y)), p) for x, y in base
                    ], weight=n,
                ))
    for i, (name, base) in enumerate(CLOUDS.items()):
        n = len(base)
        for j, f in enumerate((
            lambda q, p: (q[0] + p[0], q[1]),
            lambda q, p: (q[0], q[1] + p[0]),
            lambda q, p: (q[0] + p[0], q[1] + p[0] * 3),
        )):
            # one of the points moves along a line
            step = 25 if n > 13 else 12 if j == 2 else 6
            for k in range((i + j) % 5, n, step if quick else 1):
                out.append(scene(
                    f'{name}.{k}', f'cloud{j}', 1,
                    lambda F, p, base=base, f=f, k=k: [
                        f((F(x), F(y)), p) if m == k else (x, y)
                        for m, (x, y) in enumerate(base)
                    ], domain=(
                        (lambda p: [(p + 3, 6), (p - 3, 3)]) if quick else ()
                    ), weight=2 * n,
                ))
        if n <= 13 and (not quick or i % 3 == 0):
            for tag, f in (
                ('shear', lambda q, p: (q[0] + p[0] * q[1], q[1])),
                ('squeeze', lambda q, p: (q[0], p[0] * q[1])),
            ):
                out.append(scene(
                    name, tag, 1,
                    lambda F, p, base=base, f=f: [
                        f((F(x), F(y)), p) for x, y in base
                    ], domain=lambda p: [(p * 2 + 1, 6), (p * 2 - 3, 3)],
                    weight=20 * n,
                ))
    for i, (name, base) in enumerate(HUGE.items()):
        for k in (i, len(base) // 2) if quick else range(
                i, len(base), 7):
            out.append(scene(
                f'{name}.{k}', 'cloud0', 1,
                lambda F, p, base=base, k=k: [
                    (F(x) + p[0], F(y) + p[0]) if m == k else (x, y)
                    for m, (x, y) in enumerate(base)
                ], domain=lambda p: [(p, 6), (p * 16 - 1, 3)], weight=900,
            ))
    # arbitrary points
    out.append(scene('two', 'any', 4, lambda F, p: [(p[0], p[1]),
                                                    (p[2], p[3])]))
    out.append(scene('three', 'any', 4, lambda F, p: [
        (p[0], p[1]), (0, 0), (p[2], p[3])]))
    out.append(scene('four', 'any3', 3, lambda F, p: [
        (p[0], p[1]), (0, 0), (4, 1), (2, p[2])]))
    if not quick:
        out.append(scene('four', 'any', 4, lambda F, p: [
            (p[0], p[1]), (0, 0), (4, 1), (p[2], p[3])]))
        out.append(scene('five', 'any3', 3, lambda F, p: [
            (p[0], p[1]), (0, 0), (4, 1), (2, p[2]), (1, 4)]))
    for k in (50, 700) if quick else range(3, giants.CROWD, 99):
        out.append(giants.cloud_scene(k))
    return out
