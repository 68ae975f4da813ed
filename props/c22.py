"""Sequences of operations give the set they denote"""
from vlib import boolean
from vlib.catalog import (
    ALL_SPECS, LINEAR_SPECS, LINES, PINCH_SPECS, SHAPED_SPECS, WARPS, lift,
    reorder,
)
from vlib.driver import Scene
from vlib.families import FAMILIES
from vlib.shapes import SHAPED, build, describe, need

SHP, LIN, PIN = list(SHAPED_SPECS), list(LINEAR_SPECS), list(PINCH_SPECS)
BOUNDS = (
    'sequences of two to five operations on two or three operands: 21 regions '
    'with each other, 15 linear geometries with each other, linear geometries '
    'with one or two regions; one operand moved along 8 lines (every rational '
    'position), scaled, sheared, stretched or point-mirrored (deeper tier: '
    'over the whole plane); different presentations'
)
ASSUMPTIONS = ['Operands are valid.']

# name: (program, set it denotes)
TWO = {
    'split': (lambda a, b: (a - b) | (a & b), lambda a, b: a),
    'undo': (lambda a, b: (a | b) - b, lambda a, b: a and not b),
    'xor1': (lambda a, b: (a - b) | (b - a), lambda a, b: a != b),
    'xor2': (lambda a, b: (a | b) - (a & b), lambda a, b: a != b),
    'rest': (lambda a, b: (a - b) & b, lambda a, b: False),
    'absorb1': (lambda a, b: a & (a | b), lambda a, b: a),
    'absorb2': (lambda a, b: a | (a & b), lambda a, b: a),
    'twice': (lambda a, b: (a ^ b) ^ b, lambda a, b: a),
    'minus': (lambda a, b: a - (a - b), lambda a, b: a and b),
    'unxor': (lambda a, b: (a ^ b) & a, lambda a, b: a and not b),
}
THREE = {
    'and': (lambda a, b, c: (a & b) & c, lambda a, b, c: a and b and c),
    'or': (lambda a, b, c: a | (b | c), lambda a, b, c: a or b or c),
    'xor': (lambda a, b, c: (a ^ b) ^ c, lambda a, b, c: (a != b) != c),
    'xorr': (lambda a, b, c: a ^ (b ^ c), lambda a, b, c: (a != b) != c),
    'sub': (lambda a, b, c: (a - b) - c, lambda a, b, c: a and not b and not c),
    'subr': (lambda a, b, c: a - (b - c), lambda a, b, c: a and (not b or c)),
    'dist1': (lambda a, b, c: a & (b | c), lambda a, b, c: a and (b or c)),
    'dist2': (lambda a, b, c: a | (b & c), lambda a, b, c: a or (b and c)),
    'dist3': (lambda a, b, c: (a | b) & c, lambda a, b, c: (a or b) and c),
    'cut': (lambda a, b, c: (a - b) | c, lambda a, b, c: (a and not b) or c),
}


def any_side(f):
    """A set made of regions only, closed: present on either side."""
    return lambda *sides: f(*(s[0] for s in sides)) or f(
        *(s[1] for s in sides)
    )


# a line (first) and one or two regions; the difference of a line with a
# region leaves out what is inside of it or on its border
WITH = {
    'split': (lambda a, b: (a - b) | (a & b), lambda a, b: a[0]),
    'rest': (lambda a, b: (a - b) & b, lambda a, b: False),
    'inner': (lambda a, b: (a & b) - b, lambda a, b: False),
    'minus': (lambda a, b: a - (a - b), lambda a, b: a[0] and any(b)),
    'back': (lambda a, b: a - (a & b), lambda a, b: a[0] and not any(b)),
    'swap': (lambda a, b: b & (b & a), lambda a, b: a[0] and any(b)),
}
WITH2 = {
    'subor': (lambda a, b, c: a - (b | c),
              lambda a, b, c: a[0] and not (any(b) or any(c))),
    'subsub': (lambda a, b, c: (a - b) - c,
               lambda a, b, c: a[0] and not (any(b) or any(c))),
    'andor': (lambda a, b, c: a & (b | c),
              lambda a, b, c: a[0] and (any(b) or any(c))),
    'andsub': (lambda a, b, c: (a & b) - c,
               lambda a, b, c: a[0] and any(b) and not any(c)),
    'andand': (lambda a, b, c: (c & a) & b,
               lambda a, b, c: a[0] and any(b) and any(c)),
    'andcut': (lambda a, b, c: a & (b - c), lambda a, b, c: a[0] and (
        (b[0] and not c[0]) or (b[1] and not c[1]))),
    'andxor': (lambda a, b, c: a & (b ^ c), lambda a, b, c: a[0] and (
        b[0] != c[0] or b[1] != c[1])),
    'andboth': (lambda a, b, c: a & (b & c), lambda a, b, c: a[0] and (
        (b[0] and c[0]) or (b[1] and c[1]))),
}
TABLES = {'two': TWO, 'three': THREE, 'with': WITH, 'with2': WITH2}


def scene(table, law, names, families, ks, weight=1.0):
    """The first operand stands still, the others are moved."""
    program, denoted = TABLES[table][law]
    nparams, place, domain = FAMILIES[families[0]]
    fixed = [p for p in families[1:]]

    def fn(ns, p, hint, cache):
        specs = []
        for i, name in enumerate(names):
            spec = reorder(ALL_SPECS[name], ks[i])
            if i == 1:
                specs.append(lift(ns, spec, lambda q: place(q, p)))
            elif i == 2:
                # at a fixed place off the axes
                specs.append(lift(ns, spec, lambda q: (
                    q[0] + fixed[0][0], q[1] + fixed[0][1])))
            else:
                specs.append(lift(ns, spec))
        geometries = [build(ns, s) for s in specs]
        try:
            r = program(*geometries)
        except TypeError as e:
            # an intermediate result that is a single segment
            if table in ('with', 'with2') and str(e).startswith(
                "unsupported operand type(s) for -: 'Segment' and "
            ):
                return 'unsupported'
            raise
        group = boolean.Group(specs, hint, cache)
        lines = any(s[0] not in SHAPED for s in specs)
        if not lines:
            boolean.check_shaped(
                ns, group, law, r, boolean.expected_of(group, denoted))
            if law in ('split', 'absorb1', 'absorb2', 'twice'):
                a = geometries[0]
                need(r.relate_to(a) is ns.Relation.EQUAL,
                     f'{law}: the result is {r.relate_to(a).name} to the '
                     'operand')
        else:
            f = denoted
            if table in ('two', 'three'):
                f = lambda *sides: denoted(*(s[0] for s in sides))
            boolean.check_linear(
                ns, group, law, r, boolean.expected_lines_of(group, f))
        return describe(ns, r)

    name = f'{table}:{law}:' + ':'.join(
        f'{n}~{k}' if k else n for n, k in zip(names, ks)
    ) + f':{families[0]}'
    return Scene(name, nparams, fn, domain=domain,
                 weight=weight * 30 ** (nparams - 1),
                 family=f'{table}:{law}')


ONE = list(LINES) + list(WARPS)
OFFSETS = [(1, 1), (0, 0), (2, -1), (-1, 2)]


def scenes(tier):
    quick = tier == 'quick'
    out = []
    n = 0

    def add(table, names, laws, families):
        nonlocal n
        for law in laws:
            for family in families:
                n += 1
                ks = [(n + i) % 4 for i in range(len(names))]
                out.append(scene(table, law, names,
                                 [family, OFFSETS[n % 4]], ks))

    t2, t3, w1, w2 = map(list, (TWO, THREE, WITH, WITH2))
    i = 0
    for a in SHP + PIN:
        for b in SHP + PIN:
            if (a in PIN) is not (b in PIN):
                continue
            i += 1
            size = len(str(ALL_SPECS[a])) * len(str(ALL_SPECS[b]))
            if quick and (size > 5000 or i % 3):
                continue
            laws = [t2[(i // 3) % len(t2)]] if quick else t2
            fams = [ONE[i % len(ONE)]] if quick else [
                ONE[i % len(ONE)], ONE[(i + 5) % len(ONE)]]
            add('two', [a, b], laws, fams)
    for a in LIN:
        for b in LIN:
            i += 1
            laws = [t2[i % len(t2)]] if quick else t2
            fams = [ONE[(i // 3) % len(ONE)]] if quick else [
                ONE[i % len(ONE)], ONE[(i + 5) % len(ONE)]]
            add('two', [a, b], laws, fams)
    small = ['tri', 'tri2', 'sq', 'mpt', 'L', 'ring', 'dia', 'mp2']
    for a in small:
        for b in small:
            i += 1
            if quick and i % 3:
                continue
            c = small[i % len(small)]
            laws = [t3[i % len(t3)]] if quick else t3
            add('three', [a, b, c], laws, [ONE[(i // 2) % len(ONE)]])
    lin = [k for k in LIN if LINEAR_SPECS[k][0] != 'seg']
    for a in lin:
        for b in lin:
            i += 1
            if quick and i % 4:
                continue
            c = LIN[i % len(LIN)]
            laws = [t3[(i // 4) % len(t3)]] if quick else t3
            add('three', [a, b, c], laws, [ONE[(i // 3) % len(ONE)]])
        for b in SHP:
            i += 1
            if quick and i % 3:
                continue
            laws = [w1[(i // 3) % len(w1)]] if quick else w1
            add('with', [a, b], laws, [ONE[(i // 2) % len(ONE)]])
        for j, b in enumerate(small):
            i += 1
            if quick and i % 3:
                continue
            c = small[(i + j) % len(small)]
            laws = [w2[(i // 3) % len(w2)]] if quick else w2
            add('with2', [a, b, c], laws, [ONE[(i // 2) % len(ONE)]])
    return out
