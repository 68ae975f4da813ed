"""Oracles for the set operations."""
from __future__ import annotations

from .arrangement import Arrangement
from .shapes import LINEAR, SHAPED, Violation, need, spec_edges, xy

OPS = {
    'and': lambda a, b: a and b,
    'or': lambda a, b: a or b,
    'sub': lambda a, b: a and not b,
    'xor': lambda a, b: a != b,
}


def apply(op, first, second):
    if op == 'and':
        return first & second
    if op == 'or':
        return first | second
    if op == 'sub':
        return first - second
    return first ^ second


class Group:
    """Operands put into one arrangement (built once per path)."""

    def __init__(self, specs, hint, cache=None):
        self.specs = dict(zip('ABCDE', specs))
        self.hint = hint
        self.arr = Arrangement(
            [(k, *e) for k, spec in self.specs.items()
             for e in spec_edges(spec)],
            cache,
        )
        self.edges = {
            k: [s for s in self.arr.segs if s.label == k] for k in self.specs
        }
        self.subs = list(self.arr.subs.values())
        self._in = {}

    def sides(self, sub, label):
        """(left inside, right inside) of region ``label``."""
        key = (sub.key, label)
        r = self._in.get(key)
        if r is None:
            edges = self.edges[label]
            on = sum(1 for s, _ in sub.carriers if s.label == label)
            left = self.arr.inside(sub, +1, edges)
            # crossing the sub-edge itself flips parity once per carrier
            r = self._in[key] = (left, left != bool(on & 1))
        return r

    def covered(self, sub, label):
        return any(s.label == label for s, _ in sub.carriers)


class Pair(Group):
    def __init__(self, spec_a, spec_b, hint, cache=None):
        self.a, self.b = spec_a, spec_b
        super().__init__([spec_a, spec_b], hint, cache)


def expected_of(group, f):
    """Sub-edges on the border of the region ``f`` of the regions."""
    out = set()
    for sub in group.subs:
        sides = [group.sides(sub, k) for k in group.specs]
        if f(*(s[0] for s in sides)) != f(*(s[1] for s in sides)):
            out.add(sub.key)
    return out


def expected_lines_of(group, f, first_only=True):
    """Sub-edges of the line ``f`` of lines and regions: ``f`` is asked for
    either side of a sub-edge (a line is there on both of them)."""
    lines = [k for k, s in group.specs.items() if s[0] not in SHAPED]
    out = set()
    for sub in group.subs:
        if not any(group.covered(sub, k) for k in lines):
            continue
        sides = [
            (group.covered(sub, k),) * 2 if k in lines
            else group.sides(sub, k) for k in group.specs
        ]
        if f(*sides):
            out.add(sub.key)
    return out


def expected_shaped(pair, op):
    f = OPS[op]
    out = set()
    for sub in pair.subs:
        la, ra = pair.sides(sub, 'A')
        lb, rb = pair.sides(sub, 'B')
        if f(la, lb) != f(ra, rb):
            out.add(sub.key)
    return out


def expected_linear(pair, op):
    """Sub-edges of the (1-dimensional, regularised) result."""
    f = OPS[op]
    a_shaped, b_shaped = pair.a[0] in SHAPED, pair.b[0] in SHAPED
    out = set()
    for sub in pair.subs:
        ina = (
            any(pair.sides(sub, 'A')) if a_shaped else pair.covered(sub, 'A')
        )
        inb = (
            any(pair.sides(sub, 'B')) if b_shaped else pair.covered(sub, 'B')
        )
        # a sub-edge of the shaped operand alone is never part of it
        if f(ina, inb):
            if (a_shaped and not pair.covered(sub, 'B')) or (
                b_shaped and not pair.covered(sub, 'A')
            ):
                continue
            out.add(sub.key)
    return out


def ring_keys(pair, contour, where):
    """Match a result contour with the arrangement -> list of sub-edge keys,
    in order; checks that it is a simple ring without redundant vertices."""
    arr = pair.arr
    vertices = [xy(v) for v in contour.vertices]
    need(len(vertices) >= 3, f'{where}: contour with {len(vertices)} vertices')
    nodes = []
    for v in vertices:
        n = arr.node_of(v, pair.hint)
        need(n is not None, f'{where}: vertex {v} is not an input vertex or an intersection of edges')
        nodes.append(n)
    keys, lines, visited = [], [], []
    for i, u in enumerate(nodes):
        v = nodes[(i + 1) % len(nodes)]
        need(u != v, f'{where}: repeated vertex')
        chain = arr.chain(u, v)
        need(chain is not None, f'{where}: edge {vertices[i]} -> {vertices[(i + 1) % len(nodes)]} is not made of input edges')
        keys += chain
        lines.append(arr.subs[chain[0]].line)
        pos = lines[-1].pos
        a, b = pos[u], pos[v]
        step = 1 if b > a else -1
        visited += [lines[-1].nodes[k] for k in range(a, b, step)]
    for i, ln in enumerate(lines):
        need(
            ln is not lines[i - 1],
            f'{where}: redundant collinear vertex {vertices[i]}',
        )
    need(
        len(set(visited)) == len(visited),
        f'{where}: contour touches or crosses itself',
    )
    return keys


def check_shaped(ns, pair, op, result, expected=None):
    arr = pair.arr
    if expected is None:
        expected = expected_shaped(pair, op)
    if isinstance(result, ns.Empty):
        need(not expected, f'{op}: result is empty, expected a region with {len(expected)} boundary pieces')
        return
    if isinstance(result, ns.Polygon):
        polygons = [result]
    else:
        need(isinstance(result, ns.Multipolygon), f'{op}: result of type {type(result).__name__}')
        polygons = list(result.polygons)
        need(len(polygons) >= 2, f'{op}: multipolygon with {len(polygons)} polygons')
    used = []
    structure = []
    for k, polygon in enumerate(polygons):
        where = f'{op}: polygon {k}'
        border = ring_keys(pair, polygon.border, where + ' border')
        holes = [
            ring_keys(pair, h, where + f' hole {j}')
            for j, h in enumerate(polygon.holes)
        ]
        structure.append((border, holes))
        used += border
        for h in holes:
            used += h
    need(len(set(used)) == len(used), f'{op}: result boundaries overlap each other')
    got = set(used)
    if got != expected:
        missing, extra = expected - got, got - expected
        raise Violation(
            f'{op}: region differs: {len(missing)} boundary pieces missing, '
            f'{len(extra)} wrong; '
            + _show(arr, missing or extra)
        )
    if len(structure) == 1 and not structure[0][1]:
        return
    # nesting
    for k, (border, holes) in enumerate(structure):
        for j, hole in enumerate(holes):
            sub = arr.subs[hole[0]]
            need(
                arr.inside_ring(sub, 1, border),
                f'{op}: hole {j} of polygon {k} lies outside its border',
            )
            for i, other in enumerate(holes):
                if i != j:
                    need(
                        not arr.inside_ring(sub, 1, other),
                        f'{op}: hole {j} of polygon {k} lies inside hole {i}',
                    )
        sub = arr.subs[border[0]]
        for m, (border2, holes2) in enumerate(structure):
            if m != k and arr.inside_ring(sub, 1, border2):
                need(
                    any(arr.inside_ring(sub, 1, h) for h in holes2),
                    f'{op}: polygons {k} and {m} overlap',
                )


def _show(arr, keys):
    k = sorted(keys)[0]
    p, q = arr.points[k[0]], arr.points[k[1]]
    return f'e.g. ({p[0]}, {p[1]}) - ({q[0]}, {q[1]})'


def check_linear(ns, pair, op, result, expected=None, valid=True):
    arr = pair.arr
    if expected is None:
        expected = expected_linear(pair, op)
    if isinstance(result, ns.Empty):
        need(not expected, f'{op}: result is empty, expected {len(expected)} pieces, ' + (_show(arr, expected) if expected else ''))
        return
    if isinstance(result, ns.Segment):
        segments = [result]
    else:
        need(
            isinstance(result, (ns.Multisegment, ns.Contour)),
            f'{op}: result of type {type(result).__name__}',
        )
        segments = list(result.segments)
        need(len(segments) >= 2, f'{op}: multisegment with {len(segments)} segments')
    used = []
    spans = []
    for s in segments:
        nodes = []
        for v in (xy(s.start), xy(s.end)):
            n = arr.node_of(v, pair.hint)
            need(n is not None, f'{op}: endpoint {v} is not an input vertex or an intersection of edges')
            nodes.append(n)
        need(nodes[0] != nodes[1], f'{op}: degenerate segment')
        chain = arr.chain(*nodes)
        need(chain is not None, f'{op}: segment {xy(s.start)} - {xy(s.end)} is not made of input edges')
        used += chain
        spans.append((chain, nodes))
    need(len(set(used)) == len(used), f'{op}: result segments overlap each other')
    got = set(used)
    if got != expected:
        missing, extra = expected - got, got - expected
        raise Violation(
            f'{op}: point set differs: {len(missing)} pieces missing, '
            f'{len(extra)} wrong; ' + _show(arr, missing or extra)
        )
    if valid:
        # no two segments cross at a point interior to both
        through = {}
        for i, (chain, ends) in enumerate(spans):
            for key in chain:
                for n in key:
                    if n not in ends:
                        need(
                            through.setdefault(n, i) == i,
                            f'{op}: result segments cross at a point that is not an endpoint',
                        )
