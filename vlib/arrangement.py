"""Reference model: the planar arrangement of a set of labelled segments.

Deliberately naive (all pairs, no sweep line, no bounding-box shortcuts) and
written only in terms of ``orient`` signs and orderings along a segment, so
that it introduces no predicates beyond the geometric ones.  Runs on symbolic
and on ordinary rational scalars alike.
"""
from __future__ import annotations


def sgn(v):
    if v > 0:
        return 1
    return -1 if v < 0 else 0


def cross(o, a, b, c):
    """(a - o) x (c - b)"""
    return (a[0] - o[0]) * (c[1] - b[1]) - (a[1] - o[1]) * (c[0] - b[0])


def orient_value(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


class Seg:
    __slots__ = ('label', 'a', 'b', 'ia', 'ib', 'line', 'sub', 'index', 'same')


class Line:
    """A maximal set of collinear input segments."""

    __slots__ = ('segs', 'o', 'e', 'nodes', 'pos', 'axis', 'axis_sign')


class Arrangement:
    """``segments``: iterable of (label, a, b), a and b (x, y) pairs, a != b.

    label is any hashable; several segments may share it.
    """

    def __init__(self, segments, cache=None):
        self.cache = {} if cache is None else cache
        self.segs = []
        self.points = []  # node representative coordinates
        self.parent = []
        self.orients = {}
        for label, a, b in segments:
            s = Seg()
            s.label, s.a, s.b = label, a, b
            s.index = len(self.segs)
            s.ia = self._new_node(a)
            s.ib = self._new_node(b)
            self.segs.append(s)
        self._intersect()
        self._lines()

    # -- nodes with union-find
    def _new_node(self, p):
        self.points.append(p)
        self.parent.append(len(self.parent))
        return len(self.parent) - 1

    def find(self, i):
        p = self.parent
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i

    def union(self, i, j):
        i, j = self.find(i), self.find(j)
        if i != j:
            if i > j:
                i, j = j, i
            self.parent[j] = i

    # -- predicates
    def side(self, s, t, end):
        """orientation sign and value of endpoint ``end`` of t about s"""
        key = (s.index, t.index, end)
        r = self.orients.get(key)
        if r is None:
            v = self.cache.get(key)
            if v is None:
                v = self.cache[key] = orient_value(
                    s.a, s.b, t.b if end else t.a
                )
            r = self.orients[key] = (sgn(v), v)
        return r

    def _axis(self, s):
        if s.a[0] != s.b[0]:
            return 0
        return 1

    def _intersect(self):
        n = len(self.segs)
        self.on = [[] for _ in range(n)]  # nodes on each segment
        self.collinear = [[] for _ in range(n)]
        # crossing (segment index, segment index) -> node id
        self.crossings = {}
        for s in self.segs:
            self.on[s.index] += [s.ia, s.ib]
        for i in range(n):
            s = self.segs[i]
            for j in range(i + 1, n):
                self._pair(s, self.segs[j])

    def _pair(self, s, t):
        o1, v1 = self.side(s, t, 0)
        o2, v2 = self.side(s, t, 1)
        if o1 == 0 and o2 == 0:
            self._collinear_pair(s, t)
            return
        if o1 * o2 > 0:
            return
        o3, v3 = self.side(t, s, 0)
        o4, v4 = self.side(t, s, 1)
        if o3 * o4 > 0:
            return
        # the lines are not parallel here and the segments meet in one point
        if o1 == 0 or o2 == 0:
            node = t.ia if o1 == 0 else t.ib
            if o3 == 0:
                self.union(node, s.ia)
            elif o4 == 0:
                self.union(node, s.ib)
            else:
                self.on[s.index].append(node)
        elif o3 == 0 or o4 == 0:
            self.on[t.index].append(s.ia if o3 == 0 else s.ib)
        else:
            k = v3 / (v3 - v4)
            node = self._new_node(
                (
                    s.a[0] + (s.b[0] - s.a[0]) * k,
                    s.a[1] + (s.b[1] - s.a[1]) * k,
                )
            )
            self.crossings[(s.index, t.index)] = node
            self.on[s.index].append(node)
            self.on[t.index].append(node)

    def _collinear_pair(self, s, t):
        self.collinear[s.index].append(t.index)
        self.collinear[t.index].append(s.index)
        ax = self._axis(s)
        for u, v in ((s, t), (t, s)):
            # endpoints of v on u
            lo, hi = u.a[ax], u.b[ax]
            d = sgn(hi - lo)
            for node, p in ((v.ia, v.a), (v.ib, v.b)):
                x = sgn(p[ax] - lo) * d
                y = sgn(p[ax] - hi) * d
                if x == 0:
                    self.union(node, u.ia)
                elif y == 0:
                    self.union(node, u.ib)
                elif x > 0 > y:
                    self.on[u.index].append(node)

    def _lines(self):
        n = len(self.segs)
        line_of = [None] * n
        self.lines = []
        for i in range(n):
            if line_of[i] is not None:
                continue
            members, stack = [], [i]
            ln = Line()
            line_of[i] = ln
            while stack:
                k = stack.pop()
                members.append(k)
                for m in self.collinear[k]:
                    if line_of[m] is None:
                        line_of[m] = ln
                        stack.append(m)
            members.sort()
            ln.segs = [self.segs[k] for k in members]
            self.lines.append(ln)
            first = ln.segs[0]
            ln.o, ln.e = first.a, first.b
            ln.axis = self._axis(first)
            ln.axis_sign = sgn(ln.e[ln.axis] - ln.o[ln.axis])
            order = []
            for s in ln.segs:
                s.line = ln
                for node in self.on[s.index]:
                    self._insert(ln, order, node)
            ln.nodes = order
        # merging on one line may identify nodes already placed on another
        for ln in self.lines:
            seen = []
            for node in ln.nodes:
                r = self.find(node)
                if r not in seen:
                    seen.append(r)
            ln.nodes = seen
            ln.pos = {node: k for k, node in enumerate(seen)}
        # sub-edges
        self.subs = {}  # (lo node, hi node) in line direction -> Sub
        for ln in self.lines:
            for s in ln.segs:
                p, q = ln.pos[self.find(s.ia)], ln.pos[self.find(s.ib)]
                forward = p < q
                if not forward:
                    p, q = q, p
                for k in range(p, q):
                    key = (ln.nodes[k], ln.nodes[k + 1])
                    sub = self.subs.get(key)
                    if sub is None:
                        sub = self.subs[key] = Sub(ln, k, key)
                    sub.carriers.append((s, forward))

    def _insert(self, ln, order, node):
        node = self.find(node)
        p = self.points[node]
        ax, d = ln.axis, ln.axis_sign
        for k, other in enumerate(order):
            other = self.find(other)
            if other == node:
                return
            c = sgn(p[ax] - self.points[other][ax]) * d
            if c == 0:
                self.union(node, other)
                order[k] = self.find(node)
                return
            if c < 0:
                order.insert(k, node)
                return
        order.append(node)

    # -- region classification
    def inside(self, sub, side, edges):
        """Is the region bounded by ``edges`` (Segs, even-odd) on ``side``
        (+1: left of the line direction, -1: right) of the sub-edge?"""
        s, s_forward = sub.carriers[0]
        # work in the direction of s
        if not s_forward:
            side = -side
        ln = sub.line
        parity = False
        lo, hi = sub.k, sub.k + 1
        for t in edges:
            if t.line is ln:
                continue
            oa, va = self.side(s, t, 0)
            ob, vb = self.side(s, t, 1)
            # perturb the line towards ``side``
            pa = (oa > 0) if side > 0 else (oa >= 0)
            pb = (ob > 0) if side > 0 else (ob >= 0)
            if pa == pb:
                continue
            # where does the crossing lie along s: beyond the sub-edge?
            o3, v3 = self.side(t, s, 0)
            o4, v4 = self.side(t, s, 1)
            if o3 == 0:
                beyond = False
                # crossing at s.a: before everything on s
            elif o4 == 0:
                beyond = True
            elif o3 * o4 < 0:
                if oa == 0:
                    node = t.ia
                elif ob == 0:
                    node = t.ib
                else:
                    i, j = s.index, t.index
                    node = self.crossings[(i, j) if i < j else (j, i)]
                k = ln.pos[self.find(node)]
                if s_forward:
                    beyond = k >= hi
                else:
                    beyond = k <= lo
            else:
                # crossing outside of s: beyond b iff |v4| < |v3|;
                # v4 - v3 has the sign opposite to (vb - va)
                up = pb  # t goes from right to left of s
                # cross(dir s, dir t) > 0 iff up
                diff = -1 if up else 1  # sign(v4 - v3)
                beyond = (diff < 0) if o3 > 0 else (diff > 0)
            if beyond:
                parity = not parity
        return parity

    def line_side(self, ln, node):
        """Side of a node about a line (in line direction)."""
        if node in ln.pos:
            return 0
        memo = self.__dict__.setdefault('_line_side', {})
        key = (id(ln), node)
        r = memo.get(key)
        if r is None:
            r = memo[key] = sgn(orient_value(ln.o, ln.e, self.points[node]))
        return r

    def inside_ring(self, sub, side, keys):
        """As ``inside`` for a region bounded by a set of sub-edges."""
        ln = sub.line
        parity = False
        e0, e1 = sub.key
        for key in keys:
            r = self.subs[key]
            if r.line is ln:
                continue
            wa = self.line_side(ln, key[0])
            wb = self.line_side(ln, key[1])
            pa = (wa > 0) if side > 0 else (wa >= 0)
            pb = (wb > 0) if side > 0 else (wb >= 0)
            if pa == pb:
                continue
            o3 = self.line_side(r.line, e0)
            o4 = self.line_side(r.line, e1)
            if o3 == 0:
                beyond = False
            elif o4 == 0:
                beyond = True
            else:
                assert o3 == o4, 'sub-edges cross'
                beyond = (o3 > 0) == pb
            if beyond:
                parity = not parity
        return parity

    # -- matching foreign points
    def node_of(self, p, hint):
        """The node equal to point ``p``, or None.  ``hint`` evaluates a
        scalar at the path's witness (or returns None): it only orders the
        equality questions, the answers come from the scalars themselves."""
        roots = [i for i in range(len(self.points)) if self.parent[i] == i]
        hx, hy = hint(p[0]), hint(p[1])
        if hx is not None:
            first, rest = [], []
            for r in roots:
                q = self.points[r]
                if hint(q[0]) == hx and hint(q[1]) == hy:
                    first.append(r)
                else:
                    rest.append(r)
            for r in first:
                q = self.points[r]
                if p[0] == q[0] and p[1] == q[1]:
                    return r
            roots = rest
        for r in roots:
            q = self.points[r]
            if p[0] == q[0] and p[1] == q[1]:
                return r
        return None

    def chain(self, u, v):
        """Sub-edge keys forming the straight path u -> v, or None."""
        for ln in self.lines:
            p, q = ln.pos.get(u), ln.pos.get(v)
            if p is None or q is None:
                continue
            if p > q:
                p, q = q, p
            keys = []
            for k in range(p, q):
                key = (ln.nodes[k], ln.nodes[k + 1])
                if key not in self.subs:
                    return None
                keys.append(key)
            return keys
        return None


class Sub:
    __slots__ = ('line', 'k', 'key', 'carriers')

    def __init__(self, line, k, key):
        self.line, self.k, self.key = line, k, key
        self.carriers = []

    def labels(self):
        return {s.label for s, _ in self.carriers}
