"""Exact symbolic scalar that stands in for ``rithm.fraction.Fraction``.

A value is either a rational constant or a rational function of the scene's
symbolic parameters:  num / (product of powers of irreducible polynomials).
Arithmetic never approximates.  Every comparison reduces to the question "is
the sign of this polynomial in {..}" which is handed to the running explorer
(``explore.Run``): that is where paths fork and the SMT solver is consulted.
"""
from __future__ import annotations

from fractions import Fraction as PyFraction
from functools import lru_cache
from math import gcd

import numbers

from rithm.fraction import Fraction as RF  # the real exact rational
from rithm.integer import Int as RI

NPARAMS = 0
RUN = None  # the active explore.Run; None means "concrete only"


def set_run(run, nparams):
    global RUN, NPARAMS
    RUN = run
    NPARAMS = nparams


ZERO = RF(0)
ONE = RF(1)

# ---------------------------------------------------------------- polynomials
# dict: exponent tuple -> RF (non-zero)


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        if o is None:
            r[m] = -c
        else:
            s = o - c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple([x + y for x, y in zip(m1, m2)])
            c = c1 * c2
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = o + c
                if s:
                    r[m] = s
                else:
                    del r[m]
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and not any(next(iter(a))))


def p_divexact(a, b):
    """Quotient a / b when b divides a exactly, else None."""
    lead_m = max(b)
    lead_c = b[lead_m]
    rem = dict(a)
    quo = {}
    while rem:
        m = max(rem)
        q = tuple([x - y for x, y in zip(m, lead_m)])
        if min(q) < 0:
            return None
        c = rem[m] / lead_c
        quo[q] = c
        for bm, bc in b.items():
            t = tuple([x + y for x, y in zip(bm, q)])
            v = rem.get(t, ZERO) - bc * c
            if v:
                rem[t] = v
            else:
                del rem[t]
    return quo


# ------------------------------------------------------------------- atoms
# An atom is a primitive integer irreducible polynomial with positive leading
# coefficient; ATOMS[id] = (key, poly)
ATOM_IDS: dict = {}
ATOMS: list = []


def _atom_id(key):
    i = ATOM_IDS.get(key)
    if i is None:
        i = ATOM_IDS[key] = len(ATOMS)
        poly = {m: RF(c) for m, c in key}
        degree = max(sum(m) for m, _ in key)
        ATOMS.append((key, poly, degree))
    return i


def primitive(poly):
    """-> (content (RF, may be negative), key)"""
    items = sorted(poly.items(), reverse=True)
    den = 1
    for _, c in items:
        d = int(c.denominator)
        den = den * d // gcd(den, d)
    ints = [int(c.numerator) * (den // int(c.denominator)) for _, c in items]
    g = 0
    for v in ints:
        g = gcd(g, v)
    if ints[0] < 0:
        g = -g
    key = tuple([(m, v // g) for (m, _), v in zip(items, ints)])
    return RF(g, den), key


_FACTOR_CACHE: dict = {}


def factor(poly):
    """-> (content RF, ((atom_id, exponent), ...)) for a non-constant poly."""
    content, key = primitive(poly)
    f = _FACTOR_CACHE.get(key)
    if f is None:
        f = _FACTOR_CACHE[key] = _factor_key(key)
    return content * f[0], f[1]


def _factor_key(key):
    if max(sum(m) for m, _ in key) == 1:
        return ONE, ((_atom_id(key), 1),)
    import sympy

    k = len(key[0][0])
    gens = sympy.symbols(f'x:{k}')
    p = sympy.Poly.from_dict({m: sympy.Integer(c) for m, c in key}, *gens)
    content, factors = p.factor_list()
    result = []
    sign = RF(int(content.p), int(content.q)) if hasattr(content, 'p') else RF(int(content))
    for q, e in factors:
        d = {
            tuple(int(v) for v in m): RF(int(c))
            for m, c in q.as_dict().items()
        }
        c, qkey = primitive(d)
        for _ in range(e):
            sign = sign * c
        result.append((_atom_id(qkey), e))
    # in an order that is the same in every process
    return sign, tuple(sorted(result, key=lambda r: ATOMS[r[0]][0]))


class SymbolicEscape(Exception):
    """The code asked for something the encoding cannot express."""


def _coerce(x):
    if type(x) is S:
        return x
    if isinstance(x, bool):
        return _const(RF(int(x)))
    if isinstance(x, (int, RI)):
        r = _INTS.get(x)
        if r is None:
            r = _INTS[x] = _const(RF(x))
        return r
    if isinstance(x, RF):
        return _const(x)
    if isinstance(x, PyFraction):
        return _const(RF(x.numerator, x.denominator))
    if isinstance(x, float):
        return _const(RF(x))
    return None


_CONSTS: dict = {}
_EXPRS: dict = {}
_COUNT = [0]


def _new(c, n, d):
    s = object.__new__(S)
    s.c, s.n, s.d, s.f, s.neg = c, n, d, None, None
    s.i = _COUNT[0]
    _COUNT[0] += 1
    return s


def _const(c):
    """Interned constant."""
    s = _CONSTS.get(c)
    if s is None:
        s = _CONSTS[c] = _new(c, None, ())
    return s


def _make(n, d):
    """Interned value; n poly, d: tuple of (atom_id, exponent) sorted."""
    if not n:
        return _const(ZERO)
    if d:
        new = []
        for a, e in d:
            ap = ATOMS[a][1]
            while e:
                q = p_divexact(n, ap)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                new.append((a, e))
        d = tuple(new)
    if not d and p_is_const(n):
        return _const(next(iter(n.values())))
    content, key = primitive(n)
    k = (content, key, d)
    s = _EXPRS.get(k)
    if s is None:
        s = _EXPRS[k] = _new(None, n, d)
    return s


def param(i, n):
    m = tuple(1 if j == i else 0 for j in range(n))
    return _make({m: ONE}, ())


def _num(s):
    if s.c is not None:
        return {(0,) * NPARAMS: s.c} if s.c else {}
    return s.n


def _dpoly(d):
    r = None
    for a, e in d:
        p = ATOMS[a][1]
        for _ in range(e):
            r = p if r is None else p_mul(r, p)
    return r


def _lcm(d1, d2):
    m = dict(d1)
    for a, e in d2:
        if m.get(a, 0) < e:
            m[a] = e
    return m


def _lift(n, d, m):
    dd = dict(d)
    for a, e in m.items():
        for _ in range(e - dd.get(a, 0)):
            n = p_mul(n, ATOMS[a][1])
    return n


def _add(a, b, sub):
    if a.d == b.d:
        x, y = _num(a), _num(b)
        return _make(p_sub(x, y) if sub else p_add(x, y), a.d)
    m = _lcm(a.d, b.d)
    x, y = _lift(_num(a), a.d, m), _lift(_num(b), b.d, m)
    return _make(
        p_sub(x, y) if sub else p_add(x, y), tuple(sorted(m.items()))
    )


def _mul(a, b):
    if a.c is not None:
        return _make(p_scale(b.n, a.c), b.d) if a.c else a
    if b.c is not None:
        return _make(p_scale(a.n, b.c), a.d) if b.c else b
    d = dict(a.d)
    for k, e in b.d:
        d[k] = d.get(k, 0) + e
    return _make(p_mul(a.n, b.n), tuple(sorted(d.items())))


def _div(a, b):
    if b.c is not None:
        if not b.c:
            raise ZeroDivisionError('Denominator should not be zero.')
        k = (a.i, b.i)
        r = _QUO.get(k)
        if r is None:
            if a.c is not None:
                r = _const(a.c / b.c)
            else:
                r = _make(p_scale(a.n, ONE / b.c), a.d)
            _QUO[k] = r
        return r
    if sign_in(b, 0b010):  # b == 0 is a feasible path of its own
        raise ZeroDivisionError('Denominator should not be zero.')
    k = (a.i, b.i)
    r = _QUO.get(k)
    if r is not None:
        return r
    content, factors = factor(b.n)
    n = p_scale(_num(a), ONE / content)
    d = dict(a.d)
    for k, e in b.d:
        for _ in range(e):
            n = p_mul(n, ATOMS[k][1])
    for k, e in factors:
        d[k] = d.get(k, 0) + e
    r = _QUO[(a.i, b.i)] = _make(n, tuple(sorted(d.items())))
    return r


NEG, ZER, POS = 0b001, 0b010, 0b100
_FLIP = [0] * 8
for _m in range(8):
    _FLIP[_m] = (_m & 2) | ((_m & 1) << 2) | ((_m & 4) >> 2)


def sign_in(s, q):
    """Is sign(s) in the set q (bit 0: -, bit 1: 0, bit 2: +)?  May fork."""
    f = s.f
    if f is None:
        if s.c is not None:
            c = s.c
            f = s.f = POS if c > 0 else (NEG if c < 0 else ZER)
        else:
            f = s.f = factor(s.n)
    if s.c is not None:
        return bool(q & f)
    content, factors = f
    # denominators are non-zero on this path; only odd powers matter
    neg = content < 0
    odd = {}
    even = []
    for a, e in factors:
        if e & 1:
            odd[a] = odd.get(a, 0) + 1
        else:
            even.append(a)
    dodd = []
    for a, e in s.d:
        if e & 1:
            dodd.append(a)
    if len(dodd) > 1:
        dodd.sort(key=lambda a: ATOMS[a][0])
    if neg:
        q = _FLIP[q]
    run = RUN
    if len(factors) == 1 and odd and not dodd:
        return run.ask(factors[0][0], q)
    # product: mask analysis first
    facts = run.facts
    mask = POS
    for a in odd:
        mask = _mask_mul(mask, facts.get(a, 7))
    for a in even:
        mask = _mask_mul(mask, _SQ[facts.get(a, 7)])
    for a in dodd:
        mask = _mask_mul(mask, facts.get(a, 7) & 5)
    if not mask & q:
        return False
    if not mask & ~q & 7:
        return True
    sign = 1
    # zero tests of the numerator first
    for a, _ in factors:
        if run.ask(a, ZER):
            return bool(q & ZER)
    if q & 5 == 5:
        return True
    if q & 5 == 0:
        return False
    for a in odd:
        if run.ask(a, NEG):
            sign = -sign
    for a in dodd:
        if run.ask(a, NEG):
            sign = -sign
    return bool(q & (POS if sign > 0 else NEG))


_SQ = [0] * 8
for _m in range(8):
    _SQ[_m] = (2 if _m & 2 else 0) | (4 if _m & 5 else 0)


def _build():
    t = [[0] * 8 for _ in range(8)]
    sg = {1: -1, 2: 0, 4: 1}
    inv = {-1: 1, 0: 2, 1: 4}
    for a in range(8):
        for b in range(8):
            r = 0
            for x in (1, 2, 4):
                for y in (1, 2, 4):
                    if a & x and b & y:
                        r |= inv[sg[x] * sg[y]]
            t[a][b] = r
    return t


_MUL = _build()


def _mask_mul(a, b):
    return _MUL[a][b]


_ADD: dict = {}
_SUB: dict = {}
_PROD: dict = {}
_QUO: dict = {}
_INTS: dict = {}


def reset_memo(limit=2_000_000):
    """Forget memoised operations when they take too much memory."""
    if len(_ADD) + len(_SUB) + len(_PROD) > limit:
        _ADD.clear()
        _SUB.clear()
        _PROD.clear()
        _EXPRS.clear()


class S:
    __slots__ = ('c', 'n', 'd', 'i', 'f', 'neg')
    __module__ = 'rithm.fraction'
    __qualname__ = 'Fraction'

    def __new__(cls, numerator=0, denominator=None, /):
        a = _coerce(numerator)
        if a is None:
            return _const(RF(numerator))  # raises the library's own error
        if denominator is None:
            return a
        b = _coerce(denominator)
        if b is None:
            return _const(RF(1, denominator))
        return a / b

    def __add__(self, other):
        if type(other) is not S:
            other = _coerce(other)
            if other is None:
                return NotImplemented
        k = (self.i, other.i)
        r = _ADD.get(k)
        if r is None:
            if self.c is not None and other.c is not None:
                r = _const(self.c + other.c)
            else:
                r = _add(self, other, False)
            _ADD[k] = r
        return r

    def __radd__(self, other):
        other = _coerce(other)
        if other is None:
            return NotImplemented
        return other + self

    def __sub__(self, other):
        if type(other) is not S:
            other = _coerce(other)
            if other is None:
                return NotImplemented
        k = (self.i, other.i)
        r = _SUB.get(k)
        if r is None:
            if self.c is not None and other.c is not None:
                r = _const(self.c - other.c)
            else:
                r = _add(self, other, True)
            _SUB[k] = r
        return r

    def __rsub__(self, other):
        other = _coerce(other)
        if other is None:
            return NotImplemented
        return other - self

    def __mul__(self, other):
        if type(other) is not S:
            other = _coerce(other)
            if other is None:
                return NotImplemented
        k = (self.i, other.i)
        r = _PROD.get(k)
        if r is None:
            if self.c is not None and other.c is not None:
                r = _const(self.c * other.c)
            else:
                r = _mul(self, other)
            _PROD[k] = r
        return r

    def __rmul__(self, other):
        other = _coerce(other)
        if other is None:
            return NotImplemented
        return other * self

    def __truediv__(self, other):
        if type(other) is not S:
            other = _coerce(other)
            if other is None:
                return NotImplemented
        return _div(self, other)

    def __rtruediv__(self, other):
        other = _coerce(other)
        if other is None:
            return NotImplemented
        return _div(other, self)

    def __pow__(self, exponent, modulo=None):
        if modulo is not None:
            return NotImplemented
        if type(exponent) is S:
            if exponent.c is None:
                raise SymbolicEscape('symbolic exponent')
            exponent = exponent.c
        e = int(exponent)
        if e != exponent:
            raise SymbolicEscape('fractional exponent')
        r = _const(ONE)
        for _ in range(abs(e)):
            r = r * self
        return r if e >= 0 else _div(_const(ONE), r)

    def __neg__(self):
        r = self.neg
        if r is None:
            if self.c is not None:
                r = _const(-self.c)
            else:
                r = _make(p_neg(self.n), self.d)
            self.neg = r
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        return self if sign_in(self, 6) else -self

    def __bool__(self):
        return sign_in(self, 5)

    def _cmp(self, other, q):
        if type(other) is not S:
            other = _coerce(other)
            if other is None:
                return NotImplemented
        if self is other:
            return bool(q & ZER)
        return sign_in(self - other, q)

    def __eq__(self, other):
        return self._cmp(other, 2)

    def __ne__(self, other):
        return self._cmp(other, 5)

    def __lt__(self, other):
        return self._cmp(other, 1)

    def __le__(self, other):
        return self._cmp(other, 3)

    def __gt__(self, other):
        return self._cmp(other, 4)

    def __ge__(self, other):
        return self._cmp(other, 6)

    def __hash__(self):
        # injective model of hashing: equal values get equal codes, different
        # values get different codes (which forks on equality)
        return RUN.hash_of(self)

    def is_constant(self):
        return self.c is not None

    @property
    def numerator(self):
        return self._concrete('numerator').numerator

    @property
    def denominator(self):
        return self._concrete('denominator').denominator

    def _concrete(self, what):
        if self.c is None:
            return fixed(self, what)
        return self.c

    def __float__(self):
        return float(self._concrete('float'))

    def __int__(self):
        return int(self._concrete('int'))

    def __floor__(self):
        return self._concrete('floor').__floor__()

    def __ceil__(self):
        return self._concrete('ceil').__ceil__()

    def _divided(self, other, swapped, divide):
        other = _coerce(other)
        if other is None:
            return NotImplemented
        a, b = self._concrete('division'), other._concrete('division')
        r = divide(b, a) if swapped else divide(a, b)
        return _coerce(r) if type(r) is RF else r

    def __floordiv__(self, other):
        return self._divided(other, False, lambda a, b: a // b)

    def __rfloordiv__(self, other):
        return self._divided(other, True, lambda a, b: a // b)

    def __mod__(self, other):
        return self._divided(other, False, lambda a, b: a % b)

    def __rmod__(self, other):
        return self._divided(other, True, lambda a, b: a % b)

    def __round__(self, *a):
        if self.c is None and a:
            return rounded(self)
        return self._concrete('round').__round__(*a)

    def __reduce__(self):
        raise SymbolicEscape('pickling')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.c is not None:
            return repr(self.c)
        t = ' + '.join(
            f'{c}*' + '*'.join(f'p{i}^{e}' for i, e in enumerate(m) if e)
            for m, c in sorted(self.n.items(), reverse=True)
        )
        return f'<({t})/{self.d}>' if self.d else f'<{t}>'

    def __str__(self):
        return str(self.c) if self.c is not None else repr(self)


numbers.Rational.register(S)


def fixed(x, what):
    """What the encoding cannot express is given the value it has in the
    path's witness; the path is then judged by running the real scalar."""
    if RUN is None or RUN.witness is None:
        raise SymbolicEscape(what + ' of a symbolic value')
    RUN.approximate = True
    return evaluate(x, RUN.witness)


def rounded(x):
    """Rounding taken for the identity: the paths are those of exact numbers,
    each of them is judged by running the real scalar."""
    RUN.approximate = True
    return x


class _FloatType(type):
    def __instancecheck__(cls, value):
        return isinstance(value, float)

    def __subclasscheck__(cls, other):
        return issubclass(other, float)

    def __call__(cls, *args):
        if args and type(args[0]) is S and args[0].c is None:
            return rounded(args[0])
        return float(*args)

    def __getattr__(cls, name):
        return getattr(float, name)


class Float(metaclass=_FloatType):
    """What the name ``float`` means in the code under test."""


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = _coerce(a), _coerce(b)
    return a == b or abs(a - b) <= max(
        rel_tol * max(abs(a), abs(b)), _coerce(abs_tol)
    )


def fabs(x):
    return abs(Float(x))


def p_eval(poly, point):
    r = ZERO
    for m, c in poly.items():
        t = c
        for e, v in zip(m, point):
            for _ in range(e):
                t = t * v
        r = r + t
    return r


def evaluate(s, point):
    """Exact value of ``s`` at a rational point (real ``Fraction``)."""
    if s.c is not None:
        return s.c
    r = p_eval(s.n, point)
    for a, e in s.d:
        v = p_eval(ATOMS[a][1], point)
        for _ in range(e):
            r = r / v
    return r
