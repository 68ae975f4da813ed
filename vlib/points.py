"""Where a point lies, decided naively."""
from __future__ import annotations

from .arrangement import orient_value, sgn
from .shapes import SHAPED, spec_edges


def on_segment(a, b, q):
    if sgn(orient_value(a, b, q)) != 0:
        return False
    # strictly between in one coordinate or at an end
    ax = 0 if a[0] != b[0] else 1
    return sgn(q[ax] - a[ax]) * sgn(q[ax] - b[ax]) <= 0


def winding_odd(edges, q):
    """Parity of the edges above ``q`` (not on any of them)."""
    odd = False
    for a, b in edges:
        left, right = a[0] <= q[0], b[0] <= q[0]
        if left != right:
            # above q: q to the right of the left-to-right edge
            lo, hi = (a, b) if left else (b, a)
            if orient_value(lo, hi, q) < 0:
                odd = not odd
    return odd


def expected_location(spec, q):
    edges = spec_edges(spec)
    if any(on_segment(a, b, q) for a, b in edges):
        return 'BOUNDARY'
    if spec[0] in SHAPED and winding_odd(edges, q):
        return 'INTERIOR'
    return 'EXTERIOR'
