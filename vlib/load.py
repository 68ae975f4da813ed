"""Import the code under test from /repo twice: once over the real
``rithm.fraction.Fraction`` (used for replaying), once over the symbolic
scalar (used for the encoding).  Nothing is cached between runs: byte code goes
to a throw-away prefix so that a stale ``__pycache__`` can never be used."""
from __future__ import annotations

import contextlib
import importlib
import importlib.machinery
import math
import os
import shutil
import sys
import tempfile
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
_STACK = []


class Namespace:
    """The public API of one import of the code under test."""

    def __init__(self, exact, enums, scalar_cls, modules, name):
        self.name = name
        self.modules = modules
        self.F = scalar_cls
        for attr in (
            'Box', 'ConstrainedDelaunayTriangulation', 'Contour',
            'DelaunayTriangulation', 'Empty', 'Multipolygon', 'Multisegment',
            'Point', 'Polygon', 'Segment', 'Trapezoidation',
        ):
            setattr(self, attr, getattr(exact, attr))
        self.Location = enums.Location
        self.Orientation = enums.Orientation
        self.Relation = enums.Relation

    # while active, imports inside the code under test resolve to this copy
    def __enter__(self):
        saved = _pop_rene()
        saved['rithm.fraction'] = sys.modules['rithm.fraction']
        _STACK.append(saved)
        sys.modules.update(self.modules)
        return self

    def __exit__(self, *exc):
        _pop_rene()
        sys.modules.update(_STACK.pop())
        return False


def _pop_rene():
    out = {}
    for k in list(sys.modules):
        if k == 'rene' or k.startswith('rene.'):
            out[k] = sys.modules.pop(k)
    return out


@contextlib.contextmanager
def _no_stale_bytecode():
    """Compile the code under test afresh and write nothing next to it."""
    scratch = tempfile.mkdtemp(prefix='verif-pyc-')
    saved = sys.pycache_prefix
    sys.pycache_prefix = scratch
    try:
        yield
    finally:
        sys.pycache_prefix = saved
        shutil.rmtree(scratch, ignore_errors=True)


def _import():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    with _no_stale_bytecode():
        exact = importlib.import_module('rene.exact')
        enums = importlib.import_module('rene.enums')
    assert exact.__file__.startswith(REPO + '/'), exact.__file__
    return exact, enums


def load_real():
    from rithm.fraction import Fraction

    _pop_rene()
    exact, enums = _import()
    modules = _pop_rene()
    modules['rithm.fraction'] = sys.modules['rithm.fraction']
    return Namespace(exact, enums, Fraction, modules, 'real')


def load_symbolic():
    from . import scalar

    real = sys.modules['rithm.fraction']
    stub = types.ModuleType('rithm.fraction')
    stub.Fraction = scalar.S
    sys.modules['rithm.fraction'] = stub
    loader = importlib.machinery.SourceFileLoader
    execute = loader.exec_module

    def exec_module(self, module):
        if module.__name__.split('.')[0] == 'rene':
            module.__dict__['float'] = scalar.Float
        execute(self, module)
        if module.__name__.split('.')[0] == 'rene':
            for k, v in list(module.__dict__.items()):
                if v is math:
                    module.__dict__[k] = Math
                elif v in (math.isclose, math.fabs):
                    module.__dict__[k] = getattr(scalar, v.__name__)

    class Math:
        """``math``, for the code under test"""
        def __getattr__(self, name):
            return getattr(math, name)

        isclose, fabs = staticmethod(scalar.isclose), staticmethod(scalar.fabs)

    Math = Math()
    loader.exec_module = exec_module
    try:
        _pop_rene()
        exact, enums = _import()
        modules = _pop_rene()
        modules['rithm.fraction'] = stub
        return Namespace(exact, enums, scalar.S, modules, 'symbolic')
    finally:
        loader.exec_module = execute
        sys.modules['rithm.fraction'] = real
