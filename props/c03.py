"""difference of regions"""
from props import shaped_ops

OP = 'sub'
BOUNDS = shaped_ops.BOUNDS
ASSUMPTIONS = shaped_ops.ASSUMPTIONS


def scenes(tier):
    return shaped_ops.scenes(OP, tier)
