"""known-findings.txt: genuine defects of the code under test.

``fixed: property=<id> <commit> <what failed>`` records a repair and suppresses
nothing.  ``finding: property=<id> scene=<name> [param=<lo>..<hi>]* message=<text>``
describes a defect that is still there: it matches a violation of that scene,
within the closed parameter ranges, with that text in the message."""
from __future__ import annotations

import os
import re
from fractions import Fraction

PATH = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    'known-findings.txt',
)


class Finding:
    def __init__(self, line):
        self.line = line
        self.scene = re.search(r'scene=(\S+)', line).group(1)
        self.ranges = [
            tuple(Fraction(v) for v in r.split('..'))
            for r in re.findall(r'param=(\S+)', line)
        ]
        self.message = re.search(r'message=(.*)$', line).group(1).strip()

    def matches(self, scene, point, text):
        if scene != self.scene or self.message not in text:
            return False
        for (lo, hi), v in zip(self.ranges, point):
            w = Fraction(int(v.numerator), int(v.denominator))
            if not lo <= w <= hi:
                return False
        return True


def load(pid):
    out = []
    if os.path.exists(PATH):
        with open(PATH) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:') and f'property={pid} ' in line:
                    out.append(Finding(line))
    return out
