#!/opt/venv/bin/python
"""check.py <property id>            decide a property (VERIF_TIER=quick|thorough)
check.py <property id> --replay F  run a reported counterexample again
check.py --list                    scenes and sizes of every property"""
from __future__ import annotations

import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(5000)

from vlib import driver, findings  # noqa: E402
from vlib.driver import RF  # noqa: E402

IDS = sorted(
    f[:-3].upper()
    for f in os.listdir(os.path.join(HERE, 'props'))
    if f.startswith('c') and f.endswith('.py')
)


def load_property(pid):
    return importlib.import_module('props.' + pid.lower())


def replay_path(pid, scene_name):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    safe = ''.join(c if c.isalnum() or c in '-._' else '_' for c in scene_name)
    return os.path.join(d, f'{pid}-{safe[:80]}.json')


def main():
    args = sys.argv[1:]
    if args[:1] == ['--list']:
        for pid in IDS:
            m = load_property(pid)
            for tier in ('quick', 'thorough'):
                print(pid, tier, len(m.scenes(tier)))
        return 0
    pid = args[0].upper()
    prop = load_property(pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--replay' in args:
        return replay(pid, prop, args[args.index('--replay') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scenes = prop.scenes(tier)
    if '--only' in args:
        part = args[args.index('--only') + 1]
        scenes = [s for s in scenes if part in s.name]
    by_name = {s.name: s for s in scenes}
    known = findings.load(pid)
    confirmed, unconfirmed, hits = [], [], {}

    def judge(name, params, message):
        if len(unconfirmed) > 200:
            return None
        scene = by_name[name]
        point = tuple(RF(a, b) for a, b in params)
        kind, text = driver.in_subprocess(scene, point)
        if kind == 'ok':
            # the encoding was wrong about this path: not a violation
            unconfirmed.append((name, [str(v) for v in point], message[:300]))
            return None
        for f in known:
            if f.matches(name, point, text):
                hits.setdefault(f.line, []).append(name)
                return None
        confirmed.append((name, params, kind, text))
        return 'stop'

    t0 = time.time()
    deadline = float(
        os.environ.get('VERIF_DEADLINE', 660 if tier == 'quick' else 12 * 3600)
    )
    agg = driver.explore_scenes(scenes, deadline_s=deadline, judge=judge)
    wall = time.time() - t0
    rc = 0
    for line in hits:
        print(f'KNOWN-FINDING: property={pid} {line}')
    violations = []
    for name, params, kind, text in confirmed[:1]:
        path = replay_path(pid, name)
        with open(path, 'w') as f:
            json.dump(
                dict(property=pid, tier=tier, scene=name, params=params,
                     kind=kind, message=text), f, indent=1,
            )
        last = text.strip().split('\n')[-1]
        shown = [f'{a}/{b}' if b != 1 else str(a) for a, b in params]
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  scene {name} at {shown}: {kind}: {last[:600]}')
        violations.append(
            dict(scene=name, params=shown, kind=kind, message=last[:600],
                 replay=path)
        )
        rc = 1
    evidence(pid, prop, tier, seed, scenes, agg, wall, violations,
             unconfirmed, hits)
    st = agg['stats']
    print(
        f"{pid} {tier}: {len(scenes)} scenes, {st.get('paths', 0)} paths, "
        f"{st.get('queries', 0)} queries ({st.get('unsat', 0)} unsat, "
        f"{st.get('sat', 0)} sat, {st.get('unknown', 0)} unknown), solver "
        f"{st.get('solver_s', 0):.0f} s, validated {agg['validated']}, "
        f"mismatched {len(agg['mismatched'])}, unconfirmed "
        f"{len(unconfirmed)}, escaped {agg['escaped']}, unfinished "
        f"{len(agg['unfinished'])}, errors {len(agg['errors'])}, "
        f"{wall:.0f} s"
    )
    for e in agg['errors'][:3] + agg['escape_notes'][:2]:
        print('  note:', e[:1500])
    for u in unconfirmed[:2] + agg['mismatched'][:2]:
        print('  note: not reproduced by the real code:', str(u)[:600])
    return rc


def evidence(pid, prop, tier, seed, scenes, agg, wall, violations,
             unconfirmed, hits):
    st = agg['stats']
    families = {}
    for s in scenes:
        k = s.family or s.name
        f = families.setdefault(k, dict(scenes=0, parameters=s.nparams,
                                        paths=0, queries=0, cpu_s=0))
        f['scenes'] += 1
        ps = agg['per_scene'].get(s.name)
        if ps:
            f['paths'] += ps['paths']
            f['queries'] += ps['queries']
            f['cpu_s'] = round(f['cpu_s'] + ps['wall'], 1)
    finished = not (
        agg['unfinished'] or agg['stopped'] or agg['errors']
        or st.get('unknown', 0)
    )
    data = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level='model_checking',
        coverage=dict(
            states=st.get('paths', 0),
            transitions=st.get('decisions', 0),
            traces_validated_against_impl=agg['validated'],
            exhaustive=finished,
            samples=agg['samples'][:8],
            scenes=len(scenes),
            scene_families=families,
            bounds=prop.BOUNDS,
            functions_encoded=sorted(agg['executed']),
            functions_encoded_count=len(agg['executed']),
            solver=dict(
                name='Z3 (incremental linear real arithmetic and QF_NRA)',
                queries=st.get('queries', 0), unsat=st.get('unsat', 0),
                sat=st.get('sat', 0), unknown=st.get('unknown', 0),
                nonlinear_queries=st.get('nonlinear_queries', 0),
                seconds=round(st.get('solver_s', 0.0), 2),
            ),
            deepest_path=agg['max_depth'],
            outcomes=dict(
                sorted(agg['kinds'].items(), key=lambda t: -t[1])[:60]
            ),
            paths_without_rational_witness=agg['nowitness'],
            paths_decided_at_single_points_only=agg['escaped'],
            points_next_to_forks_of_those=agg['close_points'],
            escape_notes=agg['escape_notes'][:5],
            unconfirmed_candidates=unconfirmed[:10],
            encoding_mismatches=agg['mismatched'][:10],
            unfinished_scenes=sorted(set(agg['unfinished']))[:50],
            solver_unknowns=[str(u)[:300] for u in agg['unknown_notes'][:5]],
            errors=[e[:1000] for e in agg['errors'][:10]],
            violation_details=violations,
            known_findings=[
                dict(finding=k, scenes=sorted(set(v))[:20])
                for k, v in hits.items()
            ],
        ),
        wall_s=round(wall, 2),
        assumptions=list(getattr(prop, 'ASSUMPTIONS', [])) + COMMON,
        violations=len(violations),
    )
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(data, f, indent=1, default=str)


COMMON = [
    'The coordinates are exact rationals; the arithmetic of '
    'rithm.fraction.Fraction itself is trusted (the symbolic scalar stands in '
    'for it and is compared with it on every explored path).',
    'Hashing is modelled as injective and consistent with equality; the '
    'orderings of sets and dictionaries that depend on hash values are not '
    'explored.',
    'Nothing is claimed about operands outside the listed scene families '
    '(more vertices, other shapes, several simultaneous degrees of freedom).',
    'Paths whose condition has only irrational solutions are explored but '
    'cannot be replayed; they are counted, not reported.',
]


def replay(pid, prop, path):
    with open(path) as f:
        d = json.load(f)
    scene = None
    for tier in (d.get('tier', 'quick'), 'thorough', 'quick'):
        for s in prop.scenes(tier):
            if s.name == d['scene']:
                scene = s
                break
        if scene:
            break
    if scene is None:
        print('no such scene:', d['scene'])
        return 2
    point = tuple(RF(a, b) for a, b in d['params'])
    driver.context()
    kind, text = driver.in_subprocess(scene, point)
    print(kind, text)
    if kind == 'ok':
        return 0
    print(f'VIOLATION property={pid} replay={path}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
