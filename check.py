#!/usr/bin/env python3
"""Decides one property of ion-python by symbolic execution of /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--budget SECONDS]
exit 0: no violation in everything explored; exit 1: VIOLATION (reproduced on the real package);
exit 2: no answer (the current source could not be encoded, or a harness does not reach its claims).
A counterexample that does not reproduce on the real package is reported as unconfirmed and is no violation.
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VT = '/opt/veriftools/pyvenv/bin/python'


def ensure_interpreter():
    try:
        import z3                                                     # noqa: F401
    except ImportError:
        os.execv(VT, [VT, '-B', os.path.abspath(__file__)] + sys.argv[1:])


def load_findings(prop):
    """Findings recorded for the property: list of dicts (see known_findings.json)."""
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop]


def matches(finding, module, func, params, label, inputs):
    if finding['harness'] != module + ':' + func:
        return False
    if any(params.get(k) != v for k, v in finding.get('params', {}).items()):
        return False
    if finding.get('label') not in (None, label):
        return False
    for name, want in finding.get('inputs', {}).items():
        got = inputs.get(name)
        if isinstance(want, dict):
            if 'range' in want and not (isinstance(got, int) and want['range'][0] <= got <= want['range'][1]):
                return False
            if 'startswith' in want and got[:len(want['startswith'])] != want['startswith']:
                return False
        elif got != want:
            return False
    return True


def selftest():
    """A tree that holds and one harness with a reachable failure: the engine decides both, the replay agrees."""
    ensure_interpreter()
    from symion import driver
    res = driver.explore([('selftest', 'holds', {}), ('selftest', 'fails', {})], 'quick', 60, jobs=2)
    bad = [f for f in res.failures if f[0] == 0]
    cex = [f for f in res.failures if f[0] == 1]
    assert not bad, bad
    assert cex, 'the planted failure was not found'
    r = driver.replay_batch([item(('selftest', 'fails', {}), cex[0][2], 'quick')])
    assert r[0]['outcome'] == 'fail', r
    print('selftest ok: %d paths; counterexample %s' % (res.stats[0].paths, cex[0][2]))
    return 0


def main():
    if '--selftest' in sys.argv:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--only', help='substring of harness names (development)')
    args = ap.parse_args()
    ensure_interpreter()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = args.property
    import checks
    from symion import driver, loader
    start = time.time()
    entry = checks.CHECKS[prop]
    specs, notes = [], []
    for s in entry['specs']:
        plist = s.quick if tier == 'quick' else s.thorough
        for params in plist:
            if args.only and args.only not in s.func:
                continue
            specs.append((s.module, s.func, params))
            notes.append(s)
    budget = args.budget or (entry.get('budget_quick', 300) if tier == 'quick' else entry.get('budget_thorough', 1500))
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    try:
        res = driver.explore(specs, tier, budget, seed=seed, jobs=args.jobs,
                             witness_rate=0.1 if tier == 'quick' else 0.05)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s the current source could not be encoded or explored: %s' % (prop, e))
        return 2

    # ---- counterexamples and witnesses, replayed on the real package under its own interpreter
    items, origin = [], []
    per = {}
    for si, label, inputs in res.failures:
        key = (si, label)
        per[key] = per.get(key, 0) + 1
        if per[key] <= 6:
            items.append(item(specs[si], inputs, tier))
            origin.append(('cex', si, label, inputs))
    wit = res.witnesses
    max_wit = 400 if tier == 'quick' else 2000
    if len(wit) > max_wit:
        import random
        wit = random.Random(seed).sample(wit, max_wit)
    for si, inputs, obs in wit:
        items.append(item(specs[si], inputs, tier))
        origin.append(('witness', si, None, inputs, obs))
    findings = load_findings(prop)
    for k in findings:
        if k['kind'] == 'known':
            items.append({'module': k['harness'].split(':')[0], 'harness': k['harness'].split(':')[1],
                          'params': k.get('params', {}), 'inputs': k['example'], 'tier': tier})
            origin.append(('known', k))
    t_replay = time.time()
    replays = driver.replay_batch(items)
    t_replay = time.time() - t_replay

    violations, unconfirmed, mismatches, validated, known_lines = [], [], [], 0, []
    suppressed = 0
    reproduced = set()
    for o, r in zip(origin, replays):
        if o[0] == 'known':
            if r['outcome'] == 'fail':
                known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, o[1]['what']))
            continue
        si, inputs = o[1], o[3]
        if r['outcome'] == 'fail':
            hit = [k for k in findings if k['kind'] == 'known' and
                   matches(k, specs[si][0], specs[si][1], specs[si][2], r['label'], inputs)]
            if hit:
                suppressed += 1
                reproduced.add((si, o[2]))
            else:
                violations.append((si, r, inputs, o[0]))
                reproduced.add((si, o[2]))
        elif o[0] == 'cex' and o[2] == driver.SLOW:
            pass
        elif o[0] == 'cex':
            unconfirmed.append((si, o[2], inputs, r))
        elif r['outcome'] == 'ok':
            if o[4] is None:
                continue
            want = [[n, v] for n, v in o[4]]
            got = [list(x) for x in r['obs']]
            if want == got:
                validated += 1
            else:
                mismatches.append((si, inputs, want, got))
        elif o[4] is not None:
            mismatches.append((si, inputs, 'path', r))
    unconfirmed = [u for u in unconfirmed if (u[0], u[1]) not in reproduced]

    # ---- vacuity
    vacuous = []
    for i, s in enumerate(specs):
        st = res.stats[i]
        if not violations and st.paths == 0 and not res.left[i] and not any(f[0] == i for f in res.failures):
            vacuous.append('%s:%s %s has no completed path' % s)
        want = notes[i].reach
        miss = [x for x in want if x not in res.reached[i]]
        if miss and not res.left[i] and not violations and not any(f[0] == i for f in res.failures) \
                and not any('incomplete' in n for n in st.notes):
            vacuous.append('%s:%s %s never reaches %s' % (s + (miss,)))

    lines = sorted(set(known_lines))
    for x in lines:
        print(x)
    shown = {}
    for si, r, inputs, kind in violations:
        key = (si, r['label'])
        if key in shown:
            continue
        rep = item(specs[si], inputs, tier)
        rep.update(property=prop, label=r['label'], detail=r.get('detail'), found_by=kind)
        name = '%s-%s.json' % (prop, hashlib.sha1(json.dumps([specs[si], r['label']], sort_keys=True).encode())
                               .hexdigest()[:10])
        path = os.path.join(ev_dir, 'replay', name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, sort_keys=True)
        shown[key] = path
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s:%s %s label=%s inputs=%s' % (specs[si] + (r['label'], json.dumps(inputs, sort_keys=True)[:600])))

    from symion.engine import Stats
    total = Stats()
    per_spec = []
    incomplete = []
    for i, s in enumerate(specs):
        st = res.stats[i]
        total.merge(st)
        done = res.left[i] == 0 and 'incomplete path' not in st.notes and st.pinned == 0
        per_spec.append({'harness': '%s:%s' % s[:2], 'params': s[2], 'bounds': notes[i].bounds,
                         'paths': st.paths, 'queries': st.queries, 'solver_s': round(st.solver_s, 2),
                         'checks': st.checks, 'exhausted_within_bounds': done,
                         'unexplored_prefixes': res.left[i], 'notes': st.notes})
        if not done:
            incomplete.append('%s:%s %s' % s)
    encoded = dict((k, sorted(set(n for n, _ in v))) for k, v in loader.ENCODED.items()
                   if k.startswith('amazon.'))
    relevant = entry.get('functions')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.paths, 'transitions': total.decisions,
            'traces_validated_against_impl': validated,
            'samples': samples(specs, wit, replays, origin)[:6],
            'exhaustive': not incomplete,
            'explanation': 'Symbolic execution of the package source as it is in /repo now; states are completed '
                           'symbolic paths (each standing for all inputs that take it), transitions are branch '
                           'decisions settled by the solver. Every claim on a path is decided by z3 for all '
                           'inputs of the path.',
            'modules_encoded': sorted(encoded), 'functions_encoded': sum(len(v) for v in encoded.values()),
            'functions_of_interest': relevant,
            'queries': total.queries, 'solver_s': round(total.solver_s, 2),
            'claims_decided': total.checks, 'claims_trivially_true': total.checks_concrete,
            'solver_unknown': total.unknown, 'concretized': total.concretized, 'pinned': total.pinned,
            'per_harness': per_spec, 'not_exhausted': incomplete,
            'replays': len(items), 'replay_s': round(t_replay, 2),
            'encoding_mismatches': len(mismatches), 'unconfirmed_counterexamples': len(unconfirmed),
            'suppressed_known': suppressed, 'vacuous': vacuous,
        },
        'assumptions': list(entry.get('assumptions', [])) + checks.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - start, 2),
        'violations': len(shown),
    }
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print('%s %s: %d paths, %d decisions, %d queries, %.1fs solver, %d claims, %d/%d witnesses agree, '
          '%d not exhausted, %.1fs' % (prop, tier, total.paths, total.decisions, total.queries, total.solver_s,
                                       total.checks, validated, len(wit), len(incomplete), time.time() - start))
    for x in incomplete:
        print('  not exhausted: ' + x)
    for si, inputs, want, got in mismatches[:5]:
        print('  ENCODING MISMATCH %s:%s %s' % specs[si], json.dumps(inputs)[:300], str(want)[:300], str(got)[:300])
    for si, label, inputs, r in unconfirmed[:5]:
        print('  UNCONFIRMED %s:%s %s' % specs[si], label, json.dumps(inputs)[:300], str(r)[:300])
    for e in (res.errors[:2] if unconfirmed else []):
        print(e)
    for v in vacuous:
        print('  VACUOUS ' + v)
    if shown:
        return 1
    if vacuous:
        print('INCONCLUSIVE property=%s' % prop)
        return 2
    return 0


def item(spec, inputs, tier):
    return {'module': spec[0], 'harness': spec[1], 'params': spec[2], 'inputs': inputs, 'tier': tier}


def samples(specs, wit, replays, origin):
    out, seen = [], set()
    for o, r in zip(origin, replays):
        if o[0] == 'witness' and o[1] not in seen:
            seen.add(o[1])
            out.append({'harness': '%s:%s' % specs[o[1]][:2], 'params': specs[o[1]][2], 'inputs': o[3],
                        'replay': r['outcome']})
    return out


if __name__ == '__main__':
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
