"""Makes seeded/<id>/ from a description and tries it: tests, demo, and the property's quick check.

plant.py make FILE.py     FILE defines BUGS: dicts of id, property, file, edits [(old, new)], demo, needs, breaks
plant.py try ID...        applies seeded/ID/patch.diff to /repo, runs the tests, demo and check, and undoes it
"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'   # tools/lab.sh puts a scratch copy there
OUT = '/tmp/plant_out_%d.json' % os.getpid()
DEMO = '''#!/bin/bash
# Exit 0 on the unchanged tree, non-zero with the change.
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, timeout=1000, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests_pass():
    sh('bash /opt/vp/test.sh %s' % OUT)
    return OUT


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    made = []
    for b in ns['BUGS']:
        p = os.path.join(REPO, b['file'])
        s = orig = open(p).read()
        bad = False
        for old, new in b['edits']:
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), repr(old[:60]))
                bad = True
                break
            s = s.replace(old, new)
        if bad:
            continue
        open(p, 'w').write(s)
        d = sh('git -C %s diff' % REPO).stdout
        sh('git -C %s checkout -- .' % REPO)
        dd = os.path.join(V, 'seeded', b['id'])
        os.makedirs(dd, exist_ok=True)
        open(dd + '/patch.diff', 'w').write(d)
        open(dd + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        open(dd + '/demo.sh', 'w').write(DEMO)
        os.chmod(dd + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(dd + '/meta.json', 'w'), indent=1)
        made.append(b['id'])
    return made


def attempt(i, tests=True, check=True):
    dd = os.path.join(V, 'seeded', i)
    prop = json.load(open(dd + '/meta.json'))['property']
    res = {}
    r = sh('bash %s/demo.sh' % dd, cwd=REPO)
    res['demo_clean'] = r.returncode
    a = sh('git -C %s apply %s/patch.diff' % (REPO, dd))
    if a.returncode:
        print(i, 'does not apply', a.stdout)
        return
    try:
        r = sh('bash %s/demo.sh' % dd, cwd=REPO)
        res['demo_bug'] = r.returncode
        if tests:
            out = tests_pass()
            o = json.load(open(out))
            os.remove(out)
            passed = set(o.get('passed', o.get('tests', [])))
            missing = [t for t in STABLE if t not in passed]
            res['tests_broken'] = len(missing), missing[:2]
        if check and not res.get('tests_broken', (0,))[0]:
            t = time.time()
            r = sh('python3 check.py %s --tier quick' % prop, cwd=V)
            res['check'] = r.returncode, round(time.time() - t), [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1]
            if r.returncode != 1:
                res['tail'] = r.stdout[-600:]
    finally:
        sh('git -C %s checkout -- .' % REPO)
    print(i, prop, json.dumps(res))
    sys.stdout.flush()


if __name__ == '__main__':
    STABLE = stable()
    if sys.argv[1] == 'make':
        print(make(sys.argv[2]))
    elif sys.argv[1] == 'new':
        for i in make(sys.argv[2]):
            attempt(i)
    else:
        for i in sys.argv[2:]:
            attempt(i, tests=sys.argv[1] == 'try')
