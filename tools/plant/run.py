#!/usr/bin/env python3-vt
"""tools/plant/run.py [ID...]: writes /verif/seeded/<id>/ from bugs.py and confirms each planted bug
in /repo (builds, stable tests pass, demo fails with it and passes without it), then runs the
property's check against it.  Results go to stdout and tools/plant/results.json."""
import json
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
BASE = 'c8b1066'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    r = sh('git -C /repo checkout -- . && git -C /repo status --short')
    assert r.returncode == 0 and not r.stdout.strip(), r.stdout


def stable_ok():
    r = sh('bash /opt/vp/test.sh /tmp/plant-test.json')
    if r.returncode:
        return False, r.stdout[-1500:]
    got = set(json.load(open('/tmp/plant-test.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base if isinstance(base, list) else next(v for k, v in base.items()
                                                    if isinstance(v, list))
    miss = [t for t in want if t not in got]
    return not miss, 'fails: %s' % miss[:5]


def original_lines(path, text):
    """are all the lines of text (in the working tree's file) from the original repository?"""
    src = open('/repo/' + path).read()
    at = src.index(text)
    first = src[:at].count('\n') + 1
    last = first + text.rstrip('\n').count('\n')
    r = sh(['git', '-C', '/repo', 'blame', '-s', '-l', '%s..HEAD' % BASE, '-L',
            '%d,%d' % (first, last), '--', path])
    return [not l.startswith('^') for l in r.stdout.splitlines()].count(True), last - first + 1


def write(b):
    d = os.path.join(VERIF, 'seeded', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for path, old, new in b['edits']:
        src = open('/repo/' + path).read()
        assert src.count(old) == 1, (b['id'], path, src.count(old))
        mine, n = original_lines(path, old)
        if mine:
            print('   note ' + b['id'] + ': %d of %d context lines of %s are from own commits' % (mine, n, path))
        open('/repo/' + path, 'w').write(src.replace(old, new))
    diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    clean()
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(HERE + '/rds.py', d + '/rds.py')
    open(d + '/demo.py', 'w').write('from rds import *\n' + b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the built repository\n'
                                    'exec python3-vt -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    return d


def demo(d):
    return sh(['bash', d + '/demo.sh'], cwd='/repo', timeout=300)


def main():
    import bugs
    import bugs2, bugs3  # noqa: they add to bugs.BUGS
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    todo = [b for b in bugs.BUGS if not want or b['id'] in want or b['property'] in want]
    nocheck = '--nocheck' in sys.argv
    rp = HERE + '/results.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    clean()
    sh('bash /opt/vp/build.sh')
    dirs = {}
    for b in todo:
        d = dirs[b['id']] = write(b)
        r = demo(d)
        if r.returncode:
            print('%s: demo FAILS on the unchanged tree: %s' % (b['id'], r.stdout[-600:]))
            res[b['id']] = {'property': b['property'], 'ok': False, 'why': 'demo on clean'}
            dirs.pop(b['id'])
    for b in todo:
        if b['id'] not in dirs:
            continue
        d = dirs[b['id']]
        e = {'property': b['property'], 'ok': False}
        try:
            r = sh('git -C /repo apply %s/patch.diff' % d)
            assert r.returncode == 0, r.stdout
            ok, why = stable_ok()
            if not ok:
                e['why'] = why
            else:
                r = demo(d)
                if r.returncode == 0:
                    e['why'] = 'demo passes with the patch'
                else:
                    e['ok'] = True
                    e['demo'] = r.stdout.strip()[-200:]
                    if not nocheck:
                        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
                        r = sh(['./check', b['property']], cwd=VERIF, env=env)
                        m = re.search(r'VIOLATION property=%s' % b['property'], r.stdout)
                        e['caught'] = r.returncode == 1 and bool(m)
                        if not e['caught']:
                            e['check'] = r.stdout[-300:]
        finally:
            clean()
        res[b['id']] = e
        print(b['id'], json.dumps(e), flush=True)
        json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
    sh('bash /opt/vp/build.sh')


main()
