#!/usr/bin/env python3
"""Mutation campaign (experiments, not a check): plants small changes all over redsea's sources in
scratch copies, and runs the checks on each until one reports a violation.  Survivors are read by hand:
equivalent, unclaimed, or a gap to close.
usage: mutate.py OUT.jsonl WORKERS [--files a,b] [--limit N] [--seed S]"""
import argparse
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OPS = [
    (r'(?<=[^<>=!])==(?!=)', ['!=']), (r'!=', ['==']),
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['--']), (r' % ', [' / ']),
    (r' & ', [' | ']), (r' \| ', [' & ']), (r' \^ ', [' | ']), (r' \+= ', [' -= ', ' = ']),
    (r'(?<![\w.])0x[0-9A-Fa-f]+', 'hex'), (r'(?<![\w.\'"])\d+(?![\w.xX\'"])U?', 'dec'),
    (r'(?<![\w])\d+\.\d+f?', 'flt'), (r'\bif \((?=[^)])', ['if (!', 'if (false && ', 'if (true || ']),
    (r'!(?=[\w(])', ['']), (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']),
    (r'\bbreak;', [';']), (r'\bcontinue;', [';']),
]


def sites(path):
    out = []
    inc = False
    for n, l in enumerate(open(path).read().split('\n')):
        s = l.strip()
        if '/*' in s:
            inc = True
        if inc:
            if '*/' in s:
                inc = False
            continue
        if not s or s.startswith(('//', '#', 'using', 'namespace', 'static_assert', 'template', 'assert')):
            continue
        code = l.split('//')[0]
        strs = [m.span() for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if any(a <= m.start() < b for a, b in strs):
                    continue
                if reps == 'hex':
                    v = int(m.group(), 16)
                    rs = ['0x%X' % (v ^ 1), '0x%X' % (v ^ (1 << max(0, v.bit_length() - 1)))]
                elif reps == 'dec':
                    v = int(m.group().rstrip('U'))
                    u = 'U' if m.group().endswith('U') else ''
                    rs = ['%d%s' % (v + 1, u)] + (['%d%s' % (v - 1, u)] if v else [])
                elif reps == 'flt':
                    t = m.group().rstrip('f')
                    rs = [repr(float(t) * 2) + m.group()[len(t):], repr(float(t) * .5) + m.group()[len(t):]]
                else:
                    rs = reps
                for r in rs:
                    out.append((n, code[:m.start()] + r + code[m.end():]))
        if s.endswith(';') and not re.match(r'(return|break|continue|const|auto|std::|bool|int|float|double|\})', s) \
                and ('(' in s or '=' in s):
            out.append((n, re.match(r'\s*', l).group() + ';'))
    return out


ORDER = {
    'groups': 'ALL C13 C07 C10 C09 C08 C14 C15 C12 C21 C16 C20 C06 C11 C19 C02 C17 C18 C24 C25 C05 C01',
    'tmc': 'C17 C18 ALL C02 C01 C25', 'csv': 'C18 C01', 'locationdb': 'C18 C02 C25 C01',
    'block_sync': 'C03 C04 C05 C21 C20 C07 C01 C22', 'channel': 'C06 ALL C21 C05 C20 C24 C23 C22 C25 C02 C07 C01',
    'subcarrier': 'C22 C23 C24 C01', 'liquid_wrappers': 'C22 C23 C24 C01', 'input': 'C20 C26 C22 C23 C24 C25 C07 C02 C01',
    'redsea': 'C25 C26 C22 C23 C24 C20 C02 C01', 'options': 'C25 C01 C22', 'rdsstring': 'ALL C08 C09 C10 C02 C01',
    'radiotext': 'ALL C08 C09 C10', 'util': 'ALL C11 C21 C16 C24 C05 C22 C01', 'tables': 'ALL C14 C16 C19 C10',
    'rft': 'C19 C01', 'base64': 'C19', 'output': 'C20 C02', 'constants': 'C22 C23 C24', 'bitbuffer': 'C24 C22',
}


def worker(a):
    w, muts, seed, scale, lock, outp, procs = a
    base = '/tmp/mut%d' % w
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run('git -C /repo archive HEAD src ext meson.build | tar x -C %s --one-top-level=repo' % base, shell=True, check=True)
    subprocess.run('git -C %s ls-files | grep -v ^seeded | tar c -C %s -T - | tar x -C %s --one-top-level=verif' % (
        VERIF, VERIF, base), shell=True, check=True)
    env = dict(os.environ, RV_REPO=base + '/repo', RV_SCALE=str(scale), RV_STOP='1', RV_WORKERS=str(procs),
               VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1')
    env.pop('RV_SCRATCH', None)
    for f, n, new in muts:
        p = base + '/repo/' + f
        orig = open(p).read()
        lines = orig.split('\n')
        old = lines[n]
        lines[n] = new
        open(p, 'w').write('\n'.join(lines))
        stem = os.path.basename(f).split('.')[0]
        e = {'file': f, 'line': n + 1, 'old': old.strip(), 'new': new.strip(), 'by': None}
        for c in ORDER.get(stem, 'ALL C01').split():
            cmd = ['./check', c] if c != 'ALL' else ['python3-vt', 'tools/mut/all.py']
            try:
                r = subprocess.run(cmd, cwd=base + '/verif', env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=500)
            except subprocess.TimeoutExpired:
                e['by'] = c + ' timeout'
                break
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                e['by'] = c
                m = re.search(r'^case \d+: (.*)', r.stdout, re.M)
                e['what'] = m.group(1)[:160] if m else ''
                break
            if 'build failed' in r.stdout:
                e['by'] = 'build'
                break
            if r.returncode not in (0, 4):
                e.setdefault('odd', []).append([c, r.returncode, r.stdout[-200:]])
        open(p, 'w').write(orig)
        with lock:
            with open(outp, 'a') as fh:
                fh.write(json.dumps(e) + '\n')
    shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('workers', type=int)
    ap.add_argument('--files')
    ap.add_argument('--limit', type=int, default=10**9)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', type=float, default=.25)
    ap.add_argument('--procs', type=int, default=4)
    o = ap.parse_args()
    r = subprocess.run(['git', '-C', '/repo', 'ls-files', 'src'], stdout=subprocess.PIPE, text=True)
    files = [f for f in r.stdout.split() if f.endswith(('.cc', '.hh')) and 'events' not in f]
    if o.files:
        files = [f for f in files if any(x in f for x in o.files.split(','))]
    muts = []
    for f in files:
        for n, new in sites('/repo/' + f):
            if f.endswith('tables.cc') and re.match(r'\s*[{"]', new):
                continue
            muts.append((f, n, new))
    print(len(muts), 'mutants')
    random.Random(o.seed).shuffle(muts)
    done = set()
    if os.path.exists(o.out):
        for l in open(o.out):
            e = json.loads(l)
            done.add((e['file'], e['line'] - 1, e['new']))
    muts = [m for m in muts if (m[0], m[1], m[2].strip()) not in done][:o.limit]
    lock = multiprocessing.Lock()
    ps = [multiprocessing.Process(target=worker, args=((w, muts[w::o.workers], o.seed, o.scale, lock, o.out, o.procs),))
          for w in range(o.workers)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


if __name__ == '__main__':
    main()
