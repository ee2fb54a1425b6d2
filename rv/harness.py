"""Runs the instrumented redsea, observes it, and decides: shared by every check."""
import base64
import collections
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as builder
from . import literals
from .model import ANY, DEBUG_LINE

VERIF = builder.VERIF
TIMEOUT = 40


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'args', 'stdin', 'env', 'wall')


SAN_RE = re.compile(rb'(ERROR: \w+Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*|'
                    rb'[^\n]*Assertion [^\n]*failed[^\n]*|terminate called[^\n]*|'
                    rb'[^\n]*uncaught exception[^\n]*)')

BASE_ENV = {
    'PATH': '/usr/local/bin:/usr/bin:/bin',
    'HOME': '/nonexistent',
    'LC_ALL': 'C.UTF-8',
    'TZ': 'UTC',
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
}


def run(exe, args, stdin=b'', cwd=None, env=None, timeout=TIMEOUT):
    """stdin: bytes, or an open file"""
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    r = Result()
    r.args, r.env = list(args), dict(env or {})
    r.stdin = stdin
    r.timeout = False
    t0 = time.time()
    fh = None
    if isinstance(stdin, bytes):
        fh = tempfile.TemporaryFile(dir=scratch())
        fh.write(stdin)
        fh.seek(0)
    of = tempfile.TemporaryFile(dir=scratch())
    ef = tempfile.TemporaryFile(dir=scratch())
    try:
        p = subprocess.Popen([exe] + list(args), stdin=fh or stdin, stdout=of, stderr=ef,
                             cwd=cwd or scratch(), env=e)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            p.kill()
            p.wait()
        r.rc = p.returncode
        of.seek(0)
        ef.seek(0)
        r.out = of.read()
        r.err = ef.read()
    finally:
        for f in (fh, of, ef):
            if f:
                f.close()
    r.wall = time.time() - t0
    return r


def run2(exe, args, stdin=b'', **kw):
    """run; a timeout is retried once with a longer limit before it is believed"""
    r = run(exe, args, stdin, **kw)
    if r.timeout:
        r = run(exe, args, stdin, **dict(kw, timeout=3 * kw.get('timeout', TIMEOUT)))
    return r


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(builder.BUILD, 'scratch')
        os.makedirs(base, exist_ok=True)
        _scratch = os.environ.get('RV_SCRATCH') or tempfile.mkdtemp(prefix='s', dir=base)
        os.environ['RV_SCRATCH'] = _scratch
    return _scratch


def abnormal(r):
    """-> text describing abnormal termination, or None"""
    if r.timeout:
        return 'hang: no termination within the (retried) limit'
    m = SAN_RE.search(r.err)
    if m:
        return m.group(1).decode('utf-8', 'replace').strip()
    if r.rc == 77 or r.rc < 0:
        return 'terminated abnormally, status %d: %s' % (
            r.rc, r.err[-300:].decode('utf-8', 'replace'))
    return None


# ------------------------------------------------------------------ comparison

class Mismatch(Exception):
    pass


def same(e, a):
    if e is ANY:
        return True
    if isinstance(e, dict):
        return isinstance(a, dict) and e.keys() == a.keys() and \
            all(same(v, a[k]) for k, v in e.items())
    if isinstance(e, list):
        return isinstance(a, list) and len(e) == len(a) and all(map(same, e, a))
    if isinstance(e, bool) or isinstance(a, bool):
        return e is a
    if isinstance(e, float) or isinstance(a, float):
        return isinstance(a, (int, float)) and isinstance(e, (int, float)) and \
            abs(e - a) <= 1e-5 * max(1.0, abs(e))
    return e == a


def parse_lines(out):
    text = out.decode('utf-8')
    if text and not text.endswith('\n'):
        raise Mismatch('output does not end with a complete line: %r' % text[-200:])
    return text.split('\n')[:-1]


def compare(expected, out, fields=None, skip=()):
    """expected: list of dict|str (one per output line).  fields: top-level keys the property
    speaks about (None = all).  -> Counter of what was observed.  raises Mismatch."""
    c = collections.Counter()
    try:
        lines = parse_lines(out)
    except UnicodeDecodeError as x:
        raise Mismatch('output is not UTF-8: %s' % x)
    for i, e in enumerate(expected):
        if i >= len(lines):
            raise Mismatch('line %d of %d missing: expected %r' % (i + 1, len(expected), e))
        l = lines[i]
        if isinstance(e, str):
            if l != e:
                raise Mismatch('line %d: expected %r, got %r' % (i + 1, e, l))
            c['lines'] += 1
            continue
        try:
            a = json.loads(l)
        except ValueError:
            raise Mismatch('line %d is not JSON: %r' % (i + 1, l[:300]))
        if not isinstance(a, dict):
            raise Mismatch('line %d is not an object: %r' % (i + 1, l[:300]))
        c['lines'] += 1
        if e is DEBUG_LINE:
            if set(a) - {'debug'}:
                raise Mismatch('line %d: expected a debug-only line, got %r' % (i + 1, l[:300]))
            c['unencodable'] += 1
            continue
        a.pop('debug', None)
        sk = e.get('__skip__', ())
        for k in (set(e) | set(a)) if fields is None else fields:
            if k == '__skip__' or k in sk or k in skip:
                continue
            if k in e or k in a:
                if k not in a:
                    raise Mismatch('line %d: field %r missing, expected %s; line: %s' % (
                        i + 1, k, show(e[k]), l[:600]))
                if k not in e:
                    raise Mismatch('line %d: unexpected field %r = %s; line: %s' % (
                        i + 1, k, show(a[k]), l[:600]))
                if not same(e[k], a[k]):
                    raise Mismatch('line %d: field %r: expected %s, got %s; line: %s' % (
                        i + 1, k, show(e[k]), show(a[k]), l[:600]))
                c['field ' + k] += 1
    if len(lines) > len(expected):
        raise Mismatch('%d lines expected, %d printed; first extra line: %r' % (
            len(expected), len(lines), lines[len(expected)][:300]))
    return c


def show(v):
    return json.dumps(v, default=lambda o: '<any>', ensure_ascii=False)


# ------------------------------------------------------------------ verdicts

class Violation(Exception):
    def __init__(self, what, key=None, result=None, extra=None):
        Exception.__init__(self, what)
        self.what = what
        self.key = key
        self.result = result
        self.extra = extra or {}


class Inconclusive(Exception):
    pass


def check_output(r, expected, fields=None, skip=(), key=None):
    try:
        return compare(expected, r.out, fields, skip)
    except Mismatch as m:
        what = str(m)
        ab = abnormal(r)
        if ab:
            what = 'redsea terminated abnormally (%s); %s' % (ab, what)
        raise Violation(what, key, r)


_words = None


class Rng(random.Random):
    """random numbers among which the constants of the source are a little more frequent"""

    def getrandbits(self, k):
        r = super().getrandbits(k)
        if 6 <= k <= 16:
            d = super().getrandbits(10)
            if d < 60:
                new, code = _words
                l = new.get(k) if new and d > 4 else code.get(k) if d < 20 else None
                if l:
                    return l[super().getrandbits(30) % len(l)]
        return r


def case_rng(seed, cid, idx):
    global _words
    if _words is None:
        _words = [{k: [v for v in l if 1 << k - 6 <= v < 1 << k] for k in range(6, 17)} if l else {}
                  for l in literals.load()]
    return Rng('%s/%s/%s' % (seed, cid, idx))


def _worker(a):
    mod, cid, seed, tier, idx, exe = a
    try:
        rng = case_rng(seed, cid, idx)
        out = mod.case(Ctx(exe, rng, tier, idx, cid))
        return ('ok', idx, out)
    except Violation as v:
        return ('violation', idx, {'what': v.what, 'key': v.key, 'extra': v.extra,
                                   'res': pack(v.result)})
    except Inconclusive as v:
        return ('inconclusive', idx, {'what': str(v)})
    except Exception:
        return ('error', idx, {'what': traceback.format_exc()})


def pack(r):
    if r is None:
        return None
    d = {'args': r.args, 'env': r.env, 'rc': r.rc, 'timeout': r.timeout,
         'stderr': r.err[-4000:].decode('utf-8', 'replace')}
    if isinstance(r.stdin, bytes) and len(r.stdin) < 8 << 20:
        d['stdin_b64'] = base64.b64encode(r.stdin).decode()
    return d


class Ctx:
    def __init__(self, exe, rng, tier, idx, cid):
        self.exe, self.rng, self.tier, self.idx, self.cid = exe, rng, tier, idx, cid
        self.c = collections.Counter()
        self.sample = None
        self.sig = None
        self.nontrivial = True

    def run(self, args, stdin=b'', **kw):
        return run2(self.exe, args, stdin, **kw)

    def tmpdir(self):
        return tempfile.mkdtemp(dir=scratch())

    def result(self):
        return {'c': self.c, 'sample': self.sample, 'sig': self.sig, 'nontrivial': self.nontrivial}


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(cid, mod, level='exploration'):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        exe = builder.build(getattr(mod, 'VARIANT', 'asan'))
        exes = {'main': exe}
        if hasattr(mod, 'EXTRA_VARIANTS'):
            for v in mod.EXTRA_VARIANTS:
                exes[v] = builder.build(v)
        for v in getattr(mod, 'OPTIONAL_VARIANTS', ()):
            try:
                exes[v] = builder.build(v)
            except builder.BuildError as e:
                print('note: no %s build, its cases are skipped: %s' % (v, str(e)[-300:]))
    except builder.BuildError as e:
        print('ERROR: build failed\n%s' % e)
        return 3
    t_build = time.time() - t0
    scratch()
    try:
        return _main(cid, mod, level, tier, seed, exe, exes, t0, t_build)
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)


def _main(cid, mod, level, tier, seed, exe, exes, t0, t_build):
    if hasattr(mod, 'EXES'):
        mod.EXES.update(exes)
    n = mod.CASES[tier]
    if os.environ.get('RV_SCALE'):            # experiments only: fewer cases
        n = max(8, int(n * float(os.environ['RV_SCALE'])))
    jobs = [(mod, cid, seed, tier, i, exe) for i in range(n)]
    total = collections.Counter()
    sigs = set()
    samples = []
    viol, incon, errs = [], [], []
    evals = 0
    import concurrent.futures as cf
    stop_at = int(os.environ.get('RV_STOP', 6))
    global _JOBS
    _JOBS = jobs
    ctx = multiprocessing.get_context('fork')
    with cf.ProcessPoolExecutor(max_workers=int(os.environ.get('RV_WORKERS') or getattr(mod, 'WORKERS', os.cpu_count() or 4)),
                                mp_context=ctx) as ex:
        try:
            for st, idx, out in ex.map(_dispatch, range(n), chunksize=1):
                evals += 1
                if st == 'ok':
                    total.update(out['c'])
                    if out['nontrivial']:
                        sigs.add(out['sig'] if out['sig'] is not None else idx)
                    if out['sample'] is not None and len(samples) < 5:
                        samples.append(out['sample'])
                elif st == 'violation':
                    viol.append((idx, out))
                    if len(viol) >= stop_at:
                        ex.shutdown(wait=False, cancel_futures=True)
                        for p in list((ex._processes or {}).values()):
                            p.terminate()
                        break
                elif st == 'inconclusive':
                    incon.append((idx, out['what']))
                else:
                    errs.append((idx, out['what']))
        except cf.process.BrokenProcessPool:
            errs.append((-1, 'worker pool broke (out of memory?)'))
    if not viol and hasattr(mod, 'aggregate'):
        what = mod.aggregate(total)
        if what:
            viol.append((-1, {'what': what + ' (over all cases)', 'key': None, 'res': None,
                              'extra': {k: v for k, v in total.items()}}))
    known = {k['key']: k for k in load_known()
             if k.get('property') == cid and k.get('status') == 'known'}
    seen_known = {}
    fresh = []
    for idx, v in viol:
        if v['key'] in known:
            seen_known[v['key']] = v
        else:
            fresh.append((idx, v))
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (cid, known[k]['what']))
    wall = time.time() - t0
    cov = {'evaluations': evals, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
           'samples': samples, 'observed': {k: total[k] for k in sorted(total)},
           'inconclusive_cases': len(incon), 'build_s': round(t_build, 2)}
    if getattr(mod, 'EXHAUSTIVE', None):
        cov['exhaustive_part'] = mod.EXHAUSTIVE
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    if fresh:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        for idx, v in sorted(fresh)[:3]:
            path = os.path.join(d, '%s-seed%d-%s-case%d.json' % (cid, seed, tier, idx))
            with open(path, 'w') as f:
                json.dump({'property': cid, 'seed': seed, 'tier': tier, 'case': idx,
                           'what': v['what'], 'extra': v['extra'], 'run': v['res'],
                           'replay_cmd': './check %s --replay %s' % (cid, path)},
                          f, indent=1, ensure_ascii=False, default=str)
            print('case %d: %s' % (idx, v['what'][:1500]))
            print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if errs:
        for idx, w in errs[:3]:
            print('ERROR case %d: %s' % (idx, w))
        return 3
    for idx, w in incon[:3]:
        print('inconclusive case %d: %s' % (idx, w))
    if len(incon) > max(2, n // 10):
        print('INCONCLUSIVE: %d of %d cases' % (len(incon), n))
        return 4
    for k, lo in getattr(mod, 'REQUIRE', {}).items():
        if total[k] < lo:
            print('INCONCLUSIVE: observed only %d of %r (need %d)' % (total[k], k, lo))
            return 4
    print('%s held: %d executions, %d distinct non-trivial, %.1f s (build %.1f s)' % (
        cid, evals, len(sigs), wall, t_build))
    return 0


_JOBS = None


def _dispatch(i):
    return _worker(_JOBS[i])


def replay(cid, mod, path):
    d = json.load(open(path))
    exe = builder.build(getattr(mod, 'VARIANT', 'asan'))
    if hasattr(mod, 'EXES'):
        mod.EXES['main'] = exe
        for v in getattr(mod, 'EXTRA_VARIANTS', ()):
            mod.EXES[v] = builder.build(v)
        for v in getattr(mod, 'OPTIONAL_VARIANTS', ()):
            try:
                mod.EXES[v] = builder.build(v)
            except builder.BuildError:
                pass
    if d['case'] < 0:              # a statement about all cases together
        os.environ['VERIF_SEED'], os.environ['VERIF_TIER'] = str(d['seed']), d['tier']
        return main(cid, mod, getattr(mod, 'LEVEL', 'exploration'))
    scratch()
    try:
        if 'direct' in (d.get('extra') or {}):
            rng = case_rng(d['seed'], cid, d['case'])
            try:
                mod.replay_direct(Ctx(exe, rng, d['tier'], d['case'], cid), d['run'], d['extra']['direct'])
                st, out = 'ok', ''
            except Violation as v:
                st, out = 'violation', {'what': v.what}
        else:
            st, idx, out = _worker((mod, cid, d['seed'], d['tier'], d['case'], exe))
    finally:
        shutil.rmtree(_scratch, ignore_errors=True)
    print(st, out.get('what') if isinstance(out, dict) else '')
    return 1 if st == 'violation' else 0


def sig_of(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.hexdigest()[:16]
