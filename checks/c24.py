import json
import mmap
import os
import select
import shutil
import struct
import subprocess
import tempfile
import time
import numpy as np
from rv import build, gen, harness, mpx, bits, sync, std
from rv.model import DEBUG_LINE
from checks import c20

CASES = {'quick': 900, 'thorough': 6000}
WAIT = 45
RULE = ('Prefix cases cut a broadcast (hex and TEF at a line, bits and samples anywhere) and require the '
        'output for the prefix to be a prefix of the output for the whole, exactly the reference '
        "decoder's. Live cases write the input into a pipe that stays open, group by group in irregular "
        'pieces, and require each record to arrive before anything more is written (multiplex: within '
        'two input buffers). Clock cases run the program on a virtual system clock that moves forward, '
        'stands still and steps back between groups; every time stamp must be the running maximum of '
        'the clock at reception, rendered as strftime does (multiplex: the time when the last bit of '
        'the group was on air). Distinct inputs and schedules.')
REQUIRE = {'live records': 4000, 'prefixes': 150, 'prefix lines': 20000, 'stamped records': 4000,
           'clock steps back': 800, 'distinct formats': 60, 'mpx live records': 200,
           'mpx stamps': 400, 'mpx prefixes': 20, 'clock queries': 4000}
TECHNIQUE = ('runtime monitoring: interactive pipe schedules with a liveness deadline, a prefix '
             '(causality) monitor, and fault injection into the system clock (LD_PRELOAD) with a trace '
             'checker for the time stamps')

_shim = None


def shim():
    global _shim
    if _shim is None:
        d = harness.scratch()
        p = os.path.join(d, 'clock-%d.so' % os.getpid())
        cc = shutil.which('clang-18') or shutil.which('clang') or shutil.which('gcc')
        subprocess.check_call([cc, '-O1', '-shared', '-fPIC', '-o', p,
                               os.path.join(build.VERIF, 'shim', 'clock.c'), '-ldl'])
        _shim = p
    return _shim


class Live:
    """the program on a pipe"""

    def __init__(self, ctx, args, env=None, err=False):
        self.args, self.env = list(args), dict(env or {})
        self.written = bytearray()
        e = dict(harness.BASE_ENV)
        e.update(self.env)
        self.ef = tempfile.TemporaryFile(dir=harness.scratch())
        self.of = tempfile.TemporaryFile(dir=harness.scratch())
        self.p = subprocess.Popen([ctx.exe] + self.args, stdin=subprocess.PIPE,
                                  stdout=self.of if err else subprocess.PIPE,
                                  stderr=subprocess.PIPE if err else self.ef,
                                  env=e, cwd=harness.scratch())
        self.out = self.p.stderr if err else self.p.stdout
        os.set_blocking(self.out.fileno(), False)
        self.buf = b''
        self.lines = []
        self.closed = False

    def write(self, data):
        self.written += data
        fd = self.p.stdin.fileno()
        os.set_blocking(fd, False)
        v = memoryview(data)
        t = time.time() + 4 * WAIT
        while v:
            r, w, _ = select.select([self.out] if not self.closed else [], [fd], [], 1)
            if r:
                self.pump()
            if w:
                try:
                    v = v[os.write(fd, v):]
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    return
            if time.time() > t:
                raise harness.Violation('the program stopped reading its input', None, self.res(True))

    def pump(self):
        try:
            b = os.read(self.out.fileno(), 1 << 16)
        except BlockingIOError:
            return
        if not b:
            self.closed = True
        self.buf += b
        *l, self.buf = self.buf.split(b'\n')
        self.lines += l

    def wait(self, n, what, deadline=WAIT):
        """until n lines in total have arrived"""
        t = time.time() + deadline
        while len(self.lines) < n and not self.closed:
            left = t - time.time()
            if left <= 0:
                break
            if select.select([self.out], [], [], min(left, 1))[0]:
                self.pump()
        if len(self.lines) < n:
            raise harness.Violation('%s: record %d not printed although its input was there '
                                    '(%d records so far%s)' % (
                                        what, n, len(self.lines), ', program ended' if self.closed else
                                        ', waited %d s' % deadline), None, self.res(True))

    def finish(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        t = time.time() + 2 * WAIT
        while not self.closed and time.time() < t:
            if select.select([self.out], [], [], 1)[0]:
                self.pump()
        r = self.res(not self.closed)
        return r

    def res(self, kill=False):
        if kill:
            self.p.kill()
        self.p.wait()
        r = harness.Result()
        r.args, r.env, r.stdin = self.args, self.env, bytes(self.written)
        r.rc, r.timeout = self.p.returncode, False
        self.ef.seek(0)
        r.err = self.ef.read()
        r.out = b'\n'.join(self.lines)
        return r


# ------------------------------------------------------------------ text formats, group by group

def text_steps(rng, mode, o, n, streams=False, losses=(0, .05, .2)):
    """-> list of (bytes, expected line or None) per group"""
    w = {'ps': 3, 'rt': 3, 'eon': 1, 'slc': 1, 'rnd': 2, 'tmc': 1, 'rft': 2 if streams else 0, 'ct': 1}
    seq = gen.session(rng, n, w, losses=losses, stations=rng.choice((1, 1, 2)), warm=True)
    if not streams:
        seq = [x for x in seq if x[0] == 0]
    if mode == 'bits':
        s = sync.encode_group((0xFFFF, 0xF000, 0, 0)) * 2 + gen.to_bits(rng, seq)
        sy = sync.Sync(o.fec)
        data, res, last = [], [], 0
        from rv.model import Channel
        ch = Channel(o)
        for i, c in enumerate(s):
            for g in sy.push([int(c)]):
                res.append((s[last:i + 1].encode(), ch.push(g)))
                last = i + 1
        return res, s[last:].encode()
    from rv.model import Channel, Group
    ch = Channel(o)
    res = []
    for st, b in seq:
        if mode == 'hex':
            t = gen.to_hex(rng, [(st, b)])
            if not t.endswith(b'\n'):
                t += b'\n'
        else:
            t = c20.tef_text(rng, [(st, b)])
        res.append((t, ch.push(Group(list(b), st))))
    return res, b''


def pieces(rng, data):
    if rng.random() < .6 or len(data) < 3:
        return [data]
    k = sorted(rng.randrange(1, len(data)) for _ in range(rng.choice((1, 2, 5))))
    return [data[a:b] for a, b in zip([0] + k, k + [len(data)]) if a < b]


def check_line(l, e, r, i, skip=('rx_time',)):
    try:
        harness.compare([e], l + b'\n', skip=skip)
    except harness.Mismatch as m:
        raise harness.Violation('record %d: %s' % (i, m), None, r)


def live_text(ctx):
    rng = ctx.rng
    mode = rng.choice(('hex', 'hex', 'bits', 'tef'))
    o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .4))
    o.hexout = rng.random() < .25
    err = rng.random() < .2
    steps, tail = text_steps(rng, mode, o, 160, o.streams)
    args = ['-i', mode] + gen.opts_args(o) + (['-e'] if err else [])
    if rng.random() < .3:
        args += ['-t', '%s']
    L = Live(ctx, args, err=err)
    n = 0
    pend = b''
    exp = []
    for i, (d, e) in enumerate(steps):
        for p in pieces(rng, d):
            if rng.random() < .2:
                pend += p                   # several pieces in one write
            else:
                L.write(pend + p)
                pend = b''
        if pend:
            L.write(pend)
            pend = b''
        if e is not None:
            n += 1
            exp.append(e)
            L.wait(n, 'group %d of the %s input' % (i + 1, mode))
            ctx.c['live records'] += 1
    L.write(tail)
    r = L.finish()
    ab = harness.abnormal(r) if not err else None
    if ab or r.rc:
        raise harness.Violation('abnormal end: %s %s' % (r.rc, ab), None, r)
    if '-t' in args and o.hexout:
        exp = None
    if exp is not None:
        for i, (l, e) in enumerate(zip(L.lines, exp)):
            check_line(l, e, r, i)
        if len(L.lines) != len(exp):
            raise harness.Violation('%d records instead of %d' % (len(L.lines), len(exp)), None, r)
    ctx.c['live ' + mode] += 1
    ctx.sig = harness.sig_of(bytes(L.written), repr(args))
    if ctx.idx < 40:
        ctx.sample = {'kind': 'live', 'args': args, 'groups': len(steps), 'records': n}


# ------------------------------------------------------------------ prefixes

def prefix_text(ctx):
    rng = ctx.rng
    mode = rng.choice(('hex', 'bits', 'bits', 'tef'))
    o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .4))
    o.hexout = rng.random() < .25
    steps, tail = text_steps(rng, mode, o, 300, o.streams)
    args = ['-i', mode] + gen.opts_args(o)
    full = b''.join(d for d, e in steps) + tail
    r = ctx.run(args, full)
    harness.check_output(r, [e for d, e in steps if e is not None])
    for _ in range(4):
        k = rng.randrange(len(steps) + 1)
        d = b''.join(d for d, e in steps[:k])
        if mode == 'bits' and k < len(steps):
            d += steps[k][0][:rng.randrange(len(steps[k][0]))]
        q = ctx.run(args, d)
        exp = [e for x, e in steps[:k] if e is not None]
        if not r.out.startswith(q.out):
            raise harness.Violation('output for the first %d bytes of input is no prefix of the output '
                                    'for all %d' % (len(d), len(full)), None, q)
        harness.check_output(q, exp)
        ctx.c['prefixes'] += 1
        ctx.c['prefix lines'] += len(exp)
    ctx.sig = harness.sig_of(full, repr(args))


def signal(rng, fs, n, lead=.1, tail=.5):
    """-> samples (s16), groups, time when the last bit of each group is over"""
    pi = rng.randrange(0x1000, 0xF000)
    gs = []
    for i in range(n):
        g = [pi, rng.choice((0x0408, 0x2400, 0x8000, 0x0C00)) | rng.getrandbits(4), rng.getrandbits(16),
             rng.getrandbits(16)]
        if g[1] & 0x800:
            g[2] = pi
        gs.append(g)
    t0 = lead + rng.random() * .1
    s = mpx.Signal(fs, t0 + n * 104 / 1187.5 + tail)
    s.rds(mpx.bits_of(gs), rng.choice((.05, .1, .2)), t0=t0, phase=rng.uniform(0, 6.28))
    s.audio(rng.uniform(.1, .5), .09, rng)
    return mpx.s16(s.render()), gs, [t0 + (k + 1) * 104 / 1187.5 for k in range(n)]


RATES = (128000, 171000, 171000, 192000, 228000, 250000)


def prefix_mpx(ctx):
    rng = ctx.rng
    fs = rng.choice(RATES)
    y, gs, tt = signal(rng, fs, 60)
    ch = rng.choice((1, 1, 2))
    if ch == 2:
        y2, gs2, tt2 = signal(rng, fs, 60)
        m = min(len(y), len(y2))
        y = np.stack([y[:m], y2[:m]], 1).reshape(-1)
    args = ['-r', str(fs), '-R'] + (['-c2'] if ch == 2 else []) + (['-x'] if rng.random() < .3 else [])
    full = y.tobytes()
    r = ctx.run(args, full)
    if harness.abnormal(r) or r.rc:
        raise harness.Violation('abnormal end: %s' % harness.abnormal(r), None, r)

    def per(out):
        """lines of each channel (the channels' chunks differ)"""
        l = [x for x in out.split(b'\n') if x]
        if ch == 1 or '-x' in args:
            return [l]
        return [[x for x in l if b'"channel":%d' % c in x.replace(b' ', b'')] for c in range(2)]
    if ch == 2 and '-x' in args:
        return
    for _ in range(2):
        d = full[:2 * rng.randrange(len(y) // 3, len(y))]
        q = ctx.run(args, d)
        for a, b in zip(per(q.out), per(r.out)):
            if a != b[:len(a)]:
                raise harness.Violation('output for the first %d samples is no prefix of the output '
                                        'for all' % (len(d) // 2), None, q)
            ctx.c['mpx prefix lines'] += len(a)
        ctx.c['mpx prefixes'] += 1
    ctx.sig = harness.sig_of(full, repr(args))


def live_mpx(ctx):
    rng = ctx.rng
    fs = rng.choice(RATES)
    y, gs, tt = signal(rng, fs, 70, tail=.4)
    args = ['-r', str(fs), '-R'] + (['-x'] if rng.random() < .3 else [])
    err = rng.random() < .3
    if err:
        args.append('-e')
    # what the whole signal yields
    r = ctx.run([a for a in args if a != '-e'], y.tobytes())
    raws = []
    for l in r.out.decode().split('\n')[:-1]:
        raws.append(l[-19:] if '-x' in args else json.loads(l)['raw_data'])
    texts = [' '.join('%04X' % w for w in g) for g in gs]
    if len(raws) < 30:
        raise harness.Violation('only %d records from a clean signal of 70 groups' % len(raws), None, r)
    L = Live(ctx, args, err=err)
    pos = 0
    g = -1
    b = y.tobytes()
    for n, raw in enumerate(raws):
        try:
            g = texts.index(raw, g + 1)
        except ValueError:
            if n == 0 or '----' in raw:
                continue                    # incomplete group at acquisition
            raise harness.Violation('record %d is no transmitted group: %s' % (n, raw), None, r)
        end = min(len(y), int((tt[g] + .02) * fs) + 2 * 8192)
        while pos < end:
            k = min(rng.choice((1000, 4096, 8192, 20000)), end - pos)
            L.write(b[2 * pos:2 * (pos + k)])
            pos += k
        if end < len(y):
            L.wait(n + 1, 'group %d of the signal (%.0f ms after its end)' % (
                g, 1e3 * (end / fs - tt[g])))
            ctx.c['mpx live records'] += 1
            ctx.c['live records'] += 1
    L.write(b[2 * pos:])
    r = L.finish()
    if r.rc:
        raise harness.Violation('abnormal end: %s' % r.rc, None, r)
    ctx.sig = harness.sig_of(b, repr(args))


# ------------------------------------------------------------------ clock

FORMATS = ['%c', '%Y-%m-%dT%H:%M:%S.%f', '%s.%f', '%H:%M:%S', '%d.%m.%y %H.%M', '%f', '[%F %T]', '%D %r',
           '%A %B %d', '%j %U %w', '%Y%m%d%H%M%S%f', 'T%%%H', '%e %b %I %p', '%a %b %C', '%G-W%V-%u',
           '%T,%f', '%Z %z', '%x %X', '%R', '%n%t%H', 'plain text', '%H"%M\\%S', '%h %k %l']
ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'XYZ-5:45', 'CET-1CEST,M3.5.0,M10.5.0/3', 'A12', 'NZST-12NZDT']


class Clock:
    def __init__(self, t):
        self.path = tempfile.mktemp(dir=harness.scratch())
        with open(self.path, 'wb') as f:
            f.write(b'\0' * 4096)
        self.f = open(self.path, 'r+b')
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.set(t)

    def set(self, t):
        self.t = t
        self.m[0:8] = struct.pack('<q', t)

    def queries(self):
        return struct.unpack('<q', self.m[8:16])[0]

    def close(self):
        self.m.close()
        self.f.close()
        os.remove(self.path)


def stamp(fmt, ns, tz):
    os.environ['TZ'] = tz
    time.tzset()
    f = fmt.replace('%f', '%02d' % (ns % 10 ** 9 // 10 ** 7), 1)
    return time.strftime(f, time.localtime(ns // 10 ** 9))


def rand_time(rng):
    s = rng.choice((rng.randrange(0, 4 * 10 ** 9), 1583649000 + rng.randrange(0, 7200),
                    1700000000 + rng.randrange(0, 10 ** 7), 946684799))
    return s * 10 ** 9 + rng.choice((0, 9999999, 10 ** 7, 999999999, 990000000, rng.randrange(10 ** 9)))


def clock_text(ctx):
    rng = ctx.rng
    mode = rng.choice(('hex', 'hex', 'bits', 'tef'))
    o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .4))
    o.hexout = rng.random() < .25
    steps, tail = text_steps(rng, mode, o, 120, o.streams)
    tz = rng.choice(ZONES)
    fmt = rng.choice(FORMATS)
    if rng.random() < .4:
        fmt = rng.choice(FORMATS) + rng.choice((' ', '/', 'x')) + rng.choice(('%M', '%S', '%d'))
    if rng.random() < .5 and fmt.count('%f') == 0:
        fmt += ' %f'
    args = ['-i', mode] + gen.opts_args(o)
    args += rng.choice((['-t', fmt], ['--timestamp', fmt], ['--timestamp=' + fmt]))
    t = rand_time(rng)
    if len(stamp(fmt, t, tz)) > 50:
        fmt = args[-1] = '%s'
        args[-2:] = ['-t', '%s.%f'] if args[-2] in ('-t', '--timestamp') else [args[-2], '-t%s.%f']
        fmt = '%s.%f'
    ck = Clock(t)
    L = Live(ctx, args, env={'LD_PRELOAD': shim(), 'RV_CLOCK': ck.path, 'TZ': tz})
    n = 0
    top = 0
    want = []
    seen_first = False
    for i, (d, e) in enumerate(steps):
        L.write(d)
        if e is None:
            top = max(top, ck.t)
            continue
        n += 1
        L.wait(n, 'group %d' % (i + 1))
        top = max(top, ck.t)
        want.append((e, top, ck.t))
        k = rng.random()
        if k < .5:
            nt = ck.t + rng.choice((10 ** 6, 10 ** 7, 87578947, 10 ** 9, 3600 * 10 ** 9))
        elif k < .6:
            nt = ck.t
        elif k < .97:
            nt = max(0, ck.t - rng.choice((10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9, 3600 * 10 ** 9)))
            ctx.c['clock steps back'] += 1
        else:
            nt = max(0, ck.t + rng.choice((-1, 1)) * 86400 * 365 * 10 ** 9)
        ck.set(nt)
    L.write(tail)
    r = L.finish()
    q = ck.queries()
    ck.close()
    if harness.abnormal(r) or r.rc:
        raise harness.Violation('abnormal end: %s %s' % (r.rc, harness.abnormal(r)), None, r)
    ctx.c['clock queries'] += q
    if q < len(want):
        raise harness.Inconclusive('the virtual clock was asked only %d times' % q)
    for i, (l, (e, mx, now)) in enumerate(zip(L.lines, want)):
        s = stamp(fmt, mx, tz)
        if o.hexout:
            if l.decode('utf-8') != e + ' ' + s:
                if '\n' in s:
                    continue
                raise harness.Violation('record %d at %d: expected %r, got %r' % (i, now, e + ' ' + s, l),
                                        None, r)
            ctx.c['stamped records'] += 1
            continue
        if e is DEBUG_LINE:
            continue
        a = json.loads(l)
        if a.get('rx_time') != s:
            raise harness.Violation(
                'record %d received at %d ns (latest before: %d), format %r, zone %s: rx_time is %r, '
                'expected %r' % (i, now, mx, fmt, tz, a.get('rx_time'), s), None, r)
        check_line(l, e, r, i)
        ctx.c['stamped records'] += 1
    if '\n' not in stamp(fmt, 0, tz) and len(L.lines) != len(want):
        raise harness.Violation('%d records instead of %d' % (len(L.lines), len(want)), None, r)
    ctx.c['distinct formats'] += 1
    ctx.sig = harness.sig_of(bytes(L.written), repr(args), tz)
    if ctx.idx < 60:
        ctx.sample = {'kind': 'clock', 'args': args, 'tz': tz, 'records': n, 'queries': q,
                      'last': L.lines[-1].decode('utf-8', 'replace')[-100:] if L.lines else ''}


def clock_mpx(ctx):
    rng = ctx.rng
    fs = rng.choice(RATES)
    y, gs, tt = signal(rng, fs, 60)
    ch = rng.choice((1, 1, 1, 2))
    if ch == 2:
        y = np.repeat(y, 2)
    speed = rng.choice((1, 1, 1, 1, 0, .1, -1))
    t = 1700000000 * 10 ** 9 + rng.randrange(10 ** 12)
    ck = Clock(t)
    args = ['-r', str(fs), '-R', '-t', '%s.%f'] + (['-c2'] if ch == 2 else []) + \
        (['-p'] if rng.random() < .3 else [])
    env = {'LD_PRELOAD': shim(), 'RV_CLOCK': ck.path,
           'RV_CLOCK_NSPB': repr(speed * 1e9 / fs / 2 / ch), 'TZ': 'UTC'}
    r = ctx.run(args, y.tobytes(), env=env)
    q = ck.queries()
    ck.close()
    if harness.abnormal(r) or r.rc:
        raise harness.Violation('abnormal end: %s %s' % (r.rc, harness.abnormal(r)), None, r)
    recs = [json.loads(l) for l in r.out.decode().split('\n')[:-1]]
    if len(recs) < 30 * ch:
        raise harness.Violation('only %d records from a clean signal of 60 groups' % len(recs), None, r)
    if q < len(y) // 8192:
        raise harness.Inconclusive('the virtual clock was asked only %d times' % q)
    ctx.c['clock queries'] += q
    texts = [' '.join('%04X' % w for w in g) for g in gs]
    T0 = t / 1e9
    dur = 8192 / fs / ch
    total = len(y) / fs / ch
    lo = T0 + min(0, speed * total) - dur - .02
    hi = T0 + max(0, speed * total) + .005
    for c in range(ch):
        g = -1
        prev = 0
        for n, a in enumerate(x for x in recs if x.get('channel', 0) == c):
            s = float(a['rx_time'])
            if s < prev:
                raise harness.Violation('time stamp goes back from %.2f to %.2f' % (prev, s), None, r)
            prev = s
            if not lo <= s <= hi:
                raise harness.Violation('time stamp %.2f of record %d is not within the run, %.2f to %.2f'
                                        % (s, n, lo, hi), None, r)
            ctx.c['mpx stamps'] += 1
            if a['raw_data'] not in texts[g + 1:]:
                continue
            g = texts.index(a['raw_data'], g + 1)
            # on air time plus the delay of the filters; two decimals, truncated
            if speed == 1 and not -.013 <= s - (T0 + tt[g]) <= .022:
                raise harness.Violation(
                    'group %d was over at %.3f, but its time stamp is %.2f (%d Hz, %d channels)' % (
                        g, T0 + tt[g], s, fs, ch), None, r)
            if speed == 1:
                k = int(1e3 * (s - T0 - tt[g]) // 5)
                ctx.c['mpx real-time stamps off by %d..%d ms' % (5 * k, 5 * k + 5)] += 1
    ctx.sig = harness.sig_of(y.tobytes(), repr(args))


def case(ctx):
    k = ctx.idx % 11
    (live_text if k < 3 else prefix_text if k < 5 else clock_text if k < 8 else
     prefix_mpx if k == 8 else live_mpx if k == 9 else clock_mpx)(ctx)
    return ctx.result()
