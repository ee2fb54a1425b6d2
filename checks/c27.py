import os
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import threading
import time
from rv import gen, harness, mpx, bits, loctab
from checks import c02, c20, c24, c26

CASES = {'quick': 700, 'thorough': 6000}
EXTRA_VARIANTS = ('plain',)
EXES = {}
RULE = ('A case decodes one input (hex, TEF, bits, raw PCM, WAV by name or on stdin; well-formed, mangled '
        'or arbitrary) with one set of options once under plain conditions and then several times under '
        'others: delivered through a pipe, FIFO or socket in irregular pieces with pauses, or as a file; '
        'in another time zone, locale, environment and working directory; at another (virtual) date with '
        'the clock running backwards; with freshly allocated and freed memory filled with other values; '
        'with output going to a pipe read slowly; started under another name; several copies at the '
        'same time in one directory; suspended and continued. Standard output and error and the exit '
        'status must be the same byte by byte every time. Distinct inputs.')
REQUIRE = {'runs compared': 2000, 'lines compared': 60000, 'delivery': 300, 'environment': 200, 'clock': 150,
           'memory': 200, 'concurrent': 100, 'output': 150, 'stopped': 60, 'pcm lines': 2000,
           'wav runs': 80, 'faded signals': 8}
TECHNIQUE = ('runtime monitoring: N-version run comparison; the same input is replayed under perturbed '
             'delivery schedules, clocks, environments and memory contents (fault injection), and a '
             'byte-equality monitor compares the traces')
ZONES = ('UTC', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Kiritimati', 'EST5EDT', 'XXX-13:45',
         '', ':nonsense', 'Europe/Helsinki')
LOCALES = ('C', 'POSIX', 'C.UTF-8', 'de_DE.UTF-8', 'fi_FI.ISO-8859-1', 'tr_TR.UTF-8', 'xx', '')


def start(exe, args, stdin, cwd, env, argv0=None, stdout=None):
    e = dict(harness.BASE_ENV)
    e.update(env)
    e = {k: v for k, v in e.items() if v is not None}
    of = stdout or tempfile.TemporaryFile(dir=harness.scratch())
    ef = tempfile.TemporaryFile(dir=harness.scratch())
    p = subprocess.Popen([argv0 or exe] + list(args), executable=exe, stdin=stdin, stdout=of,
                         stderr=ef, cwd=cwd, env=e)
    p.of, p.ef, p.a = of, ef, (list(args), dict(env))
    return p


def finish(p, data, out=None):
    r = harness.Result()
    r.args, r.env = p.a
    r.stdin, r.timeout = data, False
    try:
        p.wait(150)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        r.timeout = True
    r.rc = p.returncode
    p.ef.seek(0)
    r.err = p.ef.read()
    if out is None:
        p.of.seek(0)
        r.out = p.of.read()
    else:
        r.out = out
    p.ef.close()
    p.of.close()
    return r


def datafile(data):
    f = tempfile.TemporaryFile(dir=harness.scratch())
    f.write(data)
    f.seek(0)
    return f


def pump(fd, data, rng):
    """write data to fd in irregular pieces"""
    k = rng.choice((1, 2, 3))
    sizes = {1: (1, 2, 3, 5, 7, 11, 31), 2: (1, 26, 104, 1000, 4095, 4096, 4097),
             3: (8191, 16384, 16385, 32768, 65536)}[k]
    pos = 0
    naps = 0
    try:
        while pos < len(data):
            n = rng.choice(sizes) if pos < 60000 or k > 1 else 65536
            pos += os.write(fd, data[pos:pos + n])
            if naps < 60 and rng.random() < .05:
                time.sleep(rng.choice((.0005, .002, .008)))
                naps += 1
    except (BrokenPipeError, ConnectionResetError):
        pass


def deliver(rng, exe, args, data, cwd, env, how, argv0=None):
    if how == 'file':
        f = datafile(data)
        return finish(start(exe, args, f, cwd, env, argv0), data)
    if how == 'pipe':
        r, w = os.pipe()
    elif how == 'socket':
        a, b = socket.socketpair()
        r, w = a.detach(), b.detach()
    else:
        f = os.path.join(tempfile.mkdtemp(dir=harness.scratch()), 'f')
        os.mkfifo(f)
        r = os.open(f, os.O_RDONLY | os.O_NONBLOCK)
        w = os.open(f, os.O_WRONLY)
        os.set_blocking(r, True)
    p = start(exe, args, r, cwd, env, argv0)
    os.close(r)
    try:
        pump(w, data, rng)
    finally:
        os.close(w)
    return finish(p, data)


def environment(rng):
    e = {}
    if rng.random() < .6:
        e['TZ'] = rng.choice(ZONES)
    if rng.random() < .6:
        e['LC_ALL'] = rng.choice(LOCALES + (None,))
        e['LANG'] = rng.choice(LOCALES)
        e['LC_NUMERIC'] = rng.choice(LOCALES)
        e['LC_CTYPE'] = rng.choice(LOCALES)
    if rng.random() < .4:
        e['HOME'] = rng.choice(('/', '/tmp', '', None))
    if rng.random() < .3:
        e['PATH'] = rng.choice(('', None, '/nowhere'))
    if rng.random() < .3:
        for i in range(rng.choice((1, 20, 300))):
            e['V%d' % i] = 'x' * rng.randrange(200)
    if rng.random() < .3:
        e.update({'COLUMNS': '7', 'DEBUG': '1', 'TERM': 'dumb', 'USER': 'x', 'NO_COLOR': '1',
                  'TMPDIR': '/nonexistent', 'CHARSET': 'KOI8-R', 'OUTPUT_CHARSET': 'KOI8-R'})
    return e


def junkdir(rng):
    d = tempfile.mkdtemp(dir=harness.scratch())
    for n in ('POINTS.DAT', 'README.DAT', 'NAMES.DAT', 'ROADS.DAT', '-', 'hex', 'config.h', '.redsea',
              'redsea.conf', 'SEGMENTS.DAT'):
        if rng.random() < .4:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(rng.randbytes(rng.choice((0, 10, 500))))
    return d


def make_input(ctx, d):
    """-> mode, args, data (None: by file name)"""
    rng = ctx.rng
    k = ctx.idx % 8
    args = []
    if k in (6, 7):
        if k == 6 and ctx.idx % 64 == 6:
            # a station that fades for longer than the decoder waits before it starts anew
            fs, pi = rng.choice((171000, 192000)), rng.getrandbits(16) or 1
            n = rng.choice((20, 30))
            gs = [[pi, 0x0408 | i % 4, 0xE0E0, rng.getrandbits(16)] for i in range(n)]
            gap = rng.uniform(9, 16)
            s = mpx.Signal(fs, 2 * n / 11.4 + gap + 1)
            s.rds(mpx.bits_of(gs), .2, t0=.05)
            s.rds(mpx.bits_of(gs), .2, t0=n / 11.4 + gap, phase=rng.uniform(0, 6.28))
            if rng.random() < .5:
                s.noise(.01, rng.getrandbits(30))
            data = mpx.s16(s.render()).tobytes()
            args += ['-r', str(fs)]
            mode = 'pcm'
            ctx.c['faded signals'] += 1
        elif k == 6:
            data, fs, ch = c26.samples(rng, ctx)
            args += ['-r', str(fs)] + (['-c', str(ch)] if ch > 1 else [])
            mode = 'pcm'
        else:
            fs = rng.choice((171000, 192000, 228000))
            gs = [[0x6201, 0x0408 | i % 4, 0xE0E0, rng.getrandbits(16)] for i in range(60)]
            s = mpx.Signal(fs, 62 / 11.4 + rng.random())
            s.rds(mpx.bits_of(gs), .2, t0=.1, phase=rng.uniform(0, 6.28))
            s.audio(.3, .09, rng)
            data = mpx.wav(s.render(), fs, 1, 's16')
            mode = 'wav'
        if rng.random() < .4 and fs >= 171000:
            args.append('-s')
    else:
        mode = ('hex', 'tef', 'bits')[k % 3]
        args += ['-i', mode]
        q = rng.random()
        if q < .1:
            data = c26.odd_text(rng)
        elif q < .2:
            data = c02.garbage(rng, mode)
        else:
            seq = gen.session(rng, rng.choice((60, 200, 600)), losses=(0, .1), warm=True)
            data = {'hex': lambda: gen.to_hex(rng, seq), 'tef': lambda: c20.tef_text(rng, seq),
                    'bits': lambda: bits.decorate(rng, gen.to_bits(rng, seq))}[mode]()
            if q < .35:
                data = c20.mangle(rng, data)
            if rng.random() < .3:
                data = data.rstrip(b'\r\n')
        if mode == 'hex' and rng.random() < .5:
            args.append('-s')
    faded = ctx.idx % 64 == 6
    for f, pr in (('-R', .3), ('-p', .5), ('-E', .5), ('-u', .2), ('-x', 0 if faded else .15), ('--no-fec', .1),
                  ('-e', .1)):
        if rng.random() < pr:
            args.append(f)
    if rng.random() < .2:
        loctab.generate(rng, os.path.join(d, 'lt'), rng.randrange(1, 64))
        args += ['-l', os.path.join(d, 'lt')]
    if rng.random() < .2:
        args += ['-t', rng.choice(('fixed', '', 'a"b\\', '100%%'))]
    if mode == 'wav' and '-e' in args:
        args.remove('-e')
    return mode, args, data


def differ(what, r, q):
    for n, a, b in (('standard output', r.out, q.out), ('standard error', r.err, q.err)):
        if a != b:
            la, lb = a.split(b'\n'), b.split(b'\n')
            i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            return '%s differs %s from line %d on: %r, otherwise %r' % (
                n, what, i + 1, lb[i][:300] if i < len(lb) else None,
                la[i][:300] if i < len(la) else None)
    return 'exit status %s %s, otherwise %s' % (q.rc, what, r.rc)


def case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    mode, args, data = make_input(ctx, d)
    name = None
    base = list(args)
    if mode == 'wav':
        name = os.path.join(d, 'signal.wav')
        with open(name, 'wb') as f:
            f.write(data)
        base += ['-f', name] if rng.random() < .5 else ['-f', '-']
    ref = {}

    def reference(v):
        if v not in ref:
            ref[v] = deliver(rng, ctx.exe if v == 'asan' else EXES['plain'], base, data, d, {}, 'file')
            ab = harness.abnormal(ref[v])
            if ab:
                raise harness.Violation('abnormal end: %s' % ab, None, ref[v])
        return ref[v]

    def judge(v, what, q):
        r = reference(v)
        ab = harness.abnormal(q)
        if ab:
            raise harness.Violation('abnormal end %s: %s' % (what, ab), None, q)
        if (r.out, r.err, r.rc) != (q.out, q.err, q.rc):
            raise harness.Violation(differ(what, r, q), None, q, {'what': what, 'variant': v})
        ctx.c['runs compared'] += 1
        n = q.out.count(b'\n') + q.err.count(b'\n') * ('-e' in args)
        ctx.c['lines compared'] += n
        if mode in ('pcm', 'wav'):
            ctx.c['pcm lines'] += n if '-e' not in args else 0

    kinds = ['delivery', 'environment', 'memory', 'clock', 'concurrent', 'output', 'stopped', 'delivery']
    rng.shuffle(kinds)
    if ctx.idx % 64 == 6:
        kinds.remove('clock')
        kinds.insert(0, 'clock')
    for kind in kinds[:4]:
        v = rng.choice(('asan', 'plain'))
        exe = ctx.exe if v == 'asan' else EXES['plain']
        a = list(base)
        if mode == 'wav' and rng.random() < .5:
            ctx.c['wav runs'] += 1
            a = list(args) + rng.choice((['-f', '-'], ['-f', name], ['-f' + name],
                                         ['--file=' + os.path.relpath(name, d)]))
        cwd = d
        ctx.c[kind] += 1
        if kind == 'delivery':
            how = rng.choice(('pipe', 'pipe', 'fifo', 'socket') if mode != 'wav' else ('pipe', 'file'))
            ctx.c['by ' + how] += 1
            judge(v, 'when delivered through a %s' % how, deliver(rng, exe, a, data, d, {}, how))
        elif kind == 'environment':
            e = environment(rng)
            if not any(x.startswith('--file=') for x in a):
                cwd = junkdir(rng)
            argv0 = rng.choice((None, 'redsea', '', '-x', '/usr/bin/rtl_fm'))
            judge(v, 'in another environment (%s)' % ' '.join(
                '%s=%s' % (k, x) for k, x in list(e.items())[:8]),
                deliver(rng, exe, a, data, cwd, e, rng.choice(('file', 'pipe')), argv0))
        elif kind == 'memory':
            if v == 'asan':
                e = {'ASAN_OPTIONS': harness.BASE_ENV['ASAN_OPTIONS'] +
                     ':max_malloc_fill_size=100000000:malloc_fill_byte=%d:max_free_fill_size=100000000:'
                     'free_fill_byte=%d' % (rng.randrange(256), rng.randrange(256))}
            else:
                e = {'MALLOC_PERTURB_': str(rng.randrange(1, 256)),
                     'MALLOC_ARENA_TEST': '1', 'PAD': 'y' * rng.randrange(5000)}
                if rng.random() < .3:
                    e['MALLOC_MMAP_THRESHOLD_'] = '512'
            judge(v, 'with other memory contents', deliver(rng, exe, a, data, d, e, 'file'))
        elif kind == 'clock':
            # the plain build on a virtual clock that jumps about, read by read
            clk = os.path.join(d, 'clk%d' % rng.getrandbits(40))
            with open(clk, 'wb') as f:
                f.write(struct.pack('<q', rng.choice((0, 1, 951782400, 1700000000, 4102444800)) *
                                    10 ** 9).ljust(4096, b'\0'))
            e = {'LD_PRELOAD': c24.shim(), 'RV_CLOCK': clk,
                 'RV_CLOCK_NSPB': rng.choice(('0', '1e3', '1e9', '-1e6', '8.64e13'))}
            judge('plain', 'at another date', deliver(rng, EXES['plain'], a, data, d, e, 'file'))
            with open(clk, 'rb') as f:
                ctx.c['clock queries'] += struct.unpack('<qq', f.read(16))[1]
        elif kind == 'concurrent':
            fs = [datafile(data) for _ in range(3)]
            ps = [start(exe, a, f, d, {}) for f in fs]
            for p in ps:
                judge(v, 'when run at the same time as others', finish(p, data))
        elif kind == 'output':
            r, w = os.pipe()
            f = datafile(data)
            p = start(exe, a, f, d, {}, stdout=os.fdopen(w, 'wb'))
            p.of.close()
            p.of = open(os.devnull)
            out = []
            naps = 0
            while True:
                b = os.read(r, rng.choice((1, 100, 4096, 65536)) if naps < 40 else 65536)
                if not b:
                    break
                out.append(b)
                if naps < 40:
                    naps += 1
                    time.sleep(.001)
            os.close(r)
            judge(v, 'with a slow reader', finish(p, data, b''.join(out)))
        else:
            f = datafile(data)
            p = start(exe, a, f, d, {})
            t = threading.Event()

            def bother():
                for _ in range(3):
                    try:
                        p.send_signal(signal.SIGSTOP)
                        time.sleep(.003)
                        p.send_signal(signal.SIGCONT)
                        ctx.c['suspensions'] += 1
                    except (ProcessLookupError, PermissionError):
                        break
                    if t.wait(.004):
                        break
            time.sleep(rng.choice((0, .002, .01)))
            th = threading.Thread(target=bother)
            th.start()
            try:
                th.join()
            finally:
                try:
                    p.send_signal(signal.SIGCONT)
                except ProcessLookupError:
                    pass
            judge(v, 'after having been suspended', finish(p, data))
    ctx.c[mode + ' cases'] += 1
    ctx.sig = harness.sig_of(data, repr(args))
    if ctx.idx < 40:
        ctx.sample = {'args': base, 'bytes': len(data), 'conditions': kinds[:4]}
    shutil.rmtree(d, ignore_errors=True)
    return ctx.result()
