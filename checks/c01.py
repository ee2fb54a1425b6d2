import base64
import os
import shutil
import struct
import subprocess
import tempfile
import numpy as np
from rv import gen, harness, mpx, bits, sync, loctab, std, literals
from checks import c02, c20

CASES = {'quick': 2200, 'thorough': 24000}
EXTRA_VARIANTS = ('plain',)
OPTIONAL_VARIANTS = ('fuzz',)
EXES = {}
RULE = ('A case runs the program on hostile input: arbitrary bytes, mutated and well-formed broadcasts '
        'with unlimited field values in every text format, sound files with impossible headers, sample '
        'values (NaN, infinities, 1e38) and lengths, raw samples at any rate and channel count, mutated '
        'location tables and key files, random argument vectors. The program is built with '
        'AddressSanitizer, UndefinedBehaviorSanitizer (incl. float conversions) and libstdc++ '
        'assertions, or runs in valgrind memcheck (uninitialised values); growth cases compare the peak '
        'memory after one and after several passes of the same input; coverage-guided cases let libFuzzer '
        'drive main() (hex, TEF, bits, location tables and keys, all options) and put whatever it objects '
        'to before the ordinary program. Every run must end by itself with '
        'status 0 or 1 and no report. Distinct inputs.')
REQUIRE = {'text inputs': 350, 'sound files': 90, 'raw signals': 60, 'location tables': 90, 'key files': 60,
           'argument vectors': 90, 'valgrind runs': 25, 'growth runs': 4, 'output lines': 30000,
           'status 0': 500, 'status 1': 60}
TECHNIQUE = ('runtime monitoring: ASan, UBSan, libstdc++ assertions and valgrind memcheck under generated '
             'and coverage-guided hostile input, with exit status, termination and memory growth monitors')
NOTE = ('Holds on every execution explored (seeded, generated workloads; see evidence). MemorySanitizer '
        'is not usable here (libsndfile, liquid-dsp and libstdc++ are not instrumented), so '
        'uninitialised values are watched by valgrind, on fewer executions. Lines beyond 100 kB are not '
        'explored.')


def judge(ctx, r, what, ok=(0, 1)):
    if not isinstance(r.stdin, bytes):
        r.stdin = b''
    ab = harness.abnormal(r)
    if ab:
        raise harness.Violation('%s: %s' % (what, ab), None, r)
    if r.rc not in ok:
        raise harness.Violation('%s: exit status %d; %s' % (what, r.rc, r.err[-300:]), None, r)
    if r.rc == 1 and not r.err and not r.out:
        raise harness.Violation('%s: failed without a diagnostic' % what, None, r)
    ctx.c['status %d' % r.rc] += 1
    ctx.c['output lines'] += r.out.count(b'\n')
    ctx.c['input bytes'] += len(r.stdin)
    if ctx.sample is None and ctx.idx < 60:
        ctx.sample = {'what': what, 'args': r.args, 'status': r.rc, 'bytes': len(r.stdin),
                      'lines': r.out.count(b'\n')}


def options(rng, mode):
    a = []
    for f, pr in (('-p', .5), ('-R', .3), ('-E', .3), ('-u', .4), ('-x', .1), ('-e', .1), ('--no-fec', .2)):
        if rng.random() < pr:
            a.append(f)
    if mode == 'hex' and rng.random() < .6:
        a.append('-s')
    if rng.random() < .2:
        a += ['-t', rng.choice(('%c', '%f', '', '%', '%Q', '%Y' * 40, '%f%f', '\xe4', '%%f', '%E', '%-5Y',
                                '%99999d', '%c' * 3))]
    return a


def extreme_groups(rng, n):
    """random groups, skewed towards the types and field values with state behind them"""
    pi = gen.pick_pi(rng) or 1
    out = [(0, [pi, 0, 0, 0])] * 3
    types = [rng.randrange(32) for _ in range(rng.choice((2, 4, 32)))]
    aids = [0xCD46, 0xCD47, 0x4BD7, 0x6552, 0x4BD8, 0x0093, 0x7373, 0x3F00, 0, 0xFFFF, 0xFF7F, 0xFF70]
    vals = [0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x0D0D, 0xFF, 0xFF00, 0xFFFE, 0xFA00, 0xE0E1, 0xF9FA, 0xE8E8,
            0xE8FA, 0xFDFE]
    new = literals.load()[0]
    if new and rng.random() < .7:
        vals += new * (1 + 2 * len(vals) // len(new))
    v = lambda: rng.choice(vals) if rng.random() < .4 else rng.getrandbits(16)
    for _ in range(n):
        t = rng.choice(types)
        k = rng.random()
        st = 0
        b = [pi, t << 11 | rng.getrandbits(11), v(), v()]
        if k < .1:
            b = [pi, 3 << 12 | rng.getrandbits(5) if rng.random() < .5 else 3 << 12 | rng.choice(types),
                 v(), rng.choice(aids)]
        elif k < .25:
            b[1] = 8 << 12 | rng.getrandbits(5)           # TMC
        elif k < .45:
            st = rng.randrange(1, 4)
            f = rng.choice((0x2000, 0x2100, 0x3000, 0x0000, 0x4000, 0x8000, 0xC000)) | rng.getrandbits(8)
            b = [f | rng.getrandbits(5), v(), v(), v()]
            if rng.random() < .5:
                b[0] = 0x2000 | rng.getrandbits(12)
        elif k < .5:
            pi2 = rng.getrandbits(16)
            for _ in range(rng.randrange(1, 4)):
                out.append((0, [pi2, rng.getrandbits(16), v(), v()]))
            if rng.random() < .3:
                pi = pi2
        if rng.random() < .05:
            b = list(b)
            b[rng.randrange(4)] = None
        if b[0] is not None and st == 0 and b[1] is not None and b[1] & 0x800 and rng.random() < .7:
            b[2] = b[0]
        out.append((st, b))
    return out


def text_input(rng, mode, big=1):
    k = rng.random()
    n = rng.choice((5, 100, 800)) * big
    if k < .15:
        return c02.garbage(rng, mode)
    if k < .2:
        # long lines
        m = rng.choice((100, 5000, 60000))
        c = rng.choice((b'0', b'F', b' ', b'-', b'P', b'R', b'\0', b'01', b'#S1 ', b'\xff'))
        return c * (m // len(c)) + b'\n' + b'1234 0408 1234 1234\n' * 5
    # one subject at a time reaches deeper states than a mixture
    w = gen.ALL if rng.random() < .5 else {rng.choice(list(gen.ALL)): 1}
    seq = gen.session(rng, n, w) if k < .55 else extreme_groups(rng, n)
    if mode == 'hex':
        d = gen.to_hex(rng, seq)
    elif mode == 'tef':
        d = c20.tef_text(rng, seq)
    else:
        d = bits.decorate(rng, gen.to_bits(rng, seq))
    if rng.random() < .4:
        d = c20.mangle(rng, d)
    return d


def text_case(ctx):
    rng = ctx.rng
    mode = std.pick_mode(rng, .6, .2)
    data = text_input(rng, mode)
    r = ctx.run(['-i', mode] + options(rng, mode), data)
    judge(ctx, r, mode + ' input')
    if r.rc and not any(a in ('-t',) for a in r.args):
        raise harness.Violation('%s input: exit status %d: %s' % (mode, r.rc, r.err[-200:]), None, r)
    ctx.c['text inputs'] += 1
    ctx.sig = harness.sig_of(data, repr(r.args))


# ------------------------------------------------------------------ sound files

def chunk(i, d):
    return i + struct.pack('<I', len(d)) + d + b'\0' * (len(d) & 1)


def sound_file(rng, most=65536):
    """-> (name, bytes)"""
    n = rng.choice((0, 1, 100, 4095, 8192, 20000))
    fs = rng.choice((171000, 192000, 128000, 250000, 44100, 0, 1, 0x7FFFFFFF, 40000000, 40000001,
                     0xFFFFFFFF, 127999, 170999, 1000000))
    ch = rng.choice((1, 1, 2, 3, 6, 32, 100, 255, 1024, 4096, 8191, 8192, 8193, 10943, 10944, 10945,
                     20000, 65535, 0))
    if ch > most:
        ch = rng.randrange(1, 7)
    kind = rng.choice(('s16', 's16', 'f32', 'f32', 'f64', 'u8', 's24', 's32', 'au', 'aiff', 'junk', 'adpcm'))
    if kind in ('f32', 'f64', 'au'):
        pool = [0.0, 1.0, -1.0, 1e38, -1e38, 1e-40, float('nan'), float('inf'), -float('inf'), .1, 3e5]
        x = np.array([rng.choice(pool) if rng.random() < .3 else rng.gauss(0, .3) for _ in range(n)])
        d = x.astype({'f32': '<f4', 'f64': '<f8', 'au': '>f4'}[kind]).tobytes()
        if kind == 'au':
            return 'a.au', struct.pack('>4sIIIII', b'.snd', rng.choice((24, 24, 0, 1000)),
                                       rng.choice((len(d), 0xFFFFFFFF, 0)), 6, fs, ch) + d
        w = 4 if kind == 'f32' else 8
        fmt = struct.pack('<HHIIHH', 3, ch & 0xFFFF, fs, fs * ch * w & 0xFFFFFFFF, ch * w & 0xFFFF, w * 8)
    elif kind == 'aiff':
        d = rng.randbytes(2 * n)
        ext = struct.pack('>HQ', 16383 + 17, int(fs) << 46 & (1 << 64) - 1)
        comm = struct.pack('>HIH', ch & 0xFFFF, n, 16) + ext[:10]
        body = b'AIFF' + b'COMM' + struct.pack('>I', len(comm)) + comm + \
            b'SSND' + struct.pack('>IQ', len(d) + 8, 0) + d
        return 'a.aiff', b'FORM' + struct.pack('>I', len(body)) + body
    elif kind == 'junk':
        d = rng.choice((b'RIFF', b'fLaC', b'OggS', b'.snd', b'FORM', b'caff', b'RF64', b'')) + rng.randbytes(n)
        return 'a.wav', d
    else:
        w = {'s16': 2, 'u8': 1, 's24': 3, 's32': 4, 'adpcm': 1}[kind]
        d = rng.randbytes(w * n)
        tag = 2 if kind == 'adpcm' else 1
        fmt = struct.pack('<HHIIHH', tag, ch & 0xFFFF, fs, fs * ch * w & 0xFFFFFFFF, ch * w & 0xFFFF,
                          4 if tag == 2 else 8 * w)
    body = b'WAVE' + chunk(b'fmt ', fmt)
    if rng.random() < .2:
        body += chunk(b'LIST', rng.randbytes(rng.randrange(40)))
    dl = rng.choice((len(d), len(d), 0, 0xFFFFFFFF, 7))
    body += b'data' + struct.pack('<I', dl) + d
    b = bytearray(b'RIFF' + struct.pack('<I', rng.choice((len(body), 0xFFFFFFFF, 0))) + body)
    if rng.random() < .2:
        for _ in range(rng.randrange(1, 6)):
            b[rng.randrange(min(len(b), 60))] = rng.randrange(256)
    if rng.random() < .2:
        del b[rng.randrange(len(b)):]
    return 'a.wav', bytes(b)


def file_case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    name, data = sound_file(rng)
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write(data)
    a = options(rng, 'hex' if rng.random() < .5 else 'mpx')
    a = [x for x in a if x != '-e']
    if rng.random() < .1:
        a += ['-c', '2']
    if rng.random() < .1:
        a += ['-r', '192k']
    if rng.random() < .2:
        with open(p, 'rb') as f:
            r = ctx.run(['-f', '-'] + a, f, timeout=120)
        r.stdin = data
    else:
        r = ctx.run(['-f', p] + a, timeout=120)
        r.stdin = data
    judge(ctx, r, 'sound file')
    ctx.c['sound files'] += 1
    shutil.rmtree(d)
    ctx.sig = harness.sig_of(data, repr(a))


def pcm_case(ctx):
    rng = ctx.rng
    k = rng.random()
    n = rng.choice((0, 1, 3, 1000, 16384, 60000))
    if k < .5:
        data = rng.randbytes(n)
    elif k < .7:
        data = bytes(rng.choice((0, 0, 0, 0x7F, 0x80, 0xFF)) for _ in range(n))
    elif k < .8:
        data = b'\xff\x7f\x00\x80' * (n // 4)
    else:
        fs = 171000
        s = mpx.Signal(fs, 3)
        g = [b for st, b in extreme_groups(rng, 34) if st == 0 and None not in b]
        s.rds(mpx.bits_of(g), .3, t0=0)
        data = mpx.s16(s.render()).tobytes()
    a = options(rng, 'hex')
    if rng.random() < .8:
        a += ['-r', rng.choice(('171000', '128k', '192k', '250000', '2.4M', '40M', '1e6', '34.5M'))]
        if '-s' in a and '128k' in a:
            a.remove('-s')
    if rng.random() < .4:
        a += ['-c', str(rng.randrange(1, 33))]
    r = ctx.run(a, data, timeout=120)
    judge(ctx, r, 'raw signal')
    ctx.c['raw signals'] += 1
    ctx.sig = harness.sig_of(data, repr(a))


# ------------------------------------------------------------------ tables

def mutate_file(rng, p):
    d = bytearray(open(p, 'rb').read())
    k = rng.random()
    if k < .1:
        os.remove(p)
        return
    if k < .15:
        d = bytearray()
    elif k < .25:
        d = bytearray(rng.randbytes(rng.choice((1, 50, 3000))))
    elif k < .35:
        # without its title line, or titles twice, or only titles
        l = d.split(b'\n')
        l = rng.choice((l[1:], l[:1] + l, l[:1], [l[0] + b';' + l[0]] + l[1:]))
        d = bytearray(b'\n'.join(l))
    else:
        for _ in range(rng.choice((1, 3, 30))):
            if not d:
                break
            i = rng.randrange(len(d))
            q = rng.random()
            if q < .3:
                d[i] = rng.choice(b'0;-9\n\r\xff\x00"') if rng.random() < .7 else rng.randrange(256)
            elif q < .6:
                del d[i:i + rng.choice((1, 2, 30))]
            else:
                d[i:i] = rng.choice((b';', b'\n', b'99999999999999999999', b'-1', b'-99999', b'65536',
                                     b'2147483648', b'\xff\xfe', b';;;;;', b'1e9', b' ', b'\0'))
    with open(p, 'wb') as f:
        f.write(d)


def table_case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    args = ['-ihex', '-p'] if rng.random() < .8 else ['-ihex', '-x']
    ltns, lcds = [], []
    for n in range(rng.choice((1, 1, 2, 3))):
        k = rng.random()
        p = os.path.join(d, 't%d' % n)
        if k < .1:
            p = rng.choice((os.path.join(d, 'none'), '', '/dev/null', os.path.join(d, 't0', 'NAMES.DAT')))
        else:
            ltn = rng.choice(ltns) if ltns and rng.random() < .3 else rng.randrange(0, 64)
            t = loctab.generate(rng, p, ltn)
            ltns.append(ltn)
            lcds += list(t.points)
            if rng.random() < .7:
                for f in sorted(os.listdir(p)):
                    if rng.random() < .5:
                        mutate_file(rng, os.path.join(p, f))
            if rng.random() < .3:
                with open(os.path.join(p, 'README.DAT'), 'wb') as f:
                    f.write(b'a;b;c;d;' + rng.choice((b'', b'UTF-16', b'UCS-4LE', b'nonsense', b'UTF-8//IGNORE',
                                                      b'ISO-2022-JP', b'UTF-7', b'ISO 8859-1', b'\xff',
                                                      b'ISO' + b'x' * 3000, b'EBCDIC-US')) + b';e\n')
        args += ['-l', p]
    w = {'tmc': 6, 'rnd': 1, 'eon': 1}
    seq = gen.session(rng, 400, w, stations=1, warm=True,
                      kw={'tmc': {'ltns': ltns or None, 'lcds': lcds or None}})
    r = ctx.run(args, gen.to_hex(rng, seq), cwd=d)
    judge(ctx, r, 'location table')
    ctx.c['location tables'] += 1
    shutil.rmtree(d)
    ctx.sig = harness.sig_of(r.stdin, repr(args), ctx.idx)


def key_case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    p = os.path.join(d, 'service_key_table.csv')
    loctab.write_keys(rng, d)
    if rng.random() < .7:
        mutate_file(rng, p)
    if rng.random() < .3:
        with open(p, 'ab') as f:
            for _ in range(rng.randrange(1, 40)):
                f.write(','.join(str(rng.choice((0, 1, 7, 8, 15, 16, 17, 31, 32, -1, 255, 256, 65535, 65536,
                                                 1 << 31, -(1 << 31), 'x', '')))
                                 for _ in range(rng.choice((3, 4, 4, 4, 5)))).encode() + b'\n')
    pi = 0x6201
    seq = [(0, [pi, 0, 0, 0])] * 3
    seq += [(0, [pi, 3 << 12 | 16, rng.randrange(64) << 6 & 0xFC0 if rng.random() < .5 else 0x0C40,
                 rng.choice((0xCD46, 0xCD47))])] * 2
    for _ in range(200):
        k = rng.random()
        if k < .2:
            # encryption administration: test bits, encid
            seq.append((0, [pi, 8 << 12, rng.getrandbits(5) << 5 | rng.getrandbits(16) & 0xE01F,
                            rng.getrandbits(16)]))
        elif k < .3:
            seq.append((0, [pi, 3 << 12 | 16, rng.getrandbits(14), rng.choice((0xCD46, 0xCD47))]))
        else:
            seq.append((0, [pi, 8 << 12 | rng.getrandbits(5), rng.getrandbits(16), rng.getrandbits(16)]))
    r = ctx.run(['-ihex'], gen.to_hex(rng, seq), cwd=d)
    judge(ctx, r, 'key file')
    ctx.c['key files'] += 1
    shutil.rmtree(d)
    ctx.sig = harness.sig_of(r.stdin, ctx.idx)


TOKENS = ['-b', '-c', '-e', '-E', '-f', '-h', '-i', '-l', '-o', '-p', '-r', '-R', '-s', '-t', '-u', '-v', '-x',
          '--input-bits', '--channels', '--feed-through', '--bler', '--file', '--input-hex', '--input',
          '--loctable', '--no-fec', '--output', '--show-partial', '--samplerate', '--show-raw', '--streams',
          '--timestamp', '--rbds', '--version', '--output-hex', '--help', 'hex', 'bits', 'mpx', 'tef', 'json',
          '0', '1', '2', '32', '33', '-1', '171000', '128k', '40M', 'nan', '', '-', '--', 'x', '%c', '%f', '-z',
          '--nonsense', '--in', '--s', '99999999999999999999', '-chex', '-r171k', '-pRsuE', '-xhp', '\xff',
          '--channels=2', '--input=hex', '-ihex', '-ohex', '-ibits', '-c2', '2.4M', '1e400', '0x20', '.5M', 'k']


def argv_case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    a = [rng.choice(TOKENS) for _ in range(rng.randrange(0, 9))]
    data = rng.choice((b'', text_input(rng, 'hex'), text_input(rng, 'bits'), rng.randbytes(3000)))
    r = ctx.run(a, data, cwd=d, timeout=120)
    judge(ctx, r, 'arguments %r' % a)
    ctx.c['argument vectors'] += 1
    ctx.sig = harness.sig_of(repr(a), data)


# ------------------------------------------------------------------ valgrind, growth

def valgrind_case(ctx):
    rng = ctx.rng
    if not shutil.which('valgrind'):
        raise harness.Inconclusive('no valgrind')
    d = ctx.tmpdir()
    k = rng.random()
    if k < .7:
        mode = std.pick_mode(rng, .6, .2)
        seq = extreme_groups(rng, 150) if rng.random() < .6 else gen.session(rng, 200)
        data = {'hex': lambda: gen.to_hex(rng, seq), 'tef': lambda: c20.tef_text(rng, seq),
                'bits': lambda: bits.decorate(rng, gen.to_bits(rng, seq))}[mode]()
        args = ['-i', mode] + options(rng, mode)
        if rng.random() < .3:
            t = loctab.generate(rng, os.path.join(d, 'lt'), 1)
            args += ['-l', os.path.join(d, 'lt')]
    elif k < .9:
        data = rng.randbytes(rng.choice((100, 40000, 100000)))
        if rng.random() < .6:
            s = mpx.Signal(171000, 1.2)
            s.rds(mpx.bits_of([[0x1234, 0x0408, 0xE0E0, 0x4141]] * 13), .3, t0=0)
            data = mpx.s16(s.render()).tobytes()
        args = ['-r', rng.choice(('171000', '200k', '2M'))] + options(rng, 'hex')
        if rng.random() < .3:
            args += ['-c', str(rng.randrange(1, 5))]
    else:
        name, sf = sound_file(rng, 32)
        p = os.path.join(d, name)
        open(p, 'wb').write(sf[:60000])
        data = b''
        args = ['-f', p] + [x for x in options(rng, 'mpx') if x != '-e']
    lim = ['--error-exitcode=99', '-q', '--leak-check=no', '--max-stackframe=16000000']
    r = harness.run('valgrind', lim + [EXES['plain']] + args, data, cwd=d, timeout=400)
    if r.timeout:
        raise harness.Inconclusive('valgrind run took too long')
    if r.rc == 99 or b'== Conditional jump' in r.err or b'== Use of uninit' in r.err or \
            b'== Invalid' in r.err or b'== Syscall param' in r.err:
        raise harness.Violation('valgrind: %s' % r.err[:1500].decode('utf-8', 'replace'), None, r)
    judge(ctx, r, 'under valgrind')
    ctx.c['valgrind runs'] += 1
    ctx.sig = harness.sig_of(data, repr(args), 'vg')


def peak(exe, args, data, passes, cwd):
    """peak resident kB when data is sent so many times over"""
    import resource
    f = tempfile.TemporaryFile(dir=cwd)
    for _ in range(passes):
        f.write(data)
    f.seek(0)
    p = subprocess.Popen([exe] + args, stdin=f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         cwd=cwd, env=harness.BASE_ENV)
    _, st, ru = os.wait4(p.pid, 0)
    p.returncode = os.waitstatus_to_exitcode(st)
    f.close()
    return p.returncode, ru.ru_maxrss


def growth_case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    k = ctx.idx // 11 % 5
    if k < 3:
        mode = ('hex', 'bits', 'tef')[k]
        n = 12000 if k == 0 else 6000
        seq = []
        while len(seq) < n:
            seq += extreme_groups(rng, 1500) if rng.random() < .5 else gen.session(rng, 1500)
        data = {'hex': lambda: gen.to_hex(rng, seq), 'tef': lambda: c20.tef_text(rng, seq),
                'bits': lambda: gen.to_bits(rng, seq).encode()}[mode]()
        if not data.endswith(b'\n'):
            data += b'\n'
        args = ['-i', mode, '-p', '-E'] + (['-s'] if k == 0 else [])
        if rng.random() < .5:
            args.append('-u')
        units = len(seq)
    else:
        units = 171000 * 4
        if k == 3:
            s = mpx.Signal(171000, 4)
            s.rds(mpx.bits_of([[0x1234, 0x0408, 0xE0E0, 0x4141]] * 45), .3, t0=0)
            data = mpx.s16(s.render()).tobytes()
        else:
            data = rng.randbytes(2 * units)
        args = ['-r', rng.choice(('171000', '192k')), '-p', '-s']
    lo, hi = 2, 12
    rc, a = peak(EXES['plain'], args, data, lo, d)
    rc2, b = peak(EXES['plain'], args, data, hi, d)
    if rc or rc2:
        raise harness.Violation('growth run ended with status %s, %s' % (rc, rc2))
    ctx.c['growth runs'] += 1
    ctx.c['growth units'] += hi * units
    ctx.c['largest growth kB'] = max(0, b - a)
    if b - a > 2500:
        # once more, before it is believed
        rc, a = peak(EXES['plain'], args, data, lo, d)
        rc2, b = peak(EXES['plain'], args, data, 2 * hi, d)
        if b - a > 5000:
            raise harness.Violation('memory grows: %d kB after %d passes, %d kB after %d passes of the same '
                                    'input (%s)' % (a, lo, b, 2 * hi, ' '.join(args)))
    ctx.sig = harness.sig_of(data, repr(args))
    ctx.sample = {'what': 'growth', 'args': args, 'peak kB': [a, b], 'passes': [lo, hi]}


# ------------------------------------------------------------------ coverage-guided

FUZZ = {'quick': (8, 50), 'thorough': (24, 300)}         # jobs, seconds each


TABLE_FILES = ('lt/README.DAT', 'lt/LOCATIONDATASETS.DAT', 'lt/NAMES.DAT', 'lt/ROADS.DAT', 'lt/SEGMENTS.DAT',
               'lt/POINTS.DAT', 'lt/POFFSETS.DAT', 'lt/ADMINISTRATIVEAREA.DAT', 'service_key_table.csv')


def replay_direct(ctx, run, files):
    """a violation found by fuzzing: the stored arguments, input and files once more"""
    d = ctx.tmpdir()
    os.mkdir(os.path.join(d, 'lt'))
    for f, x in files.items():
        if f in TABLE_FILES:
            with open(os.path.join(d, f), 'wb') as fh:
                fh.write(base64.b64decode(x))
    judge(ctx, ctx.run(run['args'], base64.b64decode(run['stdin_b64']), cwd=d), 'replayed input')


def fuzz_seed(rng, mode):
    o = rng.randrange(32)
    head = bytes((mode, o))

    def binary(seq):
        pi = next((b[0] for st, b in seq if not st and b[0]), 0x6201)
        out = struct.pack('>H', pi)
        for st, b in seq:
            f = st << 4 | (0x80 if None in b else 0)
            f |= sum(1 << k for k in range(4) if b[k] is None)
            own = st or b[0] not in (None, pi | 1)
            w = [x or 0 for x in b]
            out += bytes((f | (0x40 if own else 0),)) + struct.pack('>%dH' % len(w[not own:]), *w[not own:])
        return out

    n = rng.choice((6, 30))
    one = {rng.choice(list(gen.ALL)): 1}
    seq = gen.session(rng, n, one, stations=1, warm=True) if rng.random() < .7 else extreme_groups(rng, n)
    if mode in (0, 3):
        return head + binary(seq)
    if mode == 1:
        return head + gen.to_hex(rng, seq)[:3000]
    if mode == 2:
        return head + c20.tef_text(rng, seq)[:3000]
    d = tempfile.mkdtemp(dir=harness.scratch())
    t = loctab.generate(rng, os.path.join(d, 'lt'), rng.randrange(1, 64))
    loctab.write_keys(rng, d)
    parts = []
    for f in TABLE_FILES:
        p = os.path.join(d, f)
        x = open(p, 'rb').read() if os.path.exists(p) else b''
        parts.append(b'\n'.join(x.split(b'\n')[:8]))
    shutil.rmtree(d)
    seq = gen.session(rng, 40, {'tmc': 1}, stations=1, warm=True,
                      kw={'tmc': {'ltns': [t.ltn], 'lcds': list(t.points)[:6]}})
    return head + b'\x1e'.join(parts) + b'\x1e' + binary(seq)


def fuzz_case(ctx):
    rng = ctx.rng
    exe = EXES.get('fuzz')
    if not exe:
        ctx.c['fuzz jobs skipped'] += 1
        return
    mode = (0, 0, 0, 3, 4, 4, 1, 2)[ctx.idx % 8]
    secs = FUZZ[ctx.tier][1]
    d = ctx.tmpdir()
    for s in ('corpus', 'art', 'cwd'):
        os.mkdir(os.path.join(d, s))
    for i in range(60):
        with open(os.path.join(d, 'corpus', 's%d' % i), 'wb') as f:
            f.write(fuzz_seed(rng, mode))
    env = dict(harness.BASE_ENV, RV_FUZZ_CWD=os.path.join(d, 'cwd'), RV_FUZZ_MODE=str(mode),
               ASAN_OPTIONS='detect_leaks=0:quarantine_size_mb=16')
    new, code = literals.load()
    with open(os.path.join(d, 'dict'), 'w') as f:
        for v in new or code:
            f.write('"\\x%02x\\x%02x"\n' % (v >> 8, v & 255) if mode in (0, 3, 4) else '"%04X"\n' % v)
    log = os.path.join(d, 'log')
    with open(log, 'wb') as lf:
        p = subprocess.Popen([exe, '-seed=%d' % rng.randrange(1, 1 << 30), '-use_value_profile=1',
                              '-max_len=%d' % (4200 if mode in (1, 2, 4) else 500),
                              '-dict=' + os.path.join(d, 'dict'), '-timeout=25', '-rss_limit_mb=3000', '-max_total_time=%d' % secs,
                              '-print_final_stats=1', '-verbosity=1',
                              '-artifact_prefix=' + os.path.join(d, 'art', ''), os.path.join(d, 'corpus')],
                             stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=env, cwd=d)
        try:
            p.wait(secs + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            ctx.c['fuzz jobs cut off'] += 1
    txt = open(log, errors='replace').read()
    runs = [int(l.split()[1]) for l in txt.split('\n') if l.startswith('stat::number_of_executed_units')]
    if not runs:
        runs = [int(l[1:].split()[0]) for l in txt.split('\n') if l[:1] == '#' and l[1:2].isdigit()][-1:]
    ctx.c['fuzzed executions'] += sum(runs)
    cov = [int(l.split('cov: ')[1].split()[0]) for l in txt.split('\n') if 'cov: ' in l]
    ctx.c['fuzz corpus kept'] += len(os.listdir(os.path.join(d, 'corpus')))
    ctx.c['fuzz jobs'] += 1
    tried = sorted(os.listdir(os.path.join(d, 'art')))
    # what the fuzzer stopped at, and a part of what it kept, is run by the ordinary program
    kept = sorted(os.listdir(os.path.join(d, 'corpus')))
    rng.shuffle(kept)
    for name in [os.path.join(d, 'art', t) for t in tried] + [os.path.join(d, 'corpus', k) for k in kept[:12]]:
        w = tempfile.mkdtemp(dir=d)
        subprocess.run([exe, name], env=dict(env, RV_RENDER=w, RV_FUZZ_CWD=w), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=60)
        if not os.path.exists(os.path.join(w, 'stdin')):
            continue
        args = open(os.path.join(w, 'args')).read().split('\n')[:-1]
        data = open(os.path.join(w, 'stdin'), 'rb').read()
        try:
            judge(ctx, ctx.run(args, data, cwd=w), 'input found by coverage-guided fuzzing')
        except harness.Violation as v:
            v.extra = {'direct': {f: base64.b64encode(open(os.path.join(w, f), 'rb').read()).decode()
                                  for f in TABLE_FILES if os.path.exists(os.path.join(w, f))}}
            raise
        shutil.rmtree(w)
        ctx.c['fuzz inputs replayed'] += 1
    ctx.c['fuzz findings not confirmed'] += len(tried)
    ctx.sample = {'what': 'libFuzzer', 'mode': mode, 'executions': sum(runs), 'edges and features': txt.count('NEW'),
                  'coverage': cov[-1:] if cov else [], 'log_tail': txt[-300:]}
    shutil.rmtree(d)
    ctx.sig = harness.sig_of('fuzz', ctx.idx)


def case(ctx):
    if ctx.idx < FUZZ[ctx.tier][0]:
        fuzz_case(ctx)
        return ctx.result()
    k = ctx.idx % 11
    if k == 10:
        j = ctx.idx // 11
        if j % 12 == 0:
            growth_case(ctx)
        elif j % 2:
            valgrind_case(ctx)
        else:
            text_case(ctx)
    else:
        (text_case, text_case, text_case, text_case, file_case, file_case if ctx.idx % 2 else text_case, pcm_case,
         table_case, key_case, argv_case)[k](ctx)
    return ctx.result()
