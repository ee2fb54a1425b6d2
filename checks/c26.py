import os
import subprocess
import tempfile
import time
import numpy as np
from rv import gen, harness, mpx, bits, formats, loctab, sync
from checks import c02, c20

CASES = {'quick': 1200, 'thorough': 9000}
RULE = ('A case feeds hex, TEF or bit text (well-formed broadcasts, mangled ones, arbitrary bytes with '
        'NULs, carriage returns, very long lines and no final newline), raw PCM sample values (every '
        'value in -32768..32767, random, modulated RDS, any length and channel count) to the program '
        'with feed-through, from a file or in irregular pieces through a pipe. Standard output must be '
        'the input, byte by byte, and standard error what standard output is without feed-through. '
        'Distinct inputs.')
REQUIRE = {'bytes echoed': 4000000, 'pcm cases': 80, 'hex cases': 60, 'tef cases': 60, 'bits cases': 60,
           'records on stderr': 8000, 'pcm records': 300, 'piped cases': 60, 'distinct samples': 65536}
TECHNIQUE = ('runtime monitoring: byte-exact conservation monitor between stdin and stdout, and equality '
             'of the record streams of a run with and a run without feed-through')


def odd_text(rng):
    k = rng.random()
    n = rng.choice((0, 1, 15, 16, 17, 300, 5000, 40000))
    if k < .3:
        return rng.randbytes(n)
    if k < .6:
        return bytes(rng.choice(b'01 \r\n\x00P0R9aF#S-') for _ in range(n))
    if k < .8:
        return b'0123 4567 89AB CDEF' * (n // 19) + rng.choice((b'', b'\n', b'\n\n', b'\r\n', b'\x00'))
    return b'\n' * (n % 50) + b'P1234\r\nR123412341234%02X\r\n' % rng.randrange(256) * (n // 30)


def feed(ctx, args, data, pieces):
    """run with the input written through a pipe in irregular pieces"""
    r = harness.Result()
    r.args, r.env, r.stdin, r.timeout = list(args), {}, data, False
    of, ef = (tempfile.TemporaryFile(dir=harness.scratch()) for _ in 'oe')
    p = subprocess.Popen([ctx.exe] + args, stdin=subprocess.PIPE, stdout=of, stderr=ef,
                         cwd=harness.scratch(), env=harness.BASE_ENV)
    pos = 0
    try:
        for n in pieces:
            if pos >= len(data):
                break
            os.write(p.stdin.fileno(), data[pos:pos + n])
            pos += n
            if n % 7 == 0:
                time.sleep(.001)
        p.stdin.write(data[pos:])
        p.stdin.close()
    except BrokenPipeError:
        pass
    try:
        p.wait(120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        r.timeout = True
    r.rc = p.returncode
    of.seek(0)
    ef.seek(0)
    r.out, r.err = of.read(), ef.read()
    return r


def samples(rng, ctx):
    """-> (bytes, rate, channels)"""
    k = ctx.idx // 4 % 4
    ch = rng.choice((1, 1, 2, 3, 5))
    fs = rng.choice((128000, 171000, 171000, 192000, 250000))
    n = rng.choice((0, 1, 2, 2047, 4095, 4096, 4097, 8192, 8193, 30000, 100001))
    if k == 0:
        # every 16-bit value
        x = list(range(-32768, 32768))
        rng.shuffle(x)
        d = np.array(x, dtype='<i2').tobytes()
    elif k == 1:
        d = rng.randbytes(2 * n)
    elif k == 2:
        d = np.array([rng.choice((-32768, -32767, -1, 0, 1, 32766, 32767)) for _ in range(n)],
                     dtype='<i2').tobytes()
    else:
        gs = [[0x6201, 0x0408 | i % 4, 0xE0E0, rng.getrandbits(16)] for i in range(60)]
        s = mpx.Signal(fs, 62 / 11.4 + rng.random())
        s.rds(mpx.bits_of(gs), rng.choice((.05, .1, .3)), t0=.1, phase=rng.uniform(0, 6.28))
        s.audio(.3, .09, rng)
        y = mpx.s16(s.render())
        ch = rng.choice((1, 1, 2))
        if ch == 2:
            y = np.stack([y, y[::-1]], 1).reshape(-1)
        d = y.tobytes()
    if k != 3 and rng.random() < .3:
        d += rng.randbytes(rng.choice((1, 2, 3)) if ch > 1 else rng.choice((1, 2)))
    return d, fs, ch


def case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    k = ctx.idx % 4
    args = []
    if k == 3:
        mode = 'pcm'
        data, fs, ch = samples(rng, ctx)
        args += ['-r', str(fs)] + (['-c', str(ch)] if ch > 1 or rng.random() < .3 else [])
        if rng.random() < .4 and fs >= 171000:
            args.append('-s')
        want = data[:len(data) // 2 * 2]           # half a sample is no sample
        ctx.c['distinct samples'] += len(set(np.frombuffer(want, dtype='<i2').tolist())) == 65536 and 65536
    else:
        mode = ('hex', 'tef', 'bits')[k]
        args += ['-i', mode]
        q = rng.random()
        if q < .35:
            data = odd_text(rng)
        elif q < .5:
            data = c02.garbage(rng, mode)
        else:
            seq = gen.session(rng, rng.choice((20, 200, 600)), losses=(0, .1), warm=True)
            data = {'hex': lambda: gen.to_hex(rng, seq), 'tef': lambda: c20.tef_text(rng, seq),
                    'bits': lambda: bits.decorate(rng, gen.to_bits(rng, seq))}[mode]()
            if q < .7:
                data = c20.mangle(rng, data)
            if rng.random() < .4:
                data = data.rstrip(b'\r\n')
        want = data
        if mode == 'hex' and rng.random() < .3:
            args.append('-s')
    for f, pr in (('-R', .3), ('-p', .3), ('-E', .3), ('-u', .2), ('-x', .2), ('--no-fec', .1)):
        if rng.random() < pr:
            args.append(f)
    if rng.random() < .1:
        loctab.generate(rng, os.path.join(d, 'lt'), rng.randrange(1, 64))
        args += ['-l', os.path.join(d, 'lt')]
    if rng.random() < .2:
        args += ['-t', 'fixed']
    e = args + [rng.choice(('-e', '--feed-through'))]
    if rng.random() < .4:
        big = rng.random() < .3
        pieces = [rng.choice((1, 2, 3, 5, 7, 64, 4095, 4096, 8191)) if not big else 65536
                  for _ in range(200)]
        r = feed(ctx, e, data, pieces)
        ctx.c['piped cases'] += 1
    else:
        r = ctx.run(e, data, cwd=d)
    ab = harness.abnormal(r)
    if r.out != want:
        n = next((i for i, (a, b) in enumerate(zip(r.out, want)) if a != b), min(len(r.out), len(want)))
        raise harness.Violation('stdout differs from the input at byte %d: %d bytes in, %d bytes out; '
                                'in %r, out %r%s' % (n, len(want), len(r.out), want[n:n + 40],
                                                     r.out[n:n + 40], ' (%s)' % ab if ab else ''),
                                None, r)
    if ab:
        raise harness.Violation('abnormal end: %s' % ab, None, r)
    r0 = ctx.run(args, data, cwd=d)
    if r0.rc != r.rc:
        raise harness.Violation('exit status %s with feed-through, %s without' % (r.rc, r0.rc), None, r)
    if r.err != r0.err + r0.out and r.err != r0.out + r0.err:
        raise harness.Violation('records with feed-through differ: stderr %r; without feed-through '
                                'stdout %r' % (r.err[:400], r0.out[:400]), None, r)
    nrec = r.err.count(b'\n')
    ctx.c['records on stderr'] += nrec
    ctx.c['bytes echoed'] += len(want)
    ctx.c[mode + ' cases'] += 1
    if mode == 'pcm':
        ctx.c['pcm records'] += nrec
    ctx.sig = harness.sig_of(data, repr(args))
    if ctx.idx < 40:
        ctx.sample = {'args': r.args, 'bytes': len(data), 'head': data[:60].decode('latin1'),
                      'records': nrec}
    return ctx.result()
