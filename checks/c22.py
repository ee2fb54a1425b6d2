import os
import numpy as np
from rv import gen, harness, mpx, schema

CASES = {'quick': 400, 'thorough': 2500}
RULE = ('A case synthesises a multiplex signal (RDS at random level, carrier phase, carrier and clock '
        'offset, white noise, pilot and stereo audio) at a sample rate from 128 kHz to 40 MHz, hands it '
        'over as raw PCM, WAV (8 to 32 bit, float) or AU, by pipe or file, and compares the printed '
        'groups with the transmitted ones: after the acquisition allowance, every group exactly once '
        'and in order, up to the end of the signal. Other cases contain pauses (silence, noise, audio, '
        'a new phase or another station afterwards), long signals, and signals without RDS. '
        'Distinct signals.')
TECHNIQUE = ('runtime monitoring: the real demodulator is driven by a synthetic transmitter and an '
             'exactly-once, in-order trace checker compares printed with transmitted groups')


def aggregate(c):
    # "a short acquisition time": the worst case is in the per-signal allowance, this is the typical one
    n = sum(v for k, v in c.items() if k.startswith('acquired after'))
    slow = c['acquired after 8-34 groups']
    if n >= 50 and slow > .2 * n:
        return '%d of %d signals needed more than 7 groups (0.6 s) for acquisition' % (slow, n)
    n = sum(v for k, v in c.items() if k.startswith('back after'))
    slow = c['back after 15 s']
    if n >= 12 and slow > .3 * n:
        return '%d of %d signals needed more than 3 s for re-acquisition after a pause' % (slow, n)


NOTE = ('Holds on every signal explored; "adequate quality" means noise at most 0.4 times the RDS '
        'amplitude, carrier within 5 Hz or 100 ppm, clock within 200 ppm. Acquisition allowance: 34 '
        'groups (3 s) at start, at most 7 groups for 80 % of the signals; 15 s after a pause, 3 s for 70 % of the pauses. Trusts the modulator rv/mpx.py.')
REQUIRE = {'groups matched': 5000, 'sample rates': 60, 'pauses': 16, 'signals without RDS': 10,
           'rates above 5 MHz': 3, 'file formats': 20}
RATES = [128000, 128001, 129000, 133333, 144000, 160000, 170999, 171000, 171001, 176400, 180000,
         192000, 200000, 220500, 228000, 240000, 250000, 256000, 300000, 352800, 384000, 480000,
         500000, 768000, 1000000, 1024000, 2000000, 2400000]
HIGH = [5000000, 34200000, 36000000, 40000000, 3200000, 10000000, 20000000, 39999999]
ACQ = 34
WORKERS = 8


def make_groups(rng, n, pi, tag=0):
    g = []
    for k in range(n):
        w = [pi, rng.getrandbits(16), rng.getrandbits(16), (tag + k) & 0xFFFF]
        if w[1] & 0x800 and rng.random() < .9:
            w[2] = pi
        g.append(w)
    return g


def hexs(gs):
    return ['%04X %04X %04X %04X' % tuple(g) for g in gs]


def impair(rng):
    """-> keyword arguments of Signal.rds and the noise level"""
    # total level from full scale down to 2 %, RDS at 1.7 to 10 % of it
    lvl = 10 ** rng.uniform(-1.7, 0) * rng.uniform(.017, .1)
    if rng.random() < .2:
        lvl = 10 ** rng.uniform(-3, -.35)
    k = {'level': lvl, 'phase': rng.uniform(0, 6.2832)}
    q = rng.random()
    if q < .3:
        k['dhz'] = rng.uniform(-5, 5)
    elif q < .6:
        k['ppm_carrier'] = k['ppm_clock'] = rng.uniform(-100, 100)
    elif q < .7:
        k['ppm_clock'] = rng.uniform(-200, 200)
    noise = lvl * rng.uniform(.02, .4) if rng.random() < .6 else 0
    return k, noise


def locate(lines, exp, allowance, what, r):
    """exp[first:] must occur in lines, contiguous, with first <= allowance -> (first, position)"""
    if True:
        for first in range(min(allowance, len(exp) - 1) + 1):
            for p in [i for i, l in enumerate(lines) if l == exp[first]]:
                if lines[p:p + len(exp) - first] == exp[first:]:
                    return first, p
            # an exact group followed by something else: acquisition may have been disturbed
        last = None
        for first in range(min(allowance, len(exp) - 1) + 1):
            if exp[first] in lines:
                last = first
        if last is None:
            raise harness.Violation('%s: no group of the signal was decoded within %d groups (%d lines '
                                    'printed: %r)' % (what, allowance, len(lines), lines[:3]), None, r)
        p = lines.index(exp[last])
        for i, e in enumerate(exp[last:]):
            if p + i >= len(lines) or lines[p + i] != e:
                raise harness.Violation('%s: group %d of %d: sent %r, printed %r' % (
                    what, last + i, len(exp), e, lines[p + i:p + i + 2]), None, r)
    raise harness.Violation('%s: not matched' % what, None, r)


def describe(ctx, r, sig, info):
    r.stdin = None
    r.env = dict(r.env)
    ctx.sig = harness.sig_of(repr(info), repr(ctx.idx))
    if ctx.idx < 40:
        ctx.sample = {'args': r.args, 'signal': info}


def run_signal(ctx, sig, info, json_out=False):
    """hands the signal to redsea in one of the supported ways -> (Result, lines)"""
    rng = ctx.rng
    fs = sig.fs
    d = ctx.tmpdir()
    out = ['-x'] if not json_out else ['-R']
    fmt = rng.choice(('raw', 'raw', 'raw', 'rawk', 's16', 's24', 's32', 'float', 'au', 'stdin'))
    if json_out or fs > 2.5e6:
        fmt = fmt if fmt in ('raw', 'rawk') else 'raw'
    path = os.path.join(d, 'x')
    if fmt in ('raw', 'rawk'):
        n = mpx.write_raw(sig, path)
        rate = '%d' % fs
        if fmt == 'rawk' and fs == int(fs):
            rate = '%.3fk' % (fs / 1e3) if fs < 1e6 or rng.random() < .5 else '%.6fM' % (fs / 1e6)
        if fs == 171000 and rng.random() < .3:
            args = []
        else:
            args = ['-r' + rate] if rng.random() < .5 else ['--samplerate', rate]
        if rng.random() < .3:
            args += ['-i', 'mpx']
        with open(path, 'rb') as f:
            r = ctx.run(args + out, f, timeout=120)
    else:
        x = sig.render()
        if fmt == 'au':
            b = mpx.au(x, fs)
        else:
            b = mpx.wav(x, fs, 1, 's16' if fmt == 'stdin' else fmt)
        with open(path, 'wb') as f:
            f.write(b)
        ctx.c['file formats'] += 1
        if fmt == 'stdin':
            with open(path, 'rb') as f:
                r = ctx.run(['-f', '-'] + out, f)
        else:
            r = ctx.run([rng.choice(('-f', '--file')), path] + out, b'')
    ctx.c['format ' + fmt] += 1
    info['format'] = fmt
    os.remove(path)
    describe(ctx, r, sig, info)
    ab = harness.abnormal(r)
    if ab or r.rc:
        raise harness.Violation('redsea ended with status %s: %s %s' % (r.rc, ab, r.err[-300:]), None,
                                r, info)
    try:
        objs = schema.check_stream(r.out, not json_out)
    except schema.Bad as b:
        raise harness.Violation(str(b), None, r, info)
    if json_out:
        return r, [x.get('raw_data') for x in objs]
    return r, objs


def case(ctx):
    try:
        return case_(ctx)
    except harness.Violation as v:
        v.extra = v.extra or getattr(ctx, 'info', {})
        raise


def case_(ctx):
    rng = ctx.rng
    i = ctx.idx
    k = i % 15
    if k in (3, 10):
        return pause(ctx)
    if k == 7:
        return nothing(ctx)
    fs = RATES[(i // 15 * 13 + k) % len(RATES)] if i < 15 * len(RATES) else \
        int(10 ** rng.uniform(5.1073, 6.3))
    n = rng.choice((44, 60, 80))
    if k == 12 and i // 15 < (5 if ctx.tier == 'quick' else 60):
        fs = HIGH[i // 15 % len(HIGH)] if i // 15 < len(HIGH) else int(10 ** rng.uniform(6.4, 7.602))
        n = 22 if fs > 8e6 else 44
    elif k == 5 and i // 15 < 2:
        fs, n = 171000 if i // 15 else 192000, 1250     # past 2^24 samples
    fs = max(128000, min(fs, 40000000))
    acq = min(ACQ, n - 6)
    imp, noise = impair(rng)
    pi = rng.getrandbits(16) or 1
    gs = make_groups(rng, n, pi)
    bits = mpx.bits_of(gs)
    tail = mpx.bits_of(make_groups(rng, 1, pi, 0x7777))[:rng.choice((30, 40, 60))]
    t0 = rng.uniform(0, .3)
    sec = (len(bits) + len(tail)) / 1187.5 * (1 + 300e-6)
    sig = mpx.Signal(fs, t0 + sec)
    sig.rds(bits + tail, t0=t0, **imp)
    info = {'fs': fs, 'groups': n, 't0': t0, 'noise': noise, **imp}
    ctx.info = info
    if rng.random() < .7:
        lev = min(.8 - imp['level'], imp['level'] * rng.uniform(8, 48))
        info['audio'] = lev
        sig.audio(max(0, lev), min(.09, imp['level'] * 4), rng)
    if noise:
        sig.noise(noise, rng.getrandbits(30))
    elif rng.random() < .5 or imp['level'] < .01:
        sig.noise(2e-5, rng.getrandbits(30))      # dither
    js = rng.random() < .25
    exp = hexs(gs)
    r, lines = run_signal(ctx, sig, info, js)
    first, p = locate(lines, exp, acq + (3 if js else 0), 'signal', r)
    if len(lines) > p + len(exp) - first:
        raise harness.Violation('surplus records after the last group: %r' % lines[
            p + len(exp) - first:][:3], None, r, info)
    if p > ACQ + 9:
        raise harness.Violation('%d lines before the first complete group' % p, None, r, info)
    ctx.c['groups matched'] += len(exp) - first
    ctx.c['acquired after %s groups' % (first if first < 4 else '4-7' if first < 8 else '8-34')] += 1
    ctx.c['sample rates'] += 1
    if fs > 5e6 - 1:
        ctx.c['rates above 5 MHz'] += 1
    return ctx.result()


def pause(ctx):
    rng = ctx.rng
    fs = rng.choice((171000, 171000, 192000, 250000, 128000))
    parts = 3 if rng.random() < .3 else 2
    gaps = [rng.choice((.05, .3, 1, 1.5, 3, 6, 9, 12, 20, rng.uniform(.1, 20))) for _ in range(parts - 1)]
    if rng.random() < .08:
        gaps[0] = rng.uniform(30, 50)
    imps = [impair(rng)[0] for _ in range(parts)]
    l1 = max(.01, imps[0]['level'])
    for k in imps:
        k['level'] = l1
        if k is not imps[0] and rng.random() < .4:
            k['level'] = min(.4, l1 * rng.choice((.3, 3)))
    pis = [rng.getrandbits(16) or 1]
    while len(pis) < parts:
        pis.append(pis[-1] if rng.random() < .5 else rng.getrandbits(16) or 2)
    gs = [make_groups(rng, 50 if not i else 230, pi, (0, 0x8000, 0xC000)[i]) for i, pi in enumerate(pis)]
    bs = [mpx.bits_of(g) for g in gs]
    bs[-1] += '0110' * 10
    first_silent = rng.random() < .3
    t = [0.05]
    for i in range(1, parts):
        t.append(t[-1] + len(bs[i - 1]) / 1187.5 * (1 + 200e-6) + gaps[i - 1] + rng.uniform(0, .01))
    sig = mpx.Signal(fs, t[-1] + len(bs[-1]) / 1187.5 * (1 + 300e-6))
    for i in range(first_silent, parts):
        sig.rds(bs[i], t0=t[i], **imps[i])
    lo = min(k['level'] for k in imps)
    q = rng.random()
    noise = 0
    audio = False
    if q < .35:
        pass                                       # digital silence
    else:
        noise = lo * rng.uniform(.02, .3)
        sig.noise(noise, rng.getrandbits(30))
        if q > .6:
            audio = min(.5, lo * 40)
            sig.audio(audio, audio * .15, rng)
    info = {'fs': fs, 'gaps': gaps, 'noise': noise, 'audio': audio, 'first_silent': first_silent,
            'parts': imps, 'pi': pis}
    ctx.info = info
    r, lines = run_signal(ctx, sig, info)
    for i in range(first_silent, parts):
        e = hexs(gs[i])
        f, p = locate(lines, e, 171 if i else ACQ,
                      'after pause %d' % i if i else 'before the pause', r)
        lines = lines[p + len(e) - f:]
        ctx.c['groups matched'] += len(e) - f
        if i:
            ctx.c['pauses'] += 1
            ctx.c['back after %s' % ('1 s' if f < 12 else '3 s' if f < 35 else '15 s')] += 1
    if lines:
        raise harness.Violation('surplus records after the last group', None, r, info)
    return ctx.result()


def nothing(ctx):
    """signals that carry no RDS"""
    rng = ctx.rng
    fs = rng.choice((171000, 192000, 128000, 1000000))
    sig = mpx.Signal(fs, rng.choice((0, .01, 2, 12)))
    q = rng.random()
    if q < .7:
        sig.noise(10 ** rng.uniform(-4, -.5), rng.getrandbits(30))
    if q > .4:
        sig.audio(.6, .09, rng)
    info = {'fs': fs, 'n': sig.n, 'q': q, 'kind': 'no RDS'}
    ctx.info = info
    n = sig.n
    if n == 0:
        sig.n = rng.choice((1, 2, 3, 100, 8191, 8192, 8193))
    r, lines = run_signal(ctx, sig, info, True)
    if lines:
        raise harness.Violation('%d records from a signal without RDS: %r' % (len(lines), lines[:2]),
                                None, r, info)
    ctx.c['signals without RDS'] += 1
    return ctx.result()
