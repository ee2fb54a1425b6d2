import json
import os
import numpy as np
from rv import gen, harness, mpx, schema
from checks.c22 import make_groups, hexs, impair, locate

CASES = {'quick': 256, 'thorough': 1600}
RULE = ('Channel cases interleave 2 to 32 independent signals (different stations, levels and lengths, '
        'silence, noise; raw PCM or WAV) of a length that is no multiple of the chunk, and compare the '
        'records of every channel, field by field, with those of the same samples decoded as mono '
        'input, and the raw data with the transmitted groups up to the end. Stream cases transmit '
        'four different group sequences on the RDS2 subcarriers (some absent, at several rates) and '
        'require each to be printed under its stream number, in order and exactly once, and the '
        'main-stream records to be those of a run without stream decoding. Distinct signals.')
TECHNIQUE = ('runtime monitoring: metamorphic comparison (multi-channel run against mono runs, stream '
             'run against main-stream run) and trace checking against transmitted groups')
NOTE = ('Holds on every signal explored. Trusts the modulator rv/mpx.py. Stream acquisition allowance: '
        '40 groups.')
REQUIRE = {'channels compared': 150, 'channel records': 4000, 'stream groups matched': 3000,
           'main records compared': 1000, 'silent channels': 10, 'channel and stream cases': 4,
           'long channel cases': 8}
SACQ = 40


def split(objs):
    by = {}
    for x in objs:
        by.setdefault(x.get('channel', 0), []).append({k: v for k, v in x.items() if k != 'channel'})
    return by


def run_json(ctx, args, data, info):
    r = ctx.run(args, data, timeout=120)
    ab = harness.abnormal(r)
    if ab or r.rc:
        r.stdin = None
        raise harness.Violation('redsea ended with status %s: %s %s' % (r.rc, ab, r.err[-300:]), None,
                                r, info)
    try:
        return r, schema.check_stream(r.out)
    except schema.Bad as b:
        r.stdin = None
        raise harness.Violation(str(b), None, r, info)


def raws(recs, stream=None):
    return [x['raw_data'] for x in recs if stream is None or x.get('stream') == stream]


def fail(what, r, info):
    r.stdin = None
    raise harness.Violation(what, None, r, info)


def station_groups(rng, n, pi):
    """a broadcast that also exercises texts"""
    seq = gen.realise(rng, gen.programme(rng, n, {'ps': 3, 'rt': 3, 'slc': 1, 'eon': 1, 'fast_basic': 1, 'ct': .3}), pi)
    return [b for st, b in seq]


def channels_case(ctx, with_streams=False):
    rng = ctx.rng
    fs = rng.choice((171000, 171000, 192000, 250000) if with_streams else
                    (171000, 171000, 192000, 128000, 250000, 300000))
    nch = rng.choice((2, 2, 3, 4, 5, 8)) if not (ctx.idx % 24 == 0) else rng.choice((16, 31, 32))
    ng = 26 if nch > 8 else 44
    # long enough for a receiver without a station to start its search over, beside one that has one
    long = not with_streams and ctx.idx % 16 in (5, 9)
    if long:
        nch = rng.choice((2, 2, 3))
        ng = rng.randrange(150, 270)
        fs = 171000
        carrier = rng.randrange(nch)
        ctx.c['long channel cases'] += 1
    sec = ng * 104 / 1187.5 + rng.uniform(.12, .5)
    n = int(fs * sec) + rng.randrange(0, 9000)
    sigs, sent, kinds = [], [], []
    for ch in range(nch):
        sig = mpx.Signal(fs, 0)
        sig.n = n
        k = rng.random()
        groups = None
        if long:
            k = 0 if ch == carrier else rng.uniform(.76, .9)
        if k < .75 or (ch == 0 and not long):
            pi = rng.getrandbits(16) or 1
            groups = station_groups(rng, ng, pi)
            bits = mpx.bits_of(groups) + '01' * 25
            imp, noise = impair(rng)
            # the last group ends (nearly) with the samples in some channels
            t0 = n / fs - len(bits) / 1187.5 * (1 - 200e-6) if rng.random() < .5 else rng.uniform(0, .05)
            t0 = max(t0, 0)
            imp['level'] = max(imp['level'], .005)
            imp.pop('dhz', None)
            sig.rds(bits, t0=t0, **imp)
            if rng.random() < .5:
                a = min(.6, imp['level'] * 20)
                sig.audio(a, a * .1, rng)
            kinds.append('rds')
        elif k < .85:
            sig.noise(.1, rng.getrandbits(30))
            kinds.append('noise')
            ctx.c['silent channels'] += 1
        else:
            kinds.append('silence')
            ctx.c['silent channels'] += 1
        sigs.append(sig)
        sent.append(groups)
    x = np.stack([mpx.s16(s.render()) for s in sigs], axis=1)
    opts = ['-R'] + (['-p'] if rng.random() < .4 else []) + (['-E'] if rng.random() < .4 else [])
    if with_streams:
        opts.append('-s')
    info = {'fs': fs, 'channels': nch, 'samples': n, 'kinds': kinds, 'opts': opts}
    d = ctx.tmpdir()
    p = os.path.join(d, 'x.wav')
    if rng.random() < .5:
        with open(p, 'wb') as f:
            f.write(mpx.wav(x.astype(np.float64).reshape(-1) / 32767, fs, nch))
        r, objs = run_json(ctx, ['-f', p] + opts, b'', info)
        os.remove(p)
    else:
        data = x.tobytes()
        if rng.random() < .3:
            data += b'\1' * rng.randrange(1, 2 * nch)      # an incomplete frame
        r, objs = run_json(ctx, [rng.choice(('-c', '--channels')), str(nch), '-r', str(fs)] + opts,
                           data, info)
    info['args'] = r.args
    by = split(objs)
    for o in objs:
        if nch > 1 and ('channel' not in o or not 0 <= o['channel'] < nch):
            fail('record without a valid channel number: %r' % o, r, info)
    for ch in range(nch):
        if nch > 8 and rng.random() < .7:
            continue
        m, mono = run_json(ctx, ['-r', str(fs)] + opts, np.ascontiguousarray(x[:, ch]).tobytes(), info)
        a, b = by.get(ch, []), mono
        if with_streams:
            # chunks of another size interleave the streams differently
            a, b = ([{k: v for k, v in x.items() if k != 'bler'}
                     for s in range(4) for x in l if x.get('stream') == s] for l in (a, b))
            # (so that a group of an upper stream may or may not precede the confirmation of the PI)
            cut = [[[x for x in l if x['stream'] == s] for l in (a, b)] for s in range(4)]
            for u, v in cut[1:]:
                if abs(len(u) - len(v)) <= 2:
                    m = min(len(u), len(v))
                    u[:], v[:] = u[len(u) - m:], v[len(v) - m:]
            a, b = ([x for c in cut for x in c[i]] for i in (0, 1))
        if a != b:
            k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
            fail('channel %d of %d (%s): record %d is %s, as mono input %s (%d and %d records)' % (
                ch, nch, kinds[ch], k + 1, json.dumps(a[k:k + 1])[:300], json.dumps(b[k:k + 1])[:300],
                len(a), len(b)), r, info)
        if sent[ch] is not None:
            e = hexs(sent[ch])
            l = raws(a, 0 if with_streams else None)
            f, pp = locate(l, e, min(37, len(e) - 5), 'channel %d' % ch, r)
            rest = l[pp + len(e) - f:]
            if len(rest) > 5 or [x for x in rest if '-' not in x and x in e]:
                fail('channel %d: surplus records after the last group' % ch, r, info)
        elif raws(a):
            fail('channel %d carries no RDS but gave records' % ch, r, info)
        ctx.c['channels compared'] += 1
        ctx.c['channel records'] += len(a)
    if with_streams:
        ctx.c['channel and stream cases'] += 1
    ctx.sig = harness.sig_of(x.tobytes())
    if ctx.idx < 40:
        ctx.sample = info


def streams_case(ctx):
    rng = ctx.rng
    fs = rng.choice((171000, 192000, 192000, 250000, 384000, 1000000))
    ng = 64
    pi = rng.getrandbits(16) or 1
    present = [True] + [rng.random() < .8 for _ in range(3)]
    sent = [station_groups(rng, ng, pi)]
    imp, noise = impair(rng)
    imp['level'] = min(.1, max(.01, imp['level']))
    imp.pop('dhz', None)
    sig = mpx.Signal(fs, ng * 104 / 1187.5 + .3)
    tails = [None]
    for st in range(4):
        if not present[st]:
            sent.append(None) if st else None
            tails.append(None) if st else None
            continue
        if st:
            g = [b for s, b in gen.realise(rng, [t for t in gen.programme(rng, ng, {'rft': 1})], pi)
                 ][:ng]
            # tag block 4 so that groups are distinguishable
            g = [[b[0] & 0x7FFF, b[1], b[2], k | st << 12] for k, b in enumerate(g)]
            sent.append(g)
            tails.append([rng.getrandbits(16) for _ in range(4)])
        bits = mpx.bits_of(sent[st])
        if st:
            bits += mpx.bits_of([tails[st]])[:60]
        else:
            bits += '01' * 25
        q = dict(imp)
        q['phase'] = rng.uniform(0, 6.2832)
        sig.rds(bits, t0=.02 + rng.uniform(0, .05), stream=st, **q)
    if rng.random() < .6:
        a = min(.5, imp['level'] * 10)
        sig.audio(a, a * .1, rng)
    if not all(present) or rng.random() < .5:
        sig.noise(imp['level'] * rng.uniform(.01, .1), rng.getrandbits(30))
    data = mpx.s16(sig.render()).tobytes()
    opts = ['-r', str(fs), '-R'] + (['-p'] if rng.random() < .4 else [])
    info = {'fs': fs, 'present': present, 'imp': imp, 'opts': opts}
    r, objs = run_json(ctx, opts + [rng.choice(('-s', '--streams'))], data, info)
    r0, main = run_json(ctx, opts, data, info)
    a = [x for x in objs if x.get('stream') == 0]
    b = [dict(x, stream=0) for x in main]
    if a != b:
        k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
        fail('main-stream record %d with stream decoding: %s, without: %s' % (
            k + 1, json.dumps(a[k:k + 1])[:300], json.dumps(b[k:k + 1])[:300]), r, info)
    ctx.c['main records compared'] += len(a)
    for o in objs:
        if 'stream' not in o:
            fail('record without stream number: %r' % o, r, info)
    l = raws(a)
    f, p = locate(l, hexs(sent[0]), 40, 'main stream', r)
    for st in (1, 2, 3):
        l = raws(objs, st)
        if sent[st] is None:
            # neighbours may leak a stray block, never whole groups
            whole = [x for x in l if '-' not in x]
            if len(whole) > 1:
                fail('stream %d was not transmitted but gave %r' % (st, whole[:2]), r, info)
            ctx.c['absent streams'] += 1
            continue
        e = hexs(sent[st])
        f, p = locate(l, e, SACQ, 'stream %d' % st, r)
        rest = l[p + len(e) - f:]
        # noise after the end may pass for a block now and then, but nothing is repeated
        if len(rest) > 5 or [x for x in rest if '-' not in x and x in e]:
            fail('stream %d: records after the last group: %r' % (st, rest[:3]), r, info)
        for x in objs:
            if x['stream'] == st and x.get('group') != 'C':
                fail('stream %d: group type %r' % (st, x.get('group')), r, info)
        ctx.c['stream groups matched'] += len(e) - f
        ctx.c['flushed partial groups'] += len(rest)
    ctx.sig = harness.sig_of(data)
    if ctx.idx < 40:
        ctx.sample = info


def case(ctx):
    k = ctx.idx % 8
    if k in (2, 4, 6):
        streams_case(ctx)
    else:
        channels_case(ctx, k == 7)
    return ctx.result()
