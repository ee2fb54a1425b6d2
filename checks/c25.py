import os
import subprocess
import tempfile
from rv import gen, harness, mpx, schema, loctab, sync
from rv.model import DEBUG_LINE, Group

CASES = {'quick': 1800, 'thorough': 20000}
RULE = ('Combination cases draw any subset of the documented options, written long or short, clustered, '
        'with joined or separate values, in any order and sometimes repeated, send a broadcast and '
        'compare all output with the reference decoder run with the documented meaning of these '
        'options. Rejection cases add one unsupported value or combination to an otherwise valid '
        'command line and require a non-zero exit status and no decoded output, with valid input '
        'waiting on stdin; acceptance cases sweep every channel count and the boundaries of the sample '
        'rate in all notations; help and version requests must leave stdin unread. Distinct command '
        'lines and inputs.')
TECHNIQUE = ('runtime monitoring: generated command lines run against the real program; an option-aware '
             'reference decoder judges effects, a rejection monitor judges exit status and output')
REQUIRE = {'combinations': 300, 'rejections': 200, 'acceptances': 60, 'help and version': 20,
           'distinct rejected values': 45}
SESS = {'ps': 3, 'rt': 3, 'rtplus': 1, 'slc': 1, 'eon': 1, 'tmc': 1, 'rnd': 1, 'ct': .5, 'long_ps': 1}
SEEN = set()


def broadcast(rng, n=160, losses=(0, .05, .2), streams=False):
    w = dict(SESS)
    if streams:
        w['rft'] = 3
    return gen.session(rng, n, w, losses=losses, stations=1, warm=True)


def spell(rng, tokens):
    """tokens: list of (short, long, value or None) -> argv, any notation"""
    rng.shuffle(tokens)
    argv = []
    cluster = ''
    for s, l, v in tokens:
        use_long = l and (not s or rng.random() < .5)
        if use_long:
            if cluster:
                argv.append('-' + cluster)
                cluster = ''
            if v is None:
                argv.append('--' + l)
            elif rng.random() < .5:
                argv += ['--' + l, v]
            else:
                argv.append('--%s=%s' % (l, v))
        elif v is None:
            cluster += s
            if rng.random() < .5:
                argv.append('-' + cluster)
                cluster = ''
        else:
            if rng.random() < .5 or v == '':
                argv += ['-' + cluster + s, v]
            else:
                argv.append('-' + cluster + s + v)
            cluster = ''
    if cluster:
        argv.append('-' + cluster)
    return argv


def combo(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    mode = rng.choice(('hex', 'hex', 'bits', 'tef'))
    o = gen.Opts()
    tok = []
    # input format in any of its notations; the last one given counts
    if mode == 'hex':
        tok.append(rng.choice([('i', 'input', 'hex'), ('h', 'input-hex', None)]))
    elif mode == 'bits':
        tok.append(rng.choice([('i', 'input', 'bits'), ('b', 'input-bits', None)]))
    else:
        tok.append(('i', 'input', 'tef'))
    ts = None
    feed = False
    prefix = []
    for name in ('rbds', 'partial', 'raw', 'bler', 'streams', 'fec', 'hexout', 'ts', 'feed', 'loc',
                 'c1', 'json', 'rate'):
        if rng.random() > .3:
            continue
        if name == 'rbds':
            o.rbds = True
            tok.append(('u', 'rbds', None))
        elif name == 'partial':
            o.partial = True
            tok.append(('p', 'show-partial', None))
        elif name == 'raw':
            o.raw = True
            tok.append(('R', 'show-raw', None))
        elif name == 'bler':
            o.bler = True
            tok.append(('E', 'bler', None))
        elif name == 'streams' and mode == 'hex':
            o.streams = True
            tok.append(('s', 'streams', None))
        elif name == 'fec':
            o.fec = False
            tok.append((None, 'no-fec', None))
        elif name == 'hexout' and rng.random() < .5:
            o.hexout = True
            tok.append(rng.choice([('o', 'output', 'hex'), ('x', 'output-hex', None)]))
        elif name == 'json' and not o.hexout:
            tok.append(('o', 'output', 'json'))
        elif name == 'ts':
            ts = rng.choice(('fixed', 'a b', 'now:', '100 %% sure', 'x%%y', 'Ääkkösiä'))
            tok.append(('t', 'timestamp', ts))
            ts = ts.replace('%%', '%')
        elif name == 'feed':
            feed = True
            tok.append(('e', 'feed-through', None))
        elif name == 'c1':
            tok.append(('c', 'channels', '1'))
        elif name == 'rate':
            tok.append(('r', 'samplerate', rng.choice(('171000', '200k', '2M', '128000'))))
        elif name == 'loc':
            ltns = rng.sample(range(1, 64), rng.choice((1, 2)))
            for ltn in ltns:
                p = os.path.join(d, 'lt%d' % ltn)
                o.loctables[ltn] = loctab.generate(rng, p, ltn)
                tok.append(('l', 'loctable', p))
    if rng.random() < .2:
        # flags may be given twice
        for t in [t for t in tok if t[2] is None][:2]:
            tok.append(t)
    argv = spell(rng, tok)
    for t in tok:
        if t[1] == 'loctable':
            prefix.append(o.loctables[int(t[2].rsplit('lt', 1)[1])].info)
    if rng.random() < .15:
        argv = rng.choice((['-i', 'mpx'], ['-b'], ['-h'], ['--input=tef'], ['-f', 'nothing'])) + argv
        # (overridden by the later input option)
    seq = broadcast(rng, streams=o.streams)
    if mode == 'hex':
        data = gen.to_hex(rng, seq)
        groups = gen.hex_groups(seq)
    elif mode == 'bits':
        s = ''
        for st, b in seq:
            if st:
                continue
            g = sync.encode_group([x or 0 for x in b])
            k = rng.randrange(4)
            if rng.random() < .3:
                blk = format(int(g[26 * k:26 * k + 26], 2) ^ 1 << rng.randrange(26), '026b')
                g = g[:26 * k] + blk + g[26 * k + 26:]
            s += g
        groups, _ = gen.sync_groups(s, o.fec)
        data = s.encode()
    else:
        groups = []
        data = b''
        for st, b in seq:
            if st:
                continue
            if b[0] is not None:
                data += b'P%04X\r\n' % b[0]
            data += b'R%04X%04X%04X%02X\r\n' % tuple(
                [x or 0 for x in b[1:]] +
                [sum(1 << s for s, x in ((4, b[1]), (2, b[2]), (0, b[3])) if x is None)])
            groups.append(Group(list(b)))
    exp, ch = gen.expect_groups(o, groups)
    if ts is not None:
        if o.hexout:
            exp = [e + ' ' + ts for e in exp]
        else:
            exp = [e if e is DEBUG_LINE else dict(e, rx_time=ts) for e in exp]
    exp = prefix + exp
    r = ctx.run(argv, data, cwd=d)
    ab = harness.abnormal(r)
    if ab or r.rc:
        raise harness.Violation('valid options %r: status %s %s %s' % (argv, r.rc, ab or '',
                                                                      r.err[-200:]), None, r)
    out = r.out
    if feed:
        if r.out != data:
            raise harness.Violation('feed-through with %r: stdout is not the input' % argv, None, r)
        out = r.err
    elif r.err:
        raise harness.Violation('unexpected diagnostics for %r: %r' % (argv, r.err[:200]), None, r)
    try:
        ctx.c.update(harness.compare(exp, out))
    except harness.Mismatch as m:
        raise harness.Violation('options %r: %s' % (argv, m), None, r)
    ctx.c['combinations'] += 1
    for t in tok:
        ctx.c['option ' + t[1]] += 1
    ctx.sig = harness.sig_of(repr(argv), data)
    if ctx.idx < 20:
        ctx.sample = {'args': argv, 'lines': len(exp)}


def small_wav(rng, d, fs=192000, channels=1, n=2000):
    import numpy as np
    p = os.path.join(d, 'a.wav')
    with open(p, 'wb') as f:
        f.write(mpx.wav(np.zeros(n * channels), fs, channels))
    return p


BAD = []
for v in ('0', '33', '34', '64', '100', '256', '1000', '65537', '-1', '-2', '4294967296', '4294967297',
          '4294967328', '18446744073709551616', '18446744073709551617', '99999999999999999999999', 'abc',
          '', 'x2', 'two', '.', '-'):
    BAD.append(('c', 'channels', v, 'mpx'))
for v in ('0', '1', '-1', '-171000', '171', '100000', '127999', '127000', '127.9k', '0.1M', '127.999k',
          '40000100', '40.1M', '41M', '40001k', '100M', '1e9', '1e99', '1e300', 'nan', 'NaN', 'inf',
          '-inf', 'infk', 'nank', 'abc', '', 'k', 'M', '0k', '171m1x'.replace('171m1x', '-5M'), 'rate'):
    BAD.append(('r', 'samplerate', v, 'mpx'))
    BAD.append(('r', 'samplerate', v, 'hex'))
for v in ('', 'HEX', 'Hex', 'hexx', 'he', 'rds', 'json', 'wav', 'mpx ', ' hex', 'bit', 'tef6686', '0'):
    BAD.append(('i', 'input', v, ''))
for v in ('', 'JSON', 'xml', 'Hex', 'hexx', 'he', 'text', 'json ', 'bits', 'mpx'):
    BAD.append(('o', 'output', v, 'hex'))
COMBOS = [
    ('channels with hex', [('c', 'channels', 'N'), ('i', 'input', 'hex')]),
    ('channels with hex', [('c', 'channels', 'N'), ('h', 'input-hex', None)]),
    ('channels with bits', [('c', 'channels', 'N'), ('b', 'input-bits', None)]),
    ('channels with tef', [('c', 'channels', 'N'), ('i', 'input', 'tef')]),
    ('streams with bits', [('s', 'streams', None), ('b', 'input-bits', None)]),
    ('streams with bits', [('s', 'streams', None), ('i', 'input', 'bits')]),
    ('streams with tef', [('s', 'streams', None), ('i', 'input', 'tef')]),
    ('feed-through with file', [('e', 'feed-through', None), ('f', 'file', 'WAV')]),
    ('missing file', [('f', 'file', 'NOFILE')]),
    ('not an audio file', [('f', 'file', 'TEXT')]),
    ('low rate file', [('f', 'file', 'LOW')]),
    ('streams below 171 kHz', [('s', 'streams', None), ('r', 'samplerate', '170999')]),
    ('streams below 171 kHz', [('s', 'streams', None), ('r', 'samplerate', '128k')]),
    ('streams below 171 kHz', [('s', 'streams', None), ('f', 'file', 'MID')]),
    ('stray argument', [('i', 'input', 'hex'), 'STRAY']),
    ('stray argument', ['STRAY']),
    ('stray argument', [('b', 'input-bits', None), 'STRAY']),
    ('stray argument', [('f', 'file', 'WAV'), 'STRAY']),
]


def rejection(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    n = (ctx.idx // 3)
    total = len(BAD) + len(COMBOS)
    n = n % total if n < 2 * total else rng.randrange(total)
    extra = []
    if rng.random() < .4:
        extra = rng.sample([('p', 'show-partial', None), ('R', 'show-raw', None), ('u', 'rbds', None),
                            ('E', 'bler', None), ('t', 'timestamp', '%c'), (None, 'no-fec', None)],
                           rng.randrange(1, 4))
    stray = None
    if n < len(BAD):
        s, l, v, need = BAD[n]
        what = '%s %r' % (l, v)
        tok = [(s, l, v)] + extra
        if need == 'hex':
            tok.append(('i', 'input', 'hex'))
        elif need == 'mpx' and rng.random() < .5:
            tok.append(('i', 'input', 'mpx'))
        if l == 'input' and rng.random() < .3:
            pass
    else:
        what, tok = COMBOS[n - len(BAD)]
        toks = []
        for t in tok:
            if t == 'STRAY':
                stray = rng.choice(('x', 'file.wav', 'hex', '0', 'input', '-'))
                continue
            s, l, v = t
            if v == 'N':
                v = rng.choice(('2', '2', '3', '32', str(rng.randrange(2, 33))))
            elif v == 'WAV':
                v = small_wav(rng, d)
            elif v == 'LOW':
                v = small_wav(rng, d, rng.choice((44100, 48000, 96000, 127999, 8000)))
            elif v == 'MID':
                v = small_wav(rng, d, rng.choice((128000, 170999)))
            elif v == 'NOFILE':
                v = os.path.join(d, 'none.wav')
            elif v == 'TEXT':
                v = os.path.join(d, 'text.wav')
                open(v, 'wb').write(b'not a wave file at all\n' * 50)
            toks.append((s, l, v))
        tok = toks + extra
    argv = spell(rng, tok)
    if stray is not None:
        if stray == '-' and False:
            pass
        argv.insert(rng.choice((0, len(argv))), stray)
        # a value-less position: never between an option and its value
    seq = broadcast(rng, 40, losses=(0,))
    data = rng.choice((gen.to_hex(rng, seq, True), gen.to_bits(rng, seq).encode()))
    r = ctx.run(argv, data, cwd=d)
    ab = harness.abnormal(r)
    if ab:
        raise harness.Violation('%r: %s' % (argv, ab), None, r)
    if r.rc == 0:
        raise harness.Violation('%s was accepted: %r exited with status 0' % (what, argv), None, r)
    for l in r.out.split(b'\n'):
        t = l.decode('utf-8', 'replace')
        if t.startswith('{') or schema.HEX_LINE.fullmatch(t):
            raise harness.Violation('%s: decoded output in spite of rejection: %r' % (what, t), None, r)
    if not r.err and not r.out:
        raise harness.Violation('%s was rejected without a diagnostic' % what, None, r)
    ctx.c['rejections'] += 1
    if ctx.idx // 3 < total:
        ctx.c['distinct rejected values'] += 1
    ctx.sig = harness.sig_of(repr(argv), what)
    if ctx.idx < 40:
        ctx.sample = {'args': argv, 'status': r.rc, 'stderr': r.err[:120].decode('utf-8', 'replace')}


RATES = ['128000', '128000.0', '128k', '128K', '128.0k', '0.128M', '0.128m', '171000', '171k', '.171M',
         '1.71e5', '192000', '192k', '250000', '2400000', '2.4M', '2.4m', '2400k', '40000000', '40M',
         '40m', '40000k', '4e7', '39.99M', '35M', '34.2M', '34200001', '128001', '+200000', ' 200000',
         '1000000', '1M', '999999.5']


def acceptance(ctx):
    rng = ctx.rng
    k = ctx.idx // 6
    fs = 171000
    pi = rng.getrandbits(16) or 1
    tok = [('x', 'output-hex', None)]
    import numpy as np
    if k % 2 and k // 2 < 70 or rng.random() < .3:
        v = RATES[k // 2 % len(RATES)]
        tok.append(('r', 'samplerate', v))
        what = 'sample rate %r' % v
        data = b'\0\0' * rng.choice((1, 500, 9000))
        dec = False
    else:
        nch = k // 2 % 32 + 1
        tok += [('c', 'channels', str(nch)), ('r', 'samplerate', '171000')]
        what = '%d channels' % nch
        data = b'\0\0' * nch * rng.choice((1, 500, 9000))
        dec = False
    if rng.random() < .3:
        tok.append(('i', 'input', 'mpx'))
    argv = spell(rng, tok)
    r = ctx.run(argv, data)
    ab = harness.abnormal(r)
    if ab or r.rc:
        raise harness.Violation('%s was not accepted: %r: status %s %s' % (what, argv, r.rc,
                                                                          ab or r.err[:200]), None, r)
    if r.out:
        raise harness.Violation('output from silence: %r' % r.out[:100], None, r)
    ctx.c['acceptances'] += 1
    ctx.sig = harness.sig_of(repr(argv), data)


def warnings(ctx):
    """options that do not apply to sound files are ignored; a raw signal defaults to 171 kHz"""
    rng = ctx.rng
    d = ctx.tmpdir()
    fs = 171000
    pi = 0x6201
    seq = [[pi, gen.b2(0, 'A', k & 3), 0xE0CD, 0x4142 + k] for k in range(24)]
    bits = mpx.bits_of(seq) + '01' * 25
    sig = mpx.Signal(fs, len(bits) / 1187.5).rds(bits, .1)
    x = sig.render()
    base = ctx.run(['-r', '171000', '-R'], mpx.s16(x).tobytes())
    if base.rc or base.out.count(b'\n') < 16:
        raise harness.Violation('reference run failed', None, base)
    a = ctx.run(['-R'], mpx.s16(x).tobytes())
    p = os.path.join(d, 'a.wav')
    open(p, 'wb').write(mpx.wav(x, fs))
    b = ctx.run(spell(rng, [('f', 'file', p), ('R', 'show-raw', None), ('r', 'samplerate', '250k'),
                            ('c', 'channels', '2')]))
    c = ctx.run(['-R', '-f', '-'], open(p, 'rb'))
    for q, what in ((a, 'without sample rate'), (b, 'WAV file with rate and channel options'),
                    (c, 'WAV on stdin')):
        if q.out != base.out or q.rc:
            if not isinstance(q.stdin, bytes):
                q.stdin = None
            raise harness.Violation('%s: output differs from raw input at 171 kHz' % what, None, q)
    ctx.c['combinations'] += 1
    ctx.sig = harness.sig_of('warn', repr(b.args))


def informational(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    which = rng.choice(('version', 'version', 'help'))
    tok = [rng.choice([('v', 'version', None)]) if which == 'version' else (None, 'help', None)]
    tok += rng.sample([('i', 'input', 'hex'), ('p', 'show-partial', None), ('r', 'samplerate', '200k'),
                       ('x', 'output-hex', None), ('u', 'rbds', None), ('c', 'channels', '1')],
                      rng.randrange(0, 3))
    argv = spell(rng, tok)
    data = gen.to_hex(rng, broadcast(rng, 40), True)
    p = os.path.join(d, 'in')
    open(p, 'wb').write(data)
    with open(p, 'rb') as f:
        fd = f.fileno()
        r = ctx.run(argv, f)
        pos = os.lseek(fd, 0, os.SEEK_CUR)
    r.stdin = data
    ab = harness.abnormal(r)
    if ab or r.rc:
        raise harness.Violation('%r: status %s %s' % (argv, r.rc, ab), None, r)
    if pos:
        raise harness.Violation('%r read %d bytes of input' % (argv, pos), None, r)
    t = r.out.decode('utf-8', 'replace')
    for l in t.split('\n'):
        if l.startswith('{') or schema.HEX_LINE.fullmatch(l):
            raise harness.Violation('%r decoded input: %r' % (argv, l), None, r)
    if which == 'version' and 'redsea' not in t.lower():
        raise harness.Violation('%r printed no version: %r' % (argv, t[:100]), None, r)
    if which == 'help' and not all('--' + o in t for o in (
            'channels', 'feed-through', 'bler', 'file', 'input', 'loctable', 'no-fec', 'output',
            'show-partial', 'samplerate', 'show-raw', 'streams', 'timestamp', 'rbds', 'version')):
        raise harness.Violation('%r: help text is missing options' % argv, None, r)
    # and with nothing on stdin at all: must not wait for it
    rd, wr = os.pipe()
    try:
        with os.fdopen(rd, 'rb') as f:
            r2 = ctx.run(argv, f, timeout=15)
    finally:
        os.close(wr)
    r2.stdin = b''
    if r2.timeout or r2.rc:
        raise harness.Violation('%r waited for input' % argv, None, r2)
    ctx.c['help and version'] += 1
    ctx.sig = harness.sig_of(repr(argv))


def case(ctx):
    k = ctx.idx % 6
    if k in (0, 3):
        rejection(ctx)
    elif k == 1 and ctx.idx < 840 or k == 1 and ctx.idx % 60 == 1:
        acceptance(ctx)
    elif k == 2 and ctx.idx % 36 == 2:
        warnings(ctx)
    elif k == 4 and ctx.idx % 4 == 0:
        informational(ctx)
    else:
        combo(ctx)
    return ctx.result()
