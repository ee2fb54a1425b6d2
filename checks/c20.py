from rv import gen, std, harness, formats, bits, sync
from rv.model import Group

CASES = {'quick': 1400, 'thorough': 9000}
RULE = ('A case is a generated broadcast rendered as hex lines (case, spacing, timestamps, stream '
        'prefixes, comments), ASCII bits (any other bytes in between) and TEF lines (interleaved '
        'unrelated lines), decoded to JSON and to hex and the hex decoded again; or such a text '
        'with characters replaced, deleted and cut at any position, judged by an independent parser '
        'of the formats. Distinct inputs.')
REQUIRE = {'round trips': 80, 'three formats agree': 60, 'mangled texts': 80, 'cut texts': 80,
           'lines': 100000, 'field raw_data': 5000}
TECHNIQUE = ('runtime monitoring: equality of outputs across input formats and round trips, and '
             'comparison with a reference parser and decoder')


def decode(ctx, args, data, exp, what):
    r = ctx.run(args, data)
    ab = harness.abnormal(r)
    try:
        ctx.c.update(harness.compare(exp, r.out))
    except harness.Mismatch as m:
        raise harness.Violation('%s: %s%s' % (what, m, ' (%s)' % ab if ab else ''), None, r)
    if ab or r.rc:
        raise harness.Violation('%s: abnormal end %s %s' % (what, r.rc, ab), None, r)
    return r


def tef_text(rng, seq, junk=.1):
    l = []
    for st, b in seq:
        if st:
            continue
        err = sum(rng.randrange(1, 4) << s for s, x in ((4, b[1]), (2, b[2]), (0, b[3])) if x is None)
        if b[0] is not None:
            l.append('P%04X' % b[0])
        if rng.random() < junk:
            l.append(rng.choice(('', 'Ss32.5,0,0,0', 'T98100', 'M0', 'Q3', 'OK', 'R123', 'X')))
        f = 'R%04X%04X%04X%02X' if rng.random() < .9 else 'R%04x%04x%04x%02x'
        l.append(f % tuple([rng.getrandbits(16) if x is None else x for x in b[1:]] +
                           [err | (rng.randrange(4) << 6 if rng.random() < .1 else 0)]))
    eol = rng.choice(('\n', '\r\n'))
    return (eol.join(l) + eol).encode()


def mangle(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice((1, 5, 50, len(d) // 30 + 1))):
        if not d:
            break
        p = rng.randrange(len(d))
        k = rng.random()
        if k < .4:
            d[p] = rng.choice(b'0aF -xX#PRS+.\n\r\t\x00\xff') if rng.random() < .7 else rng.randrange(256)
        elif k < .7:
            del d[p:p + rng.choice((1, 1, 2, 5, 20))]
        else:
            d[p:p] = bytes(rng.choice(b'0aF -gP R#S1\n') for _ in range(rng.choice((1, 1, 2, 5))))
    return bytes(d)


def case(ctx):
    rng = ctx.rng
    k = ctx.idx % 4
    w = dict(gen.ALL)
    if k == 0:
        # the same completely received groups in all formats
        del w['rft']
        seq = gen.session(rng, 600, w, losses=(0,))
        o = gen.rand_opts(rng)
        exp, ch = gen.expect_groups(o, [Group(list(b)) for st, b in seq])
        a = gen.opts_args(o)
        r1 = decode(ctx, ['-ihex'] + a, gen.to_hex(rng, seq), exp, 'hex')
        decode(ctx, ['-ihex'] + a, gen.to_hex(rng, seq), exp, 'hex, written differently')
        decode(ctx, ['-itef'] + a, tef_text(rng, seq), exp, 'TEF')
        # lead-in so that sync is there from the first group on: a group without PI confirmation
        lead = sync.encode_group((0xFFFF, 0xF000, 0, 0)) * 2
        s = lead + gen.to_bits(rng, seq)
        groups, st = gen.sync_groups(s)
        e2, ch = gen.expect_groups(o, groups)
        decode(ctx, ['-ibits'] + a, bits.decorate(rng, s), e2, 'bits')
        if [g.b for g in groups[-len(seq):]] != [b for st, b in seq]:
            raise harness.Violation('model: bit rendering lost groups')
        ctx.c['three formats agree'] += 1
        data = r1.out
    elif k == 1:
        # hex output and back
        mode = rng.choice(('hex', 'hex', 'tef', 'bits'))
        o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .5), raw=rng.random() < .5,
                          bler=False)
        seq = gen.session(rng, 600, w, losses=(0, .02, .1, .3))
        if mode == 'hex':
            data, groups = gen.to_hex(rng, seq), gen.hex_groups(seq)
        elif mode == 'tef':
            data = tef_text(rng, seq)
            groups = formats.tef_groups(data)
        else:
            s = gen.to_bits(rng, seq)
            data = bits.decorate(rng, s)
            groups, st = gen.sync_groups(s)
        lines = [('#S%d ' % g.stream if g.stream else '') + g.hex() for g in groups
                 if any(x is not None for x in g.b)]
        rx = decode(ctx, ['-i', mode, '-ohex'], data, lines, 'hex output')
        # the same groups again, through hex
        again = formats.hex_groups(rx.out)
        e1, ch = gen.expect_groups(o, again)
        r2 = decode(ctx, ['-ihex'] + gen.opts_args(o), rx.out, e1, 'decoding hex output')
        decode(ctx, ['-ihex', '-ohex'], rx.out, lines, 'hex output of hex output')
        e0, ch = gen.expect_groups(o, groups)
        r0 = decode(ctx, ['-i', mode] + gen.opts_args(o), data, e0, 'direct decoding')
        # empty groups matter for the PI grace, so compare only where there are none
        if mode != 'bits' and all(any(x is not None for x in g.b) for g in groups) and r0.out != r2.out:
            raise harness.Violation('decoding hex output again differs from decoding directly', None, r2)
        ctx.c['round trips'] += 1
    else:
        mode = rng.choice(('hex', 'hex', 'tef'))
        o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .5))
        n = rng.choice((3, 20, 300))
        seq = gen.session(rng, n, {'ps': 1, 'rt': 1, 'rnd': 1, 'rft': .5}, losses=(0, .1), stations=1)
        seq = [(0, [0x6201, 0x0408, 0x1234, 0x4142])] * 3 + seq
        data = gen.to_hex(rng, seq) if mode == 'hex' else tef_text(rng, seq)
        if k == 2:
            data = mangle(rng, data)
            ctx.c['mangled texts'] += 1
            cuts = [data]
        else:
            p = rng.randrange(len(data) - 60, len(data)) if rng.random() < .7 else rng.randrange(len(data))
            cuts = [data[:p + j] for j in range(min(12, len(data) - p))]
            ctx.c['cut texts'] += len(cuts)
        for d in cuts:
            groups = formats.hex_groups(d) if mode == 'hex' else formats.tef_groups(d)
            e, ch = gen.expect_groups(o, groups)
            decode(ctx, ['-i', mode] + gen.opts_args(o), d, e, 'cut or mangled ' + mode)
        # bit input cut anywhere: no group completes without its last bit
        if k == 3:
            o.streams = False
            s = sync.encode_group((0xFFFF, 0xF000, 0, 0)) * 2 + gen.to_bits(rng, seq)
            p = rng.randrange(max(0, len(s) - 300), len(s))
            for q in range(p, min(p + 12, len(s))):
                groups, st = gen.sync_groups(s[:q])
                e, ch = gen.expect_groups(o, groups)
                decode(ctx, ['-ibits'] + gen.opts_args(o), s[:q].encode(), e, 'cut bits')
    ctx.sig = harness.sig_of(repr(ctx.idx), data)
    if ctx.sample is None and ctx.idx < 40:
        ctx.sample = {'kind': k, 'input_head': data[:200].decode('latin1')}
    return ctx.result()
