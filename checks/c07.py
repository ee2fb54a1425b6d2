from rv import gen, std, harness, sync
from rv.bits import flip

CASES = {'quick': 1300, 'thorough': 9000}
RULE = ('Cases 0-31 take one group type each, announce every application on it and send all 15 loss '
        'patterns with random contents, repeatedly, into accumulating state; the other cases are '
        'full broadcasts with 2-60 % block loss, in hex, bit and TEF form. Every field of every line '
        'is compared with the reference decoder, and in every case the same broadcast is sent again '
        'with the lost blocks carrying different contents: both outputs must be identical. '
        'Distinct inputs.')
REQUIRE = {'lost blocks': 200000, 'non-interference pairs': 300, 'type x loss pattern': 480,
           'lines': 100000}
TECHNIQUE = ('runtime monitoring with fault injection: reference decoder comparison plus a two-run '
             'non-interference monitor over the contents of lost blocks')
AIDS = (None, 0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0x1234)


def one_type(rng, tt, ctx):
    num, ver = tt >> 1, 'AB'[tt & 1]
    pi = gen.pick_pi(rng) or 1
    seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
    seq.append((0, [pi, gen.b2(3, 'A', gen.t5((8, 'A'))), 0x0040 | rng.getrandbits(6), 0xCD46]))
    for aid in AIDS:
        if aid is not None:
            seq.append((0, [pi, gen.b2(3, 'A', tt), rng.getrandbits(6) | 0x40, aid]))
        for rep in range(4):
            for loss in range(16):
                b = [pi, gen.b2(num, ver, rng.getrandbits(5)), rng.getrandbits(16),
                     rng.getrandbits(16)]
                for k in range(4):
                    if loss >> k & 1:
                        b[k] = None
                seq.append((0, b))
                # segments in order so that texts complete around the losses
                if rng.random() < .3:
                    for s in range(rng.randrange(1, 5)):
                        seq.append((0, [pi, gen.b2(num, ver, s), rng.getrandbits(16),
                                        rng.getrandbits(16)]))
    ctx.c['type x loss pattern'] += 15
    return seq


def lost_contents(rng, seq, mode):
    """the same broadcast twice, with different contents in the lost blocks"""
    outs = []
    for v in range(2):
        if mode == 'bits':
            s = []
            for st, b in seq:
                if st:
                    continue
                # version flag must agree so that block 3 carries the same offset in both
                w = [rng.getrandbits(16) if x is None else x for x in b]
                off = ['A', 'B', "C'" if (b[1] or 0) & 0x800 else 'C', 'D']
                for k in range(4):
                    blk = format(sync.encode_block(w[k], off[k]), '026b')
                    if b[k] is None:
                        blk = flip(blk, gen.bad_error(rng))
                    s.append(blk)
            outs.append(''.join(s).encode())
        else:
            l = []
            for st, b in seq:
                if st:
                    continue
                err = sum(rng.randrange(1, 4) << sh for sh, x in ((4, b[1]), (2, b[2]), (0, b[3]))
                          if x is None)
                if b[0] is not None:
                    l.append('P%04X' % b[0])
                elif rng.random() < .3:
                    l.append(rng.choice(('P', 'Pxyz', 'Q1234')))
                l.append('R%04X%04X%04X%02X' % tuple(
                    [rng.getrandbits(16) if x is None else x for x in b[1:]] + [err]))
            outs.append(('\n'.join(l) + '\n').encode())
    return outs


def case(ctx):
    rng = ctx.rng
    i = ctx.idx
    mode = std.pick_mode(rng, .4, .3)
    if i < 32:
        seq = one_type(rng, i, ctx)
        o = gen.rand_opts(rng)
        mode = 'hex'
    elif i < 40:
        o = gen.rand_opts(rng, streams=True)
        mode = 'hex'
        seq = [(0, [0x1234, gen.b2(15, 'B', 0), 0x1234, 0])] * 3 + \
            gen.realise(rng, gen.programme(rng, 1000, {'rft': 1}), 0x1234, loss=.2)
    else:
        o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .3))
        w = dict(gen.ALL)
        w['rnd'] = 3
        seq = std.session(ctx, w, 900, losses=(.02, .1, .3, .6))
    std.run_session(ctx, seq, o, mode)
    ctx.c['lost blocks'] += sum(x is None for st, b in seq for x in b)
    # two-run monitor
    m2 = 'bits' if rng.random() < .5 else 'tef'
    o.streams = False
    lead = [(0, [0x4321, gen.b2(15, 'B', 0), 0x4321, 0])] * 2
    a, b = lost_contents(rng, lead + seq[:600], m2)
    comparable = a != b
    if m2 == 'bits':
        # once out of sync, any 26 bits could be a block: compare only streams that stay locked
        for x in (a, b):
            if gen.sync_groups(x.decode())[1].stats['locks'] != 1:
                comparable = False
                ctx.c['not comparable (sync lost)'] += 1
    if comparable:
        args = ['--input', m2] + gen.opts_args(o)
        ra, rb = ctx.run(args, a), ctx.run(args, b)
        if ra.out != rb.out or ra.rc or rb.rc:
            la, lb = ra.out.decode('utf-8', 'replace').split('\n'), rb.out.decode('utf-8', 'replace').split('\n')
            k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            raise harness.Violation('output depends on the contents of lost blocks: line %d: %r / %r' % (
                k + 1, la[k:k + 1], lb[k:k + 1]), None, rb)
        ctx.c['non-interference pairs'] += 1
        ctx.c['non-interference lines'] += ra.out.count(b'\n')
    return ctx.result()
