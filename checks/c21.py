from rv import gen, std, bits, sync, harness

CASES = {'quick': 1000, 'thorough': 6000}
FIELDS = ('pi', 'group', 'bler')
RULE = ('A case is a broadcast with block losses or bit damage (0-70 %, correctable and not, in '
        'runs), groups without PI and before PI confirmation, in hex, bit (with and without error '
        'correction) and TEF form; the bler field of every record must be the rounded mean over the '
        'last 12 groups as counted by the reference. Distinct inputs.')
REQUIRE = {'field bler': 60000, 'distinct bler values': 1000, 'corrected blocks': 5000}


def damaged_bits(rng, seq, p):
    s = ''.join(str(rng.getrandbits(1)) for _ in range(rng.choice((0, 5, 26, 100))))
    for st, b in seq:
        if st:
            continue
        w = [rng.getrandbits(16) if x is None else x for x in b]
        g = sync.encode_group(w)
        for k in range(4):
            blk = g[26 * k:26 * k + 26]
            if b[k] is None:
                blk = bits.flip(blk, gen.bad_error(rng))
            elif rng.random() < p:
                blk = bits.flip(blk, (rng.choice((1, 3)) << rng.randrange(26)) & sync.MASK26)
            s += blk
    return s


def case(ctx):
    rng = ctx.rng
    mode = std.pick_mode(rng, .35, .45)
    o = gen.rand_opts(rng, bler=True, fec=rng.random() < .6,
                      streams=(mode == 'hex' and rng.random() < .3))
    w = {'ps': 2, 'rt': 1, 'rnd': 2, 'fast_basic': 1}
    if o.streams:
        w['rft'] = 2
    seq = std.session(ctx, w, 900, losses=(0, .02, .1, .3, .5, .7), warm=True)
    if mode == 'bits':
        s = damaged_bits(rng, seq, rng.choice((0, .05, .2, .6)))
        groups, st = gen.sync_groups(s, o.fec)
        exp, ch = gen.expect_groups(o, groups)
        r = ctx.run(['-ibits'] + gen.opts_args(o), s.encode())
        ctx.c.update(harness.check_output(r, exp, FIELDS))
        ctx.c['corrected blocks'] += st.stats['corrected']
        ctx.sig = harness.sig_of(s.encode(), repr(r.args))
    else:
        r, exp = std.run_session(ctx, seq, o, mode, FIELDS)
    ctx.c['distinct bler values'] += len({e['bler'] for e in exp if isinstance(e, dict) and 'bler' in e})
    return ctx.result()
