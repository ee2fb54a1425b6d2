from rv import gen, std

CASES = {'quick': 1300, 'thorough': 6000}
FIELDS = ('pi', 'group', 'other_network')
RULE = ('A case is a generated broadcast of EON data for 1-80 other networks per station (150-1100 in cases 8-13), interleaved '
        'group by group, with losses, station changes and all variants, compared line by line with '
        'the reference decoder. Distinct inputs of >1000 groups.')
REQUIRE = {'eon ps': 500, 'eon alt_frequencies': 200, 'eon kilohertz': 200, 'eon linkage_set': 100,
           'eon prog_type': 100, 'eon prog_item_number': 100, 'eon broadcaster_data': 100,
           'eon ta': 500, 'simultaneous networks': 900}
W = {'eon': 8, 'ps': 1, 'rnd': .3}


def case(ctx):
    rng = ctx.rng
    o = gen.rand_opts(rng)
    if ctx.idx < 8:
        # every variant with sweeping data words
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for v in range(16):
            for k in range(512):
                seq.append((0, [pi, gen.b2(14, 'A', rng.getrandbits(1) << 4 | v),
                                (ctx.idx * 512 + k) * 16 + rng.randrange(16), rng.randrange(3)]))
        r, exp = std.run_session(ctx, seq, o, 'hex', FIELDS)
    elif ctx.idx < 14:
        # more other networks than any small table holds, all in progress at the same time
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        nets = rng.sample(range(65536), rng.choice((150, 300, 600, 1100)))
        afs = {n: gen.af_codes(rng) for n in nets}
        for rnd in range(3):
            names = {n: gen.txt(rng, 8) for n in nets}
            steps = list(range(4)) + [4] * rng.randrange(1, 5)
            for v in steps:
                for n in nets:
                    w = (names[n][2 * v] << 8 | names[n][2 * v + 1] if v < 4
                         else next(afs[n]) << 8 | next(afs[n]))
                    seq.append((0, [pi, gen.b2(14, 'A', v), w, n]))
            rng.shuffle(nets)
        ctx.c['simultaneous networks'] += len(nets)
        r, exp = std.run_session(ctx, seq, o, 'hex', FIELDS)
    else:
        seq = std.session(ctx, W, losses=(0, 0, 0, .05, .2))
        r, exp = std.run_session(ctx, seq, o, std.pick_mode(rng, .6, .25), FIELDS)
    for e in exp:
        if isinstance(e, dict) and 'other_network' in e:
            for k in e['other_network']:
                ctx.c['eon ' + k] += 1
    return ctx.result()
