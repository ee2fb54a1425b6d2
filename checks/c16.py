from rv import gen, std

CASES = {'quick': 1300, 'thorough': 6000}
RULE = ('Cases 0-15 announce all 65536 application ids and use the assigned group; the others are '
        'generated broadcasts with changing assignments of all group types (DAB, RT+, eRT, TMC, '
        'unknown), transparent and in-house data, losses and station changes. All fields of all '
        'lines are compared with the reference decoder. Distinct inputs of >1000 groups.')
REQUIRE = {'application ids': 65536, 'field unknown_oda': 3000, 'field dab': 500,
           'field transparent_data': 500, 'field in_house_data': 500, 'field open_data_app': 1000, 'dense groups': 60000}
EXHAUSTIVE = 'all 65536 application ids; all 2^18 DAB frequencies (thorough: all, quick: all named)'
W = {'oda': 8, 'tdc': 3, 'rnd': 1, 'rtplus': .5, 'ert': .5, 'tmc': 1, 'long_ps': .5}


def case(ctx):
    rng = ctx.rng
    i = ctx.idx
    o = gen.rand_opts(rng)
    if i < 16:
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for a in range(i * 4096, i * 4096 + 4096):
            t = rng.choice(gen.ODA_TYPES)
            seq.append((0, [pi, gen.b2(3, 'A', gen.t5(t)), rng.getrandbits(16), a]))
            if a & 3 == 0:
                seq.append((0, [pi, gen.b2(t[0], t[1], rng.getrandbits(5)), rng.getrandbits(16),
                                rng.getrandbits(16)]))
        ctx.c['application ids'] += 4096
        std.run_session(ctx, seq, o, 'hex')
    elif i < 24:
        pi = gen.pick_pi(rng)
        t = rng.choice(gen.ODA_TYPES)
        seq = [(0, [pi, gen.b2(3, 'A', gen.t5(t)), 0, 0x0093])] * 3
        fs = [f // 16 + d for f in gen.model.DAB for d in (-1, 0, 1)]
        fs += [rng.getrandbits(18) for _ in range(500)]
        rng.shuffle(fs)
        for f in fs:
            seq.append((0, [pi, gen.b2(t[0], t[1], rng.getrandbits(2) << 2 | f >> 16), f & 0xFFFF,
                            rng.getrandbits(16)]))
        std.run_session(ctx, seq, o, 'hex')
    elif i < 56:
        # every group type, unassigned then assigned
        tt = i - 24
        pi = gen.pick_pi(rng)
        num, ver = tt >> 1, 'AB'[tt & 1]
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for aid in (None, 0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0xCD47, 0x1234, 0):
            if aid is not None:
                seq.append((0, [pi, gen.b2(3, 'A', tt), rng.getrandbits(16), aid]))
            for _ in range(40):
                b = [pi, gen.b2(num, ver, rng.getrandbits(5)), rng.getrandbits(16),
                     rng.getrandbits(16)]
                if rng.random() < .3:
                    b[rng.randrange(2, 4)] = None
                seq.append((0, b))
        std.run_session(ctx, seq, o, 'hex')
    elif i < 72:
        # dense: transparent and in-house data of any contents
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for k in range(4000):
            b = [pi, gen.b2(5 + (k >> 1 & 1), 'AB'[k & 1], rng.getrandbits(5)), rng.getrandbits(16),
                 rng.getrandbits(16)]
            if rng.random() < .1:
                b[rng.randrange(2, 4)] = None
            seq.append((0, b))
        ctx.c['dense groups'] += 4000
        std.run_session(ctx, seq, o, 'hex')
    else:
        seq = std.session(ctx, W)
        std.run_session(ctx, seq, o, std.pick_mode(rng, .6, .25))
    return ctx.result()

