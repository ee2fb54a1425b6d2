from rv import gen, std

CASES = {'quick': 700, 'thorough': 4000}
FIELDS = ('pi', 'group', 'tp', 'prog_type', 'di', 'ta', 'is_music')
RULE = ('The first cases send all 65536 values of block 2 (in both programme type tables); the rest '
        'are generated broadcasts with losses in all input formats. Every line is compared with the '
        'reference decoder. Distinct inputs of >1000 groups.')
REQUIRE = {'block 2 values': 131072, 'field di': 3000, 'field ta': 3000, 'field prog_type': 100000}
EXHAUSTIVE = 'all 65536 block 2 values x {RDS, RBDS} (hex input)'
W = dict(gen.ALL, ps=4, fast_basic=4)


def case(ctx):
    rng = ctx.rng
    if ctx.idx < 16:
        o = gen.rand_opts(rng, rbds=bool(ctx.idx & 1))
        k = ctx.idx // 2
        lo = 65536 * k // 8
        vals = list(range(lo, lo + 8192))
        rng.shuffle(vals)
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, 0x1000, 0, 0])] * 2
        seq += [(0, [pi, v, rng.getrandbits(16), rng.getrandbits(16)]) for v in vals]
        ctx.c['block 2 values'] += len(vals)
        std.run_session(ctx, seq, o, 'hex', FIELDS)
        return ctx.result()
    o = gen.rand_opts(rng)
    seq = std.session(ctx, W)
    std.run_session(ctx, seq, o, std.pick_mode(rng, .5, .3), FIELDS)
    return ctx.result()
