from rv import gen, std

CASES = {'quick': 1500, 'thorough': 6000}
FIELDS = ('pi', 'group', 'radiotext', 'partial_radiotext', 'rt_ab')
RULE = ('A case is a generated broadcast of RadioText (2A/2B; terminated, padded and unterminated '
        'messages of all lengths, A/B changes at any point, repeats, truncated, shuffled and lossy '
        'segment cycles, all character codes) interleaved with other groups and station changes, '
        'compared line by line with the reference decoder. Distinct inputs of >1000 groups.')
REQUIRE = {'field radiotext': 3000, 'field partial_radiotext': 1000, 'field rt_ab': 1000,
           'clean messages': 100}
W = {'rt': 8, 'rtplus': 1, 'ps': 1, 'rnd': .3}


def clean(rng):
    """one message per (length, version, termination) sent cleanly, twice, with A/B toggling"""
    seq = []
    n = 0
    ab = 0
    for ver, size in (('A', 64), ('B', 32)):
        for length in range(1, size + 1):
            for term in (0, 1, 2):
                m = gen.txt(rng, length).replace(b'\r', b'-')
                if term == 1 and length < size:
                    m += b'\r'
                elif term == 2:
                    m = m.ljust(size)
                seg = 4 if ver == 'A' else 2
                m = m.ljust((len(m) + seg - 1) // seg * seg)
                if rng.random() < .8:
                    ab ^= 1
                for _ in range(rng.choice((1, 2, 3))):
                    for s in range(len(m) // seg):
                        d = m[seg * s:seg * s + seg]
                        if ver == 'A':
                            b = (d[0] << 8 | d[1], d[2] << 8 | d[3])
                        else:
                            b = (0x4321, d[0] << 8 | d[1])
                        seq.append((0, [0x4321, gen.b2(2, ver, ab << 4 | s), *b]))
                n += 1
    return seq, n


def case(ctx):
    rng = ctx.rng
    o = gen.rand_opts(rng, partial=rng.random() < .6)
    if ctx.idx % 40 == 0:
        seq, n = clean(rng)
        ctx.c['clean messages'] += n
        std.run_session(ctx, seq, o, 'hex', FIELDS)
        return ctx.result()
    seq = std.session(ctx, W)
    std.run_session(ctx, seq, o, std.pick_mode(rng), FIELDS)
    return ctx.result()
