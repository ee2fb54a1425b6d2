from rv import gen, std

CASES = {'quick': 1500, 'thorough': 6000}
FIELDS = ('pi', 'group', 'alt_frequencies_a', 'alt_frequencies_b', 'partial_alt_frequencies')
RULE = ('A case is a generated sequence of AF codes (method A/B of all lengths, LF/MF, fillers, '
        'surplus, invalid and random codes, duplicates, both pair orders, lost blocks) in 0A groups, '
        'compared line by line with the reference decoder. Distinct inputs of >1000 groups.')
REQUIRE = {'field alt_frequencies_a': 1000, 'field alt_frequencies_b': 500,
           'field partial_alt_frequencies': 500}
ASSUMPTIONS = ['Lists interrupted after the first half of a method B pair by a missing block are not '
               'judged: whether they are kept is unspecified.']
W = {'af': 8, 'ps': 2, 'rnd': .2}


def sweep(rng):
    """every AF code as a list member, as the header, and after the LF/MF escape"""
    codes = []
    for c in range(256):
        for pre in ((226, 10), (226, 250), (c, 10), (227, 5), (225, c)):
            codes += list(pre) + [c, 20]
        codes += [224 + 3, 30, c, 30, 205, 205]
        codes += [224 + 3, c, c, 30, 205, 205]
        codes += [224 + 3, c, 30, c, 205, 205]
    return [(0, [0x4321, gen.b2(0, 'A', i // 2 % 4), codes[i] << 8 | codes[i + 1], 0x4141])
            for i in range(0, len(codes) - 1, 2)]


def case(ctx):
    rng = ctx.rng
    o = gen.rand_opts(rng, partial=rng.random() < .5)
    if ctx.idx == 0:
        std.run_session(ctx, sweep(rng), o, 'hex', FIELDS)
        return ctx.result()
    seq = std.session(ctx, W, losses=(0, 0, 0, .02, .1, .3))
    std.run_session(ctx, seq, o, std.pick_mode(rng), FIELDS)
    return ctx.result()
