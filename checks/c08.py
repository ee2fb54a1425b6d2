from rv import gen, std

CASES = {'quick': 1500, 'thorough': 6000}
FIELDS = ('pi', 'group', 'ps', 'partial_ps', 'pty_name', 'long_ps', 'partial_long_ps')
RULE = ('A case is a generated broadcast (1-6 stations; PS over 0A/0B, PTYN, long PS with full, '
        'shuffled, truncated, repeated and changing segment cycles, all 256 character codes, random '
        'block loss up to 30%) sent through redsea as hex, bits or TEF lines; every printed line is '
        'compared with the reference decoder. Distinct inputs are counted; each has >1000 groups.')
REQUIRE = {'field ps': 1000, 'field partial_ps': 300, 'field pty_name': 300, 'field long_ps': 100,
           'field partial_long_ps': 100, 'character codes seen': 256}
W = {'ps': 6, 'ptyn': 3, 'long_ps': 4, 'oda': .3, 'rt': .5, 'rnd': .5}


def case(ctx):
    rng = ctx.rng
    o = gen.rand_opts(rng, partial=rng.random() < .6)
    if ctx.idx == 0:
        # every character code at every position of PS, PTYN; ASCII of long PS
        seq = []
        for c in range(256):
            for k in range(8):
                n = bytearray(b'AbcdefgH')
                n[k] = c
                for s in range(4):
                    seq.append((0, [0x1234, gen.b2(0, 'B', s), 0x1234, n[2 * s] << 8 | n[2 * s + 1]]))
                for s in range(2):
                    seq.append((0, [0x1234, gen.b2(10, 'A', s | (c & 1) << 4),
                                    n[4 * s] << 8 | n[4 * s + 1], n[4 * s + 2] << 8 | n[4 * s + 3]]))
            ctx.c['character codes seen'] += 1
        std.run_session(ctx, seq, o, 'hex', FIELDS)
        return ctx.result()
    seq = std.session(ctx, W)
    std.run_session(ctx, seq, o, std.pick_mode(rng), FIELDS)
    return ctx.result()
