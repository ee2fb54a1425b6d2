from rv import gen, std

CASES = {'quick': 1500, 'thorough': 6000}
FIELDS = ('pi', 'group', 'radiotext_plus', 'ert_plus', 'enhanced_radiotext', 'radiotext')
RULE = ('A case is a generated broadcast of RadioText / enhanced RadioText (UTF-8 and UCS-2, up to '
        '128 bytes, multi-byte characters) with RT+ / eRT+ tag groups over changing ODA assignments, '
        'toggles and losses, compared line by line with the reference decoder; some cases tag every '
        '(start, length) of a fixed text. Distinct inputs of >1000 groups.')
REQUIRE = {'field radiotext_plus': 1000, 'field ert_plus': 300, 'field enhanced_radiotext': 300,
           'tags printed': 500, 'tags with multi-byte text': 100, 'long eRT': 10}
W = {'rtplus': 6, 'ert': 6, 'ps': .5, 'rnd': .2, 'oda': .2}


def count(ctx, exp):
    for e in exp:
        if isinstance(e, dict):
            for k in ('radiotext_plus', 'ert_plus'):
                for t in e.get(k, {}).get('tags', ()):
                    ctx.c['tags printed'] += 1
                    if any(ord(x) > 127 for x in t['data']):
                        ctx.c['tags with multi-byte text'] += 1
            if len(e.get('enhanced_radiotext', '').encode()) > 64:
                ctx.c['long eRT'] += 1


def sweep(rng, n):
    """every tag start with all interesting lengths over a text of n characters"""
    m = bytes(rng.choice((rng.randrange(33, 127), rng.randrange(128, 255))) for _ in range(n))
    t = m + (b'\r' if n < 64 else b'')
    t = t.ljust((len(t) + 3) // 4 * 4)
    seq = [(0, [0x4321, gen.b2(3, 'A', 22), 0, 0x4BD7])] * 4
    for s in range(len(t) // 4):
        d = t[4 * s:4 * s + 4]
        seq.append((0, [0x4321, gen.b2(2, 'A', s), d[0] << 8 | d[1], d[2] << 8 | d[3]]))
    for st in range(64):
        for ln in range(64):
            ct = 1 + (st + ln) % 63
            l2 = ln & 31
            seq.append((0, [0x4321, gen.b2(11, 'A', ct >> 3),
                            (ct & 7) << 13 | st << 7 | ln << 1 | ct >> 5,
                            (ct & 31) << 11 | st << 5 | l2]))
    return seq


def case(ctx):
    rng = ctx.rng
    o = gen.rand_opts(rng)
    if ctx.idx % 20 == 0:
        n = rng.choice((1, 5, 20, 40, 62, 63, 64))
        r, exp = std.run_session(ctx, sweep(rng, n), o, 'hex', FIELDS)
    else:
        seq = std.session(ctx, W)
        r, exp = std.run_session(ctx, seq, o, std.pick_mode(rng), FIELDS)
    count(ctx, exp)
    return ctx.result()
