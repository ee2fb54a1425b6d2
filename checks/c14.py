from rv import gen, std

CASES = {'quick': 800, 'thorough': 4000}
FIELDS = ('pi', 'group', 'prog_item_number', 'prog_item_started', 'has_linkage', 'country', 'tmc_id',
          'language', 'slc_broadcaster_bits', 'ews', 'callsign', 'callsign_uncertain')
RULE = ('Cases 0-15 confirm every one of the 65536 PI codes in RBDS mode; 16-31 send every item '
        'number (65536) and every slow label value; 32-47 every country code of every PI nibble; '
        'the rest are generated broadcasts with losses. All lines compared with the reference '
        'decoder. Distinct inputs.')
REQUIRE = {'PI codes': 65536, 'item numbers': 65536, 'slow labels': 32768, 'country codes': 4096}
EXHAUSTIVE = 'all PI codes; all item numbers; all slow labels; all (country nibble, ECC) pairs'
W = {'slc': 8, 'rnd': .5, 'ps': .5, 'eon': .5}


def case(ctx):
    rng = ctx.rng
    i = ctx.idx
    if i < 16:
        o = gen.rand_opts(rng, rbds=True, partial=False)
        pis = list(range(i * 4096, i * 4096 + 4096))
        rng.shuffle(pis)
        seq = []
        for p in pis:
            seq += [(0, [p, gen.b2(15, 'B', 0), p, 0])] * 3
        ctx.c['PI codes'] += 4096
        std.run_session(ctx, seq, o, 'hex', FIELDS, plain=True)
    elif i < 32:
        k = i - 16
        o = gen.rand_opts(rng)
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for v in range(k * 4096, k * 4096 + 4096):
            seq.append((0, [pi, gen.b2(1, 'A' if v & 1 else 'B', rng.getrandbits(5)),
                            rng.getrandbits(16), v]))
        ctx.c['item numbers'] += 4096
        for v in range(k * 2048, k * 2048 + 2048):
            seq.append((0, [pi, gen.b2(1, 'A', rng.getrandbits(5)),
                            v | rng.getrandbits(1) << 15, gen.pin(rng)]))
        ctx.c['slow labels'] += 2048
        std.run_session(ctx, seq, o, 'hex', FIELDS)
    elif i < 48:
        cc = i - 32
        o = gen.rand_opts(rng)
        pi = cc << 12 | rng.getrandbits(12)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for e in range(256):
            seq.append((0, [pi, gen.b2(1, 'A', rng.getrandbits(5)),
                            rng.getrandbits(1) << 15 | rng.getrandbits(4) << 8 | e, gen.pin(rng)]))
        ctx.c['country codes'] += 256
        std.run_session(ctx, seq, o, 'hex', FIELDS)
    else:
        seq = std.session(ctx, W)
        std.run_session(ctx, seq, gen.rand_opts(rng), std.pick_mode(rng, .5, .3), FIELDS)
    return ctx.result()
