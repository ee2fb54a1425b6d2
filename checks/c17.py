from rv import gen, std, model

CASES = {'quick': 1300, 'thorough': 5000}
FIELDS = ('pi', 'group', 'tmc')
RULE = ('Cases 0-7 send a single-group message for every one of 65536 values of the event word, and '
        'every quantifiable event with every quantifier value; cases 8-15 every label/value pair; '
        'the rest are generated TMC services (single- and multi-group messages, optional fields, '
        'duplicated, missing, shuffled, interleaved groups, interfering messages, system and tuning '
        'groups, losses). Every tmc object is compared with the reference decoder.')
REQUIRE = {'field tmc': 100000, 'messages': 100000, 'event words': 65536, 'quantified': 20000,
           'tmc description': 50000, 'tmc starts': 300, 'tmc until': 300, 'tmc speed_limit': 300,
           'tmc diversion_route': 300, 'tmc supplementary_codes': 300, 'tmc encrypted_location': 50}
EXHAUSTIVE = 'all 2^16 single-group message words; all (quantifiable event, quantifier value) pairs'
ASSUMPTIONS = ['The text of a time-of-day quantifier with value 0 (undefined by the standard) is not '
               'judged.']
W = {'tmc': 10, 'ps': .3, 'rnd': .3}


def msg(pi, x, y, z):
    return (0, [pi, gen.b2(8, 'A', x), y, z])


def multi(pi, ci, ev, bits, loc=0x1234, ext=0, d=0):
    n = max(1, (len(bits) + 27) // 28)
    bits = bits.ljust(28 * n, '0')
    out = [msg(pi, ci, 0x8000 | d << 14 | ext << 11 | ev, loc)]
    for i in range(n):
        w = int(bits[28 * i:28 * i + 28], 2)
        out.append(msg(pi, ci, (0x4000 if i == 0 else 0) | (n - 1 - i) << 12 | w >> 16, w & 0xFFFF))
    return out


def case(ctx):
    rng = ctx.rng
    i = ctx.idx
    o = gen.rand_opts(rng)
    pi = gen.pick_pi(rng)
    head = [(0, [pi, gen.b2(3, 'A', 16), 0x0040 * rng.randrange(1, 64), 0xCD46])] * 4
    if i < 8:
        seq = list(head)
        for y in range(8192 * i, 8192 * i + 8192):
            seq.append(msg(pi, 8 | rng.randrange(8), y, rng.getrandbits(16)))
        ctx.c['event words'] += 8192
        evs = gen.QUANT_EVENTS[i::8]
        for ev in evs:
            n = 5 if model.EVENTS[ev][2] <= 5 else 8
            vals = range(1 << n)
            if n == 8 and ctx.tier == 'quick':
                vals = sorted(set([0, 1, 2, 99, 100, 101, 102, 204, 205, 254, 255] +
                                  rng.sample(range(256), 40)))
            for v in vals:
                lab = 4 if n == 5 else 5
                seq += multi(pi, 1 + v % 6, ev, format(lab, '04b') + format(v, '0%db' % n))
                ctx.c['quantified'] += 1
        mode = 'hex'
    elif i < 16:
        seq = list(head)
        for lab in range(16):
            n = model.FIELD_SIZE[lab]
            vals = range(1 << n) if n <= 8 else [rng.getrandbits(n) for _ in range(100)]
            for v in vals:
                ev = rng.choice(gen.EVENT_CODES)
                b = format(lab, '04b') + (format(v, '0%db' % n) if n else '')
                b += gen.tmc_bits(rng, ev)
                seq += multi(pi, rng.randrange(1, 7), ev, b[:112], rng.getrandbits(16),
                             rng.randrange(8), rng.getrandbits(1))
        # every combination of missing groups in messages of 2..5 groups
        for n in (1, 2, 3, 4):
            for mask in range(1 << (n + 1)):
                b = ''.join(str(rng.getrandbits(1)) for _ in range(28 * n))
                b = '0110' + format(rng.choice(gen.SUPPL_CODES), '08b') + b[12:]
                m = multi(pi, rng.randrange(1, 7), rng.choice(gen.EVENT_CODES), b)
                seq += [g for k, g in enumerate(m) if mask >> k & 1]
        mode = 'hex'
    else:
        seq = std.session(ctx, W)
        mode = std.pick_mode(rng, .7, .2)
    r, exp = std.run_session(ctx, seq, o, mode, FIELDS)
    for e in exp:
        if isinstance(e, dict) and 'message' in e.get('tmc', ()):
            ctx.c['messages'] += 1
            for k in e['tmc']['message']:
                ctx.c['tmc ' + k] += 1
    return ctx.result()
