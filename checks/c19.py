import base64
from rv import gen, std

CASES = {'quick': 1000, 'thorough': 4000}
RULE = ('A case transfers many generated files over 1-3 pipes and streams 1-3 (shuffled, repeated, '
        'missing segments, toggles, sizes that change, out-of-range segments, losses), mixed with '
        'other type C data and main-stream groups; some transfer files up to 163840 bytes, some are dense in type C data of any function number and contents. Every '
        'line is compared with the reference decoder; completed files are compared byte by byte.')
REQUIRE = {'files completed': 1000, 'bytes delivered': 400000, 'largest >= 100000': 1,
           'field rft': 10000, 'field open_data_app': 3000, 'dense type C groups': 100000}


def big(ctx, rng):
    pi = gen.pick_pi(rng)
    seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
    g = gen.rft_big(rng)
    for _ in range(rng.choice((33000, 40000)) if ctx.idx < 3 else 70000):
        t = next(g)
        seq.append((t[1], list(t[2])))
    return seq


def case(ctx):
    rng = ctx.rng
    o = gen.rand_opts(rng, partial=False, streams=rng.random() < .5)
    if ctx.idx < 3 or ctx.tier == 'thorough' and ctx.idx % 100 == 0:
        o.raw = o.bler = False
        seq = big(ctx, rng)
    elif ctx.idx % 25 == 4:
        # dense: type C data of every function number, with any contents
        pi = gen.pick_pi(rng)
        seq = [(0, [pi, gen.b2(15, 'B', 0), pi, 0])] * 3
        for k in range(6000):
            w = [rng.getrandbits(16) for _ in range(4)]
            q = k % 6
            if q == 0:
                w[0] = 0x4000 | w[0] & 0x3FFF
            elif q == 1:
                w[0] = 0xC000 | w[0]
            elif q == 2:
                w[0] = 0x8000 | rng.randrange(16, 64)
            elif q == 3:
                w[0] = 0x8000 | rng.randrange(16)
                w[2] = w[2] & 0xFFF | rng.randrange(1, 16) << 12
            elif q == 4:
                w[0] = rng.choice((0x0000, 0x0100, 0x3000, 0x8100)) | w[0] & 0xFF
            seq.append((rng.randrange(1, 4), w))
        ctx.c['dense type C groups'] += 6000
    else:
        seq = gen.session(rng, 2000, {'rft': 10, 'ps': .3, 'rnd': .3},
                          losses=(0, 0, 0, .01, .1), stations=rng.choice((1, 2, 4)))
    r, exp = std.run_session(ctx, seq, o, 'hex')
    for e in exp:
        if isinstance(e, dict) and 'rft' in e and 'file_contents' in e['rft'].get('data', ()):
            ctx.c['files completed'] += 1
            n = len(base64.b64decode(e['rft']['data']['file_contents']))
            ctx.c['bytes delivered'] += n
            if n >= 100000:
                ctx.c['largest >= 100000'] += 1
    return ctx.result()
