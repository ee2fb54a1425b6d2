from rv import gen, bits, sync
from rv.bits import rbits, words

CASES = {'quick': 2600, 'thorough': 8000}
RULE = ('A case is a long bit stream of signal, heavily damaged signal (25-100 % of the blocks; runs '
        'and windows placed at the 42-of-50 limit), inserted and deleted bits, noise gaps, phase '
        'changes and recoveries; every emitted hex group must equal that of the reference '
        'synchroniser. Non-trivial: at least one loss or more than 500 damaged blocks survived.')
REQUIRE = {'sync drops': 500, 'sync locks': 700, 'sync rejected': 30000, 'limit streams': 60}
TECHNIQUE = ('runtime monitoring with fault injection (block damage, bit slips, gaps): emitted groups '
             'checked against an independent synchroniser')


def damaged(rng, n, p):
    s = []
    for _ in range(n):
        b = sync.encode_group(words(rng))
        for k in range(4):
            blk = b[26 * k:26 * k + 26]
            if rng.random() < p:
                blk = bits.flip(blk, gen.bad_error(rng) if rng.random() < .8 else 1 << rng.randrange(26))
            s.append(blk)
    return ''.join(s)


def window(rng):
    """exactly x damaged among 50 blocks, x around the limit"""
    n = 150
    s = []
    k = rng.randrange(38, 47)
    shape = rng.random()
    bad = set()
    for w in range(0, n, 50):
        if shape < .4:
            bad |= set(rng.sample(range(w, w + 50), k))
        elif shape < .7:
            bad |= set(range(w, w + k))
        else:
            bad |= set(range(w + 50 - k, w + 50))
    blocks = []
    for _ in range((n + 3) // 4):
        b = sync.encode_group(words(rng))
        blocks += [b[26 * j:26 * j + 26] for j in range(4)]
    for j in bad:
        blocks[j] = bits.flip(blocks[j], gen.bad_error(rng))
    return ''.join(blocks)


def case(ctx):
    rng = ctx.rng
    fec = rng.random() < .7
    good = lambda n: damaged(rng, n, 0)
    s = good(5)
    if ctx.idx % 4 == 0:
        ctx.c['limit streams'] += 1
        if rng.random() < .5:
            s += good(rng.randrange(0, 14))
        for _ in range(4):
            s += window(rng)
            if rng.random() < .5:
                s += good(rng.randrange(1, 16))
    else:
        for _ in range(rng.randrange(3, 12)):
            k = rng.random()
            if k < .3:
                s += damaged(rng, rng.randrange(1, 60), rng.choice((.25, .5, .7, .8, .84, .86, .9, 1)))
            elif k < .45:
                s += rbits(rng, rng.randrange(1, 3000))
            elif k < .6:
                s += rbits(rng, rng.randrange(1, 27))
            elif k < .75 and len(s) > 200:
                s = s[:-rng.randrange(1, 104)]
            elif k < .8:
                s += rng.choice('01') * rng.randrange(26, 1500)
            s += good(rng.randrange(1, 20))
    if ctx.idx % 1000 == 61:
        # hours of reception without a loss, then one
        s += damaged(rng, 17500, .3) + rbits(rng, 3000)
        ctx.c['long receptions'] += 1
    s += good(20)
    st, groups = bits.run_hex(ctx, s, fec)
    ctx.nontrivial = st.stats['drops'] > 0 or st.stats['rejected'] > 500
    return ctx.result()
