from rv import gen, bits, sync
from rv.bits import rbits, words

CASES = {'quick': 3328, 'thorough': 12000}
RULE = ('A case is a bit stream: valid groups entered at every one of the 104 bit positions, after '
        'noise, after false and broken rhythms (blocks 1-9 apart, wrong order, one bit off, damaged '
        'blocks between), or pure noise; the emitted hex groups must equal those of the reference '
        'synchroniser, from the group in which three valid blocks are in rhythm on. Distinct streams.')
REQUIRE = {'sync locks': 300, 'start alignments': 104, 'no-lock streams': 20, 'groups': 5000, 'late starts': 40}
TECHNIQUE = ('runtime monitoring: emitted groups of the sanitizer-built decoder checked against an '
             'independent polynomial-based synchroniser')


def case(ctx):
    rng = ctx.rng
    i = ctx.idx
    fec = rng.random() < .8
    k = i % 4
    if i == 2:
        # four hours of nothing first
        s = '0' * ((1 << 24) - 137) + ''.join(sync.encode_group(words(rng)) for _ in range(12))
        bits.run_hex(ctx, s, fec)
        ctx.c['late starts'] += 1
    elif i % 64 == 33:
        # hours of nothing (counters may wrap), then a station whose first groups straddle 2^16 or 2^17 bits
        wrap = rng.choice((1 << 15, 1 << 16, 1 << 16, 1 << 17)) if ctx.tier == 'quick' else \
            rng.choice((1 << 16, 1 << 17, 1 << 18, 1 << 20))
        lead = wrap - rng.randrange(0, 210)
        s = rng.choice('01') * lead if rng.random() < .6 else rbits(rng, lead)
        s += ''.join(sync.encode_group(words(rng)) for _ in range(8))
        bits.run_hex(ctx, s, fec)
        ctx.c['late starts'] += 1
    elif i % 64 == 1:
        # a station, lost for long, found again
        s = ''.join(sync.encode_group(words(rng)) for _ in range(8))
        lead = (1 << rng.choice((12, 14, 16))) - rng.randrange(0, 400) - len(s)
        s += rng.choice('01') * lead if rng.random() < .6 else rbits(rng, lead)
        s += ''.join(sync.encode_group(words(rng)) for _ in range(8))
        bits.run_hex(ctx, s, fec)
        ctx.c['late starts'] += 1
    elif k == 0:
        # every alignment, clean signal
        al = (i // 4) % 104
        s = ''.join(sync.encode_group(words(rng)) for _ in range(30))[al:]
        ctx.c['start alignments'] += 1
        st, groups = bits.run_hex(ctx, s, fec)
        # independent of the model: everything after the first two groups must be there
        if len(groups) < 27:
            raise bits.harness.Violation('only %d groups delivered' % len(groups))
    elif k == 1:
        # noise, then signal (several times)
        s = ''
        for _ in range(rng.randrange(1, 4)):
            s += rbits(rng, rng.choice((rng.randrange(200), rng.randrange(3000), 26 * rng.randrange(20))))
            s += ''.join(sync.encode_group(words(rng)) for _ in range(rng.randrange(1, 12)))[rng.randrange(104):]
        bits.run_hex(ctx, s, fec)
    elif k == 2:
        # sparse valid blocks in and out of rhythm
        s = rbits(rng, rng.randrange(60))
        for _ in range(rng.randrange(1, 8)):
            pos = rng.randrange(4)
            for _ in range(rng.choice((1, 2, 2, 3, 3, 4))):
                off = ('A', 'B', rng.choice(('C', "C'")), 'D')[pos % 4]
                if rng.random() < .1:
                    off = rng.choice(list(sync.OFFSET))
                s += format(sync.encode_block(rng.getrandbits(16), off), '026b')
                gap = rng.choice((0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9))
                s += rbits(rng, 26 * gap)
                if rng.random() < .1:
                    s += rbits(rng, rng.randrange(1, 26))
                pos += 1 + gap
        if rng.random() < .7:
            s += ''.join(sync.encode_group(words(rng)) for _ in range(6))
        bits.run_hex(ctx, s, fec)
    else:
        # noise or constant/periodic patterns only
        q = rng.random()
        n = 4000
        if q < .5:
            s = rbits(rng, n)
        elif q < .7:
            s = rng.choice('01') * n
        else:
            p = rbits(rng, rng.randrange(2, 120))
            s = (p * n)[:n]
        st, g = bits.run_hex(ctx, s, fec)
        if not st.stats['locks']:
            ctx.c['no-lock streams'] += 1
    return ctx.result()
