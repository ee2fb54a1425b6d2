from rv import gen, bits, sync, harness
from rv.bits import words

CASES = {'quick': 1500, 'thorough': 4000}
RULE = ('A case keeps the decoder synchronised and damages one block in every other group by a known '
        'error vector. Cases 0-9 enumerate, for each of the five block/offset positions with and '
        'without correction, all 26 single, all 25 adjacent, all 325 double errors and all 1024 '
        'error syndromes; the others use random vectors, bursts and random data, also several '
        'damaged blocks per group. Each delivered block is judged against the transmitted word and '
        'each stream against the reference decoder. Distinct streams.')
EXHAUSTIVE = ('all error syndromes (1024), single (26), adjacent (25) and double (325) errors, for '
              "each of the five offset positions A B C C' D, with and without error correction")
REQUIRE = {'damaged blocks': 20000, 'repaired': 1500, 'rejected': 10000, 'undamaged delivered': 50000,
           'enumerated positions': 10}
TECHNIQUE = ('runtime monitoring with fault injection: every delivered block judged against the '
             'transmitted word and the injected error vector')
BURST = {1 << i for i in range(26)} | {3 << i for i in range(25)}


def enum_vectors():
    v = [1 << i for i in range(26)] + [3 << i for i in range(25)]
    v += [1 << i | 1 << j for i in range(26) for j in range(i)]
    v += list(range(1, 1024))        # errors in the checkword reach every syndrome
    return v


def case(ctx):
    rng = ctx.rng
    i = ctx.idx
    fec = rng.random() < .7
    sent = []
    if i < 10:
        fec = i < 5
        pos = i % 5
        seq = []
        vec = enum_vectors()
        rng.shuffle(vec)
        for e in vec:
            w = words(rng)
            w[1] = w[1] | 0x800 if pos == 4 else w[1] & 0xF7FF if pos == 2 else w[1]
            k = 2 if pos == 4 else pos
            seq.append((words(rng), {}))
            seq.append((w, {k: e}))
        ctx.c['enumerated positions'] += 1
    else:
        seq = []
        dens = rng.choice((.05, .15, .3))
        for _ in range(400):
            w = words(rng)
            d = {}
            for k in range(4):
                if rng.random() < dens:
                    q = rng.random()
                    n = rng.randrange(1, 8)
                    d[k] = rng.choice(sorted(BURST)) if q < .4 else \
                        ((rng.getrandbits(n) | 1) << rng.randrange(26)) & sync.MASK26 if q < .6 else \
                        rng.getrandbits(26) if q < .8 else \
                        sync.encode_block(rng.getrandbits(16), rng.choice(list(sync.OFFSET))) ^ \
                        sync.encode_block(w[k], 'A') if q < .9 else 0x3FFFFFF
                    if not d[k]:
                        del d[k]
            seq.append((w, d))
    lead = [(words(rng), {}) for _ in range(2)]
    s = ''
    for w, d in lead + seq:
        b = sync.encode_group(w)
        for k in range(4):
            blk = b[26 * k:26 * k + 26]
            if k in d:
                blk = bits.flip(blk, d[k])
            s += blk
    # the whole stream against the reference decoder
    st, groups = bits.run_hex(ctx, s, fec)
    if st.stats['locks'] > 1:
        ctx.c['resync streams'] += 1
        return ctx.result()
    # and every block against what was sent (blocks 0-1 of the first group precede the lock)
    got = groups[-len(seq):]
    if len(groups) < len(seq):
        raise harness.Violation('%d groups delivered, %d sent' % (len(groups), len(seq)))
    for (w, d), g in zip(seq, got):
        for k in range(4):
            e = d.get(k, 0)
            x = g.b[k]
            cp = k == 2 and w[1] & 0x800
            if not e:
                ctx.c['undamaged delivered'] += 1
                if x != w[k]:
                    raise harness.Violation('model: undamaged block not delivered: %r %r' % (w, g.b))
                continue
            ctx.c['damaged blocks'] += 1
            if x is None:
                ctx.c['rejected'] += 1
            elif x == w[k]:
                ctx.c['repaired'] += 1
            if not cp and e in BURST and (x == w[k]) != fec:
                raise harness.Violation('model: burst %#x at block %d gave %r for %r' % (e, k, x, w[k]))
    return ctx.result()
