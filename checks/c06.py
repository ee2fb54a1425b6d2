from rv import gen, std
from rv.model import Station

CASES = {'quick': 1400, 'thorough': 9000}
RULE = ('A case is one continuing broadcast of all features whose PI code changes under it: runs of '
        '1-6 or more groups per PI drawn from 2-4 codes, bit errors, alternation, missing PI blocks, '
        'PI only in block 3 of version B groups (bit input), RDS2 groups in between. Because every '
        'text, list, assignment, message and file goes on across the changes, data kept over a '
        'station change shows up in the record compared. All fields of all lines are compared with '
        'the reference decoder. Non-trivial: at least two confirmed stations or a rejected deviation.')
REQUIRE = {'confirmed changes': 1500, 'lines': 100000, 'groups with deviating PI': 20000,
           'groups without PI': 20000}
W = {'ps': 3, 'af': 2, 'rt': 3, 'rtplus': 2, 'ert': 2, 'ct': .2, 'ptyn': 2, 'slc': .5, 'eon': 2,
     'oda': 2, 'tdc': 1, 'long_ps': 2, 'fast_basic': .5, 'tmc': 3, 'rft': 3, 'rnd': .5}


def pi_walk(rng, n):
    """a PI code per group"""
    pis = [gen.pick_pi(rng) for _ in range(rng.choice((2, 2, 3, 4)))]
    if rng.random() < .5:
        pis[1] = pis[0] ^ 1 << rng.randrange(16)
    if rng.random() < .1:
        pis[0] = 0
    style = rng.random()
    out = []
    cur = pis[0]
    while len(out) < n:
        if style < .3:       # long stays, short visits
            out += [pis[0]] * rng.choice((1, 2, 3, 10, 100))
            out += [rng.choice(pis)] * rng.choice((1, 1, 2, 2, 3, 4))
        elif style < .6:     # changes at all lengths
            out += [rng.choice(pis)] * rng.choice((1, 2, 3, 4, 5, 8, 30, 120))
        elif style < .8:     # noisy: random PIs
            out += [pis[0] if rng.random() < .8 else rng.getrandbits(16)
                    for _ in range(40)]
        else:
            out += [rng.choice(pis) for _ in range(rng.randrange(1, 12))]
            out += [rng.choice(pis)] * rng.randrange(20, 200)
    return out[:n]


def case(ctx):
    rng = ctx.rng
    mode = std.pick_mode(rng, .6, .3)
    o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .5))
    n = 1200 if ctx.idx % 600 != 60 else 70000
    few = rng.random() < .6
    w = {k: W[k] for k in rng.sample(list(W), 4)} if few else W
    prog = gen.programme(rng, n, w)
    pis = pi_walk(rng, n)
    nopi = rng.choice((0, 0, .05, .3, .6))
    seq = []
    for t, pi in zip(prog, pis):
        (st, b), = gen.realise(rng, [t], pi, loss=0)
        if not st and rng.random() < nopi:
            b[0] = None
            if b[1] & 0x800 and rng.random() < .3:
                b[2] = None
            if rng.random() < .05:
                b = [None] * 4
        seq.append((st, b))
    # tp/pty are per call of realise: harmless
    r, exp = std.run_session(ctx, seq, o, mode)
    last = None
    for e in exp:
        p = e.get('pi') if isinstance(e, dict) else None
        if p and p != last:
            ctx.c['confirmed changes'] += last is not None
            last = p
    ctx.c['groups without PI'] += sum(1 for st, b in seq if not st and b[0] is None)
    ctx.c['groups with deviating PI'] += sum(1 for a, b in zip(pis, pis[1:]) if a != b)
    return ctx.result()
