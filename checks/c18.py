import os
from rv import gen, std, loctab

CASES = {'quick': 1000, 'thorough': 4000}
FIELDS = ('pi', 'group', 'tmc', 'location_table_info')
RULE = ('A case writes 1-3 generated location tables (various encodings, column orders, malformed '
        'rows, chains with ends, loops and dangling links) and a service key table, and sends a '
        'generated TMC service whose messages refer to these tables, encrypted or not, with system, '
        'tuning and encryption administration groups; every tmc object is compared with the '
        'reference decoder built from the same table contents. Distinct inputs.')
REQUIRE = {'tmc coordinates': 5000, 'tmc span_from': 1000, 'tmc road_number': 1000,
           'tmc road_name': 1000, 'decrypted': 500, 'encrypted only': 500, 'provider': 100,
           'system_info': 1000, 'other_network': 500, 'negative extent spans': 200,
           'tables loaded': 150, 'tables of a whole country': 4}


def case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    o = gen.rand_opts(rng, partial=False)
    args = []
    prefix = []
    if rng.random() < .9:
        big = ctx.idx % 100 == 5
        for k, ltn in enumerate(rng.sample(range(1, 64), rng.choice((1, 1, 2, 3, 1, 2, 3, 9)))):
            p = os.path.join(d, 'lt%d' % k)
            t = loctab.generate(rng, p, ltn, big=big and k == 0)
            if big and k == 0:
                ctx.c['tables of a whole country'] += 1
            o.loctables[ltn] = t
            prefix.append(t.info)
            args += [rng.choice(('--loctable', '-l')), p]
            ctx.c['tables loaded'] += 1
    if rng.random() < .8:
        o.keys = loctab.write_keys(rng, d)
    ltns = list(o.loctables) or None
    lcds = [l for t in o.loctables.values() for l in t.points] or None
    pts = lcds
    kw = {'tmc': {'ltns': ltns, 'lcds': lcds, 'keys': o.keys}}
    if o.keys and lcds and rng.random() < .6:
        # encrypted codes that decrypt to known locations
        enc = []
        for l in lcds:
            xv, xs, nr = rng.choice(list(o.keys.values()))
            w = ((l >> nr) | (l << (16 - nr))) & 0xFFFF
            enc.append(w ^ ((xv << xs) & 0xFFFF))
        kw['tmc']['lcds'] = lcds + enc * 2
    seq = std.session(ctx, {'tmc': 10, 'rnd': .1}, kw=kw, losses=(0, 0, .02, .1))
    r, exp = std.run_session(ctx, seq, o, std.pick_mode(rng, .8, .15), FIELDS,
                             extra_args=args, prefix=prefix, cwd=d)
    for e in exp:
        t = e.get('tmc', {}) if isinstance(e, dict) else {}
        m = t.get('message')
        for k in ('system_info', 'other_network'):
            if k in t:
                ctx.c[k] += 1
        if 'service_provider' in t:
            ctx.c['provider'] += 1
        if m:
            for k in m:
                ctx.c['tmc ' + k] += 1
            if 'encrypted_location' in m:
                ctx.c['decrypted' if 'location' in m else 'encrypted only'] += 1
            if len(m.get('coordinates', ())) > 1 and m['extent'][0] == '-':
                ctx.c['negative extent spans'] += 1
    return ctx.result()
