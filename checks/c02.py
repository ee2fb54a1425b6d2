import os
from rv import gen, std, harness, schema, loctab, formats
from rv.model import Group, DEBUG_LINE

CASES = {'quick': 1500, 'thorough': 9000}
RULE = ('A case is a broadcast heavy in texts that are no valid UTF-8, random groups, arbitrary bytes '
        'or mutated lines, in hex, bit or TEF form, with JSON or hex output, feed-through, location '
        'tables, every display option, and time stamps (also with formats that are no UTF-8). Every '
        'byte of output is checked: complete lines, strict JSON without duplicate keys, documented '
        'keys and types only, or hex lines; raw data of the records must be a subsequence of the '
        'received groups in order; and the number and contents of the lines must be those of the '
        'reference decoder. Distinct inputs.')
REQUIRE = {'lines checked': 100000, 'unencodable groups': 500, 'garbage inputs': 60,
           'hex lines checked': 5000, 'feed-through cases': 20, 'ordered raw records': 20000,
           'distinct keys': 60 * 50}
TECHNIQUE = ('runtime monitoring: a strict schema monitor and an ordering (subsequence) monitor over '
             'every output byte, plus reference decoder comparison, on hostile workloads')


def garbage(rng, mode):
    n = rng.choice((200, 2000, 20000))
    k = rng.random()
    if k < .3:
        return rng.randbytes(n)
    if k < .6:
        pool = {'hex': b'0123456789ABCDEFabcdef  \n\n-#S123 ', 'tef': b'PR0123456789ABCDEF00\n\nR',
                'bits': b'01010101 \n'}[mode]
        return bytes(rng.choice(pool) for _ in range(n))
    out = []
    pi = gen.pick_pi(rng) or 7
    for st, b in gen.session(rng, 150):
        l = ('%04X %04X %04X %04X' % tuple(x or 0 for x in b) if mode == 'hex' else
             'P%04X\nR%04X%04X%04X%02X' % tuple([x or 0 for x in b] + [rng.getrandbits(6)]))
        l = bytearray(l.encode())
        for _ in range(rng.choice((0, 0, 1, 3))):
            q = rng.random()
            i = rng.randrange(len(l))
            if q < .4:
                l[i] = rng.randrange(256)
            elif q < .7:
                del l[i:i + rng.randrange(1, 6)]
            else:
                l[i:i] = rng.randbytes(rng.randrange(1, 5))
            if not l:
                break
        out.append(bytes(l))
    return b'\n'.join(out)


def keys(o, p=''):
    if isinstance(o, dict):
        for k, v in o.items():
            yield p + k
            yield from keys(v, p + k + '.')
    elif isinstance(o, list):
        for v in o:
            yield from keys(v, p)


def case(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    is_garbage = rng.random() < .3
    mode = std.pick_mode(rng, .6, .2)
    o = gen.rand_opts(rng, streams=(mode == 'hex' and rng.random() < .4), raw=rng.random() < .6)
    o.hexout = rng.random() < .2
    args, prefix = [], []
    if rng.random() < .25:
        ltn = rng.randrange(1, 64)
        t = loctab.generate(rng, os.path.join(d, 'lt'), ltn)
        o.loctables[ltn] = t
        prefix.append(t.info)
        args += ['-l', os.path.join(d, 'lt')]
    feed = rng.random() < .15
    if feed:
        args.append('-e')
    ts = None
    if rng.random() < .2:
        ts = rng.choice(('%c', '%Y-%m-%dT%H:%M:%S.%f', 'fixed "quoted" \\ text', 'тест', '%Z %%',
                         os.fsdecode(b'bad \xff\xfe utf8')))
        args += ['-t', ts]
    bad_ts = ts is not None and not ts.isprintable()
    w = dict(gen.ALL)
    w.update(long_ps=4, ert=4, rnd=2, tmc=2)
    kw = {'long_ps': {'bad': .5, 'whole': .4}, 'ert': {'bad': .5, 'whole': .4},
          'tmc': {'ltns': list(o.loctables) or None,
                  'lcds': [l for t in o.loctables.values() for l in t.points] or None}}
    if is_garbage:
        data = garbage(rng, mode)
        ctx.c['garbage inputs'] += 1
    else:
        seq = std.session(ctx, w, 900, kw=kw)
        if mode == 'hex':
            data = gen.to_hex(rng, seq)
        elif mode == 'bits':
            data = gen.to_bits(rng, seq).encode()
        else:
            data = b''.join(b'P%04X\nR%04X%04X%04X%02X\n' % tuple(
                [b[0] or 0] + [x or 0 for x in b[1:]] +
                [sum(3 << s for s, x in ((4, b[1]), (2, b[2]), (0, b[3])) if x is None)])
                for st, b in seq if st == 0)
    if mode == 'hex':
        groups = formats.hex_groups(data)
    elif mode == 'tef':
        groups = formats.tef_groups(data)
    else:
        groups, _ = gen.sync_groups(''.join(c for c in data.decode('latin1') if c in '01'), o.fec)
    # expectation
    if o.hexout:
        exp = ['#S%d ' % g.stream * (g.stream > 0) + g.hex() for g in groups if any(x is not None for x in g.b)]
    else:
        exp, ch = gen.expect_groups(o, groups)
        if ts is not None and bad_ts:
            exp = [DEBUG_LINE for e in exp]
    exp = prefix + exp
    r = ctx.run(['--input', mode] + gen.opts_args(o) + args, data, cwd=d)
    ab = harness.abnormal(r)
    out = r.err if feed else r.out
    if feed:
        ctx.c['feed-through cases'] += 1
    if bad_ts and o.hexout:
        out = out.replace(b' bad \xff\xfe utf8', b'')
    try:
        objs = schema.check_stream(out, o.hexout)
        if o.hexout and ts is not None:
            n = out.count(b'\n')
            if n != len(exp):
                raise schema.Bad('%d lines for %d groups' % (n, len(exp)))
            for l, e in list(zip(objs, exp))[len(prefix):]:
                if not l.startswith(e):
                    raise schema.Bad('expected %r, got %r' % (e, l))
        else:
            harness.compare(exp, out, skip=('rx_time',))
        if not o.hexout and o.raw:
            # records come from received groups, in reception order, one line at most per group
            it = iter(groups)
            for n, x in enumerate(objs):
                if 'raw_data' not in x:
                    continue
                for g in it:
                    if x['raw_data'] == g.hex()[-19:] and x.get('stream', g.stream) == g.stream:
                        break
                else:
                    raise schema.Bad('line %d (%s) is not the next received group' % (
                        n + 1, x['raw_data']))
                ctx.c['ordered raw records'] += 1
    except (schema.Bad, harness.Mismatch) as b:
        raise harness.Violation('%s%s' % (b, ' (%s)' % ab if ab else ''), None, r)
    if ab or r.rc:
        raise harness.Violation('abnormal end: %s %s' % (r.rc, ab), None, r)
    ctx.c['hex lines checked' if o.hexout else 'lines checked'] += len(objs)
    if not o.hexout:
        ctx.c['unencodable groups'] += sum(1 for x in objs if set(x) == {'debug'})
        ctx.c['distinct keys'] += len({k for x in objs for k in keys(x)})
    ctx.sig = harness.sig_of(data, repr(r.args))
    if ctx.idx < 40:
        ctx.sample = {'args': r.args, 'input_head': data[:120].decode('latin1'), 'lines': len(objs)}
    return ctx.result()
