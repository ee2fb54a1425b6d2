"""Cases shared by the group-level checks: a generated broadcast is sent through the real redsea
(hex, bits or TEF input) and every printed line is compared with the reference decoder."""
from . import gen, harness, sync
from .model import Group, DEBUG_LINE


def observe(ctx, exp, obs):
    """count what was actually seen"""
    c = ctx.c
    c['groups_sent'] += obs['groups']
    c['lines_expected'] += len(exp)
    for e in exp:
        if isinstance(e, dict) and e is not DEBUG_LINE:
            for k in e:
                if k != '__skip__':
                    c['expected ' + k] += 1


def run_session(ctx, seq, o, mode='hex', fields=None, skip=(), extra_args=(), plain=False, cwd=None,
                prefix=(), env=None):
    """seq: [(stream, blocks)].  Sends it, compares, counts.  -> (Result, expected lines)"""
    rng = ctx.rng
    if mode == 'hex':
        data = gen.to_hex(rng, seq, plain)
        groups = gen.hex_groups(seq)
        args = ['--input', 'hex']
    elif mode == 'bits':
        bits = gen.to_bits(rng, seq)
        lead = ''.join(str(rng.getrandbits(1)) for _ in range(rng.choice((0, 1, 7, 25, 26, 90))))
        bits = lead + bits
        groups, s = gen.sync_groups(bits, o.fec)
        for k, v in s.stats.items():
            ctx.c['sync ' + k] += v
        data = bits.encode()
        args = ['--input', 'bits']
    else:
        lines = []
        groups = []
        for st, b in seq:
            if st:
                continue
            err = sum(rng.randrange(1, 4) << s for s, x in ((4, b[1]), (2, b[2]), (0, b[3]))
                      if x is None)
            if b[0] is not None:
                lines.append('P%04X' % b[0])
            lines.append('R%04X%04X%04X%02X' % tuple(
                [rng.getrandbits(16) if x is None else x for x in b[1:]] + [err]))
            groups.append(Group(list(b)))
        data = ('\n'.join(lines) + '\n').encode()
        args = ['--input', 'tef']
    exp, ch = gen.expect_groups(o, groups)
    exp = list(prefix) + exp
    r = ctx.run(args + gen.opts_args(o) + list(extra_args), data, cwd=cwd, env=env)
    ab = harness.abnormal(r)
    if ab and not r.out:
        raise harness.Violation('redsea terminated abnormally: ' + ab, None, r)
    cnt = harness.check_output(r, exp, fields, skip)
    if ab or r.rc != 0:
        raise harness.Violation('redsea ended with status %s: %s' % (r.rc, ab or r.err[-300:]),
                                None, r)
    ctx.c.update(cnt)
    ctx.c['groups_sent'] += len(groups)
    ctx.c['mode ' + mode] += 1
    ctx.sig = harness.sig_of(data, repr(args))
    if ctx.sample is None and ctx.idx < 40:
        k = min(len(exp), 3)
        ctx.sample = {'args': r.args, 'input_head': data[:160].decode('latin1'),
                      'groups': len(groups), 'output_lines': len(exp),
                      'output_head': r.out[:400].decode('utf-8', 'replace')}
    return r, exp


def pick_mode(rng, hexw=.7, bits=.2):
    k = rng.random()
    return 'hex' if k < hexw else 'bits' if k < hexw + bits else 'tef'


def session(ctx, weights, n=1500, **kw):
    """a generated broadcast; now and then one that goes on for hours"""
    if ctx.idx % 600 == 60:
        n = ctx.rng.randrange(66000, 75000)
        kw['stations'] = 1
        kw['warm'] = True
        kw['losses'] = (.005, .05)
        ctx.c['long broadcasts'] += 1
    return gen.session(ctx.rng, n, weights, **kw)
