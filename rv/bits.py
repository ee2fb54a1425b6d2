"""Bit-level workloads: streams with noise, damage, slips and gaps, and their exact comparison
(hex output, so that the result does not depend on the PI filter)."""
from . import gen, harness, sync
from .sync import Sync


def rbits(rng, n):
    return format(rng.getrandbits(n), '0%db' % n) if n else ''


def words(rng, pi=None):
    w = [rng.getrandbits(16) for _ in range(4)]
    if pi is not None:
        w[0] = pi
    if rng.random() < .5:
        w[1] &= 0xF7FF
    if w[1] & 0x800 and rng.random() < .8:
        w[2] = w[0]
    return w


def flip(bits, e):
    return format(int(bits, 2) ^ e, '026b')


def decorate(rng, bits):
    """the same bits with other characters in between"""
    k = rng.random()
    if k < .5:
        return bits.encode()
    out = []
    junk = b' \n\r\t,;xX2345.-\x00\x80\xff' if k < .8 else b'\n'
    for i in range(0, len(bits), 61):
        out.append(bits[i:i + 61].encode())
        out.append(bytes(rng.choice(junk) for _ in range(rng.randrange(0, 4))))
    return b''.join(out)


def expect_hex(bits, fec):
    s = Sync(fec)
    out = []
    groups = []
    for g in s.push(map(int, bits)):
        groups.append(g)
        if any(x is not None for x in g.b):
            out.append(g.hex())
    return out, groups, s


def run_hex(ctx, bits, fec=True, sig=None):
    """-> (Sync state, groups); raises Violation"""
    exp, groups, s = expect_hex(bits, fec)
    data = decorate(ctx.rng, bits)
    args = ['-b' if ctx.rng.random() < .5 else '-ibits', '-x'] + ([] if fec else ['--no-fec'])
    r = ctx.run(args, data)
    ab = harness.abnormal(r)
    try:
        harness.compare(exp, r.out)
    except harness.Mismatch as m:
        raise harness.Violation('%s%s' % (m, ' (%s)' % ab if ab else ''), None, r)
    if ab or r.rc:
        raise harness.Violation('abnormal end: %s %s' % (r.rc, ab), None, r)
    for k, v in s.stats.items():
        ctx.c['sync ' + k] += v
    ctx.c['bits'] += len(bits)
    ctx.c['groups'] += len(groups)
    ctx.c['lines'] += len(exp)
    ctx.c['missing blocks'] += sum(x is None for g in groups for x in g.b)
    ctx.sig = harness.sig_of(data, repr(args))
    if ctx.sample is None and ctx.idx < 100:
        ctx.sample = {'args': r.args, 'input_head': data[:160].decode('latin1'), 'bits': len(bits),
                      'stats': dict(s.stats), 'output_head': r.out[:150].decode()}
    return s, groups
