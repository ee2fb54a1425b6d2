"""Workload generation: broadcast-like, hostile and lossy sequences of RDS groups, and their
delivery through redsea's input formats.  Every random choice comes from the rng passed in."""
from . import model
from .model import Group, Opts, Channel
from .sync import Sync, encode_group, encode_block, OFFSET, MASK26

WORDS = ('NEWS HITS Radio yle classic Jazz FM Live now playing the song of summer Beyonc\x82 by and '
         'traffic on A9 M\x99nchen S\x91d Bayern 3 Rock Antenne today at noon with').split(' ')


def txt(rng, n):
    """n bytes of text in the RDS basic character set"""
    k = rng.random()
    if k < 0.5:
        s = b''
        while len(s) < n:
            s += rng.choice(WORDS).encode('latin1') + b' '
        return s[:n]
    if k < 0.75:
        return bytes(rng.choice((rng.randrange(32, 127), rng.randrange(32, 256)))
                     for _ in range(n))
    if k < 0.9:
        return bytes(rng.choice((0x0D, 0, 0x20, rng.randrange(256), rng.randrange(32, 127)))
                     for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def utf8(rng, n, bad=0.1):
    """about n bytes of UTF-8, now and then broken"""
    s = b''
    pool = 'abcdefgh ijklm ÄÖåéñ €漢字 نص 🎵'
    while len(s) < n:
        s += rng.choice(pool).encode('utf-8')
    if rng.random() < bad:
        s = bytearray(s)
        s[rng.randrange(len(s))] = rng.randrange(256)
        s = bytes(s)
    return s


def b2(num, ver, low, tp=0, pty=0):
    return num << 12 | (0x800 if ver == 'B' else 0) | tp << 10 | pty << 5 | (low & 31)


# Every topic yields (num, ver, low5, b3, b4) forever; b3 may be 'PI' (repeat of the PI code).
# stream-1..3 topics yield ('C', stream, (b1, b2, b3, b4)).

def af_codes(rng):
    """endless AF codes"""
    while True:
        k = rng.random()
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 25, rng.randrange(1, 26)))
        if k < 0.35:           # method A
            fs = [rng.randrange(1, 205) for _ in range(n)]
            c = [224 + n] + fs
            if len(c) % 2:
                c.append(205)
            yield from c
        elif k < 0.65:         # method B
            m = rng.randrange(1, 13)
            t = rng.randrange(1, 205)
            c = [224 + 2 * m + 1, t]
            pool = [rng.randrange(1, 205) for _ in range(m)] if rng.random() < .2 else \
                rng.sample(range(1, 205), m)
            for f in pool:
                pair = [t, f]
                pair.sort(reverse=rng.random() < .4)
                c += pair
            if rng.random() < .1:
                c[rng.randrange(1, len(c))] = rng.randrange(256)
            if rng.random() < .15:
                # a pair cut in two: a frequency too few or too many, with the count to match or not
                if rng.random() < .6:
                    del c[rng.randrange(1, len(c))]
                else:
                    c.insert(rng.randrange(2, len(c) + 1), rng.choice((t, t, rng.randrange(1, 205))))
                if rng.random() < .8:
                    c[0] = 224 + min(25, len(c) - 1)
                if len(c) % 2:
                    c.append(205)
            yield from c
        elif k < 0.72:         # LF/MF inside
            c = [224 + n]
            while len(c) < n + 1 + n // 2:
                if rng.random() < .4:
                    c += [250, rng.choice((rng.randrange(1, 136), rng.randrange(256)))]
                else:
                    c.append(rng.randrange(1, 205))
            if len(c) % 2:
                c.append(205)
            yield from c
        elif k < 0.8:
            yield from (224, 205)
        elif k < 0.9:          # too long / too short
            c = [224 + n] + [rng.randrange(1, 205) for _ in range(rng.randrange(0, 30))]
            if len(c) % 2:
                c.append(205)
            yield from c
        else:
            for _ in range(rng.randrange(2, 12)):
                yield rng.choice((rng.randrange(256), rng.randrange(200, 256), 0, 205, 224, 250))


def ps(rng, afbias=1.0):
    codes = af_codes(rng)
    name = txt(rng, 8)
    while True:
        if rng.random() < .3:
            name = txt(rng, 8)
        ver = 'B' if rng.random() < .25 else 'A'
        order = list(range(4))
        k = rng.random()
        if k < .1:
            rng.shuffle(order)
        elif k < .2:
            order = [rng.randrange(4) for _ in range(4)]
        elif k < .3:
            order = order[rng.randrange(4):]
        elif k < .4:
            i = rng.randrange(4)
            order.insert(i, order[i])
        elif k < .5:
            # the name changes half way
            pass
        di = rng.getrandbits(4)
        for s in order:
            if .4 <= k < .5 and s == 2:
                name = txt(rng, 8)
            if rng.random() < .05:
                ver = 'AB'[rng.getrandbits(1)]
            low = s | ((di >> s) & 1) << 2 | (rng.getrandbits(2) if rng.random() < .2 else 1) << 3
            b4 = name[2 * s] << 8 | name[2 * s + 1]
            if ver == 'A':
                b3 = next(codes) << 8 | next(codes)
            else:
                b3 = 'PI' if rng.random() < .8 else rng.getrandbits(16)
            yield (0, ver, low, b3, b4)


def af(rng):
    codes = af_codes(rng)
    s = 0
    while True:
        yield (0, 'A', (s & 3) | rng.getrandbits(3) << 2, next(codes) << 8 | next(codes),
               rng.getrandbits(16))
        s += 1


def rt_message(rng, size):
    k = rng.random()
    n = rng.choice((1, 2, 3, 4, 5, 8, 12, size - 1, size, rng.randrange(1, size + 1)))
    t = txt(rng, n)
    if k < .5 and n < size:
        t = t.replace(b'\r', b' ') + b'\r'
    elif k < .7:
        t = t.ljust(size)[:size]
    return t


def rt(rng):
    ver, ab, msg = 'A', rng.getrandbits(1), None
    while True:
        k = rng.random()
        if msg is None or k < .4:
            if rng.random() < .1:
                ver = 'AB'[rng.getrandbits(1)]
            size = 64 if ver == 'A' else 32
            msg = rt_message(rng, size)
            if rng.random() < .6:
                ab ^= 1
        seg = 4 if ver == 'A' else 2
        nseg = (len(msg) + seg - 1) // seg
        pad = b' ' if rng.random() < .7 else bytes([rng.choice((0, 0x20, 0x0D, 0x55))])
        m = msg.ljust(nseg * seg, pad)
        order = list(range(nseg))
        k = rng.random()
        if k < .1:
            order = order[rng.randrange(nseg):]
        elif k < .15:
            rng.shuffle(order)
        elif k < .2:
            order = order[:rng.randrange(nseg) + 1]
        elif k < .25:
            i = rng.randrange(nseg)
            order.insert(i, order[i])
        for s in order:
            if ver == 'A':
                yield (2, 'A', ab << 4 | s, m[4 * s] << 8 | m[4 * s + 1],
                       m[4 * s + 2] << 8 | m[4 * s + 3])
            else:
                yield (2, 'B', ab << 4 | s, 'PI', m[2 * s] << 8 | m[2 * s + 1])


def rtplus_group(rng, tog, run, n):
    """b2 low5, b3, b4 for two tags on a text of about n characters"""
    def tag(maxlen):
        ct = rng.randrange(64) if rng.random() < .9 else 0
        st = rng.randrange(64) if rng.random() < .2 else rng.randrange(max(1, n))
        rest = max(1, n - st)
        ln = rng.choice((rng.randrange(1, rest + 1), rest, rest, min(64, rest + 1),
                         rng.randrange(1, 65)))
        return ct, st, min(maxlen, ln) - 1
    c1, s1, l1 = tag(64)
    c2, s2, l2 = tag(32)
    low = tog << 4 | run << 3 | c1 >> 3
    return (low, (c1 & 7) << 13 | s1 << 7 | l1 << 1 | c2 >> 5, (c2 & 31) << 11 | s2 << 5 | l2)


ODA_TYPES = [(5, 'A'), (5, 'B'), (6, 'A'), (6, 'B'), (7, 'A'), (7, 'B'), (8, 'A'), (8, 'B'),
             (9, 'A'), (9, 'B'), (10, 'B'), (11, 'A'), (11, 'B'), (12, 'A'), (12, 'B'),
             (13, 'A'), (13, 'B'), (3, 'B'), (4, 'B'), (15, 'A')]


def t5(t):
    return t[0] << 1 | (t[1] == 'B')


def rtplus(rng):
    """RT with tags; also with eRT"""
    text = rt(rng)
    ttype = rng.choice([(11, 'A'), (11, 'A'), (12, 'A'), (13, 'A'), (9, 'A')])
    tog, run = rng.getrandbits(1), rng.getrandbits(1)
    yield (3, 'A', t5(ttype), rng.getrandbits(13), 0x4BD7)
    while True:
        if rng.random() < .03:
            yield (3, 'A', t5(ttype), rng.getrandbits(13), 0x4BD7)
        if rng.random() < .2:
            # a clean full cycle of a message, followed by tags on it
            n = rng.choice((3, 7, 15, 20, 40, 63, 64, rng.randrange(1, 65)))
            m = txt(rng, n).replace(b'\r', b'.')
            if n < 64:
                m += b'\r'
            m = m.ljust((len(m) + 3) // 4 * 4)
            ab = rng.getrandbits(1)
            if rng.random() < .3:
                tog ^= 1
                low, b3, b4 = rtplus_group(rng, tog, run, n)
                yield (ttype[0], ttype[1], low, b3, b4)
            for _ in range(rng.choice((1, 1, 2))):
                for s in range(len(m) // 4):
                    yield (2, 'A', ab << 4 | s, m[4 * s] << 8 | m[4 * s + 1],
                           m[4 * s + 2] << 8 | m[4 * s + 3])
            for _ in range(rng.randrange(1, 5)):
                low, b3, b4 = rtplus_group(rng, tog, run, n)
                yield (ttype[0], ttype[1], low, b3, b4)
        else:
            for _ in range(rng.randrange(1, 12)):
                yield next(text)
            if rng.random() < .15:
                tog ^= 1
            if rng.random() < .15:
                run ^= 1
            low, b3, b4 = rtplus_group(rng, tog, run, 30)
            yield (ttype[0], ttype[1], low, b3, b4)


def ert(rng, bad=.1, whole=.9):
    etype, ptype = rng.sample([(11, 'A'), (12, 'A'), (13, 'A'), (8, 'A'), (5, 'A')], 2)
    enc = rng.choice(('utf8', 'utf8', 'ucs2', 'none'))
    tog, run = 0, 0
    while True:
        if enc != 'none':
            yield (3, 'A', t5(etype), (1 if enc == 'utf8' else 0) | rng.getrandbits(2) << 1 |
                   (rng.getrandbits(16) & 0xFFC0 if rng.random() < .1 else 0), 0x6552)
        else:
            # announced by an application id that is eRT only later
            yield (3, 'A', t5(etype), rng.getrandbits(1), rng.choice((0x6552, 0x6553)))
        if rng.random() < .7:
            yield (3, 'A', t5(ptype), 0, 0x4BD8)
        for _ in range(rng.randrange(1, 4)):
            n = rng.choice((2, 5, 10, 20, 40, 63, 64, 65, 80, 100, 126, 127, 128))
            if enc == 'utf8':
                m = utf8(rng, n, bad)[:128]
                if rng.random() < whole:
                    # whole characters only
                    m = m.decode('utf-8', 'ignore').encode()[:126]
                    m = m.decode('utf-8', 'ignore').encode()
                if len(m) < 128:
                    m += b'\r'
                m = m.ljust((len(m) + 3) // 4 * 4, rng.choice((b' ', b'\0', b'\r')))
            else:
                chars = [rng.choice((rng.randrange(32, 127), rng.randrange(0xA0, 0x250),
                                     rng.randrange(0x400, 0x500), rng.randrange(0x4E00, 0x9000),
                                     0x010D, 0x0D0A, 0x0D41))
                         for _ in range(max(1, n // 2))]
                if rng.random() < .04:
                    chars[rng.randrange(len(chars))] = rng.choice((0, 0xD800, 0xDFFF, 0xFFFF,
                                                                   0xFEFF))
                m = b''.join(bytes((c >> 8, c & 255)) for c in chars)[:128]
                if len(m) < 128:
                    m += b'\0\r'
                m = m.ljust((len(m) + 3) // 4 * 4, b'\0')
            order = list(range(len(m) // 4))
            k = rng.random()
            if k < .1:
                order = order[rng.randrange(len(order)):]
            elif k < .15:
                rng.shuffle(order)
            for s in order:
                yield (etype[0], etype[1], s, m[4 * s] << 8 | m[4 * s + 1],
                       m[4 * s + 2] << 8 | m[4 * s + 3])
                if rng.random() < .02:
                    yield next_random(rng)
            for _ in range(rng.randrange(3)):
                if rng.random() < .2:
                    tog ^= 1
                if rng.random() < .1:
                    run ^= 1
                low, b3, b4 = rtplus_group(rng, tog, run, min(64, n))
                yield (ptype[0], ptype[1], low, b3, b4)
        if rng.random() < .2:
            enc = rng.choice(('utf8', 'ucs2'))


def next_random(rng):
    return (rng.randrange(16), 'AB'[rng.random() < .4], rng.getrandbits(5), rng.getrandbits(16),
            rng.getrandbits(16))


def rnd(rng):
    while True:
        yield next_random(rng)


def ct(rng):
    while True:
        k = rng.random()
        if k < .7:
            mjd = rng.randrange(15079, 131072)
        elif k < .8:
            mjd = rng.choice((15079, 15080, 51543, 51544, 51545, 51602, 51603, 51604, 60675, 60676,
                              51664, 88127, 88128, 88129, 131071, 50448, 50449))
        elif k < .9:
            mjd = rng.randrange(59000, 62000)
        else:
            mjd = rng.randrange(0, 15079)
        hour = rng.randrange(24) if rng.random() < .93 else rng.randrange(32)
        minute = rng.randrange(60) if rng.random() < .93 else rng.randrange(64)
        half = rng.choice((0, 0, 1, 2, 4, 11, 19, 23, 28, 29, rng.randrange(32)))
        b3 = (mjd << 1 | hour >> 4) & 0xFFFF
        b4 = (hour & 15) << 12 | minute << 6 | rng.getrandbits(1) << 5 | half
        yield (4, 'A', mjd >> 15 | (rng.getrandbits(3) << 2 if rng.random() < .2 else 0), b3, b4)


def ptyn(rng):
    ab = 0
    while True:
        m = txt(rng, 8)
        if rng.random() < .5:
            ab ^= 1
        seq = [0, 1] * rng.randrange(1, 3)
        if rng.random() < .2:
            seq = [rng.getrandbits(1) for _ in range(3)]
        for s in seq:
            yield (10, 'A', ab << 4 | (rng.getrandbits(3) << 1 if rng.random() < .1 else 0) | s,
                   m[4 * s] << 8 | m[4 * s + 1], m[4 * s + 2] << 8 | m[4 * s + 3])


def pin(rng):
    if rng.random() < .1:
        return 0
    if rng.random() < .7:
        return rng.randrange(1, 32) << 11 | rng.randrange(24) << 6 | rng.randrange(60)
    return rng.choice((rng.getrandbits(16), rng.randrange(32) << 11 | rng.randrange(23, 27) << 6 |
                       rng.randrange(57, 64)))


def slc(rng):
    while True:
        ver = 'B' if rng.random() < .25 else 'A'
        v = rng.randrange(8)
        b3 = rng.getrandbits(1) << 15 | v << 12 | rng.getrandbits(12)
        if v == 0:
            b3 = b3 & 0xFF00 | rng.choice((0, 0xA0, 0xA1, 0xA2, 0xA3, 0xD0, 0xD1, 0xD2, 0xD3, 0xE0,
                                           0xE1, 0xE2, 0xE3, 0xE4, 0xE5, 0xF0, 0xF1, 0xF2, 0xF3,
                                           rng.randrange(256)))
        elif v == 3:
            b3 = b3 & 0xFF00 | (rng.randrange(0x80) if rng.random() < .8 else rng.randrange(256))
        yield (1, ver, rng.getrandbits(5), 'PI' if ver == 'B' else b3, pin(rng))


def eon(rng):
    nets = [rng.getrandbits(16) for _ in range(rng.choice((1, 2, 3, 4, 1, 2, 3, 4, 8, 20, 40, 80)))]
    names = {n: txt(rng, 8) for n in nets}
    afs = {n: af_codes(rng) for n in nets}
    while True:
        n = rng.choice(nets)
        tp = rng.getrandbits(1) << 4
        k = rng.random()
        if len(nets) > 4 and rng.random() < .1:
            # segment by segment through all the networks
            for s in range(4):
                for o in nets:
                    yield (14, 'A', tp | s, names[o][2 * s] << 8 | names[o][2 * s + 1], o)
        elif len(nets) > 4 and rng.random() < .1:
            for _ in range(rng.randrange(1, 8)):
                for o in nets:
                    yield (14, 'A', tp | 4, next(afs[o]) << 8 | next(afs[o]), o)
        elif k < .35:
            if rng.random() < .3:
                names[n] = txt(rng, 8)
            order = list(range(4))
            if rng.random() < .2:
                rng.shuffle(order)
            for s in order:
                if len(nets) > 1 and rng.random() < .2:
                    o = rng.choice(nets)
                    so = rng.randrange(4)
                    yield (14, 'A', tp | so, names[o][2 * so] << 8 | names[o][2 * so + 1], o)
                yield (14, 'A', tp | s, names[n][2 * s] << 8 | names[n][2 * s + 1], n)
        elif k < .6:
            for _ in range(rng.randrange(1, 16)):
                yield (14, 'A', tp | 4, next(afs[n]) << 8 | next(afs[n]), n)
                if rng.random() < .1:
                    o = rng.choice(nets)
                    yield (14, 'A', tp | 4, next(afs[o]) << 8 | next(afs[o]), o)
        elif k < .7:
            yield (14, 'A', tp | rng.randrange(5, 10), rng.getrandbits(16), n)
        elif k < .88:
            v = rng.randrange(10, 16)
            b3 = pin(rng) if v == 14 else rng.getrandbits(16) if rng.random() < .9 else \
                rng.choice((0, 0x8000, 0xFFFF))
            yield (14, 'A', tp | v, b3, n)
        else:
            yield (14, 'B', rng.getrandbits(5), 'PI', n)


def oda(rng):
    types = rng.sample(ODA_TYPES, 5)
    apps = list(model.ODA)
    while True:
        t = rng.choice(types)
        k = rng.random()
        if k < .15:
            if rng.random() < .1:
                t = (rng.randrange(16), 'AB'[rng.getrandbits(1)])
            aid = rng.choice((0x0093, 0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0xCD47,
                              rng.choice(apps), rng.choice(apps), rng.getrandbits(16)))
            yield (3, 'A', t5(t), rng.getrandbits(16), aid)
        elif k < .3:
            # a DAB ensemble entry
            f = rng.choice(list(model.DAB)) // 16 if rng.random() < .7 else rng.getrandbits(18)
            yield (t[0], t[1], rng.getrandbits(2) << 2 | f >> 16, f & 0xFFFF, rng.getrandbits(16))
        else:
            yield (t[0], t[1], rng.getrandbits(5), 'PI' if t[1] == 'B' and rng.random() < .5
                   else rng.getrandbits(16), rng.getrandbits(16))


def tdc(rng):
    while True:
        k = rng.random()
        if k < .35:
            n = rng.choice((4, 8, 20, 64, 127, 128))
            m = txt(rng, n).replace(b'\r', b' ')
            if n < 128 and rng.random() < .8:
                m += b'\r'
            m = m.ljust((len(m) + 3) // 4 * 4)
            m = m[:128]
            order = list(range(len(m) // 4))
            if rng.random() < .1:
                rng.shuffle(order)
            for s in order:
                yield (5, 'A', s, m[4 * s] << 8 | m[4 * s + 1], m[4 * s + 2] << 8 | m[4 * s + 3])
        elif k < .5:
            yield (5, 'B', rng.getrandbits(5), 'PI', rng.getrandbits(16))
        elif k < .6:
            yield (5, 'A', rng.getrandbits(5), rng.getrandbits(16), rng.getrandbits(16))
        else:
            yield (6, 'AB'[rng.getrandbits(1)], rng.getrandbits(5), rng.getrandbits(16),
                   rng.getrandbits(16))


def long_ps(rng, bad=.08, whole=.85):
    while True:
        n = rng.choice((1, 4, 8, 15, 16, 31, 32, rng.randrange(1, 33)))
        m = utf8(rng, n, bad)[:n]
        if rng.random() < whole:
            m = m.decode('utf-8', 'ignore').encode()
        if len(m) < 32 and rng.random() < .5:
            m += b'\r'
        elif rng.random() < .7:
            m = m.ljust(32)
        m = m.ljust((len(m) + 3) // 4 * 4, rng.choice((b' ', b'\0')))
        for _ in range(rng.choice((1, 1, 2, 3))):
            order = list(range(len(m) // 4))
            k = rng.random()
            if k < .1:
                order = order[rng.randrange(max(1, len(order))):]
            elif k < .15:
                rng.shuffle(order)
            for s in order:
                yield (15, 'A', (rng.getrandbits(2) << 3 if rng.random() < .1 else 0) | s,
                       m[4 * s] << 8 | m[4 * s + 1], m[4 * s + 2] << 8 | m[4 * s + 3])


def fast_basic(rng):
    while True:
        yield (15, 'B', rng.getrandbits(5), 'PI', rng.getrandbits(16))


EVENT_CODES = list(model.EVENTS)
QUANT_EVENTS = [c for c in EVENT_CODES if model.EVENTS[c][1]]
SUPPL_CODES = list(model.SUPPL)


def tmc_bits(rng, ev):
    """optional-message content as a bit string, biased to meaningful label/value pairs"""
    s = ''
    for _ in range(rng.choice((0, 1, 1, 2, 3, 4, 6))):
        lab = rng.choice((0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 10, 11, 12, 13, 14, 15))
        n = model.FIELD_SIZE[lab]
        v = rng.getrandbits(n) if n else 0
        if lab == 0 and rng.random() < .8:
            v = rng.randrange(1, 8)
        if lab == 9 and rng.random() < .8:
            v = rng.choice(EVENT_CODES if rng.random() < .4 else QUANT_EVENTS)
        if lab == 6 and rng.random() < .8:
            v = rng.choice(SUPPL_CODES)
        if lab in (4, 5) and rng.random() < .7:
            e = model.EVENTS.get(ev)
            # quantify with the right label
            lab = 4 if e and e[2] <= 5 else 5
            n = model.FIELD_SIZE[lab]
            v = rng.getrandbits(n)
            if rng.random() < .2:
                v = rng.choice((0, 1, (1 << n) - 1))
        if lab == 9:
            ev = v
        s += format(lab, '04b') + (format(v, '0%db' % n) if n else '')
    return s


def tmc_message(rng, x_high=0, lcds=None):
    """one complete message: a list of (x, y, z)"""
    ev = rng.choice(EVENT_CODES) if rng.random() < .5 else rng.choice(QUANT_EVENTS) \
        if rng.random() < .9 else rng.randrange(2048)
    dirn, ext = rng.getrandbits(1), rng.choice((0, 0, 1, 2, 3, 7, rng.randrange(8)))
    loc = rng.choice(lcds) if lcds and rng.random() < .9 else rng.getrandbits(16)
    if rng.random() < .35:
        dp = rng.randrange(8)
        return [(8 | dp, rng.getrandbits(1) << 15 | dirn << 14 | ext << 11 | ev, loc)]
    ci = rng.randrange(1, 7) if rng.random() < .9 else rng.choice((0, 7))
    bits = tmc_bits(rng, ev)
    n = max(1, min(4, (len(bits) + 27) // 28))
    if rng.random() < .2:
        n = rng.randrange(n, 5)
    bits = bits[:28 * n].ljust(28 * n, '0')
    out = [(ci, 0x8000 | dirn << 14 | ext << 11 | ev, loc)]
    for i in range(n):
        w = int(bits[28 * i:28 * i + 28], 2)
        gsi = n - 1 - i
        out.append((ci, (0x4000 if i == 0 else 0) | gsi << 12 | w >> 16, w & 0xFFFF))
    return out


def tmc_system(rng, ltn=None, enc=None):
    if ltn is None:
        ltn = rng.randrange(64)
    if enc:
        ltn = 0
    return ltn << 6 | rng.getrandbits(6)


def tmc(rng, ltns=None, lcds=None, keys=None):
    """full TMC service; the ODA carrying it is 8A, at times another group type"""
    aid = rng.choice((0xCD46, 0xCD46, 0xCD47))
    t = (8, 'A') if rng.random() < .85 else rng.choice([(11, 'A'), (7, 'A'), (12, 'A'), (5, 'A')])
    announce = rng.random() < .9
    enc = rng.random() < (.5 if keys is not None else .2)
    ltn = rng.choice(ltns) if ltns and rng.random() < .9 else rng.randrange(64)

    def u(x, y, z):
        return (t[0], t[1], x, y, z)

    if rng.random() < .1:      # before any system information
        for x in tmc_message(rng):
            yield u(*x)
    yield (3, 'A', t5((8, 'A')), tmc_system(rng, ltn, enc), aid)
    while True:
        k = rng.random()
        if k < .08:
            if rng.random() < .15:
                enc = not enc
            if rng.random() < .15 and ltns:
                ltn = rng.choice(ltns)
            yield (3, 'A', t5(t), tmc_system(rng, ltn, enc), aid)
        elif k < .12:
            yield (3, 'A', t5(t), 0x4000 | rng.getrandbits(14), aid)
        elif k < .15:
            yield (3, 'A', t5(t), rng.choice((0x8000, 0xC000)) | rng.getrandbits(14), aid)
        elif k < .22:
            if enc or rng.random() < .1:
                e = rng.choice(list(keys)) if keys and rng.random() < .8 else rng.randrange(32)
                yield u(0, rng.getrandbits(5) << 11 | rng.randrange(64) << 5 | e,
                        (rng.choice(ltns) if ltns else rng.randrange(64)) << 10 | rng.getrandbits(10))
        elif k < .3:
            v = rng.choice((4, 5, 4, 5, 6, 7, 8, 8, 9, rng.randrange(16)))
            if v in (4, 5):
                nm = txt(rng, 8)
                for v in (4, 5):
                    p = nm[4 * (v - 4):]
                    yield u(16 | v, p[0] << 8 | p[1], p[2] << 8 | p[3])
            else:
                y, z = rng.getrandbits(16), rng.getrandbits(16)
                q = rng.random()
                if q < .1:
                    y = 0
                elif q < .2:
                    z = 0
                elif q < .3:
                    z = y
                yield u(16 | v, y, z)
        elif k < .33:
            yield u(rng.getrandbits(5), rng.getrandbits(16), rng.getrandbits(16))
        else:
            m = tmc_message(rng, lcds=lcds)
            q = rng.random()
            if q < .08 and len(m) > 1:
                del m[rng.randrange(len(m))]
            elif q < .12 and len(m) > 1:
                rng.shuffle(m)
            elif q < .18 and len(m) > 1:
                # another message of the same or another index cuts in
                i = rng.randrange(1, len(m))
                m[i:i] = tmc_message(rng, lcds=lcds)[:rng.randrange(1, 3)]
            elif q < .24 and len(m) > 1:
                i = rng.randrange(1, len(m))
                m.insert(i, m[i - 1])
            rep = rng.choice((1, 1, 2))
            for _ in range(rep):
                for x in m:
                    yield u(*x)


def rft(rng):
    """RDS2 type C groups on streams 1..3"""
    jobs = []

    def start(pipe):
        size = rng.choice((1, 4, 5, 6, 9, 10, 11, 33, 100, rng.randrange(1, 300)))
        data = bytes(rng.getrandbits(8) for _ in range(size))
        return {'pipe': pipe, 'size': size, 'data': data, 'tog': rng.getrandbits(1),
                'aid': rng.choice(list(model.ODA)) if rng.random() < .8 else rng.getrandbits(16),
                'ver': rng.randrange(8), 'id': rng.randrange(64), 'crc': rng.getrandbits(1)}

    pipes = rng.sample(range(16), rng.randrange(1, 4))
    files = {p: start(p) for p in pipes}

    def info(f):
        return (0x8000 | f['pipe'], f['aid'],
                f['crc'] << 11 | f['ver'] << 8 | f['id'] << 2 | f['size'] >> 16,
                f['size'] & 0xFFFF)

    def seg(f, i):
        d = f['data'][5 * i:5 * i + 5].ljust(5, b'\0')
        return (0x2000 | f['pipe'] << 8 | f['tog'] << 7 | i >> 8, (i & 255) << 8 | d[0],
                d[1] << 8 | d[2], d[3] << 8 | d[4])

    while True:
        k = rng.random()
        p = rng.choice(pipes)
        f = files[p]
        st = rng.randrange(1, 4)
        if k < .55:
            # transmit a file, possibly interleaved with the other pipes
            n = (f['size'] + 4) // 5
            order = list(range(n))
            q = rng.random()
            if q < .25:
                rng.shuffle(order)
            elif q < .4:
                order = order + order
            elif q < .5 and n > 1:
                del order[rng.randrange(n)]
            if rng.random() < .85:
                yield ('C', st, info(f))
            for i in order:
                if rng.random() < .1:
                    yield ('C', rng.randrange(1, 4), info(f))
                if len(pipes) > 1 and rng.random() < .15:
                    o = files[rng.choice(pipes)]
                    yield ('C', rng.randrange(1, 4), seg(o, rng.randrange((o['size'] + 4) // 5)))
                yield ('C', rng.randrange(1, 4) if rng.random() < .3 else st, seg(f, i))
                if rng.random() < .02:
                    # a segment beyond the end of the file
                    yield ('C', st, seg(f, rng.randrange(n, 32768)))
            if rng.random() < .6:
                nf = start(p)
                if rng.random() < .8:
                    nf['tog'] = f['tog'] ^ 1
                if rng.random() < .3:
                    nf['size'] = f['size']
                    nf['data'] = bytes(rng.getrandbits(8) for _ in range(f['size']))
                files[p] = nf
        elif k < .65:
            mode = rng.randrange(8)
            yield ('C', st, (0x8000 | p, f['aid'], 0x1000 | mode << 9 | rng.randrange(512),
                             rng.getrandbits(16)))
        elif k < .72:
            yield ('C', st, (0x8000 | p, f['aid'], rng.randrange(2, 16) << 12 | rng.getrandbits(12),
                             rng.getrandbits(16)))
        elif k < .8:
            yield ('C', st, (0x8000 | rng.getrandbits(2) * (rng.random() < .3) << 6 |
                             rng.randrange(16, 64), rng.getrandbits(16), rng.getrandbits(16),
                             rng.getrandbits(16)))
        elif k < .88:
            yield ('C', st, (0x4000 | rng.getrandbits(14), rng.getrandbits(16), rng.getrandbits(16),
                             rng.getrandbits(16)))
        elif k < .97:
            yield ('C', st, (rng.choice((0, 0xC000, 0x8000, rng.getrandbits(16))) |
                             rng.getrandbits(14), rng.getrandbits(16), rng.getrandbits(16),
                             rng.getrandbits(16)))
        else:
            # file information that announces an impossible or extreme size
            size = rng.choice((0, 163840, 163841, 262143))
            yield ('C', st, (0x8000 | p, f['aid'], size >> 16, size & 0xFFFF))


def rft_big(rng):
    """one large file, start to end, then again with the other toggle"""
    size = rng.choice((163840, 163835, 163836, 20000, 65536, rng.randrange(1000, 163841)))
    pipe = rng.randrange(16)
    tog = rng.getrandbits(1)
    while True:
        data = bytes(rng.getrandbits(8) for _ in range(size))
        n = (size + 4) // 5
        yield ('C', 1, (0x8000 | pipe, 0xFF7F, size >> 16, size & 0xFFFF))
        order = list(range(n))
        if rng.random() < .5:
            rng.shuffle(order)
        for i in order:
            d = data[5 * i:5 * i + 5].ljust(5, b'\0')
            yield ('C', 1, (0x2000 | pipe << 8 | tog << 7 | i >> 8, (i & 255) << 8 | d[0],
                            d[1] << 8 | d[2], d[3] << 8 | d[4]))
        tog ^= 1


TOPICS = {'ps': ps, 'af': af, 'rt': rt, 'rtplus': rtplus, 'ert': ert, 'rnd': rnd, 'ct': ct,
          'ptyn': ptyn, 'slc': slc, 'eon': eon, 'oda': oda, 'tdc': tdc, 'long_ps': long_ps,
          'fast_basic': fast_basic, 'tmc': tmc, 'rft': rft}
ALL = {k: 1 for k in TOPICS}


def pick_pi(rng):
    k = rng.random()
    if k < .4:
        return rng.getrandbits(16)
    return rng.choice((0x0000, 0xFFFF, 0x0001, 0x6201, 0xD318, 0xC201, 0x1000, 0x54A8, 0x9950,
                       0xB205, 0xA540, 0xAF12, 0xAFA5, 0x22E1, 0x1234))


def programme(rng, n, weights=ALL, kw=None):
    """n groups of one station, as topic tuples, interleaving topics the way encoders do"""
    names = list(weights)
    w = [weights[k] for k in names]
    gens = {k: TOPICS[k](rng, **(kw or {}).get(k, {})) for k in names}
    out = []
    cur, left = None, 0
    mode = rng.random()
    while len(out) < n:
        if left <= 0:
            cur = rng.choices(names, w)[0]
            left = rng.choice((1, 1, 1, 2, 4, 16, 64) if mode < .7 else (20, 64, 200))
        out.append(next(gens[cur]))
        left -= 1
    return out


def realise(rng, prog, pi, tp=None, pty=None, loss=0.0):
    """topic tuples -> list of Group (hex-level), with random block loss"""
    out = []
    tp0 = rng.getrandbits(1)
    pty0 = rng.randrange(32)
    for t in prog:
        if rng.random() < .02:
            pty0 = rng.randrange(32)
        if rng.random() < .02:
            tp0 ^= 1
        if t[0] == 'C':
            st, b = t[1], list(t[2])
        else:
            num, ver, low, b3, b4 = t
            st = 0
            b = [pi, b2(num, ver, low, tp0, pty0), pi if b3 == 'PI' else b3, b4]
        if loss:
            for i in range(4):
                if rng.random() < loss:
                    b[i] = None
        out.append((st, b))
    return out


def session(rng, n_groups, weights=ALL, kw=None, losses=(0, 0, .02, .1, .3), stations=None,
            spurious=.01, warm=None):
    """several stations one after the other -> [(stream, blocks)]"""
    out = []
    ns = stations or rng.choice((1, 2, 3, 6))
    pis = [pick_pi(rng) for _ in range(rng.randrange(1, ns + 1))]
    for _ in range(ns):
        pi = rng.choice(pis)
        loss = rng.choice(losses)
        if warm is not False and rng.random() < .7:
            # a clean start, so that the PI is confirmed early
            for t in programme(rng, 4, {'rnd': 1}):
                out += realise(rng, [t], pi)
        g = realise(rng, programme(rng, n_groups // ns, weights, kw), pi, loss=loss)
        for st, b in g:
            if st == 0 and b[0] is not None and rng.random() < spurious:
                b[0] ^= 1 << rng.randrange(16)
        out += g
    return out


# ------------------------------------------------------------------ delivery

def to_hex(rng, seq, plain=False):
    """RDS Spy hex text with harmless variety -> bytes"""
    out = []
    for st, b in seq:
        ws = []
        for x in b:
            if x is None:
                ws.append('----' if plain or rng.random() < .8 else
                          rng.choice(('????', '12-4', '-FFF', 'XXXX', '000-', 'g123')))
            else:
                ws.append(('%04X' if plain or rng.random() < .9 else '%04x') % x)
        sep = ' ' if plain or rng.random() < .9 else rng.choice(('', '  '))
        l = sep.join(ws)
        if st:
            l = '#S%d ' % st + l
        if not plain:
            k = rng.random()
            if k < .05:
                l += ' @2024/01/02 12:34:56.78'
            elif k < .08:
                l += ' '
            elif k < .1:
                l += '\r'
            if rng.random() < .01:
                out.append(rng.choice(('', '% comment', '<recorder="x">', 'short', ' ')))
        out.append(l)
    end = '\n' if plain or rng.random() < .8 else ''
    return ('\n'.join(out) + (end if out else '')).encode()


def hex_groups(seq):
    return [Group(list(b), st) for st, b in seq]


def expect_groups(opts, groups):
    """-> expected output lines"""
    ch = Channel(opts)
    exp = []
    for g in groups:
        e = ch.push(g)
        if e is not None:
            exp.append(e)
    return exp, ch


UNCORRECTABLE = []


def bad_error(rng):
    """an error vector that makes a block undetectable as any block and not correctable"""
    from . import sync
    while True:
        e = rng.getrandbits(26)
        r = sync.rem(e)
        ok = True
        for o1 in OFFSET.values():
            for o2 in OFFSET.values():
                x = r ^ o1 ^ o2
                if x == 0 or x in sync._BURST:
                    ok = False
        if ok:
            return e


def to_bits(rng, seq, lead=None):
    """(stream 0 only) -> list of 26-bit-block bit string; missing blocks become damaged blocks"""
    out = []
    for st, b in seq:
        if st:
            continue
        w = [rng.getrandbits(16) if x is None else x for x in b]
        bits = encode_group(w)
        for i in range(4):
            blk = bits[26 * i:26 * i + 26]
            if b[i] is None:
                blk = format(int(blk, 2) ^ bad_error(rng), '026b')
            out.append(blk)
    return ''.join(out)


def sync_groups(bitstr, fec=True):
    s = Sync(fec)
    return list(s.push(map(int, bitstr))), s


def opts_args(o):
    a = []
    if o.rbds:
        a.append('--rbds')
    if o.partial:
        a.append('--show-partial')
    if o.raw:
        a.append('--show-raw')
    if o.bler:
        a.append('--bler')
    if o.streams:
        a.append('--streams')
    if not o.fec:
        a.append('--no-fec')
    if o.hexout:
        a += ['--output', 'hex']
    return a


def rand_opts(rng, streams=None, **force):
    o = Opts(rbds=rng.random() < .3, partial=rng.random() < .4, raw=rng.random() < .2,
             bler=rng.random() < .2)
    if streams is not None:
        o.streams = streams
    for k, v in force.items():
        setattr(o, k, v)
    return o
