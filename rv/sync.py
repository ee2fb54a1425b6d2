"""Reference model of RDS block coding, synchronisation and error correction (bit level)."""
from .model import Group

POLY = 0x5B9      # g(x) = x^10+x^8+x^7+x^5+x^4+x^3+1
OFFSET = {'A': 0x0FC, 'B': 0x198, 'C': 0x168, "C'": 0x350, 'D': 0x1B4}
NUM = {'A': 0, 'B': 1, 'C': 2, "C'": 2, 'D': 3}
NEXT = {'A': 'B', 'B': 'C', 'C': 'D', "C'": 'D', 'D': 'A'}
MASK26 = (1 << 26) - 1


def crc10(v, nbits):
    """remainder of v(x) mod g(x)"""
    for i in range(nbits - 1, 9, -1):
        if v >> i & 1:
            v ^= POLY << (i - 10)
    return v & 0x3FF


_enc = {}


def checkword(data):
    c = _enc.get(data)
    if c is None:
        c = crc10(data << 10, 26)
        _enc[data] = c
    return c


def encode_block(data, off):
    """26-bit block"""
    return data << 10 | (checkword(data) ^ OFFSET[off])


def encode_group(blocks):
    """four 16-bit words -> 104-bit string; version B groups carry offset C'"""
    b = (blocks[1] >> 11) & 1
    return ''.join(format(encode_block(w, o), '026b')
                   for w, o in zip(blocks, ('A', 'B', "C'" if b else 'C', 'D')))


# A received 26-bit word r is a valid block with offset o iff r mod g == OFFSET[o]
_REM = [[0] * 8192, [0] * 8192]
for _i in range(8192):
    _REM[0][_i] = crc10(_i, 26)
    _REM[1][_i] = crc10(_i << 13, 26)
_BYREM = {v: k for k, v in OFFSET.items()}
_BURST = {}
for _e in range(26):
    for _pat in (1, 3):
        _v = (_pat << _e) & MASK26
        _BURST.setdefault(crc10(_v, 26), _v)


def rem(word):
    return _REM[0][word & 8191] ^ _REM[1][word >> 13]


class Sync:
    def __init__(self, fec=True):
        self.fec = fec
        self.reg = 0
        self.n = 0
        self.wait = 1
        self.locked = False
        self.pulses = []         # (offset, bit position), at most 4
        self.hist = []
        self.expected = 'A'
        self.blocks = [None] * 4
        self.errs = 4
        self.cprime = False
        self.stats = {'locks': 0, 'drops': 0, 'corrected': 0, 'rejected': 0, 'ok': 0}

    def _new(self):
        self.blocks = [None] * 4
        self.errs = 4
        self.cprime = False

    @staticmethod
    def _follows(b, a):
        d = b[1] - a[1]
        return d % 26 == 0 and d // 26 <= 6 and (NUM[a[0]] + d // 26) % 4 == NUM[b[0]]

    def push(self, bits):
        """bits: iterable of 0/1. yields Group objects"""
        for bit in bits:
            self.reg = (self.reg << 1 | bit) & MASK26
            self.n += 1
            self.wait -= 1
            if self.wait:
                continue
            g = self._word()
            self.wait = 26 if self.locked else 1
            if g is not None:
                yield g

    def _word(self):
        w = self.reg
        r = rem(w)
        off = _BYREM.get(r)
        if not self.locked:
            if off is None:
                return None
            self.pulses.append((off, self.n))
            del self.pulses[:-4]
            p = self.pulses
            ok = any(self._follows(p[-1], p[j]) and self._follows(p[j], p[i])
                     for i in range(len(p) - 2) for j in range(i + 1, len(p) - 1))
            if not ok:
                return None
            self.locked = True
            self.stats['locks'] += 1
            self.expected = off
            self._new()
        if self.expected == 'C' and off == "C'":
            self.expected = "C'"
        bad = off != self.expected
        self.hist.append(bad)
        del self.hist[:-50]
        if sum(self.hist) > 42:
            self.locked = False
            self.hist = []
            self.stats['drops'] += 1
            return None
        data = w >> 10
        good = not bad
        if bad and self.fec:
            e = _BURST.get(r ^ OFFSET[self.expected])
            if e is not None:
                data = (w ^ e) >> 10
                good = True
                self.stats['corrected'] += 1
        if good:
            k = NUM[self.expected]
            self.blocks[k] = data
            if k == 2:
                self.cprime = self.expected == "C'"
            if not bad:
                self.errs -= 1
                self.stats['ok'] += 1
        else:
            self.stats['rejected'] += 1
        self.expected = NEXT[self.expected]
        if self.expected == 'A':
            g = Group(self.blocks, 0, self.errs, self.cprime, True)
            self._new()
            return g
        return None
