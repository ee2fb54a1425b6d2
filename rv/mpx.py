"""FM multiplex modulator (numpy): RDS on 57 kHz (and the RDS2 upper subcarriers), pilot and audio."""
import os
import struct
import numpy as np
from . import sync

BITRATE = 1187.5
CARRIER = (57000.0, 66500.0, 71250.0, 76000.0)
GRID = 192                     # grid samples per bit of the baseband waveform


def _pulse():
    """impulse response of the standard's shaping filter, one biphase symbol, on the grid"""
    n = 8 * GRID
    f = np.fft.rfftfreq(n, 1.0 / GRID)          # in units of the bit rate
    h = np.where(f <= 2, np.cos(np.pi * f / 4), 0.0)
    x = np.zeros(n)
    x[n // 2 - GRID // 4] = 1
    x[n // 2 + GRID // 4] = -1
    y = np.fft.irfft(np.fft.rfft(x) * h, n)
    return y / np.max(np.abs(y))


PULSE = _pulse()


def bits_of(groups):
    """groups: list of 4-word lists -> str of bits"""
    return ''.join(sync.encode_group(g) for g in groups)


def baseband(bits):
    """differentially encoded biphase waveform on the grid; bit k is centred at (k + .5)"""
    d = np.frombuffer(bits.encode(), dtype=np.uint8) - 48
    lev = np.cumsum(d) % 2
    a = 2.0 * lev - 1
    n = len(a) * GRID
    y = np.zeros(n + len(PULSE))
    imp = np.zeros(n)
    imp[GRID // 2::GRID] = a
    # convolve by FFT
    L = n + len(PULSE)
    m = 1 << (L - 1).bit_length()
    y = np.fft.irfft(np.fft.rfft(imp, m) * np.fft.rfft(PULSE, m), m)
    off = len(PULSE) // 2
    return y[off:off + n]


class Signal:
    """description of one multiplex signal; render() yields float64 samples in full scale +-1"""

    def __init__(self, fs, seconds):
        self.fs = fs
        self.n = int(fs * seconds)
        self.parts = []

    def rds(self, bits, level, t0=0.0, phase=0.0, ppm_carrier=0.0, ppm_clock=0.0, stream=0,
            dhz=0.0):
        self.parts.append(('rds', bits, level, t0, phase, ppm_carrier, ppm_clock, stream, dhz))
        return self

    def audio(self, level, pilot, rng):
        self.parts.append(('audio', level, pilot, [(rng.uniform(50, 15000), rng.uniform(0, 6.28))
                                                   for _ in range(4)],
                           [(rng.uniform(50, 15000), rng.uniform(0, 6.28)) for _ in range(3)],
                           rng.uniform(0, 6.28)))
        return self

    def noise(self, level, seed):
        self.parts.append(('noise', level, seed))
        return self

    def render(self, start=0, count=None):
        if count is None:
            count = self.n - start
        t = (start + np.arange(count)) / float(self.fs)
        x = np.zeros(count)
        for p in self.parts:
            if p[0] == 'rds':
                _, bits, level, t0, ph, pc, pk, st, dhz = p
                bb = p_cache(bits)
                pos = (t - t0) * BITRATE * (1 + pk * 1e-6) * GRID
                w = np.interp(pos, np.arange(len(bb)), bb, left=0.0, right=0.0)
                x += level * w * np.sin(2 * np.pi * (CARRIER[st] * (1 + pc * 1e-6) + dhz) * t + ph)
            elif p[0] == 'audio':
                _, level, pilot, s, d, ph = p
                a = sum(np.sin(2 * np.pi * f * t + q) for f, q in s) / 4
                b = sum(np.sin(2 * np.pi * f * t + q) for f, q in d) / 3
                x += level * .5 * a
                x += level * .5 * b * np.sin(2 * np.pi * 38000 * t + 2 * ph)
                x += pilot * np.sin(2 * np.pi * 19000 * t + ph)
            else:
                g = np.random.default_rng(p[2])
                x += p[1] * g.standard_normal(count)
        return x


_cache = {}


def p_cache(bits):
    if bits not in _cache:
        if len(_cache) > 12:
            _cache.clear()
        _cache[bits] = baseband(bits)
    return _cache[bits]


def s16(x):
    return np.clip(np.round(x * 32767), -32768, 32767).astype('<i2')


def wav(samples, fs, channels=1, fmt='s16'):
    """RIFF file contents"""
    if fmt == 's16':
        d, tag, bits = s16(samples).tobytes(), 1, 16
    elif fmt == 's24':
        v = np.clip(np.round(samples * 8388607), -8388608, 8388607).astype('<i4')
        d = np.ascontiguousarray(v.view(np.uint8).reshape(-1, 4)[:, :3]).tobytes()
        tag, bits = 1, 24
    elif fmt == 's32':
        d = np.clip(np.round(samples * 2147483647.0), -2147483648, 2147483647).astype('<i4').tobytes()
        tag, bits = 1, 32
    elif fmt == 'u8':
        d = np.clip(np.round(samples * 127) + 128, 0, 255).astype(np.uint8).tobytes()
        tag, bits = 1, 8
    else:
        d, tag, bits = samples.astype('<f4').tobytes(), 3, 32
    al = channels * bits // 8
    pad = b'\0' if len(d) % 2 else b''
    h = b'RIFF' + struct.pack('<I', 36 + len(d) + len(pad)) + b'WAVEfmt ' + struct.pack(
        '<IHHIIHH', 16, tag, channels, int(fs), int(fs) * al, al, bits) + b'data' + struct.pack(
        '<I', len(d))
    return h + d + pad


def au(samples, fs, channels=1):
    d = s16(samples).astype('>i2').tobytes()
    return struct.pack('>4sIIIII', b'.snd', 24, len(d), 3, int(fs), channels) + d


def write_raw(sig, path, head=b'', fmt='s16'):
    """render in pieces (high sample rates: from a slower rendering, linearly interpolated)"""
    fs = sig.fs
    k = 1
    if fs > 3e6:
        k = int(np.ceil(fs / 2.4e6))
    with open(path, 'wb') as f:
        f.write(head)
        if k == 1:
            step = 1 << 20
            for i in range(0, sig.n, step):
                f.write(s16(sig.render(i, min(step, sig.n - i))).tobytes())
            return sig.n
        slow = Signal(fs / k, 0)
        slow.n = sig.n // k
        slow.parts = sig.parts
        step = 1 << 17
        total = 0
        w = np.arange(k, dtype=np.float32) / k
        for i in range(0, slow.n - 1, step):
            n = min(step, slow.n - 1 - i)
            x = slow.render(i, n + 1).astype(np.float32)
            y = x[:-1, None] + (x[1:] - x[:-1])[:, None] * w[None, :]
            b = s16(y.reshape(-1)).tobytes()
            total += len(b) // 2
            f.write(b)
        return total
