"""Helpers of the demonstrations: drives ./_build/redsea in the current directory."""
import json
import os
import subprocess
import sys

EXE = os.path.join(os.getcwd(), '_build', 'redsea')
PI = 0x6204


def run(args, data=b'', cwd=None, env=None, timeout=120):
    if isinstance(data, str):
        data = data.encode('latin1')
    e = dict(os.environ, TZ='UTC', LC_ALL='C.UTF-8')
    e.update(env or {})
    return subprocess.run([EXE] + list(args), input=data, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, cwd=cwd, env=e, timeout=timeout)


def g(num, ver, low, b3, b4, pi=PI, tp=0, pty=0):
    return [pi, num << 12 | (0x800 if ver == 'B' else 0) | tp << 10 | pty << 5 | low, b3, b4]


def hexline(w):
    return ' '.join('----' if x is None else '%04X' % x for x in w)


LOCK = [g(15, 'A', 0, 0x2020, 0x2020)] * 0 + [[PI, None, None, None]] * 3


def hexin(groups):
    return '\n'.join(hexline(w) for w in groups) + '\n'


def hexrun(groups, args=()):
    """groups after the PI has been confirmed -> list of records"""
    r = run(['-h'] + list(args), hexin([[groups[0][0] or PI, None, None, None]] * 3 + list(groups)))
    if r.returncode:
        print('exit status', r.returncode, r.stderr[-300:])
        sys.exit(1)
    return [json.loads(l) for l in r.stdout.decode().splitlines()][1:]


POLY = 0x5B9
OFFSET = {'A': 0x0FC, 'B': 0x198, 'C': 0x168, "C'": 0x350, 'D': 0x1B4}


def crc10(v):
    for i in range(25, 9, -1):
        if v >> i & 1:
            v ^= POLY << (i - 10)
    return v & 0x3FF


def block(data, off):
    return data << 10 | (crc10(data << 10) ^ OFFSET[off])


def offs(w):
    return ('A', 'B', "C'" if w[1] >> 11 & 1 else 'C', 'D')


def bits(w, err=(0, 0, 0, 0)):
    return ''.join(format(block(x, o) ^ e, '026b') for x, o, e in zip(w, offs(w), err))


def bitrun(s, args=('-x',)):
    r = run(['-b'] + list(args), s)
    if r.returncode:
        print('exit status', r.returncode, r.stderr[-300:])
        sys.exit(1)
    return r.stdout.decode().splitlines()


def check(cond, what):
    if not cond:
        print('FAILED:', what)
        sys.exit(1)


# ---- multiplex signal -------------------------------------------------------------------------
def mpx(groups, fs=171000, level=.1, phase=0.3, pad=0.0, carrier=57000.0):
    """float samples of the RDS signal of the groups, with silence before and after"""
    import numpy as np
    G = 64
    n = 8 * G
    f = np.fft.rfftfreq(n, 1.0 / G)
    h = np.where(f <= 2, np.cos(np.pi * f / 4), 0.0)
    x = np.zeros(n)
    x[n // 2 - G // 4], x[n // 2 + G // 4] = 1, -1
    p = np.fft.irfft(np.fft.rfft(x) * h, n)
    p /= abs(p).max()
    b = np.array([int(c) for w in groups for c in bits(w)])
    a = 2.0 * (np.cumsum(b) % 2) - 1
    imp = np.zeros(len(a) * G)
    imp[G // 2::G] = a
    bb = np.convolve(imp, p)[n // 2:n // 2 + len(imp)]
    t = np.arange(int(fs * (len(a) / 1187.5 + pad))) / fs
    w = np.interp(t * 1187.5 * G, np.arange(len(bb)), bb, left=0, right=0)
    return level * w * np.sin(2 * np.pi * carrier * t + phase)


def s16(x):
    import numpy as np
    return np.clip(np.round(x * 32767), -32768, 32767).astype('<i2').tobytes()
