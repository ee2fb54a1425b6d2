"""Integer constants of the source, as a dictionary for the generators: values the code mentions are
worth sending, and most of all those it did not mention in the tree this was written for
(rv/literals.json).  Only the choice of inputs depends on them, never a verdict."""
import collections
import functools
import glob
import json
import os
import re
import sys

from . import build

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')
TOKEN = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)[uUlLzZ]*(?![\w.])|'(\\?.)'")


def scan(repo):
    """-> Counter of values, without the ones in lines of plain table data"""
    c = collections.Counter()
    for p in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.*'), recursive=True)):
        if os.path.basename(p) == 'events_data.cc' or not p.endswith(('.cc', '.hh', '.cpp', '.hpp', '.h')):
            continue
        try:
            s = open(p, encoding='utf-8', errors='replace').read()
        except OSError:
            continue
        s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|^\s*#[^\n]*', ' ', s, flags=re.S | re.M)
        for line in s.split('\n'):
            for m in TOKEN.finditer(line):
                if m.group(2):
                    v = ord(m.group(2)[-1])
                else:
                    try:
                        v = int(m.group(1).replace("'", ''), 0)
                    except ValueError:
                        v = int(m.group(1).replace("'", '').lstrip('0') or '0')
                while v:                       # longer ones in pieces of 16 bits
                    if v & 0xFFFF > 31:
                        c[v & 0xFFFF] += 1
                    v >>= 16
    return c


@functools.lru_cache(None)
def load(repo=None):
    """-> (values new in the code, all values in the code)"""
    try:
        base = collections.Counter({int(k): n for k, n in json.load(open(BASE)).items()})
        now = scan(repo or build.REPO)
    except (OSError, ValueError):
        return [], []
    new = set()
    for v, n in now.items():
        if n > base[v]:
            new |= {v, v - 1, min(v + 1, 65535)}
    if len(new) > 60:                 # rewritten: no hint
        new = set()
    return sorted(new), sorted(now)


if __name__ == '__main__':
    if sys.argv[1:] == ['write']:
        json.dump({str(k): n for k, n in sorted(scan(build.REPO).items())}, open(BASE, 'w'), indent=0)
    n, c = load()
    print(len(n), 'new', n[:50], len(c), 'in code', c)
