"""Reference parsers of redsea's text input formats (what a line means), for arbitrary lines."""
from .model import Group

HEX = set(b'0123456789abcdefABCDEF')


def split_lines(data):
    """getline semantics; -> list of lines"""
    l = data.split(b'\n')
    if l and l[-1] == b'':
        l.pop()
    return l


def hex_line(line):
    """-> Group or None (not a group line)"""
    if len(line) < 16:
        return None
    stream = 0
    if len(line) >= 20 and line[:4] in (b'#S1 ', b'#S2 ', b'#S3 '):
        stream = line[2] - 48
        line = line[4:]
    nib = bytes(c for c in line if c != 0x20)[:16]
    blocks = []
    for i in range(4):
        w = nib[4 * i:4 * i + 4]
        blocks.append(int(w, 16) if len(w) == 4 and all(c in HEX for c in w) else None)
    return Group(blocks, stream)


def hex_groups(data):
    return [g for g in map(hex_line, split_lines(data)) if g is not None]


def tef_groups(data):
    out = []
    b1 = None
    pending = False

    def blk(l, p):
        w = l[p:p + 4]
        return int(w, 16) if len(w) == 4 and all(c in HEX for c in w) else None

    for l in split_lines(data):
        if l[:1] == b'P':
            x = blk(l, 1)
            if x is not None:
                b1 = x
                pending = True
        elif l[:1] == b'R' and len(l) >= 15:
            w = [blk(l, 1), blk(l, 5), blk(l, 9)]
            e = l[13:15]
            blocks = [b1, None, None, None]
            if None not in w and all(c in HEX for c in e):
                err = int(e, 16)
                for k in range(3):
                    if err >> (4 - 2 * k) & 3 == 0:
                        blocks[1 + k] = w[k]
            out.append(Group(blocks))
            b1 = None
            pending = False
    if pending:
        out.append(Group([b1, None, None, None]))
    return out
