"""Generates TMC location tables in exchange format, together with the model of their contents."""
import os
import struct
from .model import LocTable, f32

NAMES = ['Helsinki', 'Tampere', 'München', 'Älvsjö', 'Köln-Süd', "L'Aquila", 'A 9', 'Rue de la Paix',
         'Østerport', 'Ring 1', 'Ålesund', 'x', 'Straße des 17. Juni', 'Ñandú']


def coord(v):
    return f32(f32(float(v)) * f32(1e-5))


def generate(rng, directory, ltn, messy=True, big=False):
    """-> LocTable (with .info = expected info line).  big: as large as the ones of whole countries"""
    os.makedirs(directory)
    t = LocTable(ltn)
    enc, declared = rng.choice((('utf-8', 'UTF-8'), ('latin-1', 'ISO-8859-1'),
                                ('latin-1', 'ISO 8859-1'), ('iso8859-15', 'ISO 8859-15'),
                                ('latin-1', 'ISO_8859-1 (Latin1)'), ('utf-8', None),
                                ('utf-16-le', 'UTF-16LE') if False else ('cp1252', 'CP1252')))
    eol = rng.choice(('\r\n', '\n'))

    def write(name, title, rows, shuffle=True):
        # column order is free: columns are found by their titles
        cols = list(range(len(title)))
        if messy and rng.random() < .3:
            rng.shuffle(cols)
        lines = [';'.join(title[c] for c in cols)]
        for r in rows:
            lines.append(';'.join(r[c] for c in cols) if isinstance(r, (list, tuple)) else r)
        data = eol.join(lines)
        if rng.random() < .9:
            data += eol
        with open(os.path.join(directory, name), 'wb') as f:
            f.write(data.encode(enc))

    write('LOCATIONDATASETS.DAT', ['CID', 'TABCD', 'DCOMMENT'], [['58', str(ltn), 'x']])
    if declared is not None:
        with open(os.path.join(directory, 'README.DAT'), 'wb') as f:
            f.write((';'.join(['a', 'b', 'c', 'd', declared, 'e']) + eol).encode('ascii'))

    names = {}
    for i in rng.sample(range(1, 300000 if big else 400), 9000 if big else rng.randrange(3, 40)):
        names[i] = rng.choice(NAMES) + (' %d' % i if rng.random() < .7 else '')
    if big:
        for i in rng.sample(list(names), 200):
            names[i] = ' '.join(rng.choice(NAMES) for _ in range(rng.randrange(5, 60)))
    name_ids = list(names)
    rows = [['58', '1', str(i), n, ''] for i, n in names.items()]
    if messy:
        rows.insert(rng.randrange(len(rows) + 1), ['58', '1', 'notanumber', 'Bad', ''])
        rows.insert(rng.randrange(len(rows) + 1), 'short')
        rows.insert(rng.randrange(len(rows) + 1), '')
    write('NAMES.DAT', ['CID', 'LID', 'NID', 'NAME', 'NCOMMENT'], rows)

    def nid():
        return rng.choice(name_ids) if rng.random() < .8 else rng.choice((300401, 300999))

    nr, ns = (700, 900) if big else (8, 6)
    lcds = rng.sample(range(1, 64999), 14000 if big else 80)
    roads = {}
    rows = []
    for lcd in lcds[:nr]:
        num = rng.choice(('', 'A9', 'E75', 'Kehä I', 'B 2', '101'))
        rn = nid() if rng.random() < .7 else None
        roads[lcd] = (num, names.get(rn, ''))
        rows.append(['58', str(ltn), str(lcd), 'L', '1', '1', num, '' if rn is None else str(rn),
                     ''])
    if messy:
        rows.append(['58', str(ltn), '', 'L', '1', '1', 'X', '', ''])
    write('ROADS.DAT', ['CID', 'TABCD', 'LCD', 'CLASS', 'TCD', 'STCD', 'ROADNUMBER', 'RNID',
                        'N1ID'], rows)
    t.roads = roads

    segs = {}
    rows = []
    for lcd in lcds[nr:nr + ns]:
        segs[lcd] = rng.choice(lcds[:nr]) if rng.random() < .85 else 65000
        rows.append(['58', str(ltn), str(lcd), str(segs[lcd])])
    write('SEGMENTS.DAT', ['CID', 'TABCD', 'LCD', 'ROA_LCD'], rows)

    rows = []
    pts = lcds[nr + ns:] if big else lcds[14:14 + rng.randrange(5, 66)]
    seg_ids = list(segs)
    for lcd in pts:
        n1 = nid() if rng.random() < .85 else None
        rn = nid() if rng.random() < .4 else None
        x = rng.choice((rng.randrange(-18000000, 18000001), 2494000, 0))
        y = rng.choice((rng.randrange(-9000000, 9000001), 6017000, 0))
        xs = ('+%08d' % x if x >= 0 and rng.random() < .3 else str(x)) if rng.random() < .95 else ''
        ys = str(y) if rng.random() < .95 else ''
        k = rng.random()
        roa = seg = ''
        r = 0
        if k < .5:
            r = rng.choice(lcds[:nr])
            roa = str(r)
            if rng.random() < .2:
                seg = str(rng.choice(seg_ids))
        elif k < .8:
            s = rng.choice(seg_ids)
            seg = str(s)
            r = segs[s]
        elif k < .9:
            seg = '65535'
        t.points[lcd] = {'name': names.get(n1, ''), 'road_name': names.get(rn, ''), 'roa': r,
                         'neg': 0, 'pos': 0,
                         'lon': coord(x) if xs else 0.0, 'lat': coord(y) if ys else 0.0}
        rows.append(['58', str(ltn), str(lcd), 'P', '1', '1', '', '' if rn is None else str(rn),
                     '' if n1 is None else str(n1), '', seg, roa, '', '', xs, ys])
    if messy:
        rows.append(['58', str(ltn), '', 'P', '1', '1', '', '', '', '', '', '', '', '', '1', '1'])
    write('POINTS.DAT', ['CID', 'TABCD', 'LCD', 'CLASS', 'TCD', 'STCD', 'JUNCTIONNUMBER', 'RNID',
                         'N1ID', 'N2ID', 'SEG_LCD', 'ROA_LCD', 'INTERRUPTSROAD', 'DIVERSIONPOS',
                         'XCOORD', 'YCOORD'], rows)

    # neighbour links: chains, with ends, loops and dangling links
    rows = []
    order = list(pts)
    rng.shuffle(order)
    for i, lcd in enumerate(order):
        neg = order[i - 1] if i else rng.choice((0, order[-1]))
        pos = order[i + 1] if i + 1 < len(order) else rng.choice((0, order[0]))
        if rng.random() < .05:
            pos = rng.choice((0, 65535, lcd))
        if rng.random() < .05:
            neg = rng.choice((0, 65535, lcd))
        if rng.random() < .9:
            t.points[lcd]['neg'] = neg
            t.points[lcd]['pos'] = pos
            rows.append(['58', str(ltn), str(lcd), str(neg), str(pos)])
    if messy:
        rows.append(['58', str(ltn), '65534', '1', '1'])
    write('POFFSETS.DAT', ['CID', 'TABCD', 'LCD', 'NEG_OFF_LCD', 'POS_OFF_LCD'], rows)
    write('ADMINISTRATIVEAREA.DAT', ['CID', 'TABCD', 'LCD', 'NID'],
          [['58', str(ltn), '5', str(nid())]])
    t.info = {'location_table_info': {'ltn': ltn, 'num_points': len(t.points),
                                      'num_roads': len(roads), 'num_names': len(names)}}
    t.encoding = declared
    return t


def write_keys(rng, cwd):
    """service_key_table.csv -> {encid: (xorval, xorstart, nrot)}"""
    keys = {}
    lines = []
    for e in rng.sample(range(32), rng.randrange(1, 12)):
        k = (rng.randrange(256), rng.randrange(16), rng.randrange(16))
        keys[e] = k
        lines.append('%d,%d,%d,%d' % ((e,) + k))
    if rng.random() < .5:
        lines.insert(0, 'Encid,Xorval,Xorstart,Nrot')
    if rng.random() < .3:
        lines.append('7')
        lines.append('')
    with open(os.path.join(cwd, 'service_key_table.csv'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return keys
