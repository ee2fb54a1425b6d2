"""Executable reference model of the RDS decoder, at the level of observable output.

Group-level semantics only: given a sequence of received groups (four blocks, each either
a 16-bit value or missing) the model predicts the JSON object that must be printed for
each group.  Written from the RDS standards as implemented by redsea, independently of
redsea's data structures; constant tables are a snapshot kept in data/tables.json.
"""
import json
import os
import datetime
import base64

import struct

HERE = os.path.dirname(os.path.abspath(__file__))
_T = json.load(open(os.path.join(HERE, '..', 'data', 'tables.json'), encoding='utf-8'))
PTY = _T['pty']
PTY_RBDS = _T['pty_rbds']
COUNTRY = {int(k): v for k, v in _T['country'].items()}
LANG = _T['language']
ODA = {int(k): v for k, v in _T['oda'].items()}
RTPLUS = _T['rtplus']
THREE = {int(k): v for k, v in _T['three'].items()}
LINKED = {int(k): v for k, v in _T['linked'].items()}
G0 = _T['g0']
G0B = [s.encode('utf-8') for s in G0]
DAB = {int(k): v for k, v in _T['dab'].items()}
EVENTS = {int(k): v for k, v in _T['events'].items()}   # desc, descQ, qtype, durtype, dir, urg, class
SUPPL = {int(k): v for k, v in _T['suppl'].items()}
DI = ["dynamic_pty", "compressed", "artificial_head", "stereo"]


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


# BLER: mean of the last 12 groups' erroneous-block fraction, in percent (single precision)
def bler_percent(quarters):
    v = f32(100.0 * f32(f32(quarters * 0.25) / 12.0))
    return int(v + 0.5)


class Opts:
    def __init__(self, rbds=False, partial=False, raw=False, bler=False, streams=False,
                 fec=True, channels=1, channel=0, loctables=None, keys=None, hexout=False):
        self.rbds = rbds
        self.partial = partial
        self.raw = raw
        self.bler = bler
        self.streams = streams
        self.fec = fec
        self.channels = channels
        self.channel = channel
        self.loctables = loctables or {}
        self.keys = keys or {}
        self.hexout = hexout


class Group:
    """blocks: list of 4 ints or None.  type: (number, 'A'|'B') or None, as far as known."""
    __slots__ = ('b', 'stream', 'errs', 'cprime', 'offsets', 'type')

    def __init__(self, blocks, stream=0, errs=None, cprime=False, offsets=False):
        self.b = blocks
        self.stream = stream
        self.errs = errs if errs is not None else sum(1 for x in blocks if x is None)
        self.cprime = cprime      # block 3 was received with offset word C'
        self.offsets = offsets    # offset words are known (bit-level input)
        self.type = None
        if stream:
            self.type = ('C', 'C')
        elif blocks[1] is not None:
            num = blocks[1] >> 12
            ver = 'B' if (blocks[1] >> 11) & 1 else 'A'
            # A version B group is only believed if block 3 carried offset word C'
            if ver == 'A' or not offsets or (cprime and blocks[2] is not None):
                self.type = (num, ver)

    def pi(self):
        if self.stream:
            return None
        if self.b[0] is not None:
            return self.b[0]
        if self.cprime and self.b[2] is not None:
            return self.b[2]
        return None

    def hex(self):
        return ' '.join('----' if x is None else '%04X' % x for x in self.b)


class PIFilter:
    def __init__(self):
        self.reset()

    def reset(self):
        self.confirmed = self.p1 = self.p2 = 0
        self.has = False

    def update(self, pi):
        changed = None
        if self.has and self.p1 == self.p2 == pi:
            if pi != self.confirmed:
                changed = pi
            self.confirmed = pi
        if self.has and pi != self.confirmed and self.p1 != self.confirmed and pi != self.p1:
            self.reset()
        else:
            self.has = True
        self.p2 = self.p1
        self.p1 = pi
        return changed


class Text:
    """A segmented text buffer."""

    def __init__(self, size, enc='basic'):
        self.data = bytearray(size)
        self.enc = enc
        self.prev = 0
        self.seq = 0
        self.last = b''

    def expected(self):
        if self.enc == 'ucs2':
            for i in range(0, len(self.data) - 1, 2):
                if self.data[i] == 0 and self.data[i + 1] == 0x0D:
                    return i + 2
            return len(self.data)
        i = self.data.find(0x0D)
        return len(self.data) if i < 0 else i + 1

    def complete(self):
        return self.seq >= self.expected()

    def raw(self):
        n = self.expected()
        if self.enc == 'ucs2':
            out = bytearray(self.data[:n])
            if out[-2:] == b'\x00\x0d':
                out[-1] = 0x20
            for i in range(min(self.seq, n), n):
                out[i] = 0x20
            return bytes(out)
        return bytes((self.data[i] if i < self.seq and self.data[i] not in (0, 0x0D) else 0x20)
                     for i in range(n))

    def str(self):
        """-> bytes (possibly invalid UTF-8), or None on conversion failure"""
        raw = self.raw()
        if self.enc == 'basic':
            return b''.join(G0B[c] for c in raw)
        if self.enc == 'utf8':
            return raw
        if len(raw) % 2:
            return None
        out = []
        for i in range(0, len(raw), 2):
            c = raw[i] << 8 | raw[i + 1]
            if 0xD800 <= c <= 0xDFFF:
                return None
            out.append(chr(c))
        return ''.join(out).encode('utf-8')

    def put(self, pos, *bs):
        for b in bs:
            self._set(pos, b)
            pos += 1

    def _set(self, pos, b):
        if pos >= len(self.data):
            return
        self.data[pos] = b
        if pos == 0 or (pos == self.prev + 1 and self.seq == pos):
            self.seq = pos + 1
        if self.complete():
            s = self.str()
            if s is None:
                self.clear()
                return
            self.last = s
        self.prev = pos

    def clear(self):
        self.seq = 0
        self.last = b''

    def resize(self, n):
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data += b'\x20' * (n - len(self.data))

    def has_terminator(self):
        return 0x0D in self.data

    def substring(self, start, length):
        """RT+ tag extraction: characters are UTF-8 sequences (a stray continuation byte counts
        with the character before it); the tagged range must lie within the message."""
        s = self.last
        at = [i for i in range(len(s)) if i == 0 or s[i] & 0xC0 != 0x80] + [len(s)]
        if start + length > len(at) - 1:
            return b''
        return s[at[start]:at[start + length]]


def rtrim(b):
    return b.rstrip(b' ')


class AFList:
    def __init__(self):
        self.expected = 0
        self.f = []
        self.lfmf = False
        self.unsure = False   # list contents depend on an unspecified decision

    def clear(self):
        self.expected = 0
        self.f = []

    def insert(self, code):
        lf, self.lfmf = self.lfmf, False
        khz = None
        if lf:
            if 1 <= code <= 15:
                khz = 144 + 9 * code
            elif 16 <= code <= 135:
                khz = 522 + 9 * (code - 15)
        elif 1 <= code <= 204:
            khz = 87500 + 100 * code
        if khz is not None and self.expected > 0:
            if len(self.f) < self.expected:
                self.f.append(khz)
            else:
                self.clear()
        elif code in (205, 224):
            pass
        elif 225 <= code <= 249:
            self.expected = code - 224
            self.f = []
            self.unsure = False
        elif code == 250:
            self.lfmf = True
        else:
            self.clear()

    def complete(self):
        return self.expected > 0 and len(self.f) == self.expected

    def method_b(self):
        if self.expected % 2 != 1 or len(self.f) < 3:
            return False
        t = self.f[0]
        for i in range(1, len(self.f), 2):
            nxt = self.f[i + 1] if i + 1 < len(self.f) else None
            if self.f[i] != t and nxt != t:
                # a list cut after the first half of a pair cannot be judged on that pair
                if nxt is None:
                    return None
                return False
        return True


def fm_khz(code):
    return 87500 + 100 * code if 1 <= code <= 204 else None


def pin_fields(pin):
    day, hour, minute = pin >> 11, (pin >> 6) & 31, pin & 63
    if day >= 1 and hour <= 24 and minute <= 59:
        return {'prog_item_number': pin,
                'prog_item_started': {'day': day, 'time': '%02d:%02d' % (hour, minute)}}
    return None


def country(cc, ecc):
    if ecc in COUNTRY and cc > 0:
        return COUNTRY[ecc][cc - 1]
    return '--'


def callsign(pi):
    if (pi & 0xFFF0) == 0xAFA0 and (pi & 15) < 10:
        pi = (pi << 12) & 0xFFFF
    elif (pi & 0xFF00) == 0xAF00:
        pi = (pi << 8) & 0xFFFF
    elif (pi & 0xF000) == 0xA000:
        pi = ((pi & 0x0F00) << 4) | (pi & 0xFF)
    if 0x9950 <= pi <= 0x9EFF:
        return THREE.get(pi, '')
    if pi >> 12 in (0xB, 0xD, 0xE):
        return LINKED.get(pi & 0xF0FF, '')
    if 0x1000 <= pi <= 0x994F:
        first, n = ('K', pi - 0x1000) if pi <= 0x54A7 else ('W', pi - 0x54A8)
        return first + chr(65 + n // 676 % 26) + chr(65 + n // 26 % 26) + chr(65 + n % 26)
    return ''


def clock_time(b2, b3, b4):
    """None = undecodable"""
    mjd = ((b2 & 3) << 15) | (b3 >> 1)
    hour = ((b3 & 1) << 4) | (b4 >> 12)
    minute = (b4 >> 6) & 63
    half = b4 & 31
    neg = bool(b4 & 0x20)
    if mjd < 15079 or hour > 23 or minute > 59 or half // 2 > 14:
        return None
    off = -half if neg else half
    t = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=mjd, hours=hour,
                                                             minutes=minute + 30 * off)
    s = t.strftime('%Y-%m-%dT%H:%M:00')
    if off == 0:
        return s + 'Z'
    return s + ('%s%02d:%02d' % ('-' if neg else '+', half // 2, 30 * (half % 2)))


# ---------------------------------------------------------------- TMC

FIELD_SIZE = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August",
          "September", "October", "November", "December"]


def tmc_scope(m):
    return [n for bit, n in ((8, 'inter-road'), (4, 'national'), (2, 'regional'), (1, 'urban'))
            if m & bit]


def tmc_time(v):
    if v <= 95:
        return '%02d:%02d' % (v // 4, 15 * (v % 4))
    if v <= 200:
        d, h = divmod(v - 96, 24)
        if d == 0:
            return 'at %02d:00' % h
        return 'after %d day%s at %02d:00' % (d, '' if d == 1 else 's', h)
    if v <= 231:
        return 'day %d of the month' % (v - 200)
    m, e = divmod(v - 232, 2)
    return ('end of ' if e else 'mid-') + MONTHS[m] if m < 12 else ''


def tmc_quantifier(qtype, v):
    if qtype <= 5 and v == 0:
        v = 32
    if qtype == 0:
        return str(v + (v - 28) if v > 28 else v)
    if qtype == 1:
        return str(v if v <= 4 else (v - 4) * 10 if v <= 14 else (v - 12) * 50)
    if qtype == 2:
        return 'less than %d metres' % (v * 10)
    if qtype == 3:
        return '%d %%' % (0 if v == 32 else v * 5)
    if qtype == 4:
        return 'of up to %d km/h' % (v * 5)
    if qtype == 5:
        if v <= 10:
            return 'of up to %d minutes' % (v * 5)
        if v <= 22:
            return 'of up to %d hours' % (v - 10)
        return 'of up to %d hours' % ((v - 20) * 6)
    if qtype == 6:
        return '%d degrees Celsius' % (v - 51)
    if qtype == 7:
        if v == 0:
            return None     # not defined by the standard: unspecified
        return '%02d:%02d' % divmod((v - 1) * 10, 60)
    if qtype in (8, 9):
        d = v if v <= 100 else 100 + (v - 100) * 5
        return '%d.%d %s' % (d // 10, d % 10, 'tonnes' if qtype == 8 else 'metres')
    if qtype == 10:
        return 'of up to %d millimetres' % v
    if qtype == 11:
        return '%d.%d MHz' % divmod((87500 + 100 * v) // 100, 10) if 1 <= v <= 204 else 'N/A'
    if qtype == 12:
        if 1 <= v <= 15:
            return '%d kHz' % (144 + 9 * v)
        if 16 <= v <= 135:
            return '%d kHz' % (522 + 9 * (v - 15))
        return 'N/A'


ANY = object()


class LocTable:
    """Built by the workload generator (not parsed back from disk)."""

    def __init__(self, ltn):
        self.ltn = ltn
        self.points = {}   # lcd -> dict(name, road_name, roa, neg, pos, lat, lon)
        self.roads = {}    # lcd -> (number, name)


class TMC:
    def __init__(self, o):
        self.o = o
        self.init = False
        self.enc = False
        self.has_encid = False
        self.ltn = 0
        self.encid = 0
        self.ltcc = 0
        self.ps = Text(8)
        self.parts = [None] * 5
        self.ci = 0
        self.menc = False    # encryption state when the pending message was opened

    def system(self, msg, j):
        v = msg >> 14
        if v == 0:
            self.init = True
            ltn = (msg >> 6) & 63
            self.enc = ltn == 0
            si = j.setdefault('tmc', {}).setdefault('system_info', {})
            si['is_encrypted'] = self.enc
            if not self.enc:
                self.ltn = ltn
                si['location_table'] = ltn
            si['is_on_alt_freqs'] = bool(msg & 32)
            if msg & 15:
                si['scope'] = tmc_scope(msg & 15)
        elif v == 1:
            self.ltcc = msg & 15
            si = {'service_id': (msg >> 6) & 63, 'gap': [3, 5, 8, 11][(msg >> 12) & 3]}
            if self.ltcc:
                si['ltcc'] = self.ltcc
            j.setdefault('tmc', {})['system_info'] = si
        elif v == 2:
            e = msg & 255
            if e:
                si = {'ltecc': e}
                if self.ltcc:
                    si['country'] = country(self.ltcc, e)
                j.setdefault('tmc', {})['system_info'] = si

    def user(self, x, y, z, j):
        if not self.init:
            return
        if x == 0:
            self.encid = y & 31
            self.ltn = z >> 10
            self.has_encid = True
            j.setdefault('tmc', {})['system_info'] = {
                'service_id': (y >> 5) & 63, 'encryption_id': self.encid,
                'location_table': self.ltn}
            return
        if x & 16:
            self.tuning(x & 15, y, z, j)
            return
        if self.enc and not self.has_encid:
            return
        if x & 8:
            self.emit(y, z, [], False, self.enc, j)
            return
        ci = x & 7
        if ci != self.ci:
            self.parts = [None] * 5
            self.menc = self.enc
        self.ci = ci
        last = False
        if y & 0x8000:
            k = 0
        elif y & 0x4000:
            k = 1
            last = (y >> 12) & 3 == 0
        else:
            k = 4 - ((y >> 12) & 3)
            last = k == 4
        self.parts[k] = (y, z)
        if last:
            parts, self.parts, self.ci = self.parts, [None] * 5, 0
            menc = self.menc
            if parts[0] is not None:
                self.menc = self.enc
                self.emit(parts[0][0], parts[0][1], self.fields(parts), True, menc, j)

    def fields(self, parts):
        if parts[1] is None:
            return []
        gsi = (parts[1][0] >> 12) & 3
        bits = ''
        for i in range(1, 5):
            if parts[i] is None:
                break
            if i == 1 or i >= 5 - gsi:
                bits += format(parts[i][0] & 0xFFF, '012b') + format(parts[i][1], '016b')
        out = []
        p = 0
        while len(bits) - p > 4:
            lab = int(bits[p:p + 4], 2)
            p += 4
            n = FIELD_SIZE[lab]
            if len(bits) - p < n:
                break
            val = int(bits[p:p + n], 2) if n else 0
            p += n
            if lab == 0 and val == 0:
                break
            out.append((lab, val))
        return out

    def emit(self, y, z, fields, multi, enc, j):
        events = [y & 0x7FF]
        e0 = EVENTS.get(events[0])
        urg = {'': 0, 'U': 1, 'X': 2}[e0[5]] if e0 else 0
        both = bool(e0 and e0[4] == 2)
        neg = bool(y & 0x4000)
        extent = (y >> 11) & 7
        quant, suppl, div = {}, [], []
        speed = start = until = None
        for lab, v in fields:
            if lab == 1:
                if v == 0:
                    urg = (urg + 1) % 3
                elif v == 1:
                    urg = (urg - 1) % 3
                elif v == 2:
                    both = not both
                elif v == 6:
                    extent += 8
                elif v == 7:
                    extent += 16
            elif lab == 3:
                speed = v * 5
            elif lab in (4, 5):
                e = EVENTS.get(events[-1])
                i = len(events) - 1
                if e and e[1] and i not in quant and (e[2] <= 5) == (lab == 4):
                    quant[i] = v
            elif lab == 6:
                suppl.append(v)
            elif lab == 7:
                start = v
            elif lab == 8:
                until = v
            elif lab == 9:
                events.append(v)
            elif lab == 10:
                div.append(v)
        m = {'event_codes': events}
        if suppl:
            m['supplementary_codes'] = suppl
        sent = []
        unspecified = False
        for i, c in enumerate(events):
            e = EVENTS.get(c)
            if e:
                d = e[0]
                if i in quant:
                    q = tmc_quantifier(e[2], quant[i])
                    if q is None:
                        unspecified = True
                        q = ''
                    d = e[1].replace('(Q)', q)
                sent.append(d[:1].upper() + d[1:])
        if e0:
            m['update_class'] = e0[6]
        for c in suppl:
            if c in SUPPL:
                d = SUPPL[c]
                sent.append(d[:1].upper() + d[1:])
        if sent:
            m['description'] = ANY if unspecified else '. '.join(sent) + '.'
        if div:
            m['diversion_route'] = div
        if speed is not None:
            m['speed_limit'] = '%d km/h' % speed
        loc = z
        if enc:
            m['encrypted_location'] = z
            # the key in force is the one announced last, if its parameters are known
            # (keys are applied only while the service as a whole is encrypted)
            if self.enc and self.encid in self.o.keys:
                xv, xs, nr = self.o.keys[self.encid]
                w = (z ^ ((xv << xs) & 0xFFFF)) & 0xFFFF
                nr &= 15
                loc = ((w << nr) | (w >> (16 - nr))) & 0xFFFF
            else:
                loc = None
        if loc is not None:
            m['location'] = loc
        m['direction'] = 'both' if both else 'single'
        m['extent'] = ('-' if neg else '+') + str(extent)
        if start is not None:
            m['starts'] = tmc_time(start)
        if until is not None:
            m['until'] = tmc_time(until)
        m['urgency'] = ['none', 'U', 'X'][urg]
        j.setdefault('tmc', {})['message'] = m
        if loc is not None:
            self.locate(m, loc, neg, extent)

    def locate(self, m, lcd, neg, extent):
        db = self.o.loctables.get(self.ltn)
        if db is None or self.ltn == 0 or lcd not in db.points:
            return
        pts = []
        cur, left = lcd, extent + 1
        neg = neg and extent != 0
        while left > 0 and cur in db.points:
            pts.append(db.points[cur])
            cur = db.points[cur]['neg' if neg else 'pos']
            left -= 1
        m['coordinates'] = [{'lat': p['lat'], 'lon': p['lon']} for p in pts]
        if len(pts) > 1 and pts[0]['name'] and pts[-1]['name']:
            m['span_from'] = pts[0]['name']
            m['span_to'] = pts[-1]['name']
        p = db.points[lcd]
        if p['roa'] in db.roads:
            num, name = db.roads[p['roa']]
            if num:
                m['road_number'] = num
            if name:
                m['road_name'] = name
            elif p['road_name']:
                m['road_name'] = p['road_name']

    def tuning(self, v, y, z, j):
        if v in (4, 5):
            self.ps.put(4 * (v - 4), y >> 8, y & 255, z >> 8, z & 255)
            if self.ps.complete():
                j.setdefault('tmc', {})['service_provider'] = self.ps.last
        elif v == 6:
            af = AFList()
            af.insert(y >> 8)
            af.insert(y & 255)
            on = {'pi': '0x%04X' % z}
            if af.f:
                on['frequencies_khz'] = af.f
            j.setdefault('tmc', {})['other_network'] = on
        elif v == 8:
            if y == 0 or z == 0 or y == z:
                on = {'pi': '0x%04X' % y}
            else:
                on = {'pi_codes': ['0x%04X' % y, '0x%04X' % z]}
            j.setdefault('tmc', {})['other_network'] = on
        elif v == 9:
            on = {'pi': '0x%04X' % z, 'service_id': y & 63, 'location_table': y >> 10}
            s = tmc_scope((y >> 6) & 15)
            if s:
                on['scope'] = s
            j.setdefault('tmc', {})['other_network'] = on


# ---------------------------------------------------------------- RFT

class RFT:
    def __init__(self):
        self.size = 0
        self.seg = {}
        self.old = {}      # bytes received earlier, for cleared segments
        self.toggle = 0

    def receive(self, toggle, addr, data):
        if toggle != self.toggle:
            self.seg = {}
        self.toggle = toggle
        self.seg[addr] = data

    def pop(self):
        if self.size == 0:
            return None
        n = (self.size + 4) // 5
        if len(self.seg) < n:
            return None
        for i in range(n):
            if i not in self.seg:
                return None
        raw = b''.join(self.seg[i] for i in range(n))[:self.size]
        self.seg = {}
        return base64.b64encode(raw).decode()


# ---------------------------------------------------------------- station

class Station:
    def __init__(self, o, pi):
        self.o = o
        self.pi = pi
        self.had_pi = False
        self.ps = Text(8)
        self.long_ps = Text(32, 'utf8')
        self.rt = Text(64)
        self.rt_ab = 0
        self.rt_prev_candidate = b''
        self.rt_plus = [False, False]
        self.ert = Text(128)
        self.ert_plus = [False, False]
        self.ptyn = Text(8)
        self.ptyn_ab = 0
        self.tdc = Text(128)
        self.oda = {}
        self.pipe_app = {}
        self.eon_ps = {}
        self.eon_af = {}
        self.af = AFList()
        self.tmc = TMC(o)
        self.rft = {}

    def pty(self, p):
        return (PTY_RBDS if self.o.rbds else PTY)[p]

    def decode(self, g, bler):
        """-> dict (the JSON object to be printed) or None (nothing printed)"""
        o = self.o
        j = {}
        if o.streams:
            j['stream'] = g.stream
        if not g.stream:
            if g.pi() is not None:
                self.had_pi = True
            elif self.had_pi:
                self.had_pi = False
            else:
                return None
            if all(x is None for x in g.b):
                return None
            j['pi'] = '0x%04X' % self.pi
            if o.rbds:
                c = callsign(self.pi)
                if c:
                    j['callsign_uncertain' if self.pi >> 12 == 1 else 'callsign'] = c
        if bler is not None:
            j['bler'] = bler
        if o.channels > 1:
            j['channel'] = o.channel
        if o.raw:
            j['raw_data'] = g.hex()
        b1, b2, b3, b4 = g.b
        if g.stream:
            j['group'] = 'C'
            self.type_c(g, j)
            return j
        if b2 is not None:
            if g.type:
                j['group'] = '%d%s' % g.type
            j['tp'] = bool(b2 & 0x400)
            j['prog_type'] = self.pty((b2 >> 5) & 31)
        if g.type:
            self.dispatch(g, j)
        return j

    def dispatch(self, g, j):
        n, v = g.type
        b1, b2, b3, b4 = g.b
        if n == 0:
            self.type0(g, j)
        elif n == 1:
            self.type1(g, j)
        elif n == 2:
            self.type2(g, j)
        elif n == 3 and v == 'A':
            self.type3a(g, j)
        elif n == 4 and v == 'A':
            if b3 is not None and b4 is not None:
                t = clock_time(b2, b3, b4)
                if t:
                    j['clock_time'] = t
        elif n == 10 and v == 'A':
            if b3 is None or b4 is None:
                return
            ab = (b2 >> 4) & 1
            if ab != self.ptyn_ab:
                self.ptyn_ab = ab
                self.ptyn.clear()
            self.ptyn.put(4 * (b2 & 1), b3 >> 8, b3 & 255, b4 >> 8, b4 & 255)
            if self.ptyn.complete():
                j['pty_name'] = self.ptyn.last
        elif n == 14:
            self.type14(g, j)
        elif n == 15 and v == 'B':
            j['di'] = {DI[b2 & 3]: bool(b2 & 4)}
            j['ta'] = bool(b2 & 16)
            j['is_music'] = bool(b2 & 8)
        elif g.type in self.oda:
            self.oda_group(g, j)
        elif n == 5:
            self.type5(g, j)
        elif n == 6:
            d = [b2 & 31]
            if v == 'A':
                if b3 is not None:
                    d.append(b3)
                    if b4 is not None:
                        d.append(b4)
            elif b4 is not None:
                d.append(b4)
            j['in_house_data'] = d
        elif n in (7, 9) and v == 'A':
            pass
        elif n == 8 and v == 'A':
            if b3 is not None and b4 is not None:
                self.tmc.user(b2 & 31, b3, b4, j)
        elif n == 15:
            p = 4 * (b2 & 7)
            if b3 is not None:
                self.long_ps.put(p, b3 >> 8, b3 & 255)
            if b4 is not None:
                self.long_ps.put(p + 2, b4 >> 8, b4 & 255)
            if (b3 is not None or b4 is not None) and self.long_ps.complete():
                j['long_ps'] = rtrim(self.long_ps.last)
            elif self.o.partial:
                j['partial_long_ps'] = self.long_ps.str()
        else:
            self.oda_group(g, j)

    def type0(self, g, j):
        b1, b2, b3, b4 = g.b
        seg = b2 & 3
        j['di'] = {DI[seg]: bool(b2 & 4)}
        j['ta'] = bool(b2 & 16)
        j['is_music'] = bool(b2 & 8)
        if b3 is None:
            mb = self.af.method_b()
            if mb is None:
                self.af.unsure = True
            elif mb:
                self.af.clear()
            return
        if g.type[1] == 'A':
            af = self.af
            af.insert(b3 >> 8)
            af.insert(b3 & 255)
            if af.unsure:
                j['__skip__'] = ('alt_frequencies_a', 'alt_frequencies_b',
                                 'partial_alt_frequencies')
                if af.complete():
                    af.clear()
            elif af.complete():
                if af.method_b():
                    t = af.f[0]
                    same, reg = [], []
                    for i in range(1, len(af.f), 2):
                        x, y = af.f[i], af.f[i + 1]
                        other = y if x == t else x
                        (same if x < y else reg).append(other)
                    if len(set(same)) + len(set(reg)) == len(af.f) // 2:
                        m = {'tuned_frequency': t}
                        if same:
                            m['same_programme'] = same
                        if reg:
                            m['regional_variants'] = reg
                        j['alt_frequencies_b'] = m
                else:
                    j['alt_frequencies_a'] = list(af.f)
                af.clear()
            elif self.o.partial and af.f:
                j['partial_alt_frequencies'] = list(af.f)
        if b4 is None:
            return
        self.ps.put(2 * seg, b4 >> 8, b4 & 255)
        if self.ps.complete():
            j['ps'] = self.ps.last
        elif self.o.partial:
            j['partial_ps'] = self.ps.str()

    def type1(self, g, j):
        b1, b2, b3, b4 = g.b
        if b3 is None or b4 is None:
            return
        if b4:
            f = pin_fields(b4)
            if f:
                j.update(f)
        if g.type[1] == 'A':
            j['has_linkage'] = bool(b3 & 0x8000)
            v = (b3 >> 12) & 7
            if v == 0:
                if b3 & 255:
                    j['country'] = country(self.pi >> 12, b3 & 255)
            elif v == 1:
                j['tmc_id'] = b3 & 0xFFF
            elif v == 3:
                c = b3 & 255
                j['language'] = LANG[c] if c < len(LANG) else ''
            elif v == 6:
                j['slc_broadcaster_bits'] = '0x%03X' % (b3 & 0x7FF)
            elif v == 7:
                j['ews'] = b3 & 0xFFF

    def type2(self, g, j):
        b1, b2, b3, b4 = g.b
        if b3 is None or b4 is None:
            return
        verA = g.type[1] == 'A'
        pos = (b2 & 15) * (4 if verA else 2)
        ab = (b2 >> 4) & 1
        ab_changed = ab != self.rt_ab
        self.rt_ab = ab
        rt = self.rt
        if self.o.partial:
            j['rt_ab'] = 'B' if ab else 'A'
        cand = None
        if pos == 0 and rt.seq > 1 and not rt.complete() and not rt.has_terminator():
            c = rtrim(rt.str())
            if c == self.rt_prev_candidate:
                cand = c
            self.rt_prev_candidate = c
        if ab_changed:
            rt.clear()
        if verA:
            rt.resize(64)
            rt.put(pos, b3 >> 8, b3 & 255)
            rt.put(pos + 2, b4 >> 8, b4 & 255)
        else:
            rt.resize(32)
            rt.put(pos, b4 >> 8, b4 & 255)
        if rt.complete():
            j['radiotext'] = rtrim(rt.last)
        elif cand is not None:
            j['radiotext'] = cand
        elif self.o.partial:
            s = rt.str()
            if rtrim(s):
                j['partial_radiotext'] = s

    def type3a(self, g, j):
        b1, b2, b3, b4 = g.b
        if b3 is None or b4 is None:
            return
        t = ((b2 >> 1) & 15, 'B' if b2 & 1 else 'A')
        self.oda[t] = b4
        m = {'oda_group': '%d%s' % t, 'app_name': ODA.get(b4, '(Unknown)')}
        j['open_data_app'] = m
        if b4 in (0x0093, 0x4BD7, 0x4BD8):
            pass
        elif b4 == 0x6552:
            self.ert.enc = 'utf8' if b3 & 1 else 'ucs2'
        elif b4 in (0xCD46, 0xCD47):
            self.tmc.system(b3, j)
        else:
            m['message'] = b3

    def type5(self, g, j):
        b1, b2, b3, b4 = g.b
        a = b2 & 31
        m = {'address': a}
        j['transparent_data'] = m
        if g.type[1] == 'A':
            if b3 is None or b4 is None:
                return
            d = [b3 >> 8, b3 & 255, b4 >> 8, b4 & 255]
            self.tdc.put(4 * a, *d)
            if self.tdc.complete():
                m['full_text'] = self.tdc.str()
                m['full_raw'] = ' '.join('%02X' % c for c in self.tdc.raw())
        else:
            if b4 is None:
                return
            d = [b4 >> 8, b4 & 255]
        m['raw'] = ' '.join('%02X' % c for c in d)
        t = Text(len(d))
        t.put(0, *d)
        m['as_text'] = t.str()

    def type14(self, g, j):
        b1, b2, b3, b4 = g.b
        if b4 is None:
            return
        m = {'pi': '0x%04X' % b4, 'tp': bool(b2 & 16)}
        j['other_network'] = m
        if g.type[1] == 'B':
            m['ta'] = bool(b2 & 8)
            return
        if b3 is None:
            return
        v = b2 & 15
        if v <= 3:
            t = self.eon_ps.setdefault(b4, Text(8))
            t.put(2 * v, b3 >> 8, b3 & 255)
            if t.complete():
                m['ps'] = t.last
        elif v == 4:
            af = self.eon_af.setdefault(b4, AFList())
            af.insert(b3 >> 8)
            af.insert(b3 & 255)
            if af.complete():
                m['alt_frequencies'] = list(af.f)
                af.clear()
        elif v <= 9:
            f = fm_khz(b3 & 255)
            if f:
                m['kilohertz'] = f
        elif v == 12:
            m['has_linkage'] = bool(b3 & 0x8000)
            if b3 & 0x8000 and b3 & 0xFFF:
                m['linkage_set'] = b3 & 0xFFF
        elif v == 13:
            m['prog_type'] = self.pty(b3 >> 11)
            m['ta'] = bool(b3 & 1)
        elif v == 14:
            f = pin_fields(b3) if b3 else None
            if f:
                m.update(f)
        elif v == 15:
            m['broadcaster_data'] = '%04X' % b3

    def oda_group(self, g, j):
        b1, b2, b3, b4 = g.b
        h = lambda x: '----' if x is None else '%04X' % x
        raw = '%02X %s %s' % (b2 & 31, h(b3), h(b4))
        if g.type not in self.oda:
            j['unknown_oda'] = {'raw_data': raw}
            return
        app = self.oda[g.type]
        if app == 0x0093:
            if not b2 & 16:
                m = {'mode': ["unspecified", "I", "II or III", "IV"][(b2 >> 2) & 3]}
                j['dab'] = m
                if b3 is not None:
                    f = 16 * (((b2 & 3) << 16) | b3)
                    m['kilohertz'] = f
                    if f in DAB:
                        m['channel'] = DAB[f]
                if b4 is not None:
                    m['ensemble_id'] = '0x%04X' % b4
        elif app == 0x4BD7:
            j['radiotext_plus'] = self.rtplus(g, self.rt, self.rt_plus)
        elif app == 0x4BD8:
            j['ert_plus'] = self.rtplus(g, self.ert, self.ert_plus)
        elif app == 0x6552:
            p = 4 * (b2 & 31)
            if b3 is not None:
                self.ert.put(p, b3 >> 8, b3 & 255)
            if b4 is not None:
                self.ert.put(p + 2, b4 >> 8, b4 & 255)
            if self.ert.complete():
                j['enhanced_radiotext'] = rtrim(self.ert.last)
        elif app in (0xCD46, 0xCD47):
            if b3 is not None and b4 is not None:
                self.tmc.user(b2 & 31, b3, b4, j)
        else:
            j['unknown_oda'] = {'app_id': '%04X' % app, 'app_name': ODA.get(app, '(Unknown)'),
                                'raw_data': raw}

    def rtplus(self, g, text, st):
        b1, b2, b3, b4 = g.b
        cur = [bool(b2 & 16), bool(b2 & 8)]
        if cur != st:
            text.clear()
            st[:] = cur
        m = {'item_running': cur[1], 'item_toggle': int(cur[0])}
        tags = []
        if b3 is not None:
            tags.append((((b2 & 7) << 3) | (b3 >> 13), (b3 >> 7) & 63, ((b3 >> 1) & 63) + 1))
            if b4 is not None:
                tags.append((((b3 & 1) << 5) | (b4 >> 11), (b4 >> 5) & 63, (b4 & 31) + 1))
        out = []
        for ct, start, ln in tags:
            t = text.substring(start, ln)
            if t and ct:
                out.append({'content-type': RTPLUS[ct], 'data': rtrim(t)})
        if out:
            m['tags'] = out
        return m

    def type_c(self, g, j):
        if any(x is None for x in g.b):
            return
        b1, b2, b3, b4 = g.b
        fid, fn = b1 >> 14, (b1 >> 8) & 63
        if fid == 0 and fn == 0:
            return
        if fid == 0 and fn & 0x30 == 0x20:
            pipe = fn & 15
            tog = (b1 >> 7) & 1
            addr = ((b1 & 0x7F) << 8) | (b2 >> 8)
            if pipe in self.pipe_app:
                j['open_data_app'] = {'app_name': ODA.get(self.pipe_app[pipe], '(Unknown)')}
            d = bytes([b2 & 255, b3 >> 8, b3 & 255, b4 >> 8, b4 & 255])
            m = {'pipe': pipe, 'toggle': tog, 'byte_address': 5 * addr, 'segment_data': list(d)}
            f = self.rft.setdefault(pipe, RFT())
            f.receive(tog, addr, d)
            c = f.pop()
            if c is not None:
                m['file_contents'] = c
            j['rft'] = {'data': m}
        elif fid == 1:
            j['open_data_app'] = {'channel': fn, 'app_data': [
                b1 & 255, b2 >> 8, b2 & 255, b3 >> 8, b3 & 255, b4 >> 8, b4 & 255]}
        elif fid == 2 and fn == 0:
            if (b1 >> 6) & 3:
                return
            ch = b1 & 63
            m = {'channel': ch, 'oda_aid': b2, 'app_name': ODA.get(b2, '(Unknown)')}
            j['open_data_app'] = m
            self.pipe_app[ch] = b2
            if ch < 16:
                v = b3 >> 12
                if v == 0:
                    size = ((b3 & 3) << 16) | b4
                    crc = bool(b3 & 0x800)
                    f = self.rft.setdefault(ch, RFT())
                    if size <= 163840:
                        f.size = size
                    j['rft'] = {'file_info': {'version': (b3 >> 8) & 7, 'id': (b3 >> 2) & 63,
                                              'size': size, 'has_crc': crc}}
                elif v == 1:
                    mode = (b3 >> 9) & 7
                    if mode == 0:
                        j['rft'] = {'crc_info': {'file_crc16': b4}}
                    elif mode != 6:
                        j['rft'] = {'crc_info': {'chunk_crc16': b4, 'chunk_address': b3 & 511,
                                                 'crc_mode': mode}}
                elif v >= 8:
                    m['non_file_oda_data'] = '%07X' % (((b3 & 0xFFF) << 16) | b4)
                else:
                    m['file_oda_data'] = '%07X' % (((b3 & 0xFFF) << 16) | b4)
            else:
                m['app_data'] = [b3 >> 8, b3 & 255, b4 >> 8, b4 & 255]
        else:
            j['open_data_app'] = {'data': [b2 >> 8, b2 & 255, b3 >> 8, b3 & 255,
                                           b4 >> 8, b4 & 255]}


DEBUG_LINE = {'debug': ANY}


class Unencodable(Exception):
    pass


def to_json(v):
    """bytes -> str, raising Unencodable for invalid UTF-8"""
    if isinstance(v, bytes):
        try:
            return v.decode('utf-8')
        except UnicodeDecodeError:
            raise Unencodable()
    if isinstance(v, dict):
        return {k: to_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [to_json(x) for x in v]
    return v


class Channel:
    """The decoder for one signal."""

    def __init__(self, o):
        self.o = o
        self.pif = PIFilter()
        self.station = None
        self.hist = [0] * 12
        self.hp = 0

    def push(self, g):
        """-> expected output line: dict, str (hex mode) or None"""
        bler = None
        if self.o.bler:
            self.hist[self.hp] = g.errs
            self.hp = (self.hp + 1) % 12
            bler = bler_percent(sum(self.hist))
        pi = g.pi()
        if pi is not None:
            ch = self.pif.update(pi)
            if ch is not None:
                self.station = Station(self.o, ch)
        if self.o.hexout:
            if all(x is None for x in g.b):
                return None
            return ('#S%d ' % g.stream if g.stream else '') + g.hex()
        if self.station is None:
            return None
        j = self.station.decode(g, bler)
        if j is None:
            return None
        try:
            return to_json(j)
        except Unencodable:
            return DEBUG_LINE
