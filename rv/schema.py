"""Monitor for one line of decoder output: syntax, documented keys and value types."""
import json
import re

HEX_LINE = re.compile(r'(#S[123] )?([0-9A-F]{4}|----)( ([0-9A-F]{4}|----)){3}( .*)?')


class Bad(Exception):
    pass


def _no_dups(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Bad('duplicate key %r' % k)
        d[k] = v
    return d


def _const(x):
    raise Bad('not JSON: %s' % x)


def num(lo, hi):
    def f(v, p):
        if isinstance(v, bool) or not isinstance(v, int) or not lo <= v <= hi:
            raise Bad('%s: not an integer in %d..%d: %r' % (p, lo, hi, v))
    return f


def real(v, p):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise Bad('%s: not a number: %r' % (p, v))


def text(v, p):
    if not isinstance(v, str):
        raise Bad('%s: not a string: %r' % (p, v))


def boolean(v, p):
    if not isinstance(v, bool):
        raise Bad('%s: not a boolean: %r' % (p, v))


def pat(rx, none=False):
    c = re.compile(rx)

    def f(v, p):
        if not isinstance(v, str) or not c.fullmatch(v):
            raise Bad('%s: %r does not match %s' % (p, v, rx))
    return f


def arr(item, lo=0, hi=1 << 30):
    def f(v, p):
        if not isinstance(v, list) or not lo <= len(v) <= hi:
            raise Bad('%s: not an array of %d..%d: %r' % (p, lo, hi, v))
        for i, x in enumerate(v):
            item(x, '%s[%d]' % (p, i))
    return f


def obj(keys, need=(), null=False):
    def f(v, p):
        if v is None and null:
            return
        if not isinstance(v, dict):
            raise Bad('%s: not an object: %r' % (p, v))
        for k, x in v.items():
            if k not in keys:
                raise Bad('%s: undocumented key %r' % (p, k))
            keys[k](x, p + '.' + k)
        for k in need:
            if k not in v:
                raise Bad('%s: key %r missing' % (p, k))
    return f


PI = pat(r'0x[0-9A-F]{4}')
GT = pat(r'(1[0-5]|[0-9])[AB]?')
KHZ = num(0, 300000)
W16 = num(0, 65535)
DATA = arr(num(0, 65535))
PLUS = obj({'item_running': boolean, 'item_toggle': num(0, 1),
            'tags': arr(obj({'content-type': text, 'data': text}, ('content-type', 'data')), 1, 2)},
           null=True)
PIS = obj({'day': num(1, 31), 'time': pat(r'[0-2]\d:[0-5]\d')}, ('day', 'time'))

LINE = obj({
    'stream': num(0, 3), 'pi': PI, 'callsign': text, 'callsign_uncertain': text,
    'rx_time': text, 'bler': num(0, 100), 'channel': num(0, 1023),
    'raw_data': pat(r'([0-9A-F]{4}|----)( ([0-9A-F]{4}|----)){3}'),
    'group': pat(r'(1[0-5]|[0-9])[AB]|C|(1[0-5]|[0-9])'), 'tp': boolean, 'prog_type': text,
    'di': obj({k: boolean for k in ('dynamic_pty', 'compressed', 'artificial_head', 'stereo')}),
    'ta': boolean, 'is_music': boolean,
    'alt_frequencies_a': arr(KHZ, 1, 25),
    'alt_frequencies_b': obj({'tuned_frequency': KHZ, 'same_programme': arr(KHZ, 1, 25),
                              'regional_variants': arr(KHZ, 1, 25)}, ('tuned_frequency',)),
    'partial_alt_frequencies': arr(KHZ, 1, 25),
    'ps': text, 'partial_ps': text, 'debug': arr(text, 1),
    'prog_item_number': W16, 'prog_item_started': PIS,
    'has_linkage': boolean, 'country': text, 'tmc_id': num(0, 4095), 'language': text,
    'slc_broadcaster_bits': pat('0x[0-9A-F]{3}'), 'ews': num(0, 4095),
    'rt_ab': pat('[AB]'), 'radiotext': text, 'partial_radiotext': text,
    'open_data_app': obj({'oda_group': GT, 'app_name': text, 'message': W16, 'channel': num(0, 63),
                          'app_data': DATA, 'oda_aid': W16, 'non_file_oda_data': pat('[0-9A-F]{7}'),
                          'file_oda_data': pat('[0-9A-F]{7}'), 'data': DATA}),
    'clock_time': pat(r'\d{4}-\d\d-\d\dT\d\d:\d\d:00(Z|[+-]\d\d:\d\d)'),
    'transparent_data': obj({'address': num(0, 31), 'raw': pat('[0-9A-F]{2}( [0-9A-F]{2}){1,3}'),
                             'full_text': text, 'full_raw': pat('([0-9A-F]{2})( [0-9A-F]{2})*'),
                             'as_text': text}, ('address',)),
    'in_house_data': arr(W16, 1, 3), 'pty_name': text,
    'other_network': obj({'pi': PI, 'tp': boolean, 'ta': boolean, 'ps': text,
                          'alt_frequencies': arr(KHZ, 1, 25), 'kilohertz': KHZ,
                          'has_linkage': boolean, 'linkage_set': num(0, 4095), 'prog_type': text,
                          'prog_item_number': W16, 'prog_item_started': PIS,
                          'broadcaster_data': pat('[0-9A-F]{4}')}),
    'long_ps': text, 'partial_long_ps': text,
    'unknown_oda': obj({'app_id': pat('[0-9A-F]{4}'), 'app_name': text, 'raw_data': text},
                       ('raw_data',)),
    'radiotext_plus': PLUS, 'ert_plus': PLUS,
    'rft': obj({
        'data': obj({'pipe': num(0, 15), 'toggle': num(0, 1), 'byte_address':
                     num(0, 163840), 'segment_data': arr(num(0, 255), 5, 5),
                     'file_contents': pat('[A-Za-z0-9+/]*={0,2}')},
                    ('pipe', 'toggle', 'byte_address', 'segment_data')),
        'file_info': obj({'version': num(0, 7), 'id': num(0, 63), 'size': num(0, 262143),
                          'has_crc': boolean}, ('version', 'id', 'size', 'has_crc')),
        'crc_info': obj({'file_crc16': W16, 'chunk_crc16': W16, 'chunk_address': num(0, 511),
                         'crc_mode': num(0, 7)})}),
    'enhanced_radiotext': text,
    'dab': obj({'mode': text, 'kilohertz': num(0, 1 << 23), 'channel': text, 'ensemble_id': PI}),
    'tmc': obj({
        'system_info': obj({'is_encrypted': boolean, 'location_table': num(0, 63),
                            'is_on_alt_freqs': boolean, 'scope': arr(text, 1, 4),
                            'service_id': num(0, 63), 'gap': num(3, 11), 'ltcc': num(0, 15),
                            'ltecc': num(0, 255), 'country': text, 'encryption_id': num(0, 31)}),
        'service_provider': text,
        'other_network': obj({'pi': PI, 'frequencies_khz': arr(KHZ, 1, 2), 'pi_codes': arr(PI, 2, 2),
                              'service_id': num(0, 63), 'location_table': num(0, 63),
                              'scope': arr(text, 1, 4)}),
        'message': obj({'event_codes': arr(num(0, 2047), 1), 'supplementary_codes': arr(num(0, 255), 1),
                        'update_class': num(0, 63), 'description': text,
                        'diversion_route': arr(W16, 1), 'speed_limit': pat(r'\d+ km/h'),
                        'encrypted_location': W16, 'location': W16,
                        'direction': pat('single|both'), 'extent': pat('[+-][0-9]+'),
                        'starts': text, 'until': text, 'urgency': pat('none|U|X'),
                        'coordinates': arr(obj({'lat': real, 'lon': real}, ('lat', 'lon')), 1),
                        'span_from': text, 'span_to': text, 'road_number': text,
                        'road_name': text}, null=True)}, null=True),
})


def check_json(line):
    """-> parsed object; raises Bad"""
    try:
        o = json.loads(line, object_pairs_hook=_no_dups, parse_constant=_const)
    except ValueError as e:
        raise Bad('not a JSON document (%s): %r' % (e, line[:300]))
    if isinstance(o, dict) and set(o) == {'debug'} and isinstance(o['debug'], str):
        return o
    if isinstance(o, dict) and set(o) == {'location_table_info'}:
        return o
    LINE(o, '')
    if 'pi' not in o and o.get('group') != 'C':
        raise Bad('record without PI')
    return o


def check_stream(out, hexout=False):
    """out: bytes.  -> list of parsed objects (or hex lines); raises Bad"""
    if out and not out.endswith(b'\n'):
        raise Bad('last line is incomplete: %r' % out[-200:])
    try:
        t = out.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Bad('output is not UTF-8: %s' % e)
    res = []
    for i, l in enumerate(t.split('\n')[:-1]):
        try:
            if hexout and not l.startswith('{"location_table_info"'):
                if not HEX_LINE.fullmatch(l):
                    raise Bad('not a hex line: %r' % l[:200])
                res.append(l)
            else:
                res.append(check_json(l))
        except Bad as b:
            raise Bad('line %d: %s' % (i + 1, b))
    return res
