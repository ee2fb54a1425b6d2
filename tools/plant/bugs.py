"""Planted bugs: written from the property statements and the code, not from the checks."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


G = 'src/groups.cc'
U = 'src/util.cc'
T = 'src/tmc/tmc.cc'
B = 'src/block_sync.cc'

bug('C01-af-even-list', 'C01',
    'an alternative frequency list of even length whose last entry equals the first (and whose '
    'other pairs contain the first)',
    'aborts on an assertion: an even-length list is taken for a method B list',
    [(U, 'if (num_expected_ % 2 != 1 || num_received_ < 3)', 'if (num_received_ < 3)')],
    '''
# 4 frequencies: t, t f, t
r = run(['-h'], hexin([[PI, None, None, None]] * 3 + [
    g(0, 'A', 0, (228 << 8) | 10, 0x4142), g(0, 'A', 1, (10 << 8) | 20, 0x4142),
    g(0, 'A', 2, (10 << 8) | 205, 0x4142)]))
check(r.returncode == 0, 'exit status %d' % r.returncode)
''')

bug('C01-freeform-label', 'C01',
    'a multi-group traffic message whose free-form part contains the reserved label 15',
    'uncaught std::out_of_range',
    [(T, '''constexpr std::array<std::uint32_t, 16> field_size{3, 3,  5,  5,  5,  8,  8, 8,
                                                     8, 11, 16, 16, 16, 16, 0, 0};''',
      '''constexpr std::array<std::uint32_t, 15> field_size{3, 3,  5,  5,  5,  8,  8, 8,
                                                     8, 11, 16, 16, 16, 16, 0};''')],
    '''
r = run(['-h'], hexin([[PI, None, None, None]] * 3 + [
    g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
    g(8, 'A', 1, 0x4000 | 0xF00, 0x0000)]))
check(r.returncode == 0, 'exit status %d' % r.returncode)
''')

bug('C03-six-blocks', 'C03',
    'only two valid blocks exactly six block lengths apart within the noise before lock',
    'the decoder does not lock by the documented rule and loses the groups that follow',
    [(B, 'sync_distance / kBlockLength <= 6', 'sync_distance / kBlockLength < 6')],
    '''
import random
rng = random.Random(5)
# block A, five damaged blocks, block C (6 later), then D: third pulse of the rhythm
ws = [g(1, 'A', 0, 0x1234, 0x5678, pi=0x1000 + i) for i in range(12)]
bl = [format(block(w[k], offs(w)[k]), '026b') for w in ws for k in range(4)]
bad = lambda b: format(int(b, 2) ^ 0b10010110010000111010110101, '026b')
seq = [bl[0]] + [bad(x) for x in bl[1:6]] + bl[6:]
out = bitrun(''.join(seq) + '0')
# without the pulse pair (A, C) the lock would come one block later, and the first group would
# lack its block 4
check(out and out[0] == '---- ---- ---- 5678', 'first line: %r' % out[:1])
''')

bug('C03-bitcount16', 'C03',
    'the signal appears just where the 16-bit bit counter wraps (65536 bits after the start)',
    'the rhythm is not recognised across the wrap',
    [('src/block_sync.hh', '  std::uint32_t bit_position{};', '  std::uint16_t bit_position{};')],
    '''
ws = [g(1, 'A', 0, 0x1234, 0x5678, pi=0x1000 + i) for i in range(3)]
n = 65536 - 26 - 13
out = bitrun('0' * n + ''.join(bits(w) for w in ws) + '0')
check(out == ['---- ---- 1234 5678'] + [hexline(w) for w in ws[1:]], repr(out))
''')

bug('C04-top-bit', 'C04',
    'a single-bit error in the first transmitted bit of a block',
    'the block is not repaired',
    [(B, 'for (std::uint32_t shift = 0; shift < kBlockLength; shift++) {',
      'for (std::uint32_t shift = 0; shift < kBlockLength - 1; shift++) {')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
out = bitrun(bits(w) * 3 + bits(w, (0, 1 << 25, 0, 0)) + bits(w) + '0')
check(all(l == hexline(w) for l in out[1:]), repr(out))
''')

bug('C05-stale-group', 'C05',
    'sync lost in the middle of a group of which some blocks were received, and reacquired in the '
    'middle of another group',
    'the first group after the resynchronisation contains blocks from before the loss',
    [(B, '''      current_group_            = Group();
''', '')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
v = g(1, 'A', 0, 0xAAAA, 0xBBBB, pi=0x7777)
bad = 0b10010110010000111010110101
s = bits(w) * 3
s += bits(w, (bad,) * 4) * 10            # 40 errors
s += bits(w, (0, bad, bad, bad))         # block 1 received, then the loss at the 43rd error
s += '0' * 7 + bits(v)[78:] + bits(v) * 3 + '0'
out = bitrun(s)
first = [l for l in out if 'AAAA' in l or 'BBBB' in l][0]
check('6204' not in first, repr(out))
''')

bug('C05-history-kept', 'C05',
    'a sync loss followed by reacquisition and further scattered errors',
    'the error history of the previous lock drops the new lock at once',
    [(B, '''      is_in_sync_ = false;
      block_error_sum50_.clear();
''', '''      is_in_sync_ = false;
''')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
bad = 0b10010110010000111010110101
s = bits(w) * 3 + bits(w, (bad,) * 4) * 11
s += '01' * 3 + bits(w) * 4 + bits(w, (0, bad, bad, 0)) + bits(w) * 3 + '0'
out = bitrun(s)
check(sum(l == hexline(w) for l in out) >= 8 and any('---- ----' in l for l in out), repr(out))
''')

bug('C06-empty-between', 'C06',
    'a completely lost group followed by a group lacking its PI',
    'the group is attributed to the station although the group before it had no PI',
    [(G, '''    // Allow 1 group with missed PI. For subsequent misses, don't process at all.
    if (group.hasPI()) {
      last_group_had_pi_ = true;
    } else if (last_group_had_pi_) {
      last_group_had_pi_ = false;
    } else {
      return;
    }

    if (group.isEmpty()) {
      return;
    }
''', '''    if (group.isEmpty()) {
      return;
    }

    // Allow 1 group with missed PI. For subsequent misses, don't process at all.
    if (group.hasPI()) {
      last_group_had_pi_ = true;
    } else if (last_group_had_pi_) {
      last_group_had_pi_ = false;
    } else {
      return;
    }
''')],
    '''
w = g(0, 'A', 1, 0xE0CD, 0x4142)
m = [None] + w[1:]
recs = hexrun([w, [None] * 4, m, w])
check(len(recs) == 2, '%d records' % len(recs))
''')

bug('C07-6b', 'C07',
    'an in-house group 6B with its block 4 lost',
    'prints 0 as in-house data that was never received',
    [(G, '''  } else {
    if (group.has(BLOCK4)) {
      json_["in_house_data"].push_back(getBits<16>(group.get(BLOCK4), 0));
    }
  }
}''', '''  } else {
    json_["in_house_data"].push_back(getBits<16>(group.get(BLOCK4), 0));
  }
}''')],
    '''
r = hexrun([g(6, 'B', 7, PI, None)])
check(r[0]['in_house_data'] == [7], repr(r))
''')

bug('C07-rtplus', 'C07',
    'an RT+ group whose block 4 was lost, while the RadioText begins with something',
    'the second tag is made up from a block never received',
    [(G, 'const std::size_t num_tags = group.has(BLOCK3) ? (group.has(BLOCK4) ? 2 : 1) : 0;',
      'const std::size_t num_tags = group.has(BLOCK3) ? 2 : 0;')],
    '''
t = b'HELLO WORLD\\r  '
t += b' ' * (16 - len(t))
rt = [g(2, 'A', i, t[4*i] << 8 | t[4*i+1], t[4*i+2] << 8 | t[4*i+3]) for i in range(4)]
pl = lambda b4: g(11, 'A', 8 | 0, 0x2000 | 6 << 7 | 4 << 1 | 1, b4)
r = hexrun([g(3, 'A', 22, 0, 0x4BD7), pl(0)] + rt + [pl(None)])
check(len(r[-1]['radiotext_plus'].get('tags', [])) == 1, repr(r[-1]))
''')

bug('C08-gap', 'C08',
    'the second segment of a PS name lost, the others received in order',
    'a name with stale characters in the gap is printed as complete',
    [('src/text/rdsstring.cc', 'if (pos == 0 || (pos == prev_pos_ + 1 && sequential_length_ == pos))',
      'if (pos == 0 || (pos == prev_pos_ + 1 && sequential_length_ != 0))')],
    '''
def ps(n, skip=()):
    return [g(0, 'A', i, 0xE0CD, ord(n[2*i]) << 8 | ord(n[2*i+1])) for i in range(4) if i not in skip]
r = hexrun(ps('RADIO  1') + ps('FOO BAR2', (1,)))
check(all('ps' not in q or q['ps'] in ('RADIO  1', 'FOO BAR2') for q in r), repr(r[-1]))
''')

bug('C08-ptyn-ab', 'C08',
    'a PTYN A/B flag change while only the first half of the new name is received',
    'the halves of two names are joined',
    [(G, '''  if (ptyname_.isABChanged(getBits<1>(group.get(BLOCK2), 4)))
    ptyname_.text.clear();
''', '''  if (ptyname_.isABChanged(getBits<1>(group.get(BLOCK2), 4)) && segment_address == 0)
    ptyname_.text.clear();
''')],
    '''
w = lambda ab, s, t: g(10, 'A', ab << 4 | s, ord(t[0]) << 8 | ord(t[1]), ord(t[2]) << 8 | ord(t[3]))
r = hexrun([w(0, 0, 'Rock'), w(1, 1, 'ball')])
check('pty_name' not in r[-1], repr(r))
''')

bug('C09-2b-ab', 'C09',
    'RadioText in type 2B groups, and an A/B change in the middle of the message',
    'the printed text mixes two messages',
    [(G, '''  if (is_ab_changed) {
    radiotext_.text.clear();
  }''', '''  if (is_ab_changed && group.getType().version == GroupType::Version::A) {
    radiotext_.text.clear();
  }''')],
    '''
a = 'FIRST MESSAGE' + ' ' * 19
b = 'OTHER TEXT HERE' + ' ' * 17
w = lambda ab, i, t: g(2, 'B', ab << 4 | i, PI, ord(t[2*i]) << 8 | ord(t[2*i+1]))
r = hexrun([w(0, i, a) for i in range(8)] + [w(1, i, b) for i in range(8, 16)])
check(all('radiotext' not in q for q in r), repr(r[-1]))
''')

bug('C09-repeat-length', 'C09',
    'two different unterminated messages of the same length in a row',
    'a text is printed although it has not been confirmed by an identical repeat',
    [(G, 'if (potentially_complete_message != radiotext_.previous_potentially_complete_message) {',
      '''if (potentially_complete_message.length() !=
        radiotext_.previous_potentially_complete_message.length()) {''')],
    '''
def rt(t):
    return [g(2, 'A', i, ord(t[4*i]) << 8 | ord(t[4*i+1]), ord(t[4*i+2]) << 8 | ord(t[4*i+3]))
            for i in range(len(t) // 4)]
r = hexrun(rt('ABCDEFGHIJKL') + rt('abcdefghijkl') + rt('01234567xyzw'))
check(all('radiotext' not in q for q in r), repr(r))
''')

bug('C10-running', 'C10',
    'the item running bit changes without a toggle change',
    'tags are cut out of a text that has been invalidated',
    [(G, 'if (item_toggle != rt.plus.toggle || item_running != rt.plus.item_running) {',
      'if (item_toggle != rt.plus.toggle) {')],
    '''
t = b'HELLO WORLD\\r  '
t += b' ' * (16 - len(t))
rt = [g(2, 'A', i, t[4*i] << 8 | t[4*i+1], t[4*i+2] << 8 | t[4*i+3]) for i in range(4)]
pl = lambda run: g(11, 'A', run << 3, 0x2000 | 6 << 7 | 4 << 1 | 1, 0)
r = hexrun([g(3, 'A', 22, 0, 0x4BD7), pl(1)] + rt + [pl(1), pl(0)])
check('tags' in r[-2]['radiotext_plus'] and 'tags' not in r[-1]['radiotext_plus'], repr(r[-2:]))
''')

bug('C10-length6', 'C10',
    'a first tag longer than 32 characters',
    'the tag is cut short',
    [(G, 'tags[0].length       = getBits<6>(group.get(BLOCK3), 1) + 1;',
      'tags[0].length       = getBits<5>(group.get(BLOCK3), 1) + 1;')],
    '''
t = b'0123456789' * 6 + b'abc\\r'
rt = [g(2, 'A', i, t[4*i] << 8 | t[4*i+1], t[4*i+2] << 8 | t[4*i+3]) for i in range(16)]
pl = lambda n: g(11, 'A', 8, 0x2000 | 5 << 7 | (n - 1) << 1, 0)
r = hexrun([g(3, 'A', 22, 0, 0x4BD7), pl(40)] + rt + [pl(40)])
check(r[-1]['radiotext_plus']['tags'][0]['data'] == t[5:45].decode(), repr(r[-1]))
''')

bug('C11-surplus', 'C11',
    'a list with one surplus frequency in the group that completes it',
    'a list that does not match its announced length is reported',
    [(U, '''    } else {
      // Error; no space left in the list.
      clear();
    }
''', '''    }
''')],
    '''
r = hexrun([g(0, 'A', 0, 226 << 8 | 10, 0x4142), g(0, 'A', 1, 20 << 8 | 30, 0x4142)])
check(all('alt_frequencies_a' not in q for q in r), repr(r))
''')

bug('C11-dup', 'C11',
    'a method B list in which a frequency occurs twice (groups of two transmissions mixed by loss)',
    'the mixed-up list is reported',
    [(U.replace('util', 'groups'), 'if (number_of_unique_afs == expected_number_of_afs) {',
      'if (number_of_unique_afs <= expected_number_of_afs) {')],
    '''
r = hexrun([g(0, 'A', 0, 229 << 8 | 10, 0x4142), g(0, 'A', 1, 10 << 8 | 20, 0x4142),
            g(0, 'A', 2, 10 << 8 | 20, 0x4142)])
check(all('alt_frequencies_b' not in q for q in r), repr(r))
''')

bug('C12-half-hour', 'C12',
    'a local offset of exactly half an hour',
    'the shifted time is printed as UTC (Z)',
    [(G, 'if (local_offset_hour == 0 && local_offset_min == 0) {', 'if (local_offset_hour == 0) {')],
    '''
def ct(mjd, h, m, off=0):
    return g(4, 'A', mjd >> 15, (mjd & 0x7FFF) << 1 | h >> 4, (h & 15) << 12 | m << 6 | off)
r = hexrun([ct(60000, 12, 0, 1), ct(60000, 12, 0, 33)])
check([q.get('clock_time') for q in r] == ['2023-02-25T12:30:00+00:30', '2023-02-25T11:30:00-00:30'],
      repr(r))
''')

bug('C13-di', 'C13',
    'a 15B group with DI address other than that of the previous group',
    'the decoder identification flag is read from the wrong bit in 15B groups',
    [(G, '''  const std::uint16_t segment_address = getBits<2>(group.get(BLOCK2), 0);
  const bool is_di                    = getBool(group.get(BLOCK2), 2);

  json_["di"][getDICodeString(segment_address)] = is_di;
  json_["ta"]                                   = getBool(group.get(block_num), 4);''',
      '''  const std::uint16_t segment_address = getBits<2>(group.get(BLOCK2), 0);
  const bool is_di                    = getBool(group.get(block_num), 3);

  json_["di"][getDICodeString(segment_address)] = is_di;
  json_["ta"]                                   = getBool(group.get(block_num), 4);''')],
    '''
w = g(15, 'B', 8 | 3, PI, 0)
w[3] = w[1]
r = hexrun([w])
check(list(r[0]['di'].values()) == [False] and r[0]['is_music'], repr(r))
''')

bug('C14-day31', 'C14',
    'an item number on the 31st of the month',
    'no item is reported',
    [(G, 'if (day >= 1 && hour <= 24 && minute <= 59) {',
      'if (day >= 1 && day <= 30 && hour <= 24 && minute <= 59) {')],
    '''
r = hexrun([g(1, 'A', 0, 0x00E1, 31 << 11 | 12 << 6 | 30)])
check(r[0].get('prog_item_started') == {'day': 31, 'time': '12:30'}, repr(r))
''')

bug('C14-w-boundary', 'C14',
    'RBDS: a PI at the K/W boundary',
    'the call sign is wrong for a single PI code',
    [('src/tables.cc', '''    callsign[0] = (pi <= 0x54A7 ? 'K' : 'W');
    pi -= (pi <= 0x54A7 ? 0x1000 : 0x54A8);''',
      '''    callsign[0] = (pi < 0x54A7 ? 'K' : 'W');
    pi -= (pi < 0x54A7 ? 0x1000 : 0x54A8);''')],
    '''
r = hexrun([g(1, 'A', 0, 0, 0, pi=0x54A7)], ['-u'])
check(r[0].get('callsign') == 'KZZZ', repr(r))
''')

bug('C15-clear-all', 'C15',
    'frequency lists of two other networks interleaved',
    'completing one network\'s list drops the partial lists of all others',
    [(G, '        eon_alt_freqs_[on_pi].clear();', '        eon_alt_freqs_.clear();')],
    '''
a, b = 0x1111, 0x2222
r = hexrun([g(14, 'A', 4, 227 << 8 | 10, a), g(14, 'A', 4, 225 << 8 | 20, b),
            g(14, 'A', 4, 30 << 8 | 40, a)])
check(r[-1]['other_network'].get('alt_frequencies') == [88500, 90500, 91500], repr(r))
''')

bug('C15-cap', 'C15',
    'more than 16 other networks sending their PS interleaved',
    'the accumulated names are thrown away before they are complete',
    [(G, '''      if (eon_ps_names_.find(on_pi) == eon_ps_names_.end())
        eon_ps_names_.emplace(on_pi, RDSString(8));
''', '''      if (eon_ps_names_.find(on_pi) == eon_ps_names_.end()) {
        // Bound the memory use
        if (eon_ps_names_.size() >= 16)
          eon_ps_names_.clear();
        eon_ps_names_.emplace(on_pi, RDSString(8));
      }
''')],
    '''
nets = [0x2000 + i for i in range(20)]
r = hexrun([g(14, 'A', v, 0x4142 + v, n) for v in range(4) for n in nets])
check(sum('ps' in q['other_network'] for q in r) == 20, 'names: %d' % sum('ps' in q['other_network'] for q in r))
''')

bug('C16-first-assignment', 'C16',
    'a group type reassigned to another application by a later 3A group',
    'the group goes on being interpreted by the first application',
    [(G, '  oda_app_for_group_[oda_group_type] = oda_app_id;',
      '  oda_app_for_group_.insert({oda_group_type, oda_app_id});')],
    '''
r = hexrun([g(3, 'A', 22, 0, 0x4BD7), g(3, 'A', 22, 0, 0x0093), g(11, 'A', 0, 0x1234, 0x5678)])
check('dab' in r[-1], repr(r[-1]))
''')

bug('C17-skip-missing', 'C17',
    'a traffic message of four or five groups with a lost group in the middle',
    'the fields of the later groups are read out of alignment',
    [(T, '''    if (!parts[i].is_received)
      break;
''', '''    if (!parts[i].is_received)
      continue;
''')],
    '''
# first, second (GSI 2), third lost, last
r = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
            g(8, 'A', 1, 0x6000, 0x0000 | 0x0000), g(8, 'A', 1, 0x0000 | 0x300, 0xF000)])
m = r[-1]['tmc']['message']
r2 = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
             g(8, 'A', 1, 0x6000 | 0x333, 0x3333), g(8, 'A', 1, 0x0000 | 0x333, 0x6666)])
m = r2[-1]['tmc']['message']
r3 = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
             g(8, 'A', 1, 0x6000 | 0x333, 0x3333), g(8, 'A', 1, 0x0000 | 0x6A5, 0x6A55)])
check(m == r3[-1]['tmc']['message'], 'data after a gap: %r %r' % (m, r3[-1]))
''')

bug('C17-urgency', 'C17',
    'a control code that increases the urgency of an extremely urgent event',
    'the urgency does not wrap as the standard prescribes',
    [(T, 'case EventUrgency::X:    urgency_ = EventUrgency::None; break;',
      'case EventUrgency::X:    break;')],
    '''
grp = [g(3, 'A', 16, 0x0056, 0xCD46)]
for code in range(1, 2048, 3):
    grp += [g(8, 'A', 8, code, 1),
            g(8, 'A', 1, 0x8000 | code, 0x1234), g(8, 'A', 1, 0x4000 | 0x100, 0x0000)]
r = hexrun(grp)
up = {'none': 'U', 'U': 'X', 'X': 'none'}
last = None
n = 0
for q in r:
    m = q.get('tmc', {}).get('message')
    if not m:
        continue
    if last and last['event_codes'] == m['event_codes']:
        check(m['urgency'] == up[last['urgency']], 'event %r: %s -> %s' % (
            m['event_codes'], last['urgency'], m['urgency']))
        n += 1
    last = m
check(n > 100, 'only %d messages' % n)
''')

TAB = '''
import shutil, tempfile
d = tempfile.mkdtemp(prefix='redsea-demo-')
def put(n, t):
    open(os.path.join(d, n), 'w').write(t)
put('README.DAT', 'a;b;c;d;UTF-8;x\\n')
put('LOCATIONDATASETS.DAT', 'CID;TABCD\\n25;17\\n')
put('NAMES.DAT', 'CID;LID;NID;NAME\\n25;1;1;Alpha\\n25;1;2;Beta\\n25;1;3;Highway\\n')
put('ROADS.DAT', 'CID;TABCD;LCD;ROADNUMBER;RNID\\n25;17;50;A9;3\\n')
put('SEGMENTS.DAT', 'CID;TABCD;LCD;ROA_LCD\\n25;17;60;50\\n')
put('POINTS.DAT', 'CID;TABCD;LCD;N1ID;RNID;ROA_LCD;SEG_LCD;XCOORD;YCOORD\\n'
    '25;17;100;1;;50;;2400000;6000000\\n25;17;101;2;;;60;2500000;6100000\\n')
put('POFFSETS.DAT', 'CID;TABCD;LCD;NEG_OFF_LCD;POS_OFF_LCD\\n25;17;100;101;0\\n25;17;101;0;100\\n')
put('ADMINISTRATIVEAREA.DAT', 'LCD;NID\\n')
'''

bug('C18-xor8', 'C18',
    'an encryption key with a start bit above 0 whose XOR value reaches into the upper byte',
    'the decrypted location is wrong',
    [(T, 'location_ = rotl16(encrypted_location_ ^ static_cast<std::uint16_t>(key.xorval << key.xorstart),',
      'location_ = rotl16(encrypted_location_ ^ static_cast<std::uint8_t>(key.xorval << key.xorstart),')],
    '''
import shutil, tempfile
d = tempfile.mkdtemp(prefix='redsea-demo-')
open(d + '/service_key_table.csv', 'w').write('5,200,4,3\\n')
data = hexin([[PI, None, None, None]] * 3 + [
    g(3, 'A', 16, 0x0001, 0xCD46), g(8, 'A', 0, 5 | 9 << 5, 17 << 10), g(8, 'A', 8, 101, 0x1234)])
r = run(['-h'], data, cwd=d)
shutil.rmtree(d)
m = json.loads(r.stdout.decode().splitlines()[-1])['tmc']['message']
v = 0x1234 ^ (200 << 4) & 0xFFFF
check(m.get('location') == ((v << 3 | v >> 13) & 0xFFFF), repr(m))
''')

RFT = '''
import base64
C = lambda s, w: '#S%d %s' % (s, hexline(w))
def announce(pipe, size, aid=0xFF7F):
    return [0x8000 | pipe, aid, 0x0000 | size >> 16 & 3, size & 0xFFFF]
def seg(pipe, tog, addr, d):
    d = d + bytes(5 - len(d))
    return [0x2000 | pipe << 8 | tog << 7 | addr >> 8, (addr & 255) << 8 | d[0], d[1] << 8 | d[2], d[3] << 8 | d[4]]
def files(groups, streams=1):
    r = run(['-h', '-s'], '\\n'.join([hexline([PI, None, None, None])] * 3 + [C(1, w) for w in groups]) + '\\n')
    out = [json.loads(l) for l in r.stdout.decode().splitlines()]
    return [base64.b64decode(q['rft']['data']['file_contents']) for q in out
            if 'file_contents' in q.get('rft', {}).get('data', {})]
'''

bug('C19-toggle', 'C19',
    'a toggle change first seen at a segment other than the first',
    'a file made of segments of two versions is delivered',
    [('src/rft.hh', '''    if (toggle != prev_toggle_) {
      clear();
    }''', '''    if (toggle != prev_toggle_ && segment_address == 0) {
      clear();
    }''')],
    RFT + '''
a, b = b'AAAAAaaaaa11111', b'BBBBBbbbbb22222'
S = lambda t, d, i: seg(0, t, i, d[5*i:5*i+5])
f = files([announce(0, 15), S(0, a, 0), S(0, a, 1), S(1, b, 2)])
check(f == [], repr(f))
''')

bug('C19-max-size', 'C19',
    'a file of exactly the maximum size, 163840 bytes',
    'the size announcement is ignored and the file never delivered',
    [('src/rft.hh', 'if (size <= kMaxSize)', 'if (size < kMaxSize)')],
    RFT + '''
import random
n = 163840
data = bytes(random.Random(1).getrandbits(8) for _ in range(n))
f = files([announce(3, n)] + [seg(3, 0, i, data[5*i:5*i+5]) for i in range(n // 5)])
check(f == [data], 'files: %d' % len(f))
''')

bug('C20-hex-stream', 'C20',
    'hex output of groups received on data stream 3',
    'the stream number is lost when hex output is decoded again',
    [('src/io/output.hh', 'if (group.getDataStream() > 0)',
      'if (group.getDataStream() > 0 && group.getDataStream() < 3)')],
    '''
l = '#S3 4012 3456 789A BCDE\\n'
r = run(['-h', '-x', '-s'], l)
check(r.stdout.decode() == l, repr(r.stdout))
''')

bug('C21-unprinted', 'C21',
    'completely lost groups between received ones',
    'groups that produced no output are not counted',
    [('src/channel.cc', '  if (options_.bler) {\n', '  if (options_.bler && !group.isEmpty()) {\n')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
r = hexrun([w] * 6 + [[None] * 4] * 6 + [w], ['-E'])
check(r[-1]['bler'] == 50, repr(r[-1]))
''')

bug('C22-reset-frequency', 'C22',
    'no signal for more than ten seconds, then the station comes back',
    'after the reset the oscillator stands still and the station is never received again',
    [('src/dsp/liquid_wrappers.cc', '''void NCO::reset() {
  nco_crcf_reset(object_);
  nco_crcf_set_frequency(object_, initial_frequency_);
}''', '''void NCO::reset() {
  nco_crcf_reset(object_);
}''')],
    '''
import numpy as np
ws = [g(1, 'A', 0, 0x1234, i) for i in range(60)]
x = mpx(ws)
z = np.random.default_rng(1).standard_normal(171000 * 20) * .02
out = run(['-r', '171000', '-x'], s16(np.concatenate([x, z, mpx(ws * 4)]))).stdout.decode().split('\\n')
check(sum(l.startswith('6204') for l in out) > 150, '%d lines' % len(out))
''')

bug('C22-polarity', 'C22',
    'the biphase clock slips by half a bit after the decoder has locked (a short pause)',
    'the clock polarity is never changed back',
    [('src/dsp/subcarrier.cc', '''    else if (b > a)
      clock_polarity_ = 1;
''', '''    else if (b > 2.f * a)
      clock_polarity_ = 1;
''')],
    '''
import numpy as np
ws = [g(1, 'A', 0, 0x1234, i) for i in range(80)]
ok = 0
for k in range(6):
    x = np.concatenate([np.zeros(k * 29), mpx(ws, phase=k)])
    out = run(['-r', '171000', '-x'], s16(x)).stdout.decode().split('\\n')
    n = sum(l.startswith('6204') for l in out)
    check(n > 40, 'phase %d: %d lines' % (k, n))
''')

bug('C23-chunk', 'C23',
    'a number of channels that does not divide the chunk size (3, 5, 6 ...)',
    'the channels are mixed up after the first chunk',
    [('src/io/input.cc', 'chunk_size_ = static_cast<sf_count_t>((kInputChunkSize / num_channels_) * num_channels_);',
      'chunk_size_ = static_cast<sf_count_t>(kInputChunkSize);')],
    '''
import numpy as np
ws = [g(1, 'A', 0, 0x1234, i) for i in range(60)]
x = mpx(ws)
y = np.stack([np.zeros_like(x), x, np.zeros_like(x)], 1).ravel()
out = [json.loads(l) for l in run(['-r', '171000', '-c', '3'], s16(y)).stdout.decode().splitlines()]
check(len(out) > 20 and all(q['channel'] == 1 for q in out), '%d records' % len(out))
''')

bug('C23-reset-other', 'C23',
    'one of two channels without RDS for more than ten seconds',
    'the other channel\'s demodulator is reset again and again',
    [('src/redsea.cc', '          subcarriers[ch]->reset();', '          subcarriers[0]->reset();')],
    '''
import numpy as np
ws = [g(1, 'A', 0, 0x1234, i) for i in range(260)]
x = mpx(ws)
n = np.random.default_rng(1).standard_normal(len(x)) * .02
y = np.stack([x, n], 1).ravel()
f = lambda o: [json.loads(l) for l in o.decode().splitlines()]
a = f(run(['-r', '171000', '-R'], s16(x)).stdout)
b = [q for q in f(run(['-r', '171000', '-c', '2', '-R'], s16(y)).stdout) if q['channel'] == 0]
check([q['raw_data'] for q in a] == [q['raw_data'] for q in b], '%d / %d' % (len(a), len(b)))
''')

bug('C24-no-flush', 'C24',
    'bit (or sample) input, output to a pipe, watched while the input is still open',
    'records are held back in a buffer',
    [(G, 'stream << output_proxy_stream.str() << std::endl;',
      "stream << output_proxy_stream.str() << '\\n';")],
    '''
import select
p = subprocess.Popen([EXE, '-b'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
w = g(1, 'A', 0, 0x1234, 0x5678)
p.stdin.write(bits(w).encode() * 8)
p.stdin.flush()
got = select.select([p.stdout], [], [], 10)[0]
p.kill()
check(got, 'nothing printed within 10 s')
''')

bug('C25-streams-171', 'C25',
    'RDS2 streams at exactly 171 kHz or the upper-case multiplier',
    'sample rates given with an upper-case K are rejected',
    [('src/options.cc', "if (std::tolower(optstr.back()) == 'k')", "if (optstr.back() == 'k')")],
    '''
r = run(['-r', '192K'], bytes(640))
check(r.returncode == 0, repr(r.stderr))
''')

bug('C02-error-newline', 'C02',
    'a text that is not valid UTF-8 (long PS), followed by another group',
    'the error record and the following record share a line',
    [(G, '    stream << json_from_exception << std::endl;',
      '    stream << json_from_exception << std::flush;')],
    '''
text = b'AB\\xFFD' + b' ' * 28
grp = [g(15, 'A', i, text[4*i] << 8 | text[4*i+1], text[4*i+2] << 8 | text[4*i+3])
       for i in range(8)]
r = run(['-h'], hexin([[PI, None, None, None]] * 3 + grp + [g(1, 'A', 0, 1, 2)] * 2))
for l in r.stdout.decode().splitlines():
    try:
        json.loads(l)
    except ValueError:
        check(False, 'not JSON: ' + l)
''')

bug('C06-regional', 'C06',
    'a change to a station whose PI differs only in the area code (second nibble)',
    'texts and assignments of the previous station are carried over',
    [('src/channel.cc', '        station_ = Station(options_, which_channel_, cached_pi_.get());',
      '''        // Regional variants of the same programme share their data
        if (((station_.getPI() ^ cached_pi_.get()) & 0xF0FFU) == 0)
          station_.setPI(cached_pi_.get());
        else
          station_ = Station(options_, which_channel_, cached_pi_.get());'''),
     ('src/groups.hh', '  std::uint16_t getPI() const;\n\n', '''  std::uint16_t getPI() const;
  void setPI(std::uint16_t pi) {
    pi_ = pi;
  }

''')],
    '''
def ps(n, pi):
    return [g(0, 'A', i, 0xE0CD, ord(n[2*i]) << 8 | ord(n[2*i+1]), pi=pi) for i in range(4)]
r = run(['-h'], hexin(ps('RADIO  1', 0x6204) * 2 + [g(3, 'A', 22, 0, 0x0093)] +
                      [g(11, 'A', 0, 0x1234, 0x5678, pi=0x6304)] * 4))
q = [json.loads(l) for l in r.stdout.decode().splitlines()]
check(q[-1]['pi'] == '0x6304' and 'dab' not in q[-1], repr(q[-1]))
''')

bug('C13-cached-pty', 'C13',
    'a TP change between groups of the same programme type',
    'the TP flag lags behind',
    [(G, '''    json_["tp"] = getBool(group.get(BLOCK2), 10);

    json_["prog_type"] = options_.rbds ? getPTYNameStringRBDS(pty) : getPTYNameString(pty);
  } else if''', '''    json_["tp"] = getBool(group.get(BLOCK2), group.getType().number == 15 ? 4 : 10);

    json_["prog_type"] = options_.rbds ? getPTYNameStringRBDS(pty) : getPTYNameString(pty);
  } else if''')],
    '''
r = hexrun([g(15, 'A', 16, 0x2020, 0x2020), g(15, 'A', 0, 0x2020, 0x2020, tp=1)])
check([q['tp'] for q in r] == [False, True], repr(r))
''')

bug('C16-raw5', 'C16',
    'a group of an unknown application whose top application bit in block 2 is set',
    'the bit is lost from the raw data',
    [(G, '''      json_["unknown_oda"]["app_name"] = getAppNameString(oda_app_id);
      json_["unknown_oda"]["raw_data"] =
          getHexString<2>(group.get(BLOCK2) & 0b11111U) + " " +''',
      '''      json_["unknown_oda"]["app_name"] = getAppNameString(oda_app_id);
      json_["unknown_oda"]["raw_data"] =
          getHexString<2>(group.get(BLOCK2) & 0b1111U) + " " +''')],
    '''
r = hexrun([g(3, 'A', 22, 0, 0x1234), g(11, 'A', 0x15, 0x1234, 0x5678)])
check(r[-1]['unknown_oda']['raw_data'] == '15 1234 5678', repr(r))
''')

bug('C18-no-key', 'C18',
    'an encrypted multi-group message of a service whose encryption id is not in the key table',
    'the encrypted code is printed as a decrypted location',
    [(T, '''      if (message_.isComplete()) {
        if (is_encrypted_ && service_key_table_.find(encid_) != service_key_table_.end())''',
      '''      if (message_.isComplete()) {
        if (is_encrypted_)''')],
    '''
r = hexrun([g(3, 'A', 16, 0x0001, 0xCD46), g(8, 'A', 0, 5 | 9 << 5, 17 << 10),
            g(8, 'A', 1, 0x8000 | 101, 0x1234), g(8, 'A', 1, 0x4000, 0)])
m = r[-1]['tmc']['message']
check('location' not in m and m['encrypted_location'] == 0x1234, repr(m))
''')

bug('C18-span', 'C18',
    'an extent of two or more points in negative direction',
    'the walk turns round after the first point',
    [(T, 'this_lcd = (is_positive ? db.points.at(this_lcd).pos_off : db.points.at(this_lcd).neg_off);',
      'this_lcd = (is_positive || points_left % 2 == 0 ? db.points.at(this_lcd).pos_off\n'
      '                                                    : db.points.at(this_lcd).neg_off);')],
    TAB + '''
put('POFFSETS.DAT', 'CID;TABCD;LCD;NEG_OFF_LCD;POS_OFF_LCD\\n25;17;100;101;0\\n25;17;101;102;100\\n25;17;102;0;101\\n')
put('POINTS.DAT', 'CID;TABCD;LCD;N1ID;RNID;ROA_LCD;SEG_LCD;XCOORD;YCOORD\\n'
    '25;17;100;1;;50;;2400000;6000000\\n25;17;101;2;;;60;2500000;6100000\\n25;17;102;3;;;60;2600000;6200000\\n')
r = run(['-h', '-l', d], hexin([[PI, None, None, None]] * 3 + [
    g(3, 'A', 16, 17 << 6 | 1, 0xCD46), g(8, 'A', 8, 0x4000 | 2 << 11 | 101, 100)]))
shutil.rmtree(d)
m = json.loads(r.stdout.decode().splitlines()[-1])['tmc']['message']
check(m.get('span_to') == 'Highway', repr(m))
''')

bug('C20-compact-stream', 'C20',
    'a compact hex line (no spaces) with a stream prefix, exactly 20 characters long',
    'the prefix is not recognised and the group is read as garbage on stream 0',
    [('src/io/input.cc', 'if (line.length() >= 20 && (line.substr', 'if (line.length() > 20 && (line.substr')],
    '''
r = run(['-h', '-x', '-s'], '#S2 40123456789ABCDE\\n')
check(r.stdout.decode() == '#S2 4012 3456 789A BCDE\\n', repr(r.stdout))
''')

bug('C21-truncate', 'C21',
    'an error rate with a fraction of one half or more',
    'the percentage is truncated instead of rounded',
    [(G, '    json_["bler"] = std::lround(group.getBLER());',
      '    json_["bler"] = static_cast<int>(group.getBLER());')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
r = hexrun([w] * 12 + [[PI, None, None, None]] * 1 + [w], ['-E'])
check(r[-1]['bler'] == 6 and r[-2]['bler'] == 6, repr(r[-1]))
r = hexrun([w] * 12 + [[PI, w[1], None, None]] * 1 + [w], ['-E'])
check(r[-1]['bler'] == 4, repr(r[-1]))
r = hexrun([w] * 12 + [[PI, w[1], None, None]] * 4 + [w], ['-E'])
check(r[-1]['bler'] == 17, repr(r[-1]))
''')

bug('C24-wrong-end', 'C24',
    'multiplex input in real time, time stamps with hundredths of seconds',
    'the bit position in the buffer is counted from the wrong end',
    [('src/channel.cc', 'static_cast<double>(buffer.bits[which_stream].size() - 1 - i_bit) /',
      'static_cast<double>(i_bit) /')],
    '''
import numpy as np, time, threading
# groups at known positions in the signal; delivered in real time; the spacing of the time stamps
# of consecutive groups must be that of the groups (87.6 ms), whatever the chunking
ws = [g(1, 'A', 0, 0x1234, i) for i in range(90)]
data = s16(mpx(ws))
p = subprocess.Popen([EXE, '-r', '171000', '-t', '%s.%f'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
out = []
th = threading.Thread(target=lambda: out.extend(p.stdout.readlines()))
th.start()
t0 = time.time()
step = 8192 * 2
for i in range(0, len(data), step):
    while time.time() - t0 < i / (171000 * 2):
        time.sleep(.001)
    p.stdin.write(data[i:i + step])
    p.stdin.flush()
p.stdin.close()
th.join()
p.wait()
ts = [float(json.loads(l)['rx_time']) for l in out][10:]
d = np.diff(ts)
err = np.abs(d - 0.0876)
check(len(d) > 30 and np.median(err) < .01, 'spacing %r' % list(np.round(d[:12], 3)))
''')

bug('C25-stray', 'C25',
    'a single stray argument',
    'it is ignored instead of rejected',
    [('src/options.cc', '  if (argc > optind) {', '  if (argc > optind + 1) {')],
    '''
r = run(['-h', 'file.txt'], 'x')
check(r.returncode != 0, 'accepted')
''')

bug('C26-tef', 'C26',
    'feed-through with TEF input',
    'the decoded records are mixed into the echoed input',
    [('src/redsea.cc', '''int processTEFInput(const Options& options) {
  Channel channel(options, 0, options.feed_thru ? std::cerr : std::cout);''',
      '''int processTEFInput(const Options& options) {
  Channel channel(options, 0, std::cout);''')],
    '''
t = b'P6204\\nR60071234567800\\n' * 5
r = run(['-i', 'tef', '-e'], t)
check(r.stdout == t, repr(r.stdout))
''')
