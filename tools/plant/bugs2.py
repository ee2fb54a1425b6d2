"""Second batch: several steps or several cooperating values are needed for each of these."""
from bugs import bug, G, U, T, B, TAB, RFT
I = 'src/io/input.cc'
S = 'src/text/rdsstring.cc'

bug('C01-crc-address', 'C01',
    'a file checksum announcement for a chunk address of 256 or more',
    'aborts on an assertion',
    [('src/rft.hh', 'kMaxNumCRCs     = 1 << 9;', 'kMaxNumCRCs     = 1 << 8;')],
    RFT + '''
r = run(['-h', '-s'], '\\n'.join([hexline([PI, None, None, None])] * 3 +
        [C(1, [0x8003, 0xFF7F, 0x1000 | 1 << 9 | 300, 0x1234])]) + '\\n')
check(r.returncode == 0, 'exit status %d' % r.returncode)
''')

bug('C02-diversion-type', 'C02',
    'a traffic message with a detailed diversion route',
    'location codes are printed as strings instead of numbers',
    [(T, 'for (const std::uint16_t code : diversion_) element["diversion_route"].push_back(code);',
      'for (const std::uint16_t code : diversion_)\n'
      '    element["diversion_route"].push_back(std::to_string(code));')],
    '''
# label 10, 16 bits
f = 0xA << 24 | 0x1234 << 8
r = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
            g(8, 'A', 1, 0x4000 | f >> 16, f & 0xFFFF)])
m = r[-1]['tmc']['message']
check(m['diversion_route'] == [0x1234], repr(m))
''')

bug('C03-three-pulses', 'C03',
    'a false offset word in the noise between the blocks of the rhythm',
    'the rhythm is missed: the pulse buffer holds three entries only',
    [('src/block_sync.hh', 'std::array<SyncPulse, 4> pulses_;', 'std::array<SyncPulse, 3> pulses_;')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
bl = [format(block(w[k], offs(w)[k]), '026b') for k in range(4)]
bad = format(int(bl[2], 2) ^ 0b10010110010000111010110101, '026b')
# block A; then a stray block A at a broken phase; then B ... at the phase of the first
stray = format(block(0x7777, 'A'), '026b')
# A, 2 damaged blocks that contain a stray block at offset 13, D, A, (B C D lost), ...
mid = '0' * 13 + stray + '0' * 13
s = bl[0] + mid + bl[3] + bl[0] + bad * 3 + bits(w, (0b10010110010000111010110101,) * 4) + bits(w) + '0'
out = bitrun(s)
check(out and out[0].startswith('6204'), repr(out))
''')

bug('C04-cprime', 'C04',
    'a damaged third block that happens to be near a block with offset C-prime',
    'a block that should be reported missing is delivered',
    [(B, '''      const auto correction = correctBurstErrors(block, expected_offset_);
''', '''      auto correction = correctBurstErrors(block, expected_offset_);
      if (!correction.succeeded && expected_offset_ == Offset::C)
        correction = correctBurstErrors(block, Offset::Cprime);
''')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
e = OFFSET['C'] ^ OFFSET["C'"] ^ 1 << 14
out = bitrun(bits(w) * 3 + bits(w, (0, 0, e, 0)) + bits(w) + '0')
check('6204 1000 ---- 5678' in out, repr(out))
''')

bug('C05-window', 'C05',
    '43 damaged blocks of which the first is exactly 50 blocks ago',
    'sync is kept although more than 42 of the last 50 blocks were damaged',
    [('src/block_sync.hh', 'RunningSum<int, 50> block_error_sum50_;', 'RunningSum<int, 49> block_error_sum50_;')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
bad = 0b10010110010000111010110101
def seq(pattern):
    b = bits(w) * 3
    p = (pattern + [0] * (-len(pattern) % 4))
    for i in range(0, len(p), 4):
        b += bits(w, tuple(bad * x for x in p[i:i + 4]))
    return bitrun(b + bits(w) * 30 + '0')
# exactly 43 errors in 50 blocks, the first and the last being errors
pat = [1] + [0] * 7 + [1] * 42
lost = seq(pat)
pat2 = [1] + [0] * 8 + [1] * 42       # 43 in 51: kept
kept = seq(pat2)
check('---- ---- ---- 5678' in kept and '---- ---- 1234 5678' not in lost[1:], '%r %r' % (kept, lost))
''')

bug('C06-keep-files', 'C06',
    'a station change in the middle of an RDS2 file transfer',
    'the file transfer of the previous station is carried on',
    [('src/channel.cc', '        station_ = Station(options_, which_channel_, cached_pi_.get());',
      '''      {
        // Don't throw away large file transfers
        Station new_station(options_, which_channel_, cached_pi_.get());
        new_station.keepFiles(station_);
        station_ = new_station;
      }'''),
     ('src/groups.hh', '  std::uint16_t getPI() const;\n\n', '''  std::uint16_t getPI() const;
  void keepFiles(const Station& other) {
    rft_file_ = other.rft_file_;
  }

''')],
    RFT + '''
d = b'abcdefghij'
L = lambda w: hexline(w)
lines = [L([PI, None, None, None])] * 3 + [C(1, announce(0, 10)), C(1, seg(0, 0, 0, d[:5]))]
lines += [L([0x7777, None, None, None])] * 3 + [C(1, seg(0, 0, 1, d[5:]))]
r = run(['-h', '-s'], '\\n'.join(lines) + '\\n').stdout.decode()
check('file_contents' not in r, r)
''')

bug('C06-type-c-pi', 'C06',
    'two groups without a PI with a type C group between them',
    'the second group without a PI is printed',
    [(G, '''  if (group.getType().version != GroupType::Version::C) {
    // Allow''', '''  if (group.getType().version == GroupType::Version::C) {
    last_group_had_pi_ = true;
  } else {
    // Allow''')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
n = [None] + w[1:]
L = [hexline([PI, None, None, None])] * 3 + [hexline(w), hexline(n), '#S1 4012 3456 789A BCDE', hexline(n)]
r = run(['-h', '-s'], '\\n'.join(L) + '\\n').stdout.decode().splitlines()
q = [json.loads(l) for l in r]
check(q[-1]['group'] == 'C', repr(q[-1]))
''')

bug('C07-ptyn-block4', 'C07',
    'a programme type name group without its block 4, and a later one with only the second half',
    'characters of a missing block become blanks of a complete name',
    [(G, '''  if (!group.has(BLOCK3) || !group.has(BLOCK4))
    return;

  const std::uint16_t segment_address = getBits<1>''', '''  if (!group.has(BLOCK3))
    return;

  const std::uint16_t segment_address = getBits<1>''')],
    '''
w = lambda s, t: g(10, 'A', s, ord(t[0]) << 8 | ord(t[1]), ord(t[2]) << 8 | ord(t[3]))
r = hexrun([w(0, 'Rock'), w(1, 'ball')[:3] + [None]])
check('pty_name' not in r[-1], repr(r))
''')

bug('C07-oda-tmc', 'C07',
    'a traffic message group (of an assigned type) without its last block',
    'a message with location 0 is reported',
    [(G, '''    case 0xCD47:
      if (group.has(BLOCK2) && group.has(BLOCK3) && group.has(BLOCK4))''', '''    case 0xCD47:
      if (group.has(BLOCK2) && group.has(BLOCK3))''')],
    '''
r = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 8, 101, 0x1234)[:3] + [None]])
check('tmc' not in r[-1], repr(r))
''')

bug('C08-same-first', 'C08',
    'a new name that begins with the same character, with a lost segment',
    'the printed name mixes the old and the new one',
    [(S, '''  data_.at(pos) = byte;

  if (pos == 0 || (pos''', '''  const bool is_repeat = (pos == 0 && isComplete() && data_.at(pos) == byte);
  data_.at(pos)        = byte;

  if ((pos == 0 && !is_repeat) || (pos''')],
    '''
ps = lambda n, i: g(0, 'A', i, 0xE0CD, ord(n[2*i]) << 8 | ord(n[2*i+1]))
r = hexrun([ps('RADIO 11', i) for i in range(4)] + [ps('ROCKPOP2', i) for i in (0, 2, 3)])
check(all(q.get('ps') in (None, 'RADIO 11') for q in r), repr(r))
''')

bug('C09-terminators', 'C09',
    'a terminated message interrupted at the same place twice',
    'a cut-off message is printed as complete',
    [(G, 'not radiotext_.text.isComplete() && not radiotext_.text.hasPreviouslyReceivedTerminators();',
      'not radiotext_.text.isComplete();')],
    '''
t = b'THE FIRST MESSAGE\\r  '
rt = lambda i: g(2, 'A', i, t[4*i] << 8 | t[4*i+1], t[4*i+2] << 8 | t[4*i+3])
r = hexrun([rt(i) for i in range(5)] + [rt(0), rt(1), rt(2), rt(0), rt(1), rt(2), rt(0)])
check(all(q.get('radiotext') in (None, 'THE FIRST MESSAGE') for q in r), repr(r))
''')

bug('C10-ert-plus-text', 'C10',
    'RT+ tags of the enhanced RadioText while a different RadioText is on air',
    'the tags are cut out of the wrong text',
    [(G, 'case 0x4BD8: parseRadioTextPlus(group, ert_, json_["ert_plus"]); break;',
      'case 0x4BD8:\n      parseRadioTextPlus(group, ert_.plus.exists ? ert_ : radiotext_, json_["ert_plus"]);\n'
      '      break;'),
     (G, '      ert_.plus.exists       = true;', '      ert_.plus.exists       = getBool(oda_message, 13) || ert_.plus.exists;')],
    '''
t = b'ERT TEXT\\r  '
ert = [g(12, 'A', i, t[4*i] << 8 | t[4*i+1], (t[4*i+2:4*i+3] or b' ')[0] << 8 | (t[4*i+3:4*i+4] or b' ')[0]) for i in range(3)]
pl = g(11, 'A', 8, 0x2000 | 4 << 7 | 3 << 1, 0)
r = hexrun([g(3, 'A', 24, 1, 0x6552), g(3, 'A', 22, 0, 0x4BD8), pl] + ert + [pl])
check(r[-1]['ert_plus'].get('tags', [{}])[0].get('data') == 'TEXT', repr(r[-3:]))
''')

bug('C11-escape-kept', 'C11',
    'an LF/MF escape followed by a filler code',
    'the next VHF frequency is read as a medium wave frequency',
    [(U, '''  lf_mf_follows_ = false;

  // AF code''', '''  // AF code'''),
     (U, '      num_received_++;\n', '      num_received_++;\n      lf_mf_follows_ = false;\n')],
    '''
r = hexrun([g(0, 'A', 0, 226 << 8 | 10, 0x4142), g(0, 'A', 1, 250 << 8 | 205, 0x4142),
            g(0, 'A', 2, 20 << 8 | 205, 0x4142)])
check(r[-1].get('alt_frequencies_a') == [88500, 89500], repr(r))
''')

bug('C11-mf-boundary', 'C11',
    'the highest long wave frequency (279 kHz)',
    'it is reported as a medium wave frequency',
    [(U, '        if (code_ <= 15)', '        if (code_ < 15)')],
    '''
r = hexrun([g(0, 'A', 0, 226 << 8 | 10, 0x4142), g(0, 'A', 1, 250 << 8 | 15, 0x4142)])
check(r[-1].get('alt_frequencies_a') == [88500, 279], repr(r))
''')

bug('C13-0b-di', 'C13',
    'a type 0A group without its third block that addresses decoder flag d3',
    'the decoder flag is missing from the record',
    [(G, '''  json_["di"][getDICodeString(segment_address)] = is_di;
  json_["ta"]                                   = getBool(group.get(BLOCK2), 4);
  json_["is_music"]                             = getBool(group.get(BLOCK2), 3);
''', '''  if (segment_address < 3 || group.has(BLOCK3))
    json_["di"][getDICodeString(segment_address)] = is_di;
  json_["ta"]                                   = getBool(group.get(BLOCK2), 4);
  json_["is_music"]                             = getBool(group.get(BLOCK2), 3);
''')],
    '''
r = hexrun([[PI, g(0, 'A', 7, 0, 0)[1], None, None]])
check('di' in r[-1] and list(r[-1]['di'].values()) == [True], repr(r))
''')

bug('C14-stale-country', 'C14',
    'an extended country code of 0 (not given) after a valid one',
    'the earlier country is reported again',
    [(G, '''        ecc_ = getUint8(group.get(BLOCK3), 0);
        cc_ ''', '''        if (getUint8(group.get(BLOCK3), 0) != 0)
          ecc_ = getUint8(group.get(BLOCK3), 0);
        cc_ ''')],
    '''
r = hexrun([g(1, 'A', 0, 0x00E1, 0), g(1, 'A', 0, 0x0000, 0)])
check('country' in r[0] and 'country' not in r[1], repr(r))
''')

bug('C15-regional', 'C15',
    'two other networks that are regional variants of each other, interleaved',
    'a name made of parts of both is reported',
    [(G, '''      eon_ps_names_[on_pi].set(2U * eon_variant, getUint8(group.get(BLOCK3), 8));
      eon_ps_names_[on_pi].set(2U * eon_variant + 1, getUint8(group.get(BLOCK3), 0));

      if (eon_ps_names_[on_pi].isComplete())
        json_["other_network"]["ps"] = eon_ps_names_[on_pi].getLastCompleteString();''',
      '''    {
      // Regional variants have a name in common
      auto variant = eon_ps_names_.begin();
      while (((variant->first ^ on_pi) & 0xF0FFU) != 0) variant++;
      variant->second.set(2U * eon_variant, getUint8(group.get(BLOCK3), 8));
      variant->second.set(2U * eon_variant + 1, getUint8(group.get(BLOCK3), 0));

      if (variant->second.isComplete())
        json_["other_network"]["ps"] = variant->second.getLastCompleteString();
    }''')],
    '''
e = lambda n, i, pi: g(14, 'A', i, ord(n[2*i]) << 8 | ord(n[2*i+1]), pi)
a, b = 'NORTH  1', 'SOUTH 22'
r = hexrun([e(a, 0, 0x6321), e(b, 0, 0x6421), e(a, 1, 0x6321), e(b, 1, 0x6421), e(a, 2, 0x6321),
            e(b, 2, 0x6421), e(a, 3, 0x6321), e(b, 3, 0x6421)])
check([q['other_network'].get('ps') for q in r][-2:] == [a, b], repr(r[-2:]))
''')

bug('C16-version', 'C16',
    'an application assigned to a type A group, and groups of the same number of type B',
    'the type B groups are interpreted by that application',
    [(G, '''  return (type1.number < type2.number) ||
         (type1.number == type2.number && type1.version < type2.version);''',
      '''  return type1.number < type2.number;''')],
    '''
r = hexrun([g(3, 'A', 22, 0, 0x0093), g(11, 'B', 0, PI, 0x5678)])
check('dab' not in r[-1], repr(r[-1]))
''')

bug('C17-continuity', 'C17',
    'the first group of one message and the last group of another with a different continuity index',
    'a message combined from both is reported',
    [(T, 'if (continuity_index != message_.getContinuityIndex())',
      'if (continuity_index != message_.getContinuityIndex() && getBool(y, 15))')],
    '''
r = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
            g(8, 'A', 2, 0x4000, 0)])
check('tmc' not in r[-1], repr(r))
''')

bug('C17-day31', 'C17',
    'a start or stop time on the 31st day of the month',
    'a month is printed instead of the day',
    [(T, '} else if (field_data <= 231) {', '} else if (field_data < 231) {')],
    '''
f = 0x7 << 24 | 231 << 16
r = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 1, 0x8000 | 101, 0x1234),
            g(8, 'A', 1, 0x4000 | f >> 16, f & 0xFFFF)])
m = r[-1]['tmc']['message']
check('day 31 of the month' in (m.get('starts'), m.get('until')), repr(m))
''')

bug('C18-on-freqs', 'C18',
    'two tuning groups of the same other network, the first beginning a list',
    'the frequencies of the first group are reported again with the second',
    [(T, '        other_network_freqs_.clear();\n', '')],
    '''
r = hexrun([g(3, 'A', 16, 0x0056, 0xCD46), g(8, 'A', 0x16, 228 << 8 | 10, 0x6321),
            g(8, 'A', 0x16, 20 << 8 | 30, 0x6321)])
check('frequencies_khz' not in r[-1]['tmc']['other_network'], repr(r[-1]))
''')

bug('C18-admin-ltn', 'C18',
    'an encryption administration group followed by a service identification without encryption',
    'locations are looked up in the table of the administration group',
    [(T, '''      ltn_                                                = ltn;
      (*jsonroot)["tmc"]["system_info"]["location_table"] = ltn_;''', '''      if (!has_encid_)
        ltn_ = ltn;
      (*jsonroot)["tmc"]["system_info"]["location_table"] = ltn;''')],
    TAB + '''
r = run(['-h', '-l', d], hexin([[PI, None, None, None]] * 3 + [
    g(3, 'A', 16, 0x0001, 0xCD46), g(8, 'A', 0, 5 | 9 << 5, 33 << 10),
    g(3, 'A', 16, 17 << 6 | 1, 0xCD46), g(8, 'A', 8, 101, 100)]))
shutil.rmtree(d)
m = json.loads(r.stdout.decode().splitlines()[-1])['tmc']['message']
check(m.get('road_number') == 'A9', repr(m))
''')

bug('C19-size16', 'C19',
    'a file of more than 65535 bytes',
    'only the beginning of the file is delivered',
    [(G, 'rft_file_[channel_id].setSize(file_size_bytes);',
      'rft_file_[channel_id].setSize(static_cast<std::uint16_t>(file_size_bytes));')],
    RFT + '''
import random
n = 65536 + 10
data = bytes(random.Random(1).getrandbits(8) for _ in range(n))
f = files([announce(3, n)] + [seg(3, 0, i, data[5*i:5*i+5]) for i in range((n + 4) // 5)])
check(f == [data], 'files: %r' % [len(x) for x in f])
''')

bug('C19-reannounce', 'C19',
    'the size announcement is repeated while the file is being transferred',
    'the segments received before are thrown away',
    [('src/rft.hh', '''    if (size <= kMaxSize)
      expected_size_bytes_ = size;''', '''    if (size > kMaxSize)
      return;
    if (size == expected_size_bytes_ && crc_chunks_.size() > 0)
      clear();
    expected_size_bytes_ = size;''')],
    RFT + '''
d = b'abcdefghij'
crc = [0x8000, 0xFF7F, 0x1000, 0x1234]
f = files([announce(0, 10), crc, seg(0, 0, 0, d[:5]), announce(0, 10), seg(0, 0, 1, d[5:])])
check(f == [d], repr(f))
''')

bug('C20-stream-prefix', 'C20',
    'a line without stream prefix after one with a prefix in the same read',
    'the stream number sticks to a group whose line was skipped before',
    [(I, '    int n_stream = 0;\n', '    static int n_stream = 0;\n    if (line.find("  ") == std::string::npos)\n      n_stream = 0;\n')],
    '''
r = run(['-h', '-x', '-s'], '#S2 4012 3456 789A BCDE\\n6204  1000 1234 5678\\n')
check(r.stdout.decode().splitlines()[-1] == '6204 1000 1234 5678', repr(r.stdout))
''')

bug('C23-stream-frequency', 'C23',
    'RDS2 stream 2',
    'its subcarrier is looked for at the wrong frequency',
    [('src/dsp/liquid_wrappers.cc', '{57000.f, 66500.f, 71250.f, 76000.f}', '{57000.f, 66500.f, 71500.f, 76000.f}')],
    '''
import numpy as np
ws = [g(1, 'A', 0, 0x1234, i) for i in range(120)]
cs = [[0x4010 + i % 16, 0x1234, 0x5678, i] for i in range(120)]
# upper streams use offset words A B C D
global_offs = offs
import rds
rds.offs = lambda w: ('A', 'B', 'C', 'D')
y = mpx(cs, carrier=71250.0, phase=.4)
rds.offs = global_offs
x = mpx(ws)
out = run(['-r', '171000', '-x', '-s'], s16(x + .5 * y)).stdout.decode().split('\\n')
n = sum(l.startswith('#S2') and '-' not in l for l in out)
check(n > 60, '%d groups on stream 2' % n)
''')

bug('C24-round', 'C24',
    'a time within the last five milliseconds of a tenth of a second',
    'the hundredths are wrong by ten',
    [(U, 'const auto hundredths = (ms / 10) % 10;', 'const auto hundredths = ((ms + 5) / 10) % 10;')],
    '''
import time, re
# many records; the hundredths must agree with the time of the system
p = subprocess.Popen([EXE, '-h', '-t', '%s.%f'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
w = (hexline(g(1, 'A', 0, 0x1234, 0x5678)) + '\\n').encode()
for _ in range(3):
    p.stdin.write(w)
p.stdin.flush()
p.stdout.readline()
worst = 0
for k in range(300):
    t0 = time.time()
    p.stdin.write(w)
    p.stdin.flush()
    l = p.stdout.readline()
    t1 = time.time()
    t = float(json.loads(l)['rx_time'])
    if not t0 - .0101 <= t <= t1 + .0001:
        worst = max(worst, abs(t - t0))
    time.sleep(.0031)
p.stdin.close()
p.wait()
check(worst == 0, 'off by %.3f s' % worst)
''')

bug('C25-loctable-last', 'C25',
    'two location tables',
    'only the last one is loaded',
    [('src/options.cc', "case 'l': options.loctable_dirs.emplace_back(optarg); break;",
      "case 'l':\n        options.loctable_dirs.assign(1, optarg);\n        break;")],
    TAB + '''
r = run(['-h', '-l', d, '-l', '/nonexistent'], hexin([[PI, None, None, None]] * 4))
shutil.rmtree(d)
check(r.stdout.decode().count('location_table_info') == 2, repr(r.stdout))
''')

bug('C25-last-input', 'C25',
    'an input format given twice, the second being the short form',
    'the first one wins',
    [('src/options.cc', '''      case 'b':  // For backwards compatibility
        options.input_type = InputType::ASCIIbits;
        break;''', '''      case 'b':  // For backwards compatibility
        if (options.input_type == InputType::MPX_stdin)
          options.input_type = InputType::ASCIIbits;
        break;''')],
    '''
w = g(1, 'A', 0, 0x1234, 0x5678)
r = run(['-i', 'hex', '-b', '-x'], bits(w) * 4)
check(r.stdout.decode().count(hexline(w)) >= 2, repr(r.stdout))
''')

bug('C26-byte-ff', 'C26',
    'a byte 255 in bit input with feed-through',
    'the byte is taken for the end of the input',
    [(I, '  int chr = 0;\n', '  char chr = 0;\n'),
     (I, '    chr = std::getchar();', '    chr = static_cast<char>(std::getchar());')],
    '''
t = b'0101\\xff0101\\n'
r = run(['-b', '-e'], t)
check(r.stdout == t, repr(r.stdout))
''')
