#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe='the lines printed on stdout for a given input'):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': [observe], 'hook_needed': None}})

p('C01', 'No input makes the decoder crash, hang or invoke undefined behaviour',
  'For every byte sequence on stdin (or in an audio file, location table or service key file) and every combination of documented options, redsea terminates by itself once the input has ended, with exit status 0 or with a diagnosed failure (status 1), and never crashes, aborts, throws an uncaught exception, reads or writes out of bounds, uses an uninitialised value, overflows, shifts or converts out of range, or grows without bound.',
  ['inputs', 'configurations'], 'all inputs in all formats (mpx, sndfile, bits, hex, tef), all option combinations, all location tables and key files',
  'The tests feed a few dozen well-formed captures to an uninstrumented build; memory errors and undefined behaviour on hostile input do not show up as failed assertions.',
  ['src/redsea.cc', 'src/io/input.cc', 'src/groups.cc', 'src/tmc/tmc.cc', 'src/tmc/locationdb.cc', 'src/tmc/csv.cc', 'src/rft.hh', 'src/dsp/subcarrier.cc', 'src/options.cc', 'ext/iconvpp/iconv.hpp'],
  [('bounds checks in the text, file-transfer and CSV code', 'src/text/rdsstring.cc, src/rft.hh, src/tmc/csv.cc'), ('exception handlers round output', 'src/groups.cc Station::updateAndPrint')],
  'sanitizer reports, exit status, memory use')
p('C02', 'Output is a sequence of complete, valid, ordered records',
  'On any input, standard output (standard error with feed-through) consists only of complete newline-terminated lines, each being one self-contained valid UTF-8 JSON object with documented keys and value types (or, in hex mode, one RDS Spy hex line), at most one line per received group, in reception order, preceded only by one information line per loaded location table. A group whose text cannot be represented produces a valid line too and never damages the lines around it.',
  ['inputs', 'histories'], 'all inputs and group histories, including arbitrary text bytes',
  'Tests look up a handful of keys in parsed output of valid captures; they never feed arbitrary bytes into every text field.',
  ['src/groups.cc', 'src/io/output.hh', 'src/channel.cc', 'src/text/rdsstring.cc'],
  [('JSON serialised to a proxy stream, errors replaced by a debug object', 'src/groups.cc Station::updateAndPrint'), ('printAsHex', 'src/io/output.hh')])
p('C03', 'Synchronisation is acquired correctly from any bit alignment',
  'Given an unsynchronised bit stream that starts at any bit position, with any preceding noise, the decoder locks on to the block rhythm as soon as three blocks with correct checkwords have appeared in the cyclic order A-B-C/C\'-D at distances that are multiples of 26 bits (at most six blocks apart), and from then on every complete group in the stream is delivered exactly once, with exactly the transmitted 16-bit words in their right positions. It does not lock or emit groups where no such rhythm exists.',
  ['inputs', 'histories'], 'all bit streams, all start offsets, all group contents including version B groups',
  'The tests replay a few fixed bit captures from a fixed alignment.',
  ['src/block_sync.cc', 'src/block_sync.hh', 'src/channel.cc'],
  [('syndrome calculation and sync pulse rhythm search', 'src/block_sync.cc calculateSyndrome, SyncPulseBuffer, BlockStream::acquireSync')])
p('C04', 'Damaged blocks are rejected or correctly repaired, never delivered wrong',
  'While synchronised, a block whose 26 received bits differ from a valid block with the offset word expected at its position (A, B, C, D) by a single bit or two adjacent bits is delivered with the transmitted data, at every bit position and in every block position; a block that is at no such distance from a valid block is reported as missing. An undamaged block with offset C-prime is accepted in third position. With error correction disabled every block with any damage is reported as missing, and in either mode undamaged blocks are delivered unchanged.',
  ['inputs', 'fault_sequences', 'configurations'], 'all data words, all four block positions and both version offsets, all error patterns, with and without error correction',
  'The tests check one or two hand-made error patterns; there are 2^26 patterns per block position.',
  ['src/block_sync.cc'],
  [('error lookup table of bursts up to two bits', 'src/block_sync.cc makeErrorLookupTable, correctBurstErrors')])
p('C05', 'Sync loss is detected and recovered from without losing framing',
  'Synchronisation is kept as long as no more than 42 of the last 50 blocks were damaged, so that groups received among heavy errors keep their correct framing; it is dropped when more are damaged, and after a loss (including inserted or deleted bits, noise gaps and a new bit phase) the decoder re-acquires by the same rule as at start-up and resumes delivering correct groups. Nothing received while out of sync is delivered.',
  ['inputs', 'fault_sequences', 'histories'], 'all sequences of damage, bit slips, gaps and recoveries',
  'The tests contain no stream with sync loss and recovery; a counter error shows only after tens of damaged blocks.',
  ['src/block_sync.cc', 'src/util.hh', 'src/block_sync.hh'],
  [('running sum of block errors over 50 blocks', 'src/block_sync.cc BlockStream::findBlockInInputRegister, src/util.hh RunningSum')])
p('C06', 'A PI code is believed only when repeated, and stations never mix',
  'Nothing is printed as JSON before the same PI code (other than 0) has been received three times running (groups without a PI in between do not matter); a deviating PI code seen once, or the same one twice, never changes the reported station or clears its data. Once another PI is confirmed by its third reception in a row, it is reported from that group on, and everything accumulated earlier (texts, lists, application assignments, file transfers, traffic messages) is forgotten, so that no record after the change contains anything received before it; a group lacking a PI is printed only if the group before it had one.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of PI codes, missing blocks and station changes',
  'Tests use one PI change; the confirmation filter has an unbounded history of PI values and the accumulated state spans every decoder feature.',
  ['src/channel.cc', 'src/channel.hh', 'src/groups.cc'],
  [('CachedPI repeat filter and Station replacement', 'src/channel.hh CachedPI, src/channel.cc Channel::processGroup'), ('single-group PI grace', 'src/groups.cc Station::updateAndPrint')])
p('C07', 'Missing blocks never turn into data',
  'For every group type and every combination of missing blocks, a printed record contains only fields whose values are determined by blocks actually received: the record printed for a group with missing blocks is the same whatever the lost blocks contained, a missing block never updates accumulated texts, lists or messages, and the basic data carried by a received block 2 (group type, TP, programme type) is still reported.',
  ['inputs', 'fault_sequences', 'histories'], 'all group types, contents and loss patterns, in hex, bit-level and TEF6686 input',
  'Tests drop a block in one or two group types only; there are 15 loss patterns for each of 32 types plus RDS2 groups.',
  ['src/groups.cc', 'src/io/input.cc', 'src/block_sync.cc'],
  [('per-block received flags consulted by each group decoder', 'src/groups.cc Station::decodeType*'), ('input parsers marking blocks as received', 'src/io/input.cc')])
p('C08', 'PS, PTYN and long PS are shown only when completely received, as transmitted',
  'A programme service name, programme type name or long programme service name is printed exactly when all its segments have been received in order without a gap (a change of the PTYN A/B flag restarts PTYN; a carriage return ends a long PS), and the printed text is exactly the most recently transmitted characters in the RDS character set (UTF-8 for long PS, trailing spaces removed). With partial display enabled, the incomplete text shows received characters at their positions and blanks elsewhere.',
  ['inputs', 'histories', 'fault_sequences'], 'all texts over all 256 codes, all segment orders, losses, repetitions and interleavings',
  'Tests decode a few ASCII names received in order.',
  ['src/text/rdsstring.cc', 'src/text/radiotext.hh', 'src/groups.cc'],
  [('sequential length tracking in the segmented string', 'src/text/rdsstring.cc RDSString::set'), ('character table', 'src/text/rdsstring.cc getRDSCharString')])
p('C09', 'RadioText is shown only when complete and never mixes messages',
  'RadioText is printed exactly when a whole message has been received in order (up to a carriage return, or the full 64 or 32 characters of a type A or B group), or when an unterminated message has been confirmed by an identical repeat, as the transmitted characters with trailing spaces removed. A change of the A/B flag discards what was received so far, so that no printed text combines two messages across such a change; with partial display the A/B flag and the characters received so far are shown.',
  ['inputs', 'histories', 'fault_sequences'], 'all messages, lengths, both group versions, A/B changes, losses and orders',
  'Tests decode a few captured messages; text assembly is a history-dependent state machine.',
  ['src/groups.cc', 'src/text/rdsstring.cc', 'src/text/radiotext.hh'],
  [('decodeType2 heuristics for the three message length practices', 'src/groups.cc Station::decodeType2')])
p('C10', 'RT+ tags and enhanced RadioText reproduce the transmitted text',
  'Every RadioText Plus tag printed names the announced content class and carries exactly the characters of the last complete (enhanced) RadioText that its start and length markers designate, counting characters, not bytes; tags outside the message, of the dummy class, or on a text invalidated by an item toggle or running change, are not printed. Enhanced RadioText of up to 128 bytes is printed, when completely received, as the transmitted UTF-8 or UCS-2 characters.',
  ['inputs', 'histories'], 'all texts incl. multi-byte characters, all tag positions and lengths, toggles, ODA group assignments',
  'Tests cover a few tags on ASCII text and one short eRT message.',
  ['src/groups.cc', 'src/text/rdsstring.cc', 'src/text/rdsstring.hh', 'src/tables.cc'],
  [('parseRadioTextPlus, parseEnhancedRT', 'src/groups.cc'), ('UTF-8 aware substring', 'src/text/rdsstring.cc RDSString::getLastCompleteString')])
p('C11', 'Alternative frequency lists are reported complete, exact and unmixed',
  'An alternative frequency list is printed exactly when the announced number of frequencies has been received, holds exactly the transmitted frequencies in order (VHF, LF/MF escape, fillers ignored), and is presented as method B (tuned frequency with same-programme and regional variants by pair order) precisely when its pairs all contain the tuned frequency, otherwise as method A. Lists with surplus or invalid codes, or method B lists with duplicates, are not reported; partial lists appear only on request.',
  ['inputs', 'histories', 'fault_sequences'], 'all AF code sequences of any length, losses and interleavings',
  'Tests contain one method A and two method B lists.',
  ['src/util.cc', 'src/util.hh', 'src/groups.cc'],
  [('AltFreqList', 'src/util.cc AltFreqList::insert, isMethodB'), ('CarrierFrequency', 'src/util.cc')])
p('C12', 'Clock-time is exact and independent of the host',
  'For every transmittable date from 1900-03-01 on, every time and every half-hour local offset up to 14.5 hours, the printed clock time is the transmitted UTC date and time shifted by the offset, in ISO 8601 with that offset, regardless of the time zone, daylight saving rules and locale of the machine. Invalid dates, times or offsets produce no clock time.',
  ['inputs', 'configurations'], 'all 17-bit dates from 1900-03-01 x 1440 minutes x 59 offsets x host time zones',
  'Tests check a few instants in the time zone of the build machine.',
  ['src/groups.cc'],
  [('decodeType4A', 'src/groups.cc Station::decodeType4A')])
p('C13', 'Basic tuning and switching data are decoded from every group',
  'Every record printed for a type A or B group carries the confirmed PI, the group type, TP flag and the programme type name (European table, or North American in RBDS mode) given by block 2 of that very group whenever block 2 was received; type 0 and 15B groups report the TA, music/speech and the addressed decoder-identification flag exactly as sent.',
  ['inputs', 'configurations'], 'all block 2 values (65536), both PTY tables, all input formats',
  'Tests sample a few values.',
  ['src/groups.cc', 'src/tables.cc'],
  [('decodeBasics, decodeType0, decodeType15B', 'src/groups.cc')])
p('C14', 'Item number, slow labels, country and call sign are decoded per standard',
  'Type 1 groups report the programme item number with its day and time exactly when they are valid, the linkage flag, and the addressed slow label: country from the PI and extended country code, TMC id, language, broadcaster bits or EWS id. In RBDS mode the call sign derived from every one of the 65536 PI codes (including nationally linked and three-letter calls) is the one defined by the NRSC standard, and is absent where none is defined.',
  ['inputs', 'configurations'], 'all blocks of type 1 groups, all country codes, all PI codes',
  'Tests sample a few codes of tables with thousands of entries.',
  ['src/groups.cc', 'src/tables.cc'],
  [('decodeType1, decodePIN', 'src/groups.cc'), ('getCallsignFromPI, getCountryString, getLanguageString', 'src/tables.cc')])
p('C15', 'Enhanced other network data are attributed to the right network',
  'Type 14 groups report the other network\'s PI and TP and the addressed item (PS, frequency list, mapped frequency, linkage, programme type and TA, item number, broadcaster data; TA for 14B) exactly as sent. PS and frequency lists are accumulated separately for each other network and reported only when complete.',
  ['inputs', 'histories', 'fault_sequences'], 'all variants, all interleavings of any number of other networks, losses',
  'Tests contain one EON capture with ordered groups.',
  ['src/groups.cc'], [('decodeType14', 'src/groups.cc Station::decodeType14')])
p('C16', 'Open data groups are routed to the application assigned to them',
  'A group of a type that may carry open data is interpreted by the application most recently assigned to that type by a 3A group of the same station, and by its standard meaning (transparent data, in-house data, long PS, TMC ...) if none was assigned; unknown applications and unassigned types are reported with the application identity and the raw data, with missing blocks shown as such. DAB cross references report mode, frequency, channel label and ensemble id exactly; transparent data and in-house data report exactly the received bytes.',
  ['inputs', 'histories'], 'all 65536 application ids, all 32 group types, all assignment histories',
  'Tests cover single assignments of a few applications.',
  ['src/groups.cc', 'src/tables.cc'],
  [('oda_app_for_group_ map and dispatch in updateAndPrint', 'src/groups.cc'), ('parseDAB, decodeType5, decodeType6', 'src/groups.cc')])
p('C17', 'Traffic messages are assembled and rendered exactly',
  'A single-group or multi-group traffic message is reported exactly when its last group arrives, if its first group was received under the same continuity index, and exactly once per completion, with its event and supplementary codes and their texts with quantifiers substituted, direction, extent, location, urgency, start and stop times, speed limit and diversion route as defined by the message bits up to the first missing group; groups with different continuity indices are never combined. Nothing is reported before the service has identified itself.',
  ['inputs', 'histories', 'fault_sequences'], 'all message contents over 1552 events and 233 supplementary texts, all optional field sequences, losses, repetitions and interleavings',
  'Tests decode a handful of captured messages.',
  ['src/tmc/tmc.cc', 'src/tmc/tmc.hh', 'src/tmc/events_data.cc'],
  [('Message assembly and free-format fields', 'src/tmc/tmc.cc Message, getFreeformFields, decodeMulti')])
p('C18', 'Traffic locations, encryption and service information are resolved correctly',
  'With location tables loaded, a message location in the table announced by the service is resolved to exactly the points, coordinates, names and road of that table, following the positive or negative neighbour links for the extent, and never through another table. Encrypted services report the encrypted code, and the decrypted location only with the key parameters of the announced encryption id; service, provider, tuning and other-network information is reported as sent.',
  ['inputs', 'configurations', 'histories'], 'all location table contents and encodings, key tables, announcements and message locations',
  'Tests load no location table at all and use one encryption key.',
  ['src/tmc/tmc.cc', 'src/tmc/locationdb.cc', 'src/tmc/csv.cc'],
  [('loadLocationDatabase', 'src/tmc/locationdb.cc'), ('decryptLocation, receiveSystemGroup, receiveUserGroup', 'src/tmc/tmc.cc')])
p('C19', 'RDS2 file transfers are delivered bit-exact, once, and only when complete',
  'For every file up to 163840 bytes sent over any RDS2 pipe, in any segment order, with repetitions, interleaved pipes and streams, the reassembled contents are printed (Base64) exactly when every segment of the announced size has been received under one toggle state, and equal the transmitted bytes; a toggle change discards earlier segments. Assignments, file information, checksum announcements and other type C data are reported exactly as sent, and incomplete type C groups carry no data.',
  ['inputs', 'histories', 'fault_sequences'], 'all files, sizes, segment orders, losses, toggles and pipe interleavings',
  'Tests transfer one file in order.',
  ['src/rft.hh', 'src/base64.hh', 'src/groups.cc'],
  [('RFTFile segment bookkeeping', 'src/rft.hh'), ('decodeC', 'src/groups.cc')])
p('C20', 'Input and output formats carry groups without change',
  'The same groups give the same decoded output whether they arrive as hex lines (any case, spacing, trailing timestamp, stream prefix), as an ASCII bit stream with any other characters in between, or as TEF6686 serial lines; hex output and the raw-data field reproduce every received block, the stream number and the missing-block marks, so that decoding hex output again yields the same result (for bit-level input: apart from incomplete groups, whose version the offset word told). Incomplete or unparsable blocks in a line are treated as missing, and no data is invented at the end of input.',
  ['inputs', 'configurations'], 'all group sequences and textual variations, all pairs of formats',
  'Tests parse single well-formed lines.',
  ['src/io/input.cc', 'src/io/output.hh', 'src/groups.cc'],
  [('readHexGroup, readTEFGroup, AsciiBitReader', 'src/io/input.cc'), ('printAsHex', 'src/io/output.hh')])
p('C21', 'The reported block error rate is the true average',
  'With block error rate display enabled, every record reports the rounded percentage of blocks that were damaged before correction (for hex and TEF input: missing) among the last 12 received groups, counting groups that produced no output, and independent of error correction succeeding.',
  ['inputs', 'fault_sequences'], 'all damage sequences',
  'One test compares one value.',
  ['src/channel.cc', 'src/groups.cc', 'src/util.hh'],
  [('RunningAverage over group error counts', 'src/channel.cc Channel::processGroup')])
p('C22', 'A clean multiplex signal is demodulated to exactly the transmitted groups',
  'For an FM multiplex signal of adequate quality containing a 57 kHz RDS subcarrier, at any supported sample rate (128 kHz to 40 MHz), level, carrier phase, small frequency and symbol clock offset, and with pilot and audio present, from raw PCM or a sound file, the decoder prints the transmitted groups without error, gap, duplicate or reordering after a short acquisition time, also after the signal was absent for a while. A signal that never carried RDS yields no records.',
  ['inputs', 'configurations'], 'sample rates, levels, phases, frequency offsets, clock offsets, noise levels, containers',
  'The multiplex test resources are not even present in this checkout (LFS pointers), so the whole signal path is untested here.',
  ['src/dsp/subcarrier.cc', 'src/dsp/liquid_wrappers.cc', 'src/io/input.cc', 'src/redsea.cc'],
  [('mixer, matched filter, symbol synchroniser, PLL, biphase and delta decoding', 'src/dsp/subcarrier.cc')])
p('C23', 'Channels and RDS2 streams are demodulated independently and labelled right',
  'Each channel of a multi-channel signal yields exactly the records it would yield as a mono input, labelled with its own channel number, whatever the other channels carry and to the very end of the input. With stream decoding enabled, groups of the upper subcarriers are reported with their stream number and attributed to the station of the main stream, whose own records are unaffected.',
  ['inputs', 'configurations', 'histories'], 'all channel counts, channel contents, lengths and stream combinations',
  'No test decodes a multi-channel signal.',
  ['src/io/input.cc', 'src/redsea.cc', 'src/channel.cc', 'src/dsp/subcarrier.cc'],
  [('de-interleaving', 'src/io/input.cc MPXReader::readChunk'), ('per-channel decoder objects', 'src/redsea.cc processMPXInput')])
p('C24', 'Decoding is live, causal and truthfully time-stamped',
  'Each record is printed (and flushed) as soon as the input completing its group has been read, without waiting for later input (multiplex input: within two input buffers of 8192 samples), and the output for a prefix of the input (hex and TEF: whole lines; bits and samples: any length) is a prefix of the output for the whole. The time stamp of a group is the system time when the input completing it was read (for multiplex input: when its last bit was on air, calculated from the position in the buffer), never decreases within one channel even if the system clock steps back, and is rendered in local time as strftime does with the given format (results up to 63 characters), the first %f being hundredths of a second.',
  ['schedules', 'inputs', 'histories'], 'all arrival schedules of input, all prefixes, clock steps, formats',
  'Tests run whole files and cannot see buffering, prefix behaviour or clock steps.',
  ['src/channel.cc', 'src/util.cc', 'src/groups.cc', 'src/io/output.hh'],
  [('explicit flush per line', 'src/groups.cc, src/io/output.hh'), ('monotonic clamp', 'src/channel.cc Channel::processBits, processGroup')],
  'arrival times of lines on a pipe, rx_time fields')
p('C25', 'Options are validated and mean what is documented',
  'Every documented long and short option has its documented effect in any order and combination; sample rates and channel counts that are out of range or not numbers at all, unsupported format names, mutually incompatible options and stray arguments are rejected with a non-zero exit status and no decoded output, and every value inside the documented range is accepted. Help and version requests print and exit successfully without reading input.',
  ['configurations', 'inputs'], 'all argument vectors',
  'Tests construct option structures directly or try a few vectors.',
  ['src/options.cc', 'src/redsea.cc'],
  [('getOptions', 'src/options.cc')], 'exit status, stdout and stderr for an argument vector')
p('C26', 'Feed-through echoes the input unchanged',
  'With feed-through enabled, standard output carries exactly the input (bit-exact samples for raw PCM, half a sample at the very end not counting; the same bytes for hex, TEF and bit input), nothing more and nothing less, while the same records as without feed-through appear on standard error.',
  ['inputs', 'configurations'], 'all inputs in all formats',
  'No test runs feed-through.',
  ['src/io/input.cc', 'src/redsea.cc'],
  [('MPXReader::fillBuffer, AsciiBitReader::readBit, readHexGroup, readTEFGroup', 'src/io/input.cc')],
  'bytes on stdout compared with stdin; records on stderr')

p('C27', 'Output depends only on the input and the options',
  'For every input and every set of options (time stamps left aside), the bytes printed and the exit status are determined by the input bytes, the options and the files they name (location tables, the service key file of the working directory) alone: they are the same when the input arrives from a file, a pipe, a FIFO or a socket, in pieces of any size with pauses anywhere; in every time zone, locale, environment and working directory; at every date and speed of the system clock; whatever the memory contained before; when output is read slowly; when the process is suspended; and when other copies run at the same time.',
  ['schedules', 'inputs', 'configurations'], 'all inputs and options, all delivery schedules, environments, clocks and memory contents',
  'Tests run each capture once, in process, from memory, in one environment; a dependence on read sizes, clocks or uninitialised memory gives the same result every time there.',
  ['src/redsea.cc', 'src/io/input.cc', 'src/channel.cc', 'src/dsp/subcarrier.cc', 'src/groups.cc', 'src/util.cc'],
  [('signal time counted in bits and samples, not on the clock', 'src/channel.cc getSecondsSinceCarrierLost, src/dsp/subcarrier.cc getSecondsSinceLastReset'), ('blocking reads of whole chunks, lines and bits', 'src/io/input.cc'), ('initialised members', 'src/channel.hh, src/util.hh, src/dsp/subcarrier.hh')],
  'stdout, stderr and exit status of repeated runs')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
