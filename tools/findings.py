#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ('C20', 'b523fd2', 'TEF6686 input: error bits of one block marked other blocks as missing or damaged blocks as received'),
 ('C07', 'b523fd2', 'TEF6686 input: blocks flagged as erroneous were used as data'),
 ('C12', '7c4251b', 'clock time depended on the time zone and DST rules of the host, and was wrong or missing for far dates'),
 ('C10', 'cf87276', 'RT+ tags next to non-ASCII characters were cut inside a character (record lost); tag up to the last of 64 characters dropped'),
 ('C10', '3076583', 'enhanced RadioText stored a missing block 3 as text'),
 ('C07', '3076583', 'enhanced RadioText stored a missing block 3 as text'),
 ('C10', 'dea366d', 'enhanced RadioText longer than 64 bytes was never shown complete'),
 ('C10', '8638c58', 'UCS-2 enhanced RadioText was misread'),
 ('C07', '5a95b2b', 'transparent data: missing blocks were printed as received bytes'),
 ('C16', '5a95b2b', 'transparent data: missing blocks were printed as received bytes'),
 ('C07', '8d35117', 'DAB cross-reference: missing blocks were printed as frequency or ensemble id'),
 ('C16', '8d35117', 'DAB cross-reference: missing blocks were printed as frequency or ensemble id'),
 ('C18', 'd52a611', 'num_names counted names that are not in the table; points on a segment of an unlisted road were dropped'),
 ('C18', '07d9ac1', 'road numbers were printed without conversion from the encoding of the table (record lost)'),
 ('C20', '167daa5', 'bit input: end of file was processed as a zero bit, which could complete a group'),
 ('C20', '2d50b36', 'hex input: blocks cut off at the end of a line were reported as received, padded with zeroes'),
 ('C20', '9cc5e7f', 'TEF6686 input: truncated or corrupted numbers were accepted as far as they could be parsed'),
 ('C26', '21366e5', 'feed-through: extra newline (hex, TEF) or 0xFF byte (bits) at end of file'),
 ('C26', '9c5cbca', 'feed-through: half of all PCM sample values were changed by one'),
 ('C23', 'fc297a8', 'multi-channel input: every channel got the interleaved samples of all channels in the last chunk'),
 ('C24', 'b8a9ec5', 'multi-channel input: all time stamps were 1970'),
 ('C24', 'c922f1f', 'time stamps went back when the system clock stepped back (hex input; bit input after the first group)'),
 ('C01', 'e500d0e', 'location table in an encoding unknown to iconv: uncaught exception'),
 ('C25', '9eecff7', 'channel counts of 2^32+1..2^32+32 and a sample rate of NaN were accepted'),
 ('C01', 'c4afffc', 'service key with a bit position of 32 or more: undefined shift'),
 ('C14', '5ca463d', 'country code ECC D1, code F was printed as bg (Bulgaria) instead of ng (Nigeria)'),
 ('C25', '599ae93', 'sample rates above 34.2 MHz (documented maximum: 40 MHz) were accepted but aborted with an uncaught exception'),
 ('C22', '599ae93', 'sample rates above 34.2 MHz (documented maximum: 40 MHz) were accepted but aborted with an uncaught exception'),
 ('C01', '599ae93', 'sample rates above 34.2 MHz: uncaught exception'),
 ('C22', '1ad444e', 'after a second of digital silence (also at the start) the AGC gain collapsed for good and most groups were lost from then on'),
]
out = [{'property': p, 'key': c, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, c, w)}
       for p, c, w in F]
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
