From b523fd27d6ae7a67c13c8e3642baae298676253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:39 +0000
Subject: [PATCH 01/24] fix: treat only the blocks flagged as erroneous in
 TEF6686 input as missing

The error byte has two bits per block, but the whole byte was tested for each
of them, so an error in one block also discarded later good ones; and
erroneous blocks were still used to determine the group type.
---
 src/io/input.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..6ee8853 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -285,13 +285,17 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
-
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0b11U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0b11U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0b11U) == 0;
+
+        // Erroneous blocks are treated as missing
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From 7c4251b212c5537a2c2e561a7c710daeaacc5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 02/24] fix: make clock-time independent of the host's time
 zone

The transmitted UTC time and offset were normalized with mktime and localtime,
so times falling in a daylight saving gap of the host's time zone were
displayed one hour (or day) off.
---
 src/groups.cc | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..2879057 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -737,48 +737,30 @@ void Station::decodeType4A(const Group& group) {
   if (!(group.has(BLOCK3) && group.has(BLOCK4)))
     return;
 
-  const double modified_julian_date{
-      static_cast<double>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1))};
+  const auto modified_julian_date = getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1);
 
   // Would result in negative years/months
-  if (modified_julian_date < 15079.0) {
+  if (modified_julian_date < 15079U) {
     json_["debug"].push_back("invalid date/time");
     return;
   }
 
-  int year_utc = static_cast<int>((modified_julian_date - 15078.2) / 365.25);
-  int month_utc =
-      static_cast<int>((modified_julian_date - 14956.1 - std::trunc(year_utc * 365.25)) / 30.6001);
-  const int day_utc =
-      static_cast<int>(modified_julian_date - 14956.0 - std::trunc(year_utc * 365.25) -
-                       std::trunc(month_utc * 30.6001));
-  if (month_utc == 14 || month_utc == 15) {
-    year_utc += 1;
-    month_utc -= 12;
-  }
-  year_utc += 1900;
-  month_utc -= 1;
-
   const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
   const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
 
   const double local_offset =
       (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
 
-  std::tm utc_plus_offset_tm{};
-  utc_plus_offset_tm.tm_year  = year_utc - 1900;
-  utc_plus_offset_tm.tm_mon   = month_utc - 1;
-  utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
-  utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
-  utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
-  utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
-
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  // Seconds since 1970-01-01 (MJD 40587). We want to stay independent of the host's time zone and
+  // daylight saving rules, so std::mktime & std::localtime are not an option here.
+  const std::time_t local_t = (static_cast<std::time_t>(modified_julian_date) - 40587) * 86400 +
+                              static_cast<std::time_t>(hour_utc) * 3600 +
+                              static_cast<std::time_t>(minute_utc) * 60 +
+                              static_cast<std::time_t>(local_offset * 3600.0);
+  const std::tm* const local_tm = std::gmtime(&local_t);
 
-  const bool is_date_valid =
-      hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
+  const bool is_date_valid = local_tm != nullptr && hour_utc <= 23 && minute_utc <= 59 &&
+                             std::fabs(std::trunc(local_offset)) <= 14.0;
   if (is_date_valid) {
     std::array<char, 100> buffer{};
     const int local_offset_hour = static_cast<int>(std::fabs(std::trunc(local_offset)));
-- 
2.43.0


From cf872761400bb5a55f1126f26d738b0787ae925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 03/24] fix: cut RadioText Plus tags at character boundaries

The length of a multi-byte UTF-8 character was miscounted, so a tag starting
after or ending with a non-ASCII character split it in half and the whole
group was lost as invalid JSON; and a tag reaching the last character of a
64-character message was dropped.
---
 src/text/rdsstring.cc |  2 +-
 src/text/rdsstring.hh | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..4317cb1 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,7 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..553646c 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+  // Continuation bytes belong to the same character
+  std::size_t nbyte{byte_start + 1};
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
     nbyte++;
-
-    if (nbyte >= str.length())
-      return 0;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From 3076583868de243d406e37223f9f44d068f46181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 04/24] fix: don't store a missing block 3 in enhanced
 RadioText

---
 src/groups.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index 2879057..24c1205 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1232,7 +1232,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
-- 
2.43.0


From dea366da96620fda62c5f3fb74927ac449464867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 05/24] fix: make room for a full 128-byte enhanced RadioText
 message

Segments 16-31 were dropped, so longer messages were shown as complete but
truncated to 64 bytes, or not at all.
---
 src/groups.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index 24c1205..61136a5 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -234,7 +234,10 @@ void Group::printHex(std::ostream& stream) const {
  * @param which_channel Which PCM channel the station is on
  */
 Station::Station(const Options& options, int which_channel)
-    : options_(options), which_channel_(which_channel), tmc_(options) {}
+    : options_(options), which_channel_(which_channel), tmc_(options) {
+  // Enhanced RadioText: 32 segments of 4 bytes
+  ert_.text.resize(128);
+}
 
 Station::Station(const Options& options, int which_channel, std::uint16_t pi)
     : Station(options, which_channel) {
-- 
2.43.0


From 8638c5814bc98e2987ccae44a3cb09ebcf20202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:18 +0000
Subject: [PATCH 06/24] fix: decode UCS-2 enhanced RadioText

It's big-endian as transmitted, regardless of the host, and zero bytes are
significant; a 0x0D byte only ends the message as part of U+000D.
---
 src/text/rdsstring.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 4317cb1..1194bd4 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -60,7 +60,7 @@ std::string getRDSCharString(std::uint8_t code) {
 
 // \throws Conversion errors from iconvpp
 std::string decodeUCS2(const std::string& src) {
-  static iconvpp::converter converter("UTF-8", "UCS-2");
+  static iconvpp::converter converter("UTF-8", "UCS-2BE");
 
   std::string dst;
   converter.convert(src, dst);
@@ -109,6 +109,14 @@ std::size_t RDSString::getReceivedLength() const {
 
 // Length, in bytes, up to the first string terminator, or the full allocated length
 std::size_t RDSString::getExpectedLength() const {
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < data_.size(); i += 2) {
+      if (data_[i] == 0x00 && data_[i + 1] == kStringTerminator)
+        return i + 2;
+    }
+    return data_.size();
+  }
+
   const auto terminated_length =
       std::distance(data_.cbegin(),
                     std::find_if(data_.cbegin(), data_.cend(),
@@ -158,6 +166,18 @@ std::string RDSString::str() const {
 std::vector<std::uint8_t> RDSString::getData() const {
   const std::size_t len{getExpectedLength()};
   std::vector<std::uint8_t> result(len);
+
+  // Big-endian 16-bit characters; a single 0x00 or 0x0D byte has no meaning of its own
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < len; i += 2) {
+      const bool is_blank = sequential_length_ <= i + 1 ||
+                            (data_[i] == 0x00 && data_[i + 1] == kStringTerminator);
+      result[i]     = is_blank ? 0x00 : data_[i];
+      result[i + 1] = is_blank ? kBlankSpace : data_[i + 1];
+    }
+    return result;
+  }
+
   for (std::size_t i = 0; i < len; i++) {
     result[i] = sequential_length_ > i && data_[i] != kStringTerminator && data_[i] != 0x00
                     ? data_[i]
-- 
2.43.0


From 5a95b2b21c2c205816db67d9b590264e09fc6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:25 +0000
Subject: [PATCH 07/24] fix: don't show missing blocks as transparent data

---
 src/groups.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 61136a5..5f217ce 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -793,6 +793,9 @@ void Station::decodeType5(const Group& group) {
   json_["transparent_data"]["address"] = address;
 
   if (group.getType().version == GroupType::Version::A) {
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
         getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0)};
@@ -820,6 +823,9 @@ void Station::decodeType5(const Group& group) {
 
     json_["transparent_data"]["as_text"] = decoded_text.str();
   } else {
+    if (!group.has(BLOCK4))
+      return;
+
     const std::array<std::uint8_t, 2> data{getUint8(group.get(BLOCK4), 8),
                                            getUint8(group.get(BLOCK4), 0)};
 
-- 
2.43.0


From 8d3511724366e95a53b8605e3b1d55ee3ec4d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 08/24] fix: don't show missing blocks as DAB frequency or
 ensemble id

---
 src/groups.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index 5f217ce..6887e74 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1271,8 +1271,6 @@ void Station::parseDAB(const Group& group) {
 
     const std::uint32_t freq = 16 * getBits<18>(group.get(BLOCK2), group.get(BLOCK3), 0);
 
-    json_["dab"]["kilohertz"] = freq;
-
     const std::map<std::uint32_t, std::string> dab_channels({
         // clang-format off
         { 174'928,  "5A"}, { 176'640,  "5B"}, { 178'352,  "5C"}, { 180'064,  "5D"},
@@ -1293,11 +1291,17 @@ void Station::parseDAB(const Group& group) {
         {1490'624,  "LW"}  // clang-format on
     });
 
-    if (dab_channels.find(freq) != dab_channels.end()) {
-      json_["dab"]["channel"] = dab_channels.at(freq);
+    if (group.has(BLOCK3)) {
+      json_["dab"]["kilohertz"] = freq;
+
+      if (dab_channels.find(freq) != dab_channels.end()) {
+        json_["dab"]["channel"] = dab_channels.at(freq);
+      }
     }
 
-    json_["dab"]["ensemble_id"] = getPrefixedHexString<4>(group.get(BLOCK4));
+    if (group.has(BLOCK4)) {
+      json_["dab"]["ensemble_id"] = getPrefixedHexString<4>(group.get(BLOCK4));
+    }
   }
 }
 
-- 
2.43.0


From d52a6117383dfe8d7cd66e538d674251caaa6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 09/24] fix: don't add or drop entries when resolving the road
 of a TMC point

Looking up the road name with operator[] added an empty name to the table
(and to num_names) for every unknown name id, and a point on a segment of an
unlisted road was dropped altogether. The road name is resolved through
roa_lcd when a message is printed, so the assignments had no other effect.
---
 src/tmc/locationdb.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..f294996 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -142,11 +142,8 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
       if (locdb.names.find(rnid) != locdb.names.end())
         point.road_name = locdb.names[rnid];
 
-      if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end()) {
-        point.roa_lcd   = locdb.segments.at(point.seg_lcd).roa_lcd;
-        point.road_name = locdb.roads.at(point.roa_lcd).name;
-        point.road_name = locdb.names[rnid];
-      }
+      if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end())
+        point.roa_lcd = locdb.segments.at(point.seg_lcd).roa_lcd;
 
       locdb.points[point.lcd] = point;
     } catch (const std::exception&) {
-- 
2.43.0


From 07d9ac1c27ab37b9b5a5d114ae9e20687ac267f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:03 +0000
Subject: [PATCH 10/24] fix: convert TMC road numbers to UTF-8 like the names

A road number in the table's declared encoding was printed as is, making the
record unencodable. Also don't form &in_buf[0] on an empty vector, as road
numbers are often empty.
---
 ext/iconvpp/iconv.hpp | 2 +-
 src/tmc/locationdb.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/iconvpp/iconv.hpp b/ext/iconvpp/iconv.hpp
index c235d03..63d464a 100644
--- a/ext/iconvpp/iconv.hpp
+++ b/ext/iconvpp/iconv.hpp
@@ -68,7 +68,7 @@ class converter {
     // copy the string to a buffer as iconv function requires a non-const char
     // pointer.
     std::vector<char> in_buf(input.begin(), input.end());
-    char* src_ptr = &in_buf[0];
+    char* src_ptr = in_buf.data();
     size_t src_size = input.size();
 
     std::vector<char> buf(buf_size_);
diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index f294996..7c77502 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -92,7 +92,7 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
     try {
       Road road;
       road.lcd         = get_uint16(table, row, "LCD");
-      road.road_number = get_string(table, row, "ROADNUMBER");
+      road.road_number = to_utf8(get_string(table, row, "ROADNUMBER"), converter);
       int rnid         = 0;
       if (row_contains(table, row, "RNID"))
         rnid = get_int(table, row, "RNID");
-- 
2.43.0


From 167daa5b3c1fd802789561ae63e04b5d536b5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:58 +0000
Subject: [PATCH 11/24] fix: don't process the end of ASCII bit input as a bit

The reader returned a zero bit at end of file, which could complete a group
whose last bit was never received.
---
 src/redsea.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..93e1c28 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -169,8 +169,11 @@ int processASCIIBitsInput(const Options& options) {
   Channel channel(options, 0, options.feed_thru ? std::cerr : std::cout);
   AsciiBitReader ascii_reader(options);
 
-  while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+  while (true) {
+    const bool bit = ascii_reader.readBit();
+    if (ascii_reader.eof())
+      break;
+    channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0


From 2d50b3686ecca6199968b9418a65db803858d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 12/24] fix: treat blocks cut off at the end of a hex line as
 missing

They were reported as received, with zeroes in place of the missing digits.
---
 src/io/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 6ee8853..da8631b 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -233,7 +233,7 @@ Group readHexGroup(const Options& options) {
         line = line.substr(1);
       }
 
-      if (block_still_valid) {
+      if (block_still_valid && which_nibble == 4) {
         block.is_received = true;
         group.setBlock(block_num, block);
       }
-- 
2.43.0


From 21366e5ef91e6c707cbf5e1626384edb892ec8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:04 +0000
Subject: [PATCH 13/24] fix: don't add anything to fed-through hex, TEF and bit
 input

An extra newline (hex, TEF) or 0xFF byte (bits) was echoed at end of file.
---
 src/io/input.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index da8631b..23f9057 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -166,7 +166,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
@@ -193,8 +193,11 @@ Group readHexGroup(const Options& options) {
   while (!(group_complete || std::cin.eof())) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.length() < 16)
       continue;
@@ -257,8 +260,11 @@ Group readTEFGroup(const Options& options) {
   while (!std::cin.eof()) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.substr(0, 1) == "P") {
       // Lines starting with 'P' contain the PI code
-- 
2.43.0


From 9c5cbca731ed5e4f125863aafed337344de05414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 14/24] fix: feed raw PCM samples through unchanged

Samples were echoed through a float conversion with different scaling in each
direction, which altered half of the sample values by one.
---
 src/io/input.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 23f9057..2398cd3 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include <sndfile.h>
 
@@ -122,8 +123,14 @@ void MPXReader::fillBuffer() {
 
   buffer_.used_size = static_cast<size_t>(num_read_);
 
-  if (feed_thru_)
-    sf_write_float(outfile_, buffer_.data.data(), num_read_);
+  if (feed_thru_) {
+    // Libsndfile scales floats by 32768 when reading but by 32767 when writing, so we get back to
+    // the original 16-bit samples by ourselves
+    std::vector<std::int16_t> samples(buffer_.used_size);
+    for (std::size_t i = 0; i < samples.size(); i++)
+      samples[i] = static_cast<std::int16_t>(std::lround(buffer_.data[i] * 32768.f));
+    sf_write_short(outfile_, samples.data(), num_read_);
+  }
 }
 
 // @throws logic_error if channel is out-of-bounds
-- 
2.43.0


From fc297a8bb661bf85a04ceef7f3d6cbbc907e5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:10 +0000
Subject: [PATCH 15/24] fix: separate the channels also in the last chunk of
 input

At end of file, every channel of a multi-channel signal got the interleaved
samples of all channels.
---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 2398cd3..7d9dc92 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -140,9 +140,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From b8a9ec53a06766f332997bdb1d63db2387abb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:13 +0000
Subject: [PATCH 16/24] fix: timestamp multi-channel input

The reception time wasn't copied to the single-channel buffers, so that all
groups were stamped 1970.
---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 7d9dc92..b43a591 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -143,7 +143,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From c922f1f8d4bca8c7238d8e6bd29f65a9bacdbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:16 +0000
Subject: [PATCH 17/24] fix: keep timestamps monotonic for all input types

Hex input wasn't protected at all against the system clock stepping back, and
bit input only for one group.
---
 src/channel.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..5fa4a85 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -99,16 +99,16 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 // Handle this group as if it was just received.
 // \param which_stream Which data stream was it received on, 0..3
 void Channel::processGroup(Group group, std::size_t which_stream) {
-  if (options_.timestamp && !group.hasTime()) {
-    auto now = std::chrono::system_clock::now();
-    group.setTime(now);
+  if (options_.timestamp) {
+    if (!group.hasTime())
+      group.setTime(std::chrono::system_clock::now());
 
     // When the source is faster than real-time, backwards timestamp calculation
     // produces meaningless results. We want to make sure that the time stays monotonic.
-    if (now < last_group_rx_time_) {
+    if (group.getRxTime() < last_group_rx_time_) {
       group.setTime(last_group_rx_time_);
     }
-    last_group_rx_time_ = now;
+    last_group_rx_time_ = group.getRxTime();
   }
 
   if (options_.bler) {
-- 
2.43.0


From e500d0e2d4a0439b5911c18b67e58134f8e1ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:43 +0000
Subject: [PATCH 18/24] fix: don't crash on a location table in an unsupported
 encoding

The exception from iconvpp was not caught anywhere.
---
 src/tmc/locationdb.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 7c77502..f74a88a 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -19,6 +19,7 @@
 #include <climits>
 #include <cstdint>
 #include <exception>
+#include <iostream>
 #include <ostream>
 #include <regex>
 #include <string>
@@ -40,6 +41,18 @@ std::string to_utf8(const std::string& input, const iconvpp::converter& converte
   return converted;
 }
 
+// \return The encoding if it's supported, otherwise UTF-8
+std::string getSupportedEncoding(const std::string& encoding) {
+  try {
+    const iconvpp::converter converter("UTF-8", encoding);
+    return encoding;
+  } catch (const std::exception&) {
+    std::cerr << "warning: location table encoding '" << encoding
+              << "' is not supported, assuming UTF-8" << std::endl;
+    return "UTF-8";
+  }
+}
+
 }  // namespace
 
 std::uint16_t readLTN(const std::string& directory) {
@@ -75,7 +88,7 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   if (std::regex_match(encoding, std::regex("ISO.8859-15\\b.*")))
     encoding = "ISO-8859-15";
 
-  const iconvpp::converter converter("UTF-8", encoding);
+  const iconvpp::converter converter("UTF-8", getSupportedEncoding(encoding));
 
   CSVTable table = readCSVWithTitles(directory + "/NAMES.DAT", ';');
   for (const CSVRow& row : table.rows) {
-- 
2.43.0


From 9eecff783c734153a922fe8f198bb84f246939e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 19/24] fix: reject channel counts beyond 32 bits and a sample
 rate of NaN

A channel count was checked only after truncation to 32 bits, and NaN is
neither below the minimum nor above the maximum sample rate.
---
 src/options.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..1b94965 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const auto num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
         constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels            = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
@@ -135,8 +136,9 @@ Options getOptions(int argc, char** argv) {
         if (errno == ERANGE) {
           throw std::runtime_error("check the sample rate");
         }
-        if (options.samplerate < kMinimumSampleRate_Hz ||
-            options.samplerate > kMaximumSampleRate_Hz) {
+        // (negated so as to also reject NaN)
+        if (!(options.samplerate >= kMinimumSampleRate_Hz &&
+              options.samplerate <= kMaximumSampleRate_Hz)) {
           throw std::runtime_error("sample rate was set to " + std::to_string(options.samplerate) +
                                    ", but it must be between " +
                                    std::to_string(kMinimumSampleRate_Hz) + " and " +
-- 
2.43.0


From c4afffcb94b53fd1e29fd9a67fca27c5a97ac7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:59 +0000
Subject: [PATCH 20/24] fix: ignore TMC service keys with an out-of-range bit
 position

Shifting by it would be undefined behaviour.
---
 src/tmc/tmc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..2b2caae 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -370,6 +370,10 @@ std::map<std::uint16_t, ServiceKey> loadServiceKeyTable() {
       continue;
     }
 
+    // Bit position in a 16-bit location code
+    if (key.xorstart > 15)
+      continue;
+
     result.insert({encid, key});
   }
 
-- 
2.43.0


From 5ca463d08a961864f12c8327e604c5e4b32746fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:02 +0000
Subject: [PATCH 21/24] fix: country code D1/F is Nigeria

---
 src/tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables.cc b/src/tables.cc
index d3bd285..9621061 100644
--- a/src/tables.cc
+++ b/src/tables.cc
@@ -81,7 +81,7 @@ std::string getCountryString(std::uint16_t cc, std::uint16_t ecc) {
       {0xD0,
        {"cm", "cf", "dj", "mg", "ml", "ao", "gq", "ga", "gn", "za", "bf", "cg", "tg", "bj", "mw"}},
       {0xD1,
-       {"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "bg"}},
+       {"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "ng"}},
       {0xD2,
        {"sl", "zw", "mz", "ug", "sz", "ke", "so", "ne", "td", "gw", "zr", "ci", "tz", "zm", "--"}},
       {0xD3,
-- 
2.43.0


From 9cc5e7f3e0f9e78ab4ec10d9a6d0c960c66a59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:33 +0000
Subject: [PATCH 22/24] fix: don't accept incomplete or unparsable numbers in
 TEF6686 input

A truncated or corrupted number was accepted as far as it could be parsed, and
a wrong value reported.
---
 src/io/input.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index b43a591..846f501 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -257,6 +257,20 @@ Group readHexGroup(const Options& options) {
   return group;
 }
 
+namespace {
+
+// \throws std::exception if there aren't as many hex digits at this position
+std::uint16_t parseHexDigits(const std::string& line, std::size_t pos, std::size_t num_digits) {
+  const std::string digits = line.substr(pos, num_digits);
+  if (digits.length() < num_digits ||
+      digits.find_first_not_of("0123456789ABCDEFabcdef") != std::string::npos)
+    throw std::invalid_argument("not a hex number");
+
+  return static_cast<std::uint16_t>(std::stol(digits, nullptr, 16));
+}
+
+}  // namespace
+
 // Read one group in the TEF6686 output format
 Group readTEFGroup(const Options& options) {
   Group group;
@@ -276,8 +290,7 @@ Group readTEFGroup(const Options& options) {
       // e.g. PA540
       Block block1;
       try {
-        line               = line.substr(1);
-        block1.data        = static_cast<std::uint16_t>(std::stol(line, nullptr, 16));
+        block1.data        = parseHexDigits(line, 1, 4);
         block1.is_received = true;
       } catch (const std::exception&) {
         continue;
@@ -291,11 +304,11 @@ Group readTEFGroup(const Options& options) {
       // https://github.com/PE5PVB/TEF6686_ESP32/blob/dfa56f9dbe5dbf8bf32b4f1631abe64d552a25dd/src/rds.cpp#L406
       try {
         std::array<Block, 3> blocks{};
-        blocks[0].data = std::stol(line.substr(1, 4), nullptr, 16);
-        blocks[1].data = std::stol(line.substr(5, 4), nullptr, 16);
-        blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
+        blocks[0].data = parseHexDigits(line, 1, 4);
+        blocks[1].data = parseHexDigits(line, 5, 4);
+        blocks[2].data = parseHexDigits(line, 9, 4);
 
-        const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
+        const std::uint32_t rds_err = parseHexDigits(line, 13, 2);
         blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0b11U) == 0;
         blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0b11U) == 0;
         blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0b11U) == 0;
-- 
2.43.0


From 599ae933a6480e1fbf4a487e4b05c7e21f6cbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:49 +0000
Subject: [PATCH 23/24] fix: support all sample rates up to the documented 40
 MHz

Rates above 34.2 MHz passed option validation but then threw an uncaught
exception, because the resampler's limit was set higher than liquid's.
---
 src/dsp/liquid_wrappers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..5878a4b 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -220,7 +220,7 @@ Resampler::Resampler(std::uint32_t length)
 
 void Resampler::setRatio(float ratio) {
   // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  if (ratio < 0.004f || ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From 1ad444ef5ad3e245428433839cedf9f16baff2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:00 +0000
Subject: [PATCH 24/24] fix: recover the AGC after silence

After a second of digital silence the AGC overshot so badly when the signal
(re)appeared that its gain collapsed below liquid's threshold for updates.
It stayed there forever, and most groups were lost from then on.
---
 src/dsp/liquid_wrappers.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 5878a4b..d1798c2 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -48,6 +48,13 @@ AGC::~AGC() {
 }
 
 std::complex<float> AGC::execute(std::complex<float> s) {
+  // The gain grows without bounds during silence. When a signal then appears, the extreme output
+  // would make liquid's AGC reduce the gain so far that it never recovers.
+  constexpr float kMaxMagnitude{10.f};
+  const float magnitude = std::abs(s);
+  if (magnitude * agc_crcf_get_gain(object_) > kMaxMagnitude)
+    agc_crcf_set_gain(object_, kMaxMagnitude / magnitude);
+
   std::complex<float> result;
   agc_crcf_execute(object_, s, &result);
   return result;
-- 
2.43.0

