From faa08cffc0f3d61efcd96ef1e7d12f68b80982a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 01/15] fix: send_sysex8 chooses complete/start from the
 encoded size (two manufacturer ID bytes)

---
 inc/midi/sysex.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..f3c19df 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -362,11 +362,13 @@ inline std::vector<data_message> as_sysex7_packets(const sysex7& sysex, group_t
 template<typename Sender>
 void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&& sender)
 {
-    constexpr size_t max_payload_size = 13;
+    constexpr size_t max_payload_size     = 13;
+    constexpr size_t manufacturer_id_size = 2; // manufacturer IDs are always encoded as two bytes in sysex8
 
     // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    auto p = (sysex.data.size() + manufacturer_id_size <= max_payload_size)
+               ? make_sysex8_complete_packet(stream_id, group)
+               : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From 16c30698e8483b441f65ed5eb782168b4caba099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 02/15] fix: sysex collectors drop an oversized message
 completely and enforce the limit on data bytes

---
 src/sysex_collector.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..b80472d 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -78,13 +78,6 @@ void sysex7_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +105,12 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if (m_max_sysex_data_size && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -197,13 +196,6 @@ void sysex8_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +228,12 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if (m_max_sysex_data_size && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From c4598e1575ae6c0f10c4af8e302abc8092bbab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 03/15] fix: discovery views check the message size before
 reading the message version

---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From e141b614ebe3daf549b6566761b9633475564e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 04/15] fix: make_profile_specific_data_message does not
 truncate the data size

---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From 080da45caf2872e991855efdf505717eb642d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 05/15] fix: make_rjson only writes valid JSON numbers
 unquoted, accept empty values

---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..9072932 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty() || ((s[0] == '0') && (s.size() > 1)))
+            return false; // no digits or leading zero, not a JSON number
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 3a233ff1b29f309eb0929eba3afb218dca639690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 06/15] fix: avoid signed overflow in pitch_increment(double)
 for values rounding to -64

---
 inc/midi/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..6ba8824 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,7 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        value = static_cast<int32_t>(-static_cast<int64_t>(pitch_7_25(-d).value));
     }
 }
 
-- 
2.43.0


From f95c4066dcf91eb787491306909c620f00288ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 07/15] fix: get_channel_pitch_bend_value masks MIDI 1 data
 bytes to 7 bits

---
 inc/midi/channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/channel_voice_message.h b/inc/midi/channel_voice_message.h
index 545f659..4464d0c 100644
--- a/inc/midi/channel_voice_message.h
+++ b/inc/midi/channel_voice_message.h
@@ -241,7 +241,7 @@ constexpr pitch_bend get_channel_pitch_bend_value(const universal_packet& p)
     // assert(is_channel_pitch_bend_message(p));
     if (p.type() == packet_type::midi1_channel_voice)
     {
-        return pitch_bend{ uint14_t(p.byte3() | (p.byte4() << 7)) };
+        return pitch_bend{ uint14_t((p.byte3() & 0x7F) | ((p.byte4() & 0x7F) << 7)) };
     }
     return pitch_bend{ p.data[1] };
 }
-- 
2.43.0


From 94eacf691da61d6bcb80ead13c4ca014e549a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 08/15] fix: stream message names keep all 8 bits of UTF-8
 characters

---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From df0871daaabad1b5f17f5340cb97c3d97908eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 09/15] fix: make_function_block_info_message supports blocks
 spanning all 16 groups

---
 inc/midi/stream_message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 39eddf0..a181c86 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -619,7 +619,7 @@ constexpr stream_message make_function_block_info_message(uint7_t function_block
     m.set_byte(2, 0x80u | (function_block & 0x1F));
     m.set_byte(3, ((direction & 0x03u) << 4) | (direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     return m;
 }
 
@@ -640,7 +640,7 @@ constexpr stream_message make_function_block_info_message(uint7_t
                (((options.ui_hint ? options.ui_hint : options.direction) & 0x03u) << 4) |
                  ((options.midi1 & 0x03u) << 2) | (options.direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     m.set_byte(6, options.ci_message_version);
     m.set_byte(7, options.max_num_sysex8_streams);
     return m;
-- 
2.43.0


From 74efb69edfbd9d59c4a0aa664bf106b5aee0723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:31 +0000
Subject: [PATCH 10/15] fix: reading a truncated universal packet from a stream
 fails

---
 src/universal_packet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..fb67247 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -72,13 +72,13 @@ std::istream& operator>>(std::istream& in, universal_packet& p)
 {
     iobase_restore_flags flag_restorer(in);
     in >> std::hex >> p.data[0];
-    if (in.good())
+    if (in)
     {
         const auto num_words = p.size();
         for (auto w = 1u; w < num_words; ++w)
         {
             in >> std::hex >> p.data[w];
-            if (!in.good())
+            if (!in)
                 break;
         }
     }
-- 
2.43.0


From cff9272ddd8d515474421b3823fb5a01bdb4604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:38 +0000
Subject: [PATCH 11/15] fix: MIDI 2 channel voice view returns all 8 bits of
 byte 4

Note attribute types and per-note controller indices are 8 bit values: the view
truncated controllers above 127, and as_midi1_channel_voice_message() translated
notes with attribute 0x80 as if they had none.
---
 inc/midi/midi2_channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/midi2_channel_voice_message.h b/inc/midi/midi2_channel_voice_message.h
index ffd4d74..d98ff4c 100644
--- a/inc/midi/midi2_channel_voice_message.h
+++ b/inc/midi/midi2_channel_voice_message.h
@@ -92,7 +92,7 @@ struct midi2_channel_voice_message_view
     constexpr status_t  status() const { return p.status() & 0xF0; }
     constexpr channel_t channel() const { return p.status() & 0x0F; }
     constexpr uint7_t   byte3() const { return p.byte3() & 0x7F; }
-    constexpr uint7_t   byte4() const { return p.byte4() & 0x7F; }
+    constexpr uint8_t   byte4() const { return p.byte4(); }
     constexpr uint32_t  data() const { return p.data[1]; }
 
   private:
-- 
2.43.0


From d947b4b29d4c07ccef70e97f21508012ed8e2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:53 +0000
Subject: [PATCH 12/15] fix: printing a packet ignores and restores alignment,
 base prefix and fill of the stream

---
 src/universal_packet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index fb67247..a83105f 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -57,12 +57,15 @@ std::ostream& operator<<(std::ostream& out, const universal_packet& p)
 {
     iobase_restore_flags flag_restorer(out);
 
+    out << std::hex << std::right << std::noshowbase;
+    const auto fill = out.fill('0');
     for (auto w = 0u; w < p.size(); ++w)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::setw(8) << p.data[w];
     }
+    out.fill(fill);
     return out;
 }
 
-- 
2.43.0


From 43bddad08ce1f1b16c340758ebaaab1daf9ae801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:57 +0000
Subject: [PATCH 13/15] fix: clock follower keeps message order when a clock
 arrives on time after an early one

---
 src/jitter_reduction_timestamps.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..f18ac10 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -86,15 +86,14 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     {
         // use received as new reference time
         m_clock_time = received;
-
-        if (received > m_message_time) // ensure that message order is preserved
-        {
-            m_message_time = received;
-        }
     }
     else
     {
-        m_clock_time   = expected_receive_time;
+        m_clock_time = expected_receive_time;
+    }
+
+    if (received > m_message_time) // ensure that message order is preserved
+    {
         m_message_time = received;
     }
 
-- 
2.43.0


From 6fae31ccaa5e2192518aa22a0f2bc5efba2b552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:06 +0000
Subject: [PATCH 14/15] fix: byte stream parser updates its state before
 invoking the packet callback

A packet callback that throws or resets the parser while SysEx packets are
emitted left the parser with a full packet: following data bytes were written
behind the SysEx payload (assertion in set_byte) and a reset was lost.
---
 src/midi1_byte_stream.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/midi1_byte_stream.cpp b/src/midi1_byte_stream.cpp
index 5c4bf9d..9d554a3 100644
--- a/src/midi1_byte_stream.cpp
+++ b/src/midi1_byte_stream.cpp
@@ -314,14 +314,17 @@ void midi1_byte_stream_parser::sysex_continue_packet(uint8_t byte)
     m_packet.set_byte(m_packet_byte, byte);
     if (++m_packet_byte == 8)
     {
-        if (m_invoke_callbacks)
-        {
-            m_packet.set_byte(1, (m_packet.status() & 0xF0) + 6);
-            m_packet_callback(m_packet);
-        }
+        auto packet = m_packet;
+        packet.set_byte(1, (packet.status() & 0xF0) + 6);
 
+        // update the state first, the callback may throw or reset the parser
         m_packet      = make_sysex7_continue_packet(m_group);
         m_packet_byte = 2;
+
+        if (m_invoke_callbacks)
+        {
+            m_packet_callback(packet);
+        }
     }
 }
 
@@ -348,13 +351,15 @@ void midi1_byte_stream_parser::sysex_end_packet()
         m_packet.set_byte(1, data_status::sysex7_end + cur_packet_size);
     }
 
+    // update the state first, the callback may throw or reset the parser
+    const auto packet = m_packet;
+    m_packet          = universal_packet{};
+    m_packet_byte     = 2;
+
     if (m_invoke_callbacks)
     {
-        m_packet_callback(m_packet);
+        m_packet_callback(packet);
     }
-
-    m_packet      = universal_packet{};
-    m_packet_byte = 2;
 }
 
 //--------------------------------------------------------------------------
-- 
2.43.0


From 871e24c55328cd2d7e50dd0da5d7b3b496ca67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:06 +0000
Subject: [PATCH 15/15] fix: sysex collectors forget a delivered message also
 when the callback throws

Manufacturer ID and data of the delivered message were prepended to the next
message otherwise.
---
 src/sysex_collector.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index b80472d..0a65e17 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -121,12 +121,20 @@ void sysex7_collector::feed(const universal_packet& p)
     {
     case data_status::sysex7_complete:
     case data_status::sysex7_end:
+    {
+        // reset even if the callback throws
+        const struct resetter
+        {
+            sysex7_collector& collector;
+            ~resetter() { collector.reset(); }
+        } reset_on_exit{ *this };
+
         if (m_cb)
         {
             m_cb(m_sysex7);
         }
-        reset();
         break;
+    }
     default:
         m_state = data_status::sysex7_continue;
         break;
@@ -244,12 +252,20 @@ void sysex8_collector::feed(const universal_packet& p)
     {
     case packet_format::complete:
     case packet_format::end:
+    {
+        // reset even if the callback throws
+        const struct resetter
+        {
+            sysex8_collector& collector;
+            ~resetter() { collector.reset(); }
+        } reset_on_exit{ *this };
+
         if (m_cb)
         {
             m_cb(m_sysex8, m_stream_id);
         }
-        reset();
         break;
+    }
     default:
         m_state = packet_format::cont;
         break;
-- 
2.43.0

