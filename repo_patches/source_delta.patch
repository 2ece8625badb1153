From da43f6472e3721849034960cedb8cfe0bc1a69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 01/20] fix: crc24q_bits reads one byte past a message with a
 whole number of bytes

---
 src/edc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..abbdae0 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -109,7 +109,8 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
+  /* With a whole number of bytes there are no bits left to read. */
+  acc = (acc << 8) | (n_bits % 8 != 0 ? *buf : 0);
   if (invert) {
     acc ^= 0xFFu;
   }
-- 
2.43.0


From 9f39f7c3d94bc6c79a786220131bd0dbb0e904b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 02/20] fix: bit and byte stream overflow checks wrap around
 for huge positions and lengths

---
 include/swiftnav/bitstream.h  | 4 ++--
 include/swiftnav/bytestream.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..5a33363 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -88,7 +88,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..56fcf2c 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((u64)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
-- 
2.43.0


From 94e36697b8fccf03309d2897be6818cf3e694318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 03/20] fix: remove_element with an element above all others
 copied 2^32 - 1 elements

---
 src/set.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..38c580b 100644
--- a/src/set.c
+++ b/src/set.c
@@ -226,6 +226,12 @@ u32 remove_element(
    * This element will be removed.
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
+  if (na == 0) {
+    return index;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
 
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
-- 
2.43.0


From 3012e22644ac392929ac5f2b41f89abfcfcba9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 04/20] fix: registering a status report node again, or with a
 NULL callback, corrupted the list

---
 src/subsystem_status_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..e5941cd 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,6 +20,12 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
+  /* A node is in the list at most once; a NULL callback only deregisters. */
+  swiftnav_subsystem_status_report_callback_deregister(callback_node);
+  if (callback == NULL) {
+    return;
+  }
+
   callback_node->callback = callback;
   callback_node->context = context;
   callback_node->next = NULL;
-- 
2.43.0


From 113d8bfa506b0d4727e34b85b599f3bccc4e0f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 05/20] fix: invalid codes and constellations index the signal
 tables out of bounds

CODE_INVALID is -1, so classifying, comparing, hashing or naming an invalid
signal read the element before the table. Use the table's own element for
the invalid code, and the unknown string for invalid constellations.
---
 src/signal.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..804f59d 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -917,8 +917,16 @@ static const char *sub_constellation_table[SUB_CONSTELLATION_COUNT] = {
     [SUB_CONSTELLATION_QZS] = "QZS",
     [SUB_CONSTELLATION_GAL] = "GAL"};
 
+/** String representation used for unknown values. */
+static const char *unknown_str = "?";
+
+/** Table element of a code, the one of the invalid code if it is unknown. */
+static const code_table_element_t *code_element(code_t code) {
+  return &code_table[code_valid(code) ? code : CODE_COUNT];
+}
+
 const char *constellation_to_string(const constellation_t cons) {
-  return constellation_table[cons];
+  return constellation_valid(cons) ? constellation_table[cons] : unknown_str;
 }
 
 constellation_t constellation_string_to_enum(const char *constellation_string) {
@@ -931,6 +939,9 @@ constellation_t constellation_string_to_enum(const char *constellation_string) {
 }
 
 const char *sub_constellation_to_string(const sub_constellation_t sub_cons) {
+  if ((sub_cons < 0) || (sub_cons >= SUB_CONSTELLATION_COUNT)) {
+    return unknown_str;
+  }
   return sub_constellation_table[sub_cons];
 }
 
@@ -1002,9 +1013,6 @@ static const sbas_prn_table_t sbas_prn_table[SBAS_COUNT] = {
     [SBAS_MSAS] = {{129, 137}},
 };
 
-/** String representation used for unknown code values. */
-static const char *unknown_str = "?";
-
 /** Construct a gnss_signal_t.
  *
  * \note This function does not check the validity of the resulting signal.
@@ -1149,7 +1157,7 @@ u16 sid_to_code_index(gnss_signal_t sid) {
  * \return Constellation to which sid belongs.
  */
 constellation_t sid_to_constellation(gnss_signal_t sid) {
-  return code_table[sid.code].constellation;
+  return code_element(sid.code)->constellation;
 }
 
 /** Get the constellation to which a code belongs.
@@ -1288,7 +1296,9 @@ bool code_requires_decoder(code_t code) {
   return code_table[code].requires_data_decoder;
 }
 
-const char *code_to_string(const code_t code) { return code_table[code].str; }
+const char *code_to_string(const code_t code) {
+  return code_element(code)->str;
+}
 
 /**
  * Returns number of SV belongs to a constellation
@@ -1333,7 +1343,7 @@ float code_to_phase_alignment(code_t code) {
  * \return  True if this is a GPS signal.
  */
 bool is_gps(const code_t code) {
-  return (CONSTELLATION_GPS == code_table[code].constellation);
+  return (CONSTELLATION_GPS == code_element(code)->constellation);
 }
 
 /** Is this an SBAS signal?
@@ -1342,7 +1352,7 @@ bool is_gps(const code_t code) {
  * \return  True if this is an SBAS signal.
  */
 bool is_sbas(const code_t code) {
-  return (CONSTELLATION_SBAS == code_table[code].constellation);
+  return (CONSTELLATION_SBAS == code_element(code)->constellation);
 }
 
 /** Is this a GLO signal?
@@ -1351,7 +1361,7 @@ bool is_sbas(const code_t code) {
  * \return  True if this is a GLO signal.
  */
 bool is_glo(const code_t code) {
-  return (CONSTELLATION_GLO == code_table[code].constellation);
+  return (CONSTELLATION_GLO == code_element(code)->constellation);
 }
 
 /** Is this a BDS2 signal?
@@ -1360,7 +1370,7 @@ bool is_glo(const code_t code) {
  * \return  True if this is a Beidou generation 2 signal.
  */
 bool is_bds2(const code_t code) {
-  return (CONSTELLATION_BDS == code_table[code].constellation);
+  return (CONSTELLATION_BDS == code_element(code)->constellation);
 }
 
 /** Is this a Galileo signal?
@@ -1369,7 +1379,7 @@ bool is_bds2(const code_t code) {
  * \return  True if this is a Galileo signal.
  */
 bool is_gal(const code_t code) {
-  return (CONSTELLATION_GAL == code_table[code].constellation);
+  return (CONSTELLATION_GAL == code_element(code)->constellation);
 }
 
 /** Is this a QZSS signal?
@@ -1378,7 +1388,7 @@ bool is_gal(const code_t code) {
  * \return  True if this is a QZSS signal.
  */
 bool is_qzss(const code_t code) {
-  return (CONSTELLATION_QZS == code_table[code].constellation);
+  return (CONSTELLATION_QZS == code_element(code)->constellation);
 }
 
 /** Return signal count for a signal code */
-- 
2.43.0


From 4eaece9bf778bc72b07a23fcdb3bf22130815597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 06/20] fix: overflow of seconds between GPS and Unix time
 after week 3550

---
 src/gnss_time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..528fb9e 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -310,7 +310,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -326,7 +326,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From e4c106fb396e50b39372f1824d855d4f110c0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 07/20] fix: no leap second event when UTC parameters announce
 no change

---
 src/gnss_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 528fb9e..0aaa437 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1080,7 +1080,8 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    /* no leap second is inserted when the count does not change */
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From 580fdb3938ba561754c291ca583974701b459619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 08/20] fix: gps2utc aborted at the edge of a leap second when
 the UTC polynomial drifts

---
 src/gnss_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 0aaa437..b826582 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -204,6 +204,11 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
      * subtract one second from time for now to make the conversion
      * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
     tow_utc = tow_utc - 1;
+    /* the UTC polynomial moves by a fraction of a microsecond between the
+     * event and now, do not let that carry time out of the last second of
+     * the day */
+    double day_end = round(tow_utc / DAY_SECS) * DAY_SECS;
+    tow_utc = MIN(MAX(tow_utc, day_end - 1), day_end - 1e-9);
   }
 
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
-- 
2.43.0


From cfbdd88084aa566af4da1247df66166bc01f0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 09/20] fix: GPS ephemeris with an out-of-range clock reference
 time was marked valid

---
 src/ephemeris.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..b7145fe 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1331,6 +1331,14 @@ void decode_ephemeris_with_wn_ref(const u32 frame_words[3][8],
   k->toc.tow =
       (frame_words[0][8 - 3] >> (30 - 24) & 0xFFFF) * GPS_LNAV_EPH_SF_TOC;
 
+  bool toc_valid = k->toc.tow <= GPS_LNAV_EPH_TOC_MAX;
+  if (!toc_valid) {
+    log_warn_sid(e->sid,
+                 "Latest ephemeris has faulty TOC: tow %f."
+                 " Invalidating ephemeris.",
+                 k->toc.tow);
+  }
+
   /* a_f2: Word 9, bits 1-8 */
   k->af2 = (s8)(frame_words[0][9 - 3] >> (30 - 8) & 0xFF) * GPS_LNAV_EPH_SF_AF2;
 
@@ -1438,7 +1446,7 @@ void decode_ephemeris_with_wn_ref(const u32 frame_words[3][8],
                  " Invalidating ephemeris.");
   }
 
-  e->valid = iode_valid && toe_valid;
+  e->valid = iode_valid && toe_valid && toc_valid;
   e->source = EPH_SOURCE_GPS_LNAV;
 }
 
-- 
2.43.0


From df6324efae131090685381cac6deaf4f002d5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 10/20] fix: GLONASS string 4 with day number 0 was accepted

The day of the four-year interval is 1 to 1461. With 0 glo2gps reports an
unknown time, and decode_glo_ephemeris marked that ephemeris valid.
---
 src/decode_glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_glo.c b/src/decode_glo.c
index a384346..2e838d7 100644
--- a/src/decode_glo.c
+++ b/src/decode_glo.c
@@ -472,7 +472,7 @@ bool decode_glo_string_4(const glo_string_t *string,
 
   /*extract Nt*/
   u16 nt_days = (u16)extract_word_glo(string, 16, 11);
-  if (GLO_NT_MAX_DAYS < nt_days) {
+  if ((0 == nt_days) || (GLO_NT_MAX_DAYS < nt_days)) {
     log_debug_sid(eph->sid, "GLO-NAV-ERR: nt=%" PRIu16 " days", nt_days);
     return false;
   }
-- 
2.43.0


From 1c453e20a99111d2b2331bb2fc5a78cdffe10b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 11/20] fix: decode_glo_ephemeris kept health bits of the
 previous content

The string decoders only set health bits, so an ephemeris record that was
once unhealthy stayed so for ever when it was decoded into again.
---
 src/ephemeris.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b7145fe..2f3ec15 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1731,6 +1731,8 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
   eph->toe = GPS_TIME_UNKNOWN;
   eph->sid = sid;
   eph->valid = 0;
+  /* the strings only add to the health bits */
+  eph->health_bits = 0;
 
   glo_time_t tk;
   glo_time_t toe;
-- 
2.43.0


From 8ac8d694800402f59212f2ef584b1ccbb04fff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 12/20] fix: get_ephemeris_status_t aborts on an invalid signal
 code

ephemeris_healthy asserts on a code outside the table, so EPH_INVALID_SID
could not be returned.
---
 src/ephemeris.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 2f3ec15..1569141 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -886,6 +886,9 @@ ephemeris_status_t get_ephemeris_status_t(const ephemeris_t *e) {
   if (0 == e->fit_interval) {
     return EPH_FIT_INTERVAL_EQ_0;
   }
+  if (!code_valid(e->sid.code)) {
+    return EPH_INVALID_SID;
+  }
   if (!ephemeris_healthy(e, e->sid.code)) {
     return EPH_UNHEALTHY;
   }
-- 
2.43.0


From b03616283587a65defd74f15e5272fa8455ddab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 13/20] fix: decode_ura_index read past its table for index 16

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 1569141..b34d248 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1171,7 +1171,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From aa209f447e133a8e388e1437debe5ced0ea2df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 14/20] fix: encode a lock time of exactly 32*2^k ms with the
 code of that bound

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..a2cb93f 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From 60c9f7aa57218c2b6386e8140eebf2fd03cac6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 15/20] fix: saturate the lock time in milliseconds before it
 overflows

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index a2cb93f..adbff51 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time < UINT32_MAX / SECS_MS) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From 5f800d2d2e657472bcc8f116d802bd692e0bffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 16/20] fix: reject angles that are not numbers in the geoid
 lookup

---
 src/geoid_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoid_model.c b/src/geoid_model.c
index dca6549..212d3a1 100644
--- a/src/geoid_model.c
+++ b/src/geoid_model.c
@@ -87,7 +87,7 @@ geoid_model_t get_geoid_model(void) { return GEOID_MODEL_EGM2008; }
 float get_geoid_offset(double lat_rad, double lon_rad) {
   /* Convert to degrees, returning 0.0 if out of bounds */
   float lat_deg = (float)(R2D * lat_rad);
-  if (lat_deg > MAX_LAT || lat_deg < MIN_LAT) {
+  if (!(lat_deg <= MAX_LAT && lat_deg >= MIN_LAT)) {
     log_error("Invalid latitude passed to get_geoid_offset: %lf", lat_rad);
     return 0.0;
   }
@@ -96,7 +96,7 @@ float get_geoid_offset(double lat_rad, double lon_rad) {
   if (lon_deg < 0.) {
     lon_deg += 360.f;
   }
-  if (lon_deg > MAX_LON || lon_deg < MIN_LON) {
+  if (!(lon_deg <= MAX_LON && lon_deg >= MIN_LON)) {
     log_error("Invalid longitude passed to get_geoid_offset: %lf", lon_rad);
     return 0.0;
   }
-- 
2.43.0


From 3af6a59782bfdff4c5603060287a7e7280746046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 17/20] fix: sum the off-diagonal normal matrix elements and
 index its inverse by its own size

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From be1bd61a2164783ae8dd2e3f23779322dbe5fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 18/20] fix: compute the inverse of wide matrices in
 matrix_atawati instead of returning garbage for tall ones

---
 src/linear_algebra.c | 46 +++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..79fce7d 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -749,16 +749,16 @@ inline int matrix_atwaiat(
  *  Compute \f$ B := A^T (A W A^{T})^{-1} \f$, where \f$ A \f$ is a
  *  matrix on \f$\mathbb{R}^{n \times m}\f$, \f$ W \f$ is a diagonal
  *  weighting matrix on \f$\mathbb{R}^{m \times m}\f$ and \f$B\f$ is
- *  (therefore) a matrix on \f$\mathbb{R}^{n \times n}\f$, for \f$ n <
+ *  (therefore) a matrix on \f$\mathbb{R}^{m \times n}\f$, for \f$ n <
  *  m \f$.
  *
- *  \param n            Number of rows in a and rows and columns in b
- *  \param m            Number of columns in a
+ *  \param n            Number of rows in a and columns in b
+ *  \param m            Number of columns in a and rows in b
  *  \param a            Input matrix
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
   /* The resulting matrix is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From fdb056d6760b3dceea4eb27ccdbefd287ec7c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 19/20] fix: do not flag an unsolved velocity as valid

vel_solve()'s result was ignored: when a signal had no measured Doppler or
the velocity least squares failed, velocity_valid was set all the same and
the covariance was read uninitialised.
---
 src/single_epoch_solver.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..34ff677 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -90,6 +90,8 @@ typedef struct {
   /* observed-minus-predicted measurements */
   double omp_range[MAX_CHANNELS];
   double omp_doppler[MAX_CHANNELS];
+  /* true if the velocity part of rx_state and V_vel were solved */
+  bool velocity_solved;
 } lsq_data_t;
 
 /** Estimate measurement noises from elevation, cn0 and tracking flags.
@@ -560,13 +562,14 @@ static s8 pvt_solve(const u8 n_used,
 
   /* The solution has converged! */
 
-  if (disable_velocity) {
+  lsq_data->velocity_solved =
+      !disable_velocity &&
+      0 == vel_solve(n_used, n_states, nav_meas, G, lsq_data);
+  if (!lsq_data->velocity_solved) {
     /* No velocity solution */
     memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
     memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
-  } else {
-    /* Perform the velocity solution. */
-    vel_solve(n_used, n_states, nav_meas, G, lsq_data);
+    memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
   }
 
   /* Prepare a separate un-weighted geometry matrix for DOP computations in H */
@@ -1521,7 +1524,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   soln->valid = 1;
 
-  if (!disable_velocity) {
+  if (lsq_data.velocity_solved) {
     soln->velocity_valid = 1;
   } else {
     soln->velocity_valid = 0;
-- 
2.43.0


From 7d50cf2efe177afbf30429129dddbe87e5928f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 20/20] fix: invalidate the solution when there are not enough
 measurements

calc_PVT() left the caller's previous valid flag and counts in place when
it returned PVT_INSUFFICENT_MEAS.
---
 src/single_epoch_solver.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 34ff677..86117e9 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1402,6 +1402,11 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   s8 raim_flag = PVT_CONVERGED_RAIM_OK;
 
+  soln->valid = 0;
+  soln->velocity_valid = 0;
+  soln->n_sats_used = 0;
+  soln->n_sigs_used = 0;
+
   if (n_states > sid_set_get_sat_count(&sids_used)) {
     raim_flag = PVT_INSUFFICENT_MEAS;
   }
@@ -1411,10 +1416,6 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   lsq_data_t lsq_data;
 
   if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
-
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0

