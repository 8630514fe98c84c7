From a0edfdab23ea70c1f17bc94ebaa9c5ee2db7991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 001/121] fix: compare nanoseconds in UTCTime >= and <= when
 the seconds are equal

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From 3b18d1f07127884457e3af0b0e8e8ca3f4e2fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 002/121] fix: keep UTCTime nanoseconds in [0, 1e9) when
 constructed from a negative value

---
 common/utctime.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/utctime.h b/common/utctime.h
index 0f239ae..dfea2c2 100644
--- a/common/utctime.h
+++ b/common/utctime.h
@@ -49,11 +49,12 @@ class UTCTime
     static constexpr int BD_UTC_OFFSET = GPS_UTC_OFFSET + GPS_BEIDOU_OFFSET;
 
     constexpr UTCTime(const int64_t _sec, const int64_t _nsec)
-        : sec(_sec + _nsec / E9), nsec(_nsec % E9)
+        : sec(_sec + _nsec / E9 - (_nsec % E9 < 0 ? 1 : 0)),
+          nsec(_nsec % E9 + (_nsec % E9 < 0 ? E9 : 0))
     {
     }
 
-    constexpr UTCTime(const double _sec) : sec((int64_t)_sec), nsec((int64_t)(_sec * E9) % E9) {}
+    constexpr UTCTime(const double _sec) : UTCTime((int64_t)_sec, (int64_t)(_sec * E9) % E9) {}
 
     UTCTime();
 
-- 
2.43.0


From 5961e747ed8c7ee1371e6291124abadd1d877ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 003/121] fix: convert the millisecond part of a time of week
 to nanoseconds, and do not overflow on large weeks

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..31976f5 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -199,8 +199,8 @@ UTCTime UTCTime::now()
 UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = (int64_t)week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -237,8 +237,8 @@ UTCTime UTCTime::fromGalileo(int week, int tow_ms)
 UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = (int64_t)week * SEC_IN_WEEK + tow_ms / 1000 + GLO_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From b4060f7f47aae6784997eae84d25e655e6f5956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 004/121] fix: pick the Glonass day closest to the reference in
 fromGlonassTimeOfDay

---
 common/utctime.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 31976f5..3440598 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -213,6 +213,13 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+
+    // The closest time may lie in the day before or after the Glonass day of ref
+    const double dt = (out - ref).toSec();
+    if (dt > SEC_IN_DAY / 2)
+        out -= SEC_IN_DAY;
+    else if (dt < -SEC_IN_DAY / 2)
+        out += SEC_IN_DAY;
     return out;
 }
 
-- 
2.43.0


From 0149c66d16b30ea66b1d68f2cddd11432cceb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 005/121] fix: destroy the last element in
 CircularBuffer::pop_back, not the slot after it

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..5c61d6c 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
+        --tail_;
         tail_->~T();  // call destructor manually without freeing memory
-        tail_--;
     }
 
     template <typename... Args>
-- 
2.43.0


From 1de8c643d47ac9a37032f9d73be6f0132a475bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 006/121] fix: construct pushed elements in CircularBuffer
 instead of assigning to raw memory

---
 common/circular_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5c61d6c..d89fe8c 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -3,6 +3,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <new>
 
 namespace mc {
 
@@ -71,7 +72,7 @@ class CircularBuffer
     {
         if (full())
             pop_front();
-        *tail_ = obj;
+        new (&*tail_) T(obj);
         ++tail_;
     }
 
@@ -90,7 +91,7 @@ class CircularBuffer
             pop_back();
 
         --head_;
-        *head_ = obj;
+        new (&*head_) T(obj);
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From f2fc425338d0bb96ed06c0436770de55d0a97965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 007/121] fix: copy the elements when a CircularBuffer is
 copied, instead of aliasing the source

---
 common/circular_buffer.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index d89fe8c..44056fc 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -18,6 +18,21 @@ class CircularBuffer
 
     CircularBuffer() = default;
 
+    // The iterators point into this buffer, so copies have to be made element by element
+    CircularBuffer(const CircularBuffer& other)
+    {
+        for (const T& obj : other) emplace_back(obj);
+    }
+    CircularBuffer& operator=(const CircularBuffer& other)
+    {
+        if (this != &other)
+        {
+            clear();
+            for (const T& obj : other) emplace_back(obj);
+        }
+        return *this;
+    }
+
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
     const_iterator end() const { return tail_; }
-- 
2.43.0


From 25fc6c04f2324204a4509e3892e07ad602a599d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 008/121] fix: align CircularBuffer storage for its element
 type

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 44056fc..b12a9e4 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -113,7 +113,7 @@ class CircularBuffer
     const T* data() const { return buf_; }
 
  private:
-    uint8_t memory_[SIZE * sizeof(T)];
+    alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
     iterator head_ = {buf_, this};
-- 
2.43.0


From 83d0fa30fed4e06e4ef04e9d5a61ebe77fd22b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 009/121] fix: check the issue of data that GPS subframe 3
 carries

---
 common/ephemeris/gps.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..9efa648 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -178,7 +178,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From e50bf3709032f4884f56980ae4fdcd930834216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 010/121] fix: wait for all three GPS subframes again after an
 ephemeris is complete

---
 common/ephemeris/gps.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 9efa648..02616bf 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0x00;
 
     return true;
 }
-- 
2.43.0


From 638b05342bea116d80bd2284eb7413afe6081a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 011/121] fix: resolve GPS toe and toc to the week closest to
 the time of transmission

---
 common/ephemeris/gps.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 02616bf..aa2fcc0 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -90,9 +90,13 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     dbg("Got all subframes");
 
-    // Set toe and toc
-    toe = UTCTime::fromGPS(week, toes * 1000);
-    toc = UTCTime::fromGPS(week, tocs * 1000);
+    // Set toe and toc, which may lie in the week before or after the one of transmission
+    const auto week_of = [this](uint32_t t) {
+        const int dt = (int)t - (int)tow;
+        return week + (dt > UTCTime::SEC_IN_WEEK / 2 ? -1 : dt < -UTCTime::SEC_IN_WEEK / 2 ? 1 : 0);
+    };
+    toe = UTCTime::fromGPS(week_of(toes), toes * 1000);
+    toc = UTCTime::fromGPS(week_of(tocs), tocs * 1000);
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
@@ -109,7 +113,7 @@ bool GPSEphemeris::frame1(const uint8_t* buf)
         return false;
     }
     dbg("GOT FRAME 1");
-    // double tow = getBit<17>(buf, 24) * 6.0;
+    tow = getBit<17>(buf, 24) * 6;
     int week_mod = getBit<10>(buf, 48);  // This is the week modulo 2^10
     code_on_L2 = getBit<2>(buf, 58);
     ura = getBit<4>(buf, 60);
-- 
2.43.0


From 2842026203f50306ffc6d86c8083b80134056743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 012/121] fix: do not read past the end of a short Galileo page

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..8e3fcd3 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From 9048becc379e3ce8b4b7264117cc8ae09b851036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 013/121] fix: collect all Galileo words again after an
 ephemeris is complete

---
 common/ephemeris/galileo.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 8e3fcd3..0d3f33e 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -178,6 +178,9 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
     toe = UTCTime::fromGalileo(week, toes * 1000);
     toc = UTCTime::fromGalileo(week, tocs * 1000.0);
 
+    // Reset synchronization
+    collected_subframes = 0x00;
+
     return true;
 }
 
-- 
2.43.0


From 29c71979040c855898f51eae8e3bf5913ab0e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 014/121] fix: leave the ephemeris alone when a Galileo word 4
 belongs to another satellite

---
 common/ephemeris/galileo.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 0d3f33e..b73796b 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -255,8 +255,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -269,11 +274,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From 109e0d6e9f437d6c52c504f50c992d2b86893e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 015/121] fix: read the Galileo data validity bits from their
 own positions

---
 common/ephemeris/galileo.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index b73796b..2c2a877 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -285,8 +285,8 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From 654466eae268ce1203ab22b235ff8cc19b26e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 016/121] fix: date Glonass ephemerides with the current day
 NT, not the almanac day NA

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..00913f4 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From a7950a6c359308aa08232fd6ba6422a1e4fb303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 017/121] fix: right-align the zero padding in log stream names
 so that distinct keys get distinct files

---
 common/logging/log_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_key.h b/common/logging/log_key.h
index c552103..60040d7 100644
--- a/common/logging/log_key.h
+++ b/common/logging/log_key.h
@@ -52,7 +52,7 @@ inline std::string logKeyName(int key)
     case ESTIMATE:
         return "ESTIMATE";
     default:
-        return fmt::format("LOG_KEY_{:0^4}", key);
+        return fmt::format("LOG_KEY_{:0>4}", key);
     }
 }
 
-- 
2.43.0


From 4d269234ac5ae1f3ba8171070641985982f1f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 018/121] fix: make the ephemeris log headers describe exactly
 the bytes that are written

---
 common/logging/log_format.cxx | 16 ----------------
 common/logging/serialize.cxx  |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/common/logging/log_format.cxx b/common/logging/log_format.cxx
index 0727f19..e185b43 100644
--- a/common/logging/log_format.cxx
+++ b/common/logging/log_format.cxx
@@ -64,10 +64,6 @@ YAML::Node format(const ephemeris::GPSEphemeris& eph)
     node["fit_interval_flag"] = format(eph.fit_interval_flag);
     node["age_of_data_offset"] = format(eph.age_of_data_offset);
     node["tgd"] = format(eph.tgd);
-    node["iode1"] = format(eph.iode1);
-    node["iode2"] = format(eph.iode2);
-    node["iode3"] = format(eph.iode3);
-    node["collected_subframes"] = format(eph.collected_subframes);
     return node;
 }
 YAML::Node format(const ephemeris::GalileoEphemeris& eph)
@@ -114,9 +110,6 @@ YAML::Node format(const ephemeris::GalileoEphemeris& eph)
     node["e1b_hs"] = format(eph.e1b_hs);
     node["e5b_dvs"] = format(eph.e5b_dvs);
     node["e1b_dvs"] = format(eph.e1b_dvs);
-    node["collected_subframes"] = format(eph.collected_subframes);
-    node["time_f"] = format(eph.time_f);
-    node["iod"] = format(eph.iod, 4);
     return node;
 }
 
@@ -140,15 +133,6 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["taun"] = format(eph.taun);
     node["gamn"] = format(eph.gamn);
     node["dtaun"] = format(eph.dtaun);
-    node["frame_flags"] = format(eph.frame_flags_);
-    node["time_mark"] = format(eph.time_mark_);
-    node["tk_h"] = format(eph.tk_h_);
-    node["tk_m"] = format(eph.tk_m_);
-    node["tk_s"] = format(eph.tk_s_);
-    node["tb"] = format(eph.tb_);
-    node["NT"] = format(eph.NT_);
-    node["N4"] = format(eph.N4_);
-    node["NA"] = format(eph.NA_);
     return node;
 }
 
diff --git a/common/logging/serialize.cxx b/common/logging/serialize.cxx
index 4bc5653..0af09b8 100644
--- a/common/logging/serialize.cxx
+++ b/common/logging/serialize.cxx
@@ -107,7 +107,7 @@ DEF_SERIALIZE(ephemeris::GalileoEphemeris,
               ecc, sqrta, omega0, i0, w, omegadot, idot, cuc, cus, crc, crs, cic, cis, ai0, ai1, ai2,
               bgd_e1_e5a, bgd_e1_e5b, e5b_hs, e1b_hs, e5b_dvs, e1b_dvs)
 DEF_SERIALIZE(ephemeris::GlonassEphemeris,
-              gnssID, sat, toe, iode, slot, svh, sva, age, toe, tof, pos, vel, acc, taun, gamn,
+              gnssID, sat, toe, iode, slot, svh, sva, age, tof, pos, vel, acc, taun, gamn,
               dtaun)
 // clang-format on
 
-- 
2.43.0


From 0a1fce586d79a80fbc07990015a0497237c2f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 019/121] fix: keep the end time given to Logger::close, and
 finish the current log when another one is opened

---
 common/logging/log_writer.cxx | 10 ++++++++++
 common/logging/log_writer.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/common/logging/log_writer.cxx b/common/logging/log_writer.cxx
index 7fc6957..d11ec5d 100644
--- a/common/logging/log_writer.cxx
+++ b/common/logging/log_writer.cxx
@@ -18,15 +18,25 @@ Stream::~Stream()
 void Logger::open(const UTCTime& start_time, const std::string& directory)
 {
     namespace fs = std::experimental::filesystem;
+    if (is_open_)
+    {
+        close(UTCTime::now());
+    }
     log_id_ = createLogId(start_time);
     directory_ = fs::path(directory) / fs::path(log_id_);
     utils::removeDirectoryIfExist(directory_);
     utils::makeDirectoryIfNotExist(directory_);
     createManifest(start_time);
+    is_open_ = true;
 }
 
 void Logger::close(const UTCTime& t_end)
 {
+    if (!is_open_)
+    {
+        return;
+    }
+    is_open_ = false;
     while (!streams_.empty())
     {
         streams_.erase(streams_.begin());
diff --git a/common/logging/log_writer.h b/common/logging/log_writer.h
index 91d5f05..2235920 100644
--- a/common/logging/log_writer.h
+++ b/common/logging/log_writer.h
@@ -117,6 +117,7 @@ class Logger
     std::experimental::filesystem::path directory_;
     YAML::Node manifest_;
     std::string log_id_;
+    bool is_open_ = false;
     std::unordered_map<int, Stream> streams_;
 };
 
-- 
2.43.0


From a962f82e6b3dae97a7e8d88233186bfcbae27e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 020/121] fix: open logs that have no streams

---
 common/logging/log_reader.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6dc4295..6db2626 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -124,7 +124,8 @@ void LogReader::openLog(const fs::path& directory)
     start_time_ = std::min(start_time_, log_start_time);
     end_time_ = std::max(end_time_, log_end_time);
 
-    for (const auto key : node["keys"].as<std::vector<int>>())
+    // A log without streams has no list of keys
+    for (const auto key : node["keys"].as<std::vector<int>>(std::vector<int>()))
     {
         const std::string stream_data_file = directory / fs::path(logKeyName(key) + ".log");
         streams_.emplace(key, stream_data_file);
-- 
2.43.0


From 4a591b934b86322d6ac5163fd8d3c251788f3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 021/121] fix: treat a log stream whose file is missing as
 empty instead of reading it forever

---
 common/logging/log_reader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/logging/log_reader.h b/common/logging/log_reader.h
index 87a0857..9f91748 100644
--- a/common/logging/log_reader.h
+++ b/common/logging/log_reader.h
@@ -53,9 +53,9 @@ class StreamReader : public utils::NonCopyable
 
     std::string filename_ = "";
     std::ifstream file_;
-    UTCTime next_stamp_;
-    int key_;
-    int num_records_;
+    UTCTime next_stamp_ = MAX_TIME;  // nothing to read until a file has been opened
+    int key_ = -1;
+    int num_records_ = 0;
 };
 
 class LogReader
-- 
2.43.0


From 7350a5e8e58a56d6e364dcab53318e25fcafd042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 022/121] fix: read logged matrices into numpy in the right
 order

---
 common/logging/log_reader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 5a6ba97..30c73aa 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -46,6 +46,17 @@ def load_header(hdr_path):
     return dtype
 
 
+def reorder_matrices(data):
+    # Eigen matrices are logged in column-major order, but numpy's are row-major
+    for name in data.dtype.names or ():
+        field = data[name]
+        if field.ndim == 3:
+            rows, cols = field.shape[1:]
+            data[name] = field.reshape(-1, cols, rows).swapaxes(1, 2).copy()
+        else:
+            reorder_matrices(field)
+
+
 def get_log_files(file_path):
     if not re.search(r'\d{8}_\d{6}\/?$', file_path):
         raise RuntimeError(f"Incorrectly formatted log directory {file_path}")
@@ -84,6 +95,7 @@ def load(file_path, streams=None, normalize_time=True):
         print("loading {}".format(log_path))
         dtype = load_header(hdr_path)
         data = np.fromfile(log_path, dtype=dtype)
+        reorder_matrices(data)
 
         if normalize_time and 't' in data.dtype.fields:
             print("normalizing_time")
-- 
2.43.0


From 1bb4679efc6f0235df6d80c3c78ecd55bb1d94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 023/121] fix: compute the Keplerian satellite velocity at
 perigee and apogee, where the true anomaly rate was 0/0

---
 common/satellite/satellite_state.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..145fdfb 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -41,11 +41,9 @@ Error eph2Sat(const UTCTime& t,
     const double sek = sin(ek);
     const double cek = cos(ek);
 
-    const double ekdot = mkdot / (1.0 - eph.ecc * cek);
-
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
     const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+        mkdot * sqrt(1.0 - eph.ecc * eph.ecc) / ((1.0 - eph.ecc * cek) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From aa2a4cd6c6782b5ce6b7874847428e118c6f2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 024/121] fix: evaluate the satellite clock drift term relative
 to the clock reference time toc

---
 common/satellite/satellite_state.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 145fdfb..a33eb26 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -91,7 +91,7 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
-- 
2.43.0


From 9060c4f741ae461baf3429831447a6dc8fc48761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 025/121] fix: differentiate the quadratic term of the
 satellite clock polynomial correctly

---
 common/satellite/satellite_state.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index a33eb26..7aef805 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -96,8 +96,8 @@ Error eph2Sat(const UTCTime& t,
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
-    sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(0) = dts;                                 // satellite clock bias (sec)
+    sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From 15d541c7370e353d0e92b825ac93d283bae90cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 026/121] fix: compute Glonass satellite states from the given
 ephemeris instead of the previous state

---
 common/satellite/satellite_state.cxx | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 7aef805..d73d07e 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -115,24 +115,11 @@ Error eph2Sat(const UTCTime& t,
     sat_state->clk(0) = (-eph.taun + eph.gamn * dt);
     sat_state->clk(1) = (eph.gamn);
 
-    // Position
+    // Position.  Always integrate from the ephemeris: seeding from the state of an earlier call would
+    // keep following an ephemeris that has been replaced since.
     Vec6 x;
-    if (sat_state->t == INVALID_TIME)
-    {
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = eph.pos;
-        v = eph.vel;
-    }
-    else
-    {
-        // Seed from last time
-        dt = (t - sat_state->t).toSec();
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = sat_state->pos;
-        v = sat_state->vel;
-    }
+    x.head<3>() = eph.pos;
+    x.tail<3>() = eph.vel;
 
     double timestep = dt < 0.0 ? -TSTEP : TSTEP;
     int i = 0;
-- 
2.43.0


From 35d294ad37a788c3a1bf61811cb5c7209876e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 027/121] fix: use the Galileo value of GM for Galileo orbits

---
 common/satellite/satellite_state.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index d73d07e..3f8838a 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -4,7 +4,8 @@
 #include "common/math/rk4.h"
 #include "common/print.h"
 
-static constexpr double MAXDTOE = 7200;  // Maximum allowable age of ephemeris (s)
+static constexpr double MAXDTOE = 7200;                // Maximum allowable age of ephemeris (s)
+static constexpr double GM_GALILEO = 3.986004418e14;  // GM of the Galileo SIS ICD (m^3/s^2)
 
 namespace mc {
 namespace satellite {
@@ -25,7 +26,9 @@ Error eph2Sat(const UTCTime& t,
 
     // https://www.ngs.noaa.gov/gps-toolbox/bc_velo/bc_velo.c
     const double A = eph.sqrta * eph.sqrta;
-    const double n0 = sqrt(GM_EARTH / (A * A * A));
+    // Galileo ephemerides are defined with another value of GM than GPS ones
+    const double GM = eph.gnssID == GnssID::Galileo ? GM_GALILEO : GM_EARTH;
+    const double n0 = sqrt(GM / (A * A * A));
     const double mkdot = n0 + eph.delta_n;
     const double mk = eph.m0 + mkdot * dt;
 
@@ -94,7 +97,7 @@ Error eph2Sat(const UTCTime& t,
     double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
-    dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
+    dts -= 2.0 * sqrt(GM * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
     sat_state->clk(0) = dts;                                 // satellite clock bias (sec)
     sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
-- 
2.43.0


From 556dd8475c556718dd8bd2b942dc1895e51bbf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 028/121] fix: keep looking for the closest ephemeris when two
 reference times round to the same distance

---
 common/satellite/satellite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/satellite/satellite.h b/common/satellite/satellite.h
index 6b29c8d..9d14528 100644
--- a/common/satellite/satellite.h
+++ b/common/satellite/satellite.h
@@ -78,7 +78,7 @@ class Satellite : public SatelliteBase
                 dt = dt_i;
                 min_it = it;
             }
-            else
+            else if (dt_i > dt)
             {
                 // If the dt is getting bigger, then no ephemeris left in the almanac will be closer
                 // (almanac is sorted in ascending order)
-- 
2.43.0


From 1f40124a2d7e1920e123b46ef58bc3324dd8c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 029/121] fix: give the SO3 logarithm near pi the sign of the
 rotation, and its Jacobian too

---
 common/math/so3.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index bc509cb..9601749 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -162,7 +162,8 @@ class SO3
             auto v = qarr.template tail<3>();
             T& w = qarr[0];
             T norm_v = v.norm();
-            return 2.0 * std::atan2(norm_v, w) * v / norm_v;
+            // The quaternion log is the inverse of the rotation log
+            return -2.0 * std::atan2(norm_v, w) * v / norm_v;
         }
     }
 
@@ -203,20 +204,16 @@ class SO3
         else  // theta close to Pi
         {
             // First, go to quaternion, then compute the axis-angle
-            // Because the quaternion log is inverse the rotation log,
-            // we need to return the negative transpose of the quaternion jacobian
+            // (the quaternion log is the inverse of the rotation log)
             Quat<T> q = Quat<T>::from_R(rot_);
             w = -q.log();
             const T th2 = w.squaredNorm();
             const T th = sqrt(th2);
-            a = sin(th) / th;
-            b = (1 - cos(th)) / th2;
-            c = (1 - a) / th2;
 
-            // log_q = log_Rᵀ
-            const T e = (b - 2 * c) / (2 * a);
+            // (b - 2c) / 2a, without dividing by sin(th)
+            const T e = (1. - (th / 2.) / tan(th / 2.)) / th2;
             const Mat3 sk_w = skew(w);
-            *jac = -Mat3::Identity() + 1. / 2. * sk_w - e * sk_w * sk_w;
+            *jac = Mat3::Identity() - 1. / 2. * sk_w + e * sk_w * sk_w;
 
             return w;
         }
-- 
2.43.0


From 99b9c56b00ec2260af1047968d0e16305cc3f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 030/121] fix: keep the Jacobian of the SO3 logarithm finite
 when rounding puts the trace above three

---
 common/math/so3.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 9601749..007eff9 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -184,8 +184,7 @@ class SO3
         T a, b, c;
         if (t >= 3.0 - eps)  // Theta close to zero
         {
-            const T th = std::acos((t - 1.) / 2.);
-            const T th2 = th * th;
+            const T th2 = r.squaredNorm() / 4.;
             const T th4 = th2 * th2;
             a = 1. - th2 / 6. + th4 / 120.;
             b = 1. / 2. - th2 / 24. + th4 / 720.;
-- 
2.43.0


From 6a74b918ca0db7d19cf5b049d746d32fe6de4535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 031/121] fix: rotate between parallel and opposite unit
 vectors

---
 common/math/quat.h | 10 ++++++++--
 common/math/so3.h  |  8 +++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index af20a3c..cfd26e4 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -357,8 +357,14 @@ class Quat
     static Quat from_two_unit_vectors(const Vec3& u, const Vec3& v)
     {
         const T cos_theta = u.dot(v);
-        const Vec3 axis = u.cross(v).normalized();
-        return from_axis_angle(axis, -acos(cos_theta));
+        const Vec3 axis = u.cross(v);
+        const T sin_theta = axis.norm();
+        if (sin_theta == (T)0.0)
+        {
+            // (anti-)parallel: any axis orthogonal to u will do
+            return from_axis_angle(u.unitOrthogonal(), -atan2(sin_theta, cos_theta));
+        }
+        return from_axis_angle(axis / sin_theta, -atan2(sin_theta, cos_theta));
     }
 
     static Quat Identity()
diff --git a/common/math/so3.h b/common/math/so3.h
index 007eff9..d2c6702 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -248,8 +248,14 @@ class SO3
 
         const Vec3 axis = u1.cross(u2);
         const T c = u1.dot(u2);  // cosine of angle
+        const T s = axis.norm();
+        if (s == (T)0.0)
+        {
+            // (anti-)parallel: any axis orthogonal to u1 will do
+            return exp(u1.unitOrthogonal() * atan2(s, c));
+        }
 
-        return exp(axis.normalized() * acos(c));
+        return exp(axis / s * atan2(s, c));
     }
 
     // SO3 is self-adjoint
-- 
2.43.0


From a4efa12545b720db344972333e97d715f02ddbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 032/121] fix: return the quaternion from Quat::invert

---
 common/math/quat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index cfd26e4..3f92530 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -494,7 +494,11 @@ class Quat
         return v + w() * t + t.colwise().cross(arr_.template segment<3>(1));
     }
 
-    Quat& invert() { arr_.template block<3, 1>(1, 0) *= (T)-1.0; }
+    Quat& invert()
+    {
+        arr_.template block<3, 1>(1, 0) *= (T)-1.0;
+        return *this;
+    }
 
     Quat inverse() const
     {
-- 
2.43.0


From b9b9a63d86cbcace7131c06aa323a972bbde6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 033/121] fix: let the parts of a DQuat built from eight
 numbers refer to them

---
 common/math/dquat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..0c55853 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,7 +81,7 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_), r_(buf_), d_(buf_ + 4)
     {
     }
 
-- 
2.43.0


From 059453db64d24e18f31e4327ebc55f38732182f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 034/121] fix: use the right series for the DQuat logarithm at
 small angles

---
 common/math/dquat.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 0c55853..cc2a79b 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -296,10 +296,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T th4 = th2 * th2;
-            const T th6 = th4 * th2;
-            const T a = 1. - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
-            const T c =
-                5. / 24. - 379. / 1920. * th2 + 46073. / 322560. * th4 - 127431. / 1146880. * th6;
+            const T a = 1. / r0 - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
+            const T c = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * th2;  // (r0-a)/th2
             // clang-format off
             wv << (T)2.0 * a * r,
                   (T)2.0 * (a * d + (gm*c - d0)*r);
@@ -349,10 +347,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T s4 = s2 * s2;
-            const T s6 = s4 * s2;
-            const T a1 = 1. - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
-            const T c1 =
-                5. / 24. - 379. / 1920. * s2 + 46073. / 322560. * s4 - 127431. / 1146880. * s6;
+            const T a1 = 1. / r0 - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
+            const T c1 = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * s2;  // (r0-a1)/s2
             v = (T)2.0 * (a1 * d + (gm * c1 - d0) * r);
 
             const double th4 = th2 * th2;
-- 
2.43.0


From 37e2502d149951196e7d6f91350aefb63b19087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 035/121] fix: keep the SE3 logarithm and its Jacobian accurate
 at half a turn

---
 common/math/se3.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/common/math/se3.h b/common/math/se3.h
index 955e2dc..d96a415 100644
--- a/common/math/se3.h
+++ b/common/math/se3.h
@@ -173,7 +173,7 @@ class SE3
             a = sin(th) / th;
             b = ((T)1. - cos(th)) / th2;
             c = ((T)1. - a) / th2;
-            e = (b * 0.5 - c) / a;
+            e = ((T)1. - (th / 2.) / tan(th / 2.)) / th2;  // (b/2 - c)/a, also at pi
             C1 = (a - 2 * b) / th2;
             C2 = (b - 3 * c) / th2;
         }
@@ -210,11 +210,7 @@ class SE3
         }
         else
         {
-            const T a = sin(th) / th;
-            const T b = ((T)1. - cos(th)) / th2;
-            const T c = ((T)1. - a) / th2;
-
-            e = (b * 0.5 - c) / a;
+            e = ((T)1. - (th / 2.) / tan(th / 2.)) / th2;
         }
 
         Vec3 wxt = w.cross(t_);
-- 
2.43.0


From 5fc8729fb9b05f8d93a40d0b0f7afa4765f7677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 036/121] fix: keep the Jacobian of the quaternion logarithm
 accurate at half a turn

---
 common/math/quat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 3f92530..bfaa3cd 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -248,10 +248,8 @@ class Quat
         {
             th = 2. * atan2(norm_v, w());
             const T th2 = th * th;
-            const T a = sin(th) / th;
-            const T b = (1 - cos(th)) / th2;
-            const T c = (1 - a) / th2;
-            e = (b - 2 * c) / (2 * a);
+            // (b - 2c) / 2a, without dividing by sin(th)
+            e = (1. - (th / 2.) / tan(th / 2.)) / th2;
         }
         else
         {
-- 
2.43.0


From 50916506b0ea44fab5040a369f00fc3682d6ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 037/121] fix: let a quaternion be multiplied by itself in
 place

---
 common/math/quat.h | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index bfaa3cd..e3c65e3 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -98,21 +98,7 @@ class Quat
     {
         return otimes(q);
     }
-    Quat& operator*=(const Quat& q)
-    {
-        const T _w = w();
-        const T _x = x();
-        const T _y = y();
-        const T _z = z();
-
-        // clang-format off
-        arr_ << _w * q.w() - _x * q.x() - _y * q.y() - _z * q.z(),
-                _w * q.x() + _x * q.w() + _y * q.z() - _z * q.y(),
-                _w * q.y() - _x * q.z() + _y * q.w() + _z * q.x(),
-                _w * q.z() + _x * q.y() - _y * q.x() + _z * q.w();
-        // clang-format on
-        return *this;
-    }
+    Quat& operator*=(const Quat& q) { return *this = otimes(q); }
 
     template <typename Tout = T, typename T2>
     Quat<Tout> otimes(const Quat<T2>& q) const
-- 
2.43.0


From 1efb8aac559cbcbdca3a82bbdc845dfb7d597c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 038/121] fix: UBX messages without a payload no longer block
 the parser

---
 parsers/ubx/ubx.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 47145a4..b70990c 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -235,6 +235,11 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
                 prev_byte_ = byte;
                 restart();
             }
+            else if (length_ == 0)
+            {
+                // There is no payload to wait for
+                parse_state_ = GOT_PAYLOAD;
+            }
             break;
         case GOT_LENGTH2:
             if (buffer_head_ < length_)
-- 
2.43.0


From a2495345600caa17d19849922e4657aec2ec4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 039/121] fix: malformed format string for over-long UBX
 messages threw in the reader

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index b70990c..ca7ba04 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -229,7 +229,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             parse_state_ = GOT_LENGTH2;
             if (length_ > BUFFER_SIZE)
             {
-                warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
+                warn("UBX message {:#04x}-{:#04x} is too long ({} > {})",
                      fmt(message_class_, message_type_, length_, BUFFER_SIZE));
                 num_errors_++;
                 prev_byte_ = byte;
-- 
2.43.0


From 08e99b279d440932c76dceec9a45f14782390692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 040/121] fix: short UBX messages were delivered with the tail
 of an earlier one

---
 parsers/ubx/ubx.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index ca7ba04..96e7046 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -310,6 +310,9 @@ bool Ubx::decodeMessage()
 
     num_messages_received_++;
 
+    // Do not expose the remains of an earlier, longer message
+    memset(in_message_.buffer + length_, 0, sizeof(in_message_) - length_);
+
     // Parse the payload
     switch (message_class_)
     {
-- 
2.43.0


From 9385b58fddc419ef09723b2f17ebfcd514c86a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 041/121] fix: UBX receiver version was used uninitialized
 before it had been asked for

---
 parsers/ubx/ubx.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 119af75..9c0a918 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -127,9 +127,9 @@ class Ubx : public async_comm::CommListener
     // local storage
     volatile bool new_data_;
 
-    int major_version_;
-    int minor_version_;
-    char module_name_[10];
+    int major_version_ = 0;
+    int minor_version_ = 0;
+    char module_name_[10] = {0};
 
     // Serial Port
     void write(const uint8_t byte);
-- 
2.43.0


From e9f1839b22fbe8412b317b1b6e3d2bac1997fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 042/121] fix: UBX-MON-VER extensions are 30 byte strings; all
 of them are searched

---
 parsers/ubx/ubx.cxx    | 2 +-
 parsers/ubx/ubx_defs.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 96e7046..3ca576c 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -426,7 +426,7 @@ void Ubx::write(const uint8_t *byte, const size_t size)
 
 void Ubx::versionCb()
 {
-    for (int i = 0; i < 20; ++i)
+    for (int i = 0; i < 10; ++i)
     {
         if (strncmp(in_message_.MON_VER.extension[i], "PROTVER=", 8) == 0)
         {
diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index e1bf217..a05f6af 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -825,7 +825,7 @@ typedef struct
 {
     char sw_version[30];     // Zero-terminated Software Version String.
     char hw_version[10];     // Zero-terminated Hardware Version String
-    char extension[30][10];  // Extended software information strings
+    char extension[10][30];  // Extended software information strings
 } __attribute__((packed)) MON_VER_t;
 
 typedef float R4;
-- 
2.43.0


From 2d3f76fcfe64f339352de3b248f086aaeb87c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 043/121] fix: unterminated version and module strings from a
 UBX receiver

---
 parsers/ubx/ubx.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 3ca576c..d6df8eb 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -447,7 +447,7 @@ void Ubx::versionCb()
 void Ubx::extractVersionString(const char *str)
 {
     // Get major version
-    char tmp[5];
+    char tmp[6] = {0};
     const char *s = str + 8;
     for (int j = 0; j < 5; j++)
     {
@@ -480,11 +480,11 @@ void Ubx::extractVersionString(const char *str)
 void Ubx::extractModuleName(const char *str)
 {
     const char *s = str + 4;
-    for (size_t i = 0; i < sizeof(module_name_); i++)
+    memset(module_name_, 0, sizeof(module_name_));
+    for (size_t i = 0; i < sizeof(module_name_) - 1; i++)
     {
         if (*s == 0)
         {
-            module_name_[i] = 0;
             break;
         }
 
-- 
2.43.0


From b52b4838d00e86627b89ff82337731b93cf19324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 044/121] fix: character format of UBX-CFG-PRT belongs into the
 mode field

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index d6df8eb..efe3cc5 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -133,7 +133,7 @@ void Ubx::disableNmea()
         out_message_.CFG_PRT.baudrate = 921600;
         out_message_.CFG_PRT.out_proto_mask = CF::OUT_UBX | CF::OUT_RTCM3;
         out_message_.CFG_PRT.in_proto_mask = CF::OUT_UBX | CF::OUT_RTCM3;
-        out_message_.CFG_PRT.flags = CF::CHARLEN_8BIT | CF::PARITY_NONE | CF::STOP_BITS_1;
+        out_message_.CFG_PRT.mode = CF::CHARLEN_8BIT | CF::PARITY_NONE | CF::STOP_BITS_1;
         sendMessage(CLASS_CFG, CFG_PRT, out_message_, sizeof(CF));
     }
     else
-- 
2.43.0


From fe5aa7468a78f4663dd270e0968eee58a1a49eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 045/121] fix: survey-in request carried stale fields and a
 limit of 0.3 mm instead of 3 cm

---
 parsers/ubx/ubx.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index efe3cc5..06fb922 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -117,9 +117,10 @@ bool Ubx::sendMessage(uint8_t msg_class, uint8_t msg_id, UbxMessage &message, ui
 
 void Ubx::startSurveyIn()
 {
+    memset(&out_message_, 0, sizeof(CFG_TMODE3_t));
     out_message_.CFG_TMODE3.flags = CFG_TMODE3_t::SURVEY_IN;
-    out_message_.CFG_TMODE3.svin_min_dur = 60;   // Wait at least 1 minute
-    out_message_.CFG_TMODE3.svin_acc_limit = 3;  // At least within 3 centimeters
+    out_message_.CFG_TMODE3.svin_min_dur = 60;     // Wait at least 1 minute
+    out_message_.CFG_TMODE3.svin_acc_limit = 300;  // At least within 3 centimeters (0.1mm)
     sendMessage(CLASS_CFG, CFG_TMODE3, out_message_, sizeof(CFG_TMODE3_t));
 }
 
-- 
2.43.0


From 10842f8377d5e47c41a29b264b16759220685bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 046/121] fix: four byte UBX configuration values were sent as
 zero

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 06fb922..9f628b3 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -399,7 +399,7 @@ void Ubx::configure(uint8_t version,
     {
         out_message_.CFG_VALSET.cfg_data.bytes[0] = cfgData;
     }
-    if (size == 2)
+    if (size == 2 || size == 4)
     {
         out_message_.CFG_VALSET.cfg_data.word = cfgData;
     }
-- 
2.43.0


From a0d39bf34b5f27120c6b7b633e8df76041c84f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 047/121] fix: observation messages announcing more
 measurements than fit were read out of bounds

---
 parsers/ubx/ubx_defs.h     | 6 +++++-
 tools/gather_ephemeris.cxx | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index a05f6af..95a71e7 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -878,7 +878,11 @@ typedef struct
         X1 trk_stat;  // Tracking status bitfield
         U1 reserved;
     };
-    RawxMeas meas[60];
+    enum
+    {
+        MAX_MEAS = 63,  // as many as fit into a message of BUFFER_SIZE
+    };
+    RawxMeas meas[MAX_MEAS];
 
     enum
     {
diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index d4bfcb6..7ab0def 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -131,7 +131,7 @@ struct ObsListener : public ublox::UbxListener
         const ublox::RXM_RAWX_t& data = msg.RXM_RAWX;
         const auto now = UTCTime::now();
         info("{}, Got {} observations", mc::fmt(now, data.num_meas));
-        for (int i = 0; i < data.num_meas; ++i)
+        for (int i = 0; i < data.num_meas && i < ublox::RXM_RAWX_t::MAX_MEAS; ++i)
         {
             const ublox::RXM_RAWX_t::RawxMeas& meas = data.meas[i];
 
-- 
2.43.0


From 998aabcc7388b55058cee38226afc9ce65477e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 048/121] fix: GLONASS observations were logged with a carrier
 frequency seven channels off

---
 tools/gather_ephemeris.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index 7ab0def..a740ad3 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -138,7 +138,8 @@ struct ObsListener : public ublox::UbxListener
             meas::GnssObservation o;
             o.gnss_id = meas.gnss_id;
             o.sat_num = meas.sv_id;
-            o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id);
+            // freq_id is the frequency slot + 7
+            o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id - 7);
             o.pseudorange = meas.pr_meas;
             o.doppler = meas.do_meas;
             o.carrier_phase = meas.cp_meas;
-- 
2.43.0


From 71e55a18170d70c3ec49a9a9c84309ead57b53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 049/121] fix: gathered observations were logged without their
 measurement time

---
 tools/gather_ephemeris.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index a740ad3..6d77965 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -136,6 +136,7 @@ struct ObsListener : public ublox::UbxListener
             const ublox::RXM_RAWX_t::RawxMeas& meas = data.meas[i];
 
             meas::GnssObservation o;
+            o.t = UTCTime::fromGPS(data.week, 0) + data.rcv_tow;
             o.gnss_id = meas.gnss_id;
             o.sat_num = meas.sv_id;
             // freq_id is the frequency slot + 7
-- 
2.43.0


From af217097bacde9e69b053d1807fc8735ec56df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 050/121] fix: gathered doppler observations are range rates in
 m/s, not frequency shifts

---
 tools/gather_ephemeris.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index 6d77965..32bd31d 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -142,10 +142,11 @@ struct ObsListener : public ublox::UbxListener
             // freq_id is the frequency slot + 7
             o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id - 7);
             o.pseudorange = meas.pr_meas;
-            o.doppler = meas.do_meas;
             o.carrier_phase = meas.cp_meas;
             if (o.freq > 0)
             {
+                // Hz, positive for approaching satellites -> rate of the range in m/s
+                o.doppler = -meas.do_meas * C_LIGHT / o.freq;
                 log_.log(logging::LogKey::GNSS_OBS, now, o);
             }
         }
-- 
2.43.0


From 617cf806c0eb84eaed509d87a111f34f3d1e02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 051/121] fix: a bad element in a configured list threw out of
 Config::get

---
 utils/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/config.h b/utils/config.h
index 0beddbf..69caf31 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -98,7 +98,7 @@ class Config
                         (*out) = node[key_path[i]].as<T>();
                         return true;
                     }
-                    catch (const YAML::TypedBadConversion<T>& e)
+                    catch (const YAML::BadConversion& e)
                     {
                         error("Unable to convert {}", fmt(key));
                         error("{}", fmt(e.what()));
-- 
2.43.0


From 40f7acdebd1658ef0a3a578c4b2fdbf8d51ef62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 052/121] fix: an unusable value for a required configuration
 was ignored

---
 utils/config.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/config.h b/utils/config.h
index 69caf31..74edbfb 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -102,6 +102,7 @@ class Config
                     {
                         error("Unable to convert {}", fmt(key));
                         error("{}", fmt(e.what()));
+                        check(!required, "Unusable configuration {}", fmt(key));
                     }
                 }
                 else
-- 
2.43.0


From 87ccb89cd3d64cc6eaed758b50f76ca5c477e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 053/121] fix: a configuration path through a plain value threw
 instead of being missing

---
 utils/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/config.h b/utils/config.h
index 74edbfb..0b950ec 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -89,7 +89,7 @@ class Config
         std::vector<std::string> key_path = split_string(key, '/');
         for (size_t i = 0; i < key_path.size(); ++i)
         {
-            if (node[key_path[i]])
+            if (!node.IsScalar() && node[key_path[i]])
             {
                 if (i == key_path.size() - 1)
                 {
-- 
2.43.0


From b21e0a85c95df33870a3221178b0037b091cafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 054/121] fix: surplus elements of a configured matrix were
 dropped silently

---
 utils/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/config.h b/utils/config.h
index 0b950ec..e00e9c9 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -43,7 +43,7 @@ struct convert<Eigen::Matrix<T, Rows, Cols>>
                 ++it;
             }
         }
-        return true;
+        return it == node.end();
     }
 };
 }  // namespace YAML
-- 
2.43.0


From 466ce8c9ad40f192637a8674ddc26b042e15b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 055/121] fix: a configured matrix with too few elements was
 read past its end

---
 utils/config.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/utils/config.h b/utils/config.h
index e00e9c9..d6e2e20 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -63,6 +63,12 @@ class Config
         std::vector<typename T::Scalar> row_major;
         if (get(key, make_out(row_major), required))
         {
+            if (static_cast<int>(row_major.size()) != Rows * Cols)
+            {
+                error("Wrong number of elements in {}", fmt(key));
+                check(!required, "Unusable configuration {}", fmt(key));
+                return false;
+            }
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, Cols, Eigen::RowMajor>>(
                 row_major.data());
             return true;
@@ -76,6 +82,12 @@ class Config
         std::vector<typename T::Scalar> row_major;
         if (get(key, make_out(row_major), required))
         {
+            if (static_cast<int>(row_major.size()) != Rows)
+            {
+                error("Wrong number of elements in {}", fmt(key));
+                check(!required, "Unusable configuration {}", fmt(key));
+                return false;
+            }
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, 1>>(row_major.data());
             return true;
         }
-- 
2.43.0


From 4fb605ffb26e8e251b3856c85a8c2880776567b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 056/121] fix: iterating over a Transpose block never ended, so
 reduce() hung on it

---
 core/ekf/ekf_gen/symb_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ekf/ekf_gen/symb_matrix.py b/core/ekf/ekf_gen/symb_matrix.py
index 3749d6b..7346f43 100644
--- a/core/ekf/ekf_gen/symb_matrix.py
+++ b/core/ekf/ekf_gen/symb_matrix.py
@@ -158,6 +158,8 @@ class Transpose(BaseBlock):
         return hash(self.__repr__())
 
     def __getitem__(self, i):
+        if i > 0:
+            raise IndexError("Transpose blocks have only 1 term")
         return self
 
     def __len__(self):
-- 
2.43.0


From 0aef9273eb004fb66a34da82c976c098eb8d3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 057/121] fix: a scalar on the right of a symbolic product, or
 a product of scalars, failed an assertion

---
 core/ekf/ekf_gen/symb_matrix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_matrix.py b/core/ekf/ekf_gen/symb_matrix.py
index 7346f43..671f93a 100644
--- a/core/ekf/ekf_gen/symb_matrix.py
+++ b/core/ekf/ekf_gen/symb_matrix.py
@@ -201,10 +201,12 @@ class Mult(BaseBlock):
         else:
             self.terms.append(b)
 
-        assert self.max_rows == [t for t in self.terms if not t.is_scalar][0].max_rows
-        assert self.max_cols == self.terms[-1].max_cols
-        assert self.rows == [t for t in self.terms if not t.is_scalar][0].rows
-        assert self.cols == self.terms[-1].cols
+        non_scalar_terms = [t for t in self.terms if not t.is_scalar]
+        if len(non_scalar_terms) > 0:
+            assert self.max_rows == non_scalar_terms[0].max_rows
+            assert self.max_cols == non_scalar_terms[-1].max_cols
+            assert self.rows == non_scalar_terms[0].rows
+            assert self.cols == non_scalar_terms[-1].cols
 
     def __hash__(self):
         return hash(self.__repr__())
-- 
2.43.0


From 1dd1f958292be739f12b35d7acba19f49f7ea5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 058/121] fix: subtracting a transpose, a sum or a negated term
 of a symbolic expression lost the sign

---
 core/ekf/ekf_gen/symb_matrix.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_matrix.py b/core/ekf/ekf_gen/symb_matrix.py
index 671f93a..02121ce 100644
--- a/core/ekf/ekf_gen/symb_matrix.py
+++ b/core/ekf/ekf_gen/symb_matrix.py
@@ -48,15 +48,15 @@ class BaseBlock:
             out_max_cols = other.max_cols if not other.is_scalar else self.max_cols
             return ConstBlock("0", out_rows, out_cols, out_max_rows, out_max_cols)
 
-        if self.is_identity and not other.is_scalar:
+        if self.is_identity and not self.is_negative and not other.is_scalar:
             return other
-        elif other.is_identity and not self.is_scalar:
+        elif other.is_identity and not other.is_negative and not self.is_scalar:
             return self
 
         return Mult(self, other)
 
     def set_negative(self):
-        self.is_negative = True
+        self.is_negative = not self.is_negative
 
     def __len__(self):
         assert False, "called len on base class"
@@ -138,16 +138,18 @@ class Transpose(BaseBlock):
         self.block = block
 
     def __repr__(self):
-        if isinstance(self.block, ConstBlock):
-            return f"{self.block.name}.T"
+        sign = "-" if self.is_negative else ""
+        if isinstance(self.block, ConstBlock) and not self.block.is_negative:
+            return sign + f"{self.block.name}.T"
         else:
-            return f"({self.block.name}).T"
+            return sign + f"({self.block.name}).T"
 
     def render(self):
-        if isinstance(self.block, ConstBlock):
-            return f"{self.block.render()}.transpose()"
+        sign = "-" if self.is_negative else ""
+        if isinstance(self.block, ConstBlock) and not self.block.is_negative:
+            return sign + f"{self.block.render()}.transpose()"
         else:
-            return f"({self.block.render()}).transpose()"
+            return sign + f"({self.block.render()}).transpose()"
 
     def __eq__(self, other):
         if self.rows != other.rows or self.cols != other.cols:
@@ -193,11 +195,13 @@ class Mult(BaseBlock):
         self.terms = []
         if isinstance(a, Mult):
             self.terms.extend(a.terms)
+            self.is_negative = a.is_negative
         else:
             self.terms.append(a)
 
         if isinstance(b, Mult):
             self.terms.extend(b.terms)
+            self.is_negative = (self.is_negative != b.is_negative)
         else:
             self.terms.append(b)
 
@@ -278,11 +282,17 @@ class Add(BaseBlock):
         else:
             self.terms.append(b)
 
+    def set_negative(self):
+        # the same block may be a term of several sums (or twice of this one)
+        self.terms = [copy.copy(t) for t in self.terms]
+        for t in self.terms:
+            t.set_negative()
+
     def __repr__(self):
-        return (" - " if self.is_negative else " + ").join([t.name for t in self.terms])
+        return " + ".join([t.name for t in self.terms])
 
     def render(self):
-        return ("-" if self.is_negative else " + ").join([t.render() for t in self.terms])
+        return " + ".join([t.render() for t in self.terms])
 
     def __eq__(self, other):
         if not isinstance(other, Add):
-- 
2.43.0


From a8497899fcb847052e021ed23743d781c5a65f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 059/121] fix: symbolic sums and products were equal when their
 terms agreed but not how often or with which sign

---
 core/ekf/ekf_gen/symb_matrix.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_matrix.py b/core/ekf/ekf_gen/symb_matrix.py
index 02121ce..97285fa 100644
--- a/core/ekf/ekf_gen/symb_matrix.py
+++ b/core/ekf/ekf_gen/symb_matrix.py
@@ -1,6 +1,16 @@
 import copy
 
 
+def same_terms(terms, other_terms):
+    """True if both lists hold the same terms equally often, in any order"""
+    remaining = list(other_terms)
+    for t in terms:
+        if t not in remaining:
+            return False
+        remaining.remove(t)
+    return len(remaining) == 0
+
+
 class BaseBlock:
     def __init__(self, rows, cols, max_rows=None, max_cols=None):
         self.rows = rows
@@ -226,17 +236,16 @@ class Mult(BaseBlock):
         ])
 
     def __eq__(self, other):
+        if not isinstance(other, Mult) or self.is_negative != other.is_negative:
+            return False
         if self.commutative:
             self_c = [t for t in self if t.is_scalar]
             other_c = [t for t in other if t.is_scalar]
             self_nc = [t for t in self if not t.is_scalar]
             other_nc = [t for t in other if not t.is_scalar]
 
-            return ((len(self_c) == len(other_c)) and all([t in other_c for t in self_c])
-                    and all([t in self_c for t in other_c]) and self_nc == other_nc)
+            return same_terms(self_c, other_c) and self_nc == other_nc
         else:
-            if not isinstance(other, Mult):
-                return False
             return self.terms == other.terms
 
     def __getitem__(self, i):
@@ -297,13 +306,7 @@ class Add(BaseBlock):
     def __eq__(self, other):
         if not isinstance(other, Add):
             return False
-        for t in other:
-            if t not in self.terms:
-                return False
-        for t in self.terms:
-            if t not in other.terms:
-                return False
-        return True
+        return same_terms(self.terms, other.terms)
 
     def __hash__(self):
         return hash(self.__repr__())
-- 
2.43.0


From 7b10c86893e3ee6f87be46014ec7a6a1779ca2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 060/121] fix: factoring a term out of scaled or negated
 products of a symbolic sum changed its value

---
 core/ekf/ekf_gen/symb_algebra.py | 41 +++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index 12a228f..ed88dd7 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -1,3 +1,5 @@
+import copy
+
 from core.ekf.ekf_gen.symb_matrix import ConstBlock, Mult, Add
 
 
@@ -25,8 +27,12 @@ def factor_scalars(expr):
                     raise RuntimeError("Cannot factor scalars out of Add blocks")
                 if len(expr) == 1:
                     return expr, ConstBlock("I", t_i.rows, t_i.cols)
-                elif len(expr) == 2:
+                elif len(expr) == 2 and not expr.is_negative:
                     return expr[i], expr[1 - i]
+                elif len(expr) == 2:
+                    rest = copy.copy(expr[1 - i])
+                    rest.set_negative()
+                    return expr[i], rest
                 else:
                     first = expr.terms.pop(i)
                     return first, expr
@@ -72,9 +78,15 @@ def factor_first_term(expr):
         if len(expr) == 1:
             return expr, ConstBlock("I", expr.cols, expr.cols, expr.max_cols, expr.max_cols)
         elif isinstance(expr, Mult):
-            if len(expr) == 2:
+            if len(expr) == 2 and not expr[0].is_scalar and not expr[1].is_scalar \
+                    and not expr.is_negative:
                 return expr[0], expr[1]
             else:
+                if len([t for t in expr if not t.is_scalar]) == 1:
+                    # only scalars remain, they scale the identity
+                    expr.terms.append(
+                        ConstBlock("I", expr.cols, expr.cols, expr.max_cols, expr.max_cols)
+                    )
                 first = expr.pop_front()
                 return first, expr
         else:
@@ -84,8 +96,10 @@ def factor_first_term(expr):
         # find first non-scalar term
         expr_non_scalar_terms = [t for t in expr if not t.is_scalar]
         other_non_scalar_terms = [t for t in other_expr if not t.is_scalar]
+        if len(expr_non_scalar_terms) == 0 or len(other_non_scalar_terms) == 0:
+            return False
         first_term = expr_non_scalar_terms[0]
-        return first_term == other_non_scalar_terms[0]
+        return not first_term.is_identity and first_term == other_non_scalar_terms[0]
 
     i = 0
     while i < len(expr):
@@ -115,11 +129,17 @@ def factor_first_term(expr):
 def factor_last_term(expr):
     def strip_last_term(expr):
         if len(expr) == 1:
-            return ConstBlock("I", expr.rows, expr.rows), expr
+            return ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows), expr
         elif isinstance(expr, Mult):
-            if len(expr) == 2:
+            if len(expr) == 2 and not expr[0].is_scalar and not expr[1].is_scalar \
+                    and not expr.is_negative:
                 return expr[0], expr[1]
             else:
+                if len([t for t in expr if not t.is_scalar]) == 1:
+                    # only scalars remain, they scale the identity
+                    expr.terms.insert(
+                        0, ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows)
+                    )
                 last = expr.pop_back()
                 return expr, last
         else:
@@ -129,8 +149,10 @@ def factor_last_term(expr):
         # find first non-scalar term
         expr_non_scalar_terms = [t for t in expr if not t.is_scalar]
         other_non_scalar_terms = [t for t in other_expr if not t.is_scalar]
+        if len(expr_non_scalar_terms) == 0 or len(other_non_scalar_terms) == 0:
+            return False
         last_term = expr_non_scalar_terms[-1]
-        return last_term == other_non_scalar_terms[-1]
+        return not last_term.is_identity and last_term == other_non_scalar_terms[-1]
 
     i = 0
     while i < len(expr):
@@ -163,9 +185,10 @@ def clean_up_negative(expr):
 
 
 def combine_factors(expr):
-    expr = factor_scalars(expr)
-    expr = factor_first_term(expr)
-    expr = factor_last_term(expr)
+    # each of these takes a sum, and may return a product
+    for factor_impl in (factor_scalars, factor_first_term, factor_last_term):
+        if isinstance(expr, Add):
+            expr = factor_impl(expr)
     return expr
 
 
-- 
2.43.0


From 65351486758854c6802ac559974825c522dae5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 061/121] fix: reducing a symbolic sum altered the expressions
 it was built from

---
 core/ekf/ekf_gen/symb_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index ed88dd7..652e1c1 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -194,6 +194,8 @@ def combine_factors(expr):
 
 def reduce(expr):
     if isinstance(expr, Add):
+        # the factoring below takes products apart, which may also be part of other expressions
+        expr = copy.deepcopy(expr)
         expr = factor(expr)
         expr = combine_factors(expr)
         for i, t in enumerate(expr):
-- 
2.43.0


From 20577d9a554aa783457ce7c6e5654664c092eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 062/121] fix: argument order of generated filter accessors
 depended on the Python hash seed

---
 core/ekf/ekf_gen/ekf_gen.py              | 10 +++++-----
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 18 +++++++++---------
 core/ekf/ekf_gen/ekf_gen_state.py        | 24 ++++++++++++------------
 core/ekf/ekf_gen/ekf_gen_utils.py        |  6 ++++++
 4 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index f2a8de9..a225ce6 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -12,7 +12,7 @@ from numpy.lib.arraysetops import isin
 from core.ekf.ekf_gen.ekf_gen_test import gen_test
 from core.ekf.ekf_gen.ekf_gen_utils import (
     accumulate_expr, make_camel, make_snake, State, includes, begin_namespaces, end_namespaces,
-    get_matching_elements, jac_member_name
+    get_matching_elements, jac_member_name, unique
 )
 from core.ekf.ekf_gen.ekf_gen_templates import DO_UPDATE_TEMPLATE, EKF_HEADER_TEMPLATE, EKF_IMPL_TEMPLATE, TYPE_HEADER_TEMPLATE, TYPE_IMPL_TEMPLATE
 from core.ekf.ekf_gen.ekf_gen_matrix_manip import block_sparse_propagate_covariance, sparse_meas_update
@@ -79,9 +79,9 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"Mat<{sr.dx}, {sc.dx}> {jac_member_name(sr, sc)};")
                 if sr.variable and sr.name == None:
                     # Per-observation block accessor
-                    args = {f"int idx"}
+                    args = ["int idx"]
                     if sc.variable:
-                        args.add(f"int {sc.counter_var}")
+                        args.append(f"int {sc.counter_var}")
                     start_idx = f"idx * {sr.base_dx}"
                     block = f"{buffer_name(sr,sc)}.block({start_idx}, 0, {sr.base_dx}, {dim(sc)})"
                     decl = f"inline auto {jac_member_name(sr, sc)}({', '.join(args)})"
@@ -90,7 +90,7 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"{decl} const {impl}")
 
                 if sr.variable or sc.variable:
-                    args = {f"int {s.counter_var}" for s in [sr, sc] if s.variable}
+                    args = unique(f"int {s.counter_var}" for s in [sc, sr] if s.variable)
                     block = f"{buffer_name(sr, sc)}.block(0, 0, {dim(sr)}, {dim(sc)})"
                     fname = f"inline auto {jac_member_name(sr, sc)}"
                     if sr.variable and sr.name == None:
@@ -196,7 +196,7 @@ def make_jacobian_dense_impl(matrix, name, row_states, col_states):
         col_expr = 0
         for c, cs in enumerate(col_states):
             if rs.variable or cs.variable:
-                args = {f"{s.counter_var}" for s in (rs, cs) if s.variable}
+                args = unique(f"{s.counter_var}" for s in (cs, rs) if s.variable)
                 assigner = f"out.block({row_expr}, {col_expr}, {dim(rs)}, {dim(cs)})"
                 fname = f"{jac_member_name(rs, cs)}"
                 if rs.variable and rs.name == None:
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..1600da9 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -3,7 +3,7 @@ import re
 from core.ekf.ekf_gen.symb_algebra import reduce
 from core.ekf.ekf_gen.symb_matrix import ConstBlock
 from core.ekf.ekf_gen.symb_block_matrix import SymBlockMatrix
-from core.ekf.ekf_gen.ekf_gen_utils import State, make_camel, jac_member_name, accumulate_expr
+from core.ekf.ekf_gen.ekf_gen_utils import State, make_camel, jac_member_name, accumulate_expr, unique
 
 symbol_varname = {"transpose": "transpose"}
 
@@ -49,7 +49,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = unique(s.counter_var for s in [cstate, rstate] if s.variable)
                     symbol_varname[name] = f"dxdx.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdx.{name}"
@@ -66,7 +66,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = unique(s.counter_var for s in [cstate, rstate] if s.variable)
                     symbol_varname[name] = f"dxdu.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdu.{name}"
@@ -85,7 +85,7 @@ def create_symbolic_covariance(cfg, var_name):
         if not rs.variable and not cs.variable:
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
-            args = ', '.join({f"{s.counter_var}" for s in [rs, cs] if s.variable})
+            args = ', '.join(unique(s.counter_var for s in [rs, cs] if s.variable))
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}({args})"
 
     for r, rstate in enumerate(states):
@@ -192,7 +192,7 @@ def commit_mat_inplace_modify(matrix, var, modify_type='-', symmetric=False):
             expr = matrix[r, c]
             if not expr.is_zero:
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = unique(f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str))
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} {modify_type}= {impl_expr(expr)};")
                     out.append("}}")
@@ -214,7 +214,7 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     continue
                 expr = matrix[r, c]
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = unique(f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str))
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} = {impl_expr(expr)};")
                     out.append("}}")
@@ -253,11 +253,11 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     expr_text = make_type(expr)
                     symbol_varname[f"{name}_init"] = name
                     out.append(f"{expr_text} {{{name}_init}};")
-                    sizes = {
+                    sizes = unique(
                         f"({s} > 0)"
                         for s in (expr.rows, expr.cols)
                         if isinstance(s, str) and s not in already_checked_size
-                    }
+                    )
                     if len(sizes) > 0:
                         out.append(f"if ({' && '.join(sizes)}) {{{{")
                     sub_name = f"{name}.block(0, 0, {expr.rows}, {expr.cols})"
@@ -343,7 +343,7 @@ def create_symbolic_measurement_jacobian(cfg, key):
             name = f"{jac_member_name(sr, sc)}"
             dzdx.append(ConstBlock(name, dim(meas_state), dim(sc), sr.dx, sc.dx))
             if meas_state.variable or sc.variable:
-                args = {s.counter_var for s in (meas_state, sc) if s.variable}
+                args = unique(s.counter_var for s in (sc, meas_state) if s.variable)
                 symbol_varname[
                     name] = f"dzdx.{name}{'_all' if meas_state.variable else ''}({','.join(args)})"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..092066c 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -2,19 +2,19 @@ from itertools import accumulate
 
 from core.ekf.ekf_gen.ekf_gen_templates import STATE_HEADER_TEMPLATE, STATE_IMPL_TEMPLATE
 from core.ekf.ekf_gen.ekf_gen_utils import (
-    accumulate_expr, make_camel, begin_namespaces, end_namespaces
+    accumulate_expr, make_camel, begin_namespaces, end_namespaces, unique
 )
 
 
 def state_using_statements(cfg):
     states = cfg['state_composition']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = unique(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
 def input_using_statements(cfg):
     states = cfg['input']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = unique(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
@@ -48,7 +48,7 @@ def error_state_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -149,7 +149,7 @@ def covariance_members(cfg):
             if not s1.variable and not s2.variable:
                 out.append(f"Mat<{s1.dx}, {s2.dx}> {member_name(s1, s2)};")
             if s1.variable or s2.variable:
-                args = {f"int {s.counter_var}" for s in [s1, s2] if s.variable}
+                args = unique(f"int {s.counter_var}" for s in [s1, s2] if s.variable)
                 block = f"{buffer_name(s1, s2)}.block(0, 0, {dim(s1)}, {dim(s2)})"
                 out.append(
                     f"inline auto {member_name(s1, s2)}({', '.join(args)}){{ return {block}; }}"
@@ -206,7 +206,7 @@ def covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -510,7 +510,7 @@ def input_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -535,7 +535,7 @@ def process_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -561,7 +561,7 @@ def input_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -670,7 +670,7 @@ def make_dense_vector(states, name):
     out = []
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -707,7 +707,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
     variable_col_states = [s for s in col_states if s.variable]
     if len(variable_rows_states) > 0 or len(variable_col_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_rows_states + variable_col_states}
+        args = unique(f"int {s.counter_var}" for s in variable_rows_states + variable_col_states)
     else:
         args = {}
         r_dx = sum([s.dx for s in fixed_rows_states])
@@ -729,7 +729,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
                 getter = f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
             assign = f"out.block({row_accum}, {col_accum}, {dim(rs)}, {dim(cs)})"
-            args = {s.counter_var for s in (rs, cs) if s.variable}
+            args = unique(s.counter_var for s in (rs, cs) if s.variable)
             if diagonal:
                 getter = f"{make_camel(rs.name)}.replicate({rs.counter_var}, 1).asDiagonal()"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_utils.py b/core/ekf/ekf_gen/ekf_gen_utils.py
index 3966652..25f16ba 100644
--- a/core/ekf/ekf_gen/ekf_gen_utils.py
+++ b/core/ekf/ekf_gen/ekf_gen_utils.py
@@ -8,6 +8,12 @@ def accumulate_expr(expr, dim):
         return expr + dim
 
 
+def unique(items):
+    """ Drops duplicates and keeps the order, which must not depend on the hash seed: arguments are
+    declared in one place and passed in another. """
+    return list(dict.fromkeys(items))
+
+
 def get_matching_elements(items, condition):
     for item in items:
         if condition(item):
-- 
2.43.0


From e74059d1ead5c997e95101cbcaa6e14cddbfae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 063/121] fix: a sum factored down to one product was taken
 apart again as if it were a sum, and lost signs

---
 core/ekf/ekf_gen/symb_algebra.py | 57 +++++++++++++++-----------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index 652e1c1..9d94922 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -19,6 +19,16 @@ def factor(expr):
     return expr
 
 
+def remainder(mult):
+    """ What is left of a product after one of its factors has been removed """
+    if len(mult) > 1:
+        return mult
+    term = copy.copy(mult[0])
+    if mult.is_negative:
+        term.set_negative()
+    return term
+
+
 def factor_scalars(expr):
     def strip_scalar(scalar, expr):
         for i, t_i in enumerate(expr):
@@ -27,15 +37,9 @@ def factor_scalars(expr):
                     raise RuntimeError("Cannot factor scalars out of Add blocks")
                 if len(expr) == 1:
                     return expr, ConstBlock("I", t_i.rows, t_i.cols)
-                elif len(expr) == 2 and not expr.is_negative:
-                    return expr[i], expr[1 - i]
-                elif len(expr) == 2:
-                    rest = copy.copy(expr[1 - i])
-                    rest.set_negative()
-                    return expr[i], rest
                 else:
                     first = expr.terms.pop(i)
-                    return first, expr
+                    return first, remainder(expr)
 
     def same_scalar_term(expr, other_expr):
         expr_scalar_terms = [t for t in expr if t.is_scalar]
@@ -63,7 +67,7 @@ def factor_scalars(expr):
                     t_i = expr.terms[i]
                     expr.terms.pop(j)
                     if len(expr) == 1:
-                        expr = expr.terms[0]
+                        return expr.terms[0]
                     modified = True
                 else:
                     j += 1
@@ -78,17 +82,13 @@ def factor_first_term(expr):
         if len(expr) == 1:
             return expr, ConstBlock("I", expr.cols, expr.cols, expr.max_cols, expr.max_cols)
         elif isinstance(expr, Mult):
-            if len(expr) == 2 and not expr[0].is_scalar and not expr[1].is_scalar \
-                    and not expr.is_negative:
-                return expr[0], expr[1]
-            else:
-                if len([t for t in expr if not t.is_scalar]) == 1:
-                    # only scalars remain, they scale the identity
-                    expr.terms.append(
-                        ConstBlock("I", expr.cols, expr.cols, expr.max_cols, expr.max_cols)
-                    )
-                first = expr.pop_front()
-                return first, expr
+            if len([t for t in expr if not t.is_scalar]) == 1:
+                # only scalars remain, they scale the identity
+                expr.terms.append(
+                    ConstBlock("I", expr.cols, expr.cols, expr.max_cols, expr.max_cols)
+                )
+            first = expr.pop_front()
+            return first, remainder(expr)
         else:
             raise RuntimeError("Cannot factor anything besides ConstBlocks and Mults")
 
@@ -118,6 +118,7 @@ def factor_first_term(expr):
                 expr.terms.pop(j)
                 if len(expr) == 1:
                     expr = expr[0]
+                    return expr
             else:
                 j += 1
         i += 1
@@ -131,17 +132,13 @@ def factor_last_term(expr):
         if len(expr) == 1:
             return ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows), expr
         elif isinstance(expr, Mult):
-            if len(expr) == 2 and not expr[0].is_scalar and not expr[1].is_scalar \
-                    and not expr.is_negative:
-                return expr[0], expr[1]
-            else:
-                if len([t for t in expr if not t.is_scalar]) == 1:
-                    # only scalars remain, they scale the identity
-                    expr.terms.insert(
-                        0, ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows)
-                    )
-                last = expr.pop_back()
-                return expr, last
+            if len([t for t in expr if not t.is_scalar]) == 1:
+                # only scalars remain, they scale the identity
+                expr.terms.insert(
+                    0, ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows)
+                )
+            last = expr.pop_back()
+            return remainder(expr), last
         else:
             raise RuntimeError("Cannot factor anything besides ConstBlocks and Mults")
 
-- 
2.43.0


From fe516a02af04651f38c178e8925398f94f587a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 064/121] fix: copying a filter state, or adding an error to
 it, lost its time

---
 core/ekf/ekf_gen/ekf_gen_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 092066c..b5ac3fe 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -217,7 +217,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
@@ -388,7 +388,7 @@ def boxplus_impl(cfg):
         else:
             return f"xp.{s.name}{idx} = {s.name}{idx} + dx.{s.name}{soft_idx};"
 
-    out = []
+    out = ["xp.t = t;"]
     for s in fixed_states:
         out.append(state_plus_impl(s))
     for s in variable_states:
-- 
2.43.0


From 62ae94b9403ba301ccca6a898e0a68b2431b64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 065/121] fix: a covariance made from a process covariance left
 correlations and variable-size states uninitialised

---
 core/ekf/ekf_gen/ekf_gen_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index b5ac3fe..cb199cc 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -776,11 +776,12 @@ def covariance_dense(cfg):
 
 def covariance_from_process_cov(cfg):
     states = cfg["state_composition"]
-    out = []
+    # The states are uncorrelated
+    out = ["setIdentity();"]
     for s in states:
         if s.variable:
             out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
+                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = cov.{make_camel(s.name)}.replicate({s.bundle_size}, 1).asDiagonal();"
             )
         else:
             out.append(
-- 
2.43.0


From 195b1da2dcb17d89f8b4e6d588ae5c37509fa1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 066/121] fix: tile() returned an uninitialised matrix

---
 common/matrix_defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index 9859b6a..aabd226 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -132,7 +132,7 @@ inline Eigen::MatrixXd tile(const Eigen::MatrixXd& a, size_t vcopies, size_t hco
     {
         for (size_t j = 0; j < hcopies; ++j)
         {
-            out.block(i * a.rows(), j * a.cols(), a.rows(), a.cols());
+            out.block(i * a.rows(), j * a.cols(), a.rows(), a.cols()) = a;
         }
     }
     return out;
-- 
2.43.0


From 0923171879e5cc8138ea0aa305eb929ce83fe9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 067/121] fix: the size of a filter state counted a
 variable-size manifold or vector state as one per element

---
 core/ekf/ekf_gen/ekf_gen_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index cb199cc..bce3b9f 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -98,7 +98,7 @@ def state_size(cfg):
     states = cfg['state_composition']
     accum = 0
     for s in states:
-        dim = s.dx if not s.variable else s.counter_var
+        dim = s.dx if not s.variable else f"{s.base_dx} * {s.counter_var}"
         accum = accumulate_expr(accum, dim)
     return accum
 
-- 
2.43.0


From f4b0a2d7a32e311076cf975d5eee89ce7ec87542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 068/121] fix: the unused part of variable-size states and
 measurements was read uninitialised, and decided gating and checks

---
 core/ekf/ekf_gen/ekf_gen.py              | 3 ++-
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 2 ++
 core/ekf/ekf_gen/ekf_gen_state.py        | 9 +++++----
 core/ekf/ekf_gen/ekf_gen_templates.py    | 4 ++--
 core/ekf/rtk_ekf_impl.cxx                | 4 ++--
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index a225ce6..ddc0074 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -46,7 +46,8 @@ def make_jacobian(name, matrix, row_states, col_states):
         for row in matrix:
             for sr, sc in row:
                 if sr.variable or sc.variable:
-                    out.append(f"Mat<{sr.dx}, {sc.dx}> {buffer_name(sr, sc)};")
+                    mat = f"Mat<{sr.dx}, {sc.dx}>"
+                    out.append(f"{mat} {buffer_name(sr, sc)} = {mat}::Zero();")
         return "\n    ".join(out)
 
     def dim(s):
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 1600da9..c8c21b9 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -428,4 +428,6 @@ def sparse_meas_update(cfg, key):
         "SPARSE_KALMAN_GAIN": SPARSE_KALMAN_GAIN,
         "SPARSE_COMPUTE_ERROR_STATE": SPARSE_COMPUTE_ERROR_STATE,
         "SPARSE_COVARIANCE_UPDATE": SPARSE_COVARIANCE_UPDATE,
+        "SINV": symbol_varname["Sinv"],
+        "RES": symbol_varname["res"],
     }
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index bce3b9f..488e3f1 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -24,7 +24,7 @@ def error_state_buffers(cfg):
 
     out = []
     for s in variable_states:
-        out.append(f"Vec<{s.dx}> {s.name}_buf_;")
+        out.append(f"Vec<{s.dx}> {s.name}_buf_ = Vec<{s.dx}>::Zero();")
 
     return "\n    ".join(out)
 
@@ -122,7 +122,8 @@ def covariance_buffers(cfg):
             if r > c:
                 continue
             if s1.variable or s2.variable:
-                out.append(f"Mat<{s1.dx}, {s2.dx}> {buffer_name(s1, s2)};")
+                mat = f"Mat<{s1.dx}, {s2.dx}>"
+                out.append(f"{mat} {buffer_name(s1, s2)} = {mat}::Zero();")
     return "\n    ".join(out)
 
 
@@ -578,8 +579,8 @@ def finite_state(cfg):
     for i, s in enumerate(fixed_states):
         out.append(f"is_finite &= mc::isFinite(x.{s.name});")
     for s in variable_states:
-        out.append(f"for (const auto& sub_field : x.{s.name}){{")
-        out.append("    is_finite &= mc::isFinite(sub_field);")
+        out.append(f"for (size_t i = 0; i < x.{s.counter_var}; ++i) {{")
+        out.append(f"    is_finite &= mc::isFinite(x.{s.name}[i]);")
         out.append("}")
     out.append("return is_finite;")
     return "\n    ".join(out)
diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..921b43c 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -687,9 +687,9 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
 
     // S⁻¹ = (HPHᵀ + R)⁻¹
     {SPARSE_INNOVATION}
-    check(mc::isFinite(Sinv), "numerical issues in innovation");
+    check(mc::isFinite({SINV}), "numerical issues in innovation");
 
-    const double mahal = res.transpose() * Sinv * res;
+    const double mahal = {RES}.transpose() * {SINV} * {RES};
     // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE-1)
     if (mahal > {Meas}::MAX_MAHAL)
     {{
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..a4a1295 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -118,7 +118,7 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
     const math::Quat<double> q_b2e = (x.pose.rotation().inverse() * x.T_I2e.rotation());
     const Vec3 v_I2g_e = q_b2e.rotp(v_I2g_b);
 
-    obsMeas::Residual residual;
+    obsMeas::Residual residual = obsMeas::Residual::Zero();
 
     for (size_t i = 0; i < z.size(); ++i)
     {
@@ -207,7 +207,7 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
           "estimate.  num_sd = {}, num_fix_and_hold = {}",
           fmt(num_sd, num_fix_and_hold));
 
-    fixAndHoldMeas::Residual res;
+    fixAndHoldMeas::Residual res = fixAndHoldMeas::Residual::Zero();
     for (int i = 0; i < num_sd; ++i)
     {
         res[i] = (z[i] - x.sd[i])[0];
-- 
2.43.0


From 2c9e474b114afb3b3bdda30295e8ef4c299cd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 069/121] fix: a scalar measurement with a gating probability
 was always gated

---
 core/ekf/ekf_gen/ekf_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index ddc0074..87999c4 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -468,7 +468,8 @@ def compute_max_mahal(cfg, key):
     if max_prob < 1.0:
         meas_size = meas_state.dx
         x = np.arange(0, 1000, 0.01)
-        chi2_cdf = chi2.cdf(x, meas_size - 1)
+        # A scalar measurement still has one degree of freedom
+        chi2_cdf = chi2.cdf(x, max(meas_size - 1, 1))
         idx = (np.abs(chi2_cdf - max_prob)).argmin()
         return f"{x[idx]}"
     else:
-- 
2.43.0


From ffe4902b03200f6c11de2fe87b7e70beec98aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 070/121] fix: update() of a fixed-size measurement with
 metadata did not compile

---
 core/ekf/ekf_gen/ekf_gen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index 87999c4..bf9fccc 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -444,6 +444,11 @@ def meas_is_finite(cfg, key):
         out += "    return is_finite;\n"
         out += "}"
         return out
+    if 'metadata' in meas_cfg:
+        out = f"bool isFinite(const {namespaces}::{make_camel(key)}Meas::ZType& z) {{\n"
+        out += "    return isFinite(z.z);\n"
+        out += "}"
+        return out
     return ""
 
 
@@ -524,7 +529,7 @@ def is_finite_decls(cfg):
         meas_cfg = cfg["measurements"][key]
         meas_state = State(key, meas_cfg['type'])
         type_name = f"{make_camel(key)}Meas"
-        if meas_state.variable:
+        if meas_state.variable or 'metadata' in meas_cfg:
             out.append(f"bool isFinite(const {namespaces}::{type_name}::ZType& z);")
         out.append(f"bool isFinite(const {namespaces}::{type_name}::Jac& z);")
     return "\n".join(out)
-- 
2.43.0


From 31b7132ff42fc10fe47431467da09ea072e61264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 071/121] fix: the update generated for a scalar measurement
 did not compile

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 921b43c..f5a6605 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -689,7 +689,7 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
     {SPARSE_INNOVATION}
     check(mc::isFinite({SINV}), "numerical issues in innovation");
 
-    const double mahal = {RES}.transpose() * {SINV} * {RES};
+    const double mahal = {RES}.dot({SINV} * {RES});
     // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE-1)
     if (mahal > {Meas}::MAX_MAHAL)
     {{
-- 
2.43.0


From 7ef417441ed2ac3d74c310ad0bce6b3a4492184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 072/121] fix: one-element blocks of a filter were treated as
 commuting scalars, and the generator failed or its output did not compile

---
 core/ekf/ekf_gen/symb_block_matrix.py | 3 +++
 core/ekf/ekf_gen/symb_matrix.py       | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_block_matrix.py b/core/ekf/ekf_gen/symb_block_matrix.py
index f2e611d..858333b 100644
--- a/core/ekf/ekf_gen/symb_block_matrix.py
+++ b/core/ekf/ekf_gen/symb_block_matrix.py
@@ -18,6 +18,9 @@ class SymBlockMatrix:
             for c in r:
                 if c.rows != num_rows:
                     raise RuntimeError("Mismatched rows in block matrix")
+                if isinstance(c, ConstBlock):
+                    # a block of one element is a matrix, it does not commute with other blocks
+                    c.is_scalar = False
 
         for c in range(self.cols):
             num_cols = self._block_list[0][c].cols
diff --git a/core/ekf/ekf_gen/symb_matrix.py b/core/ekf/ekf_gen/symb_matrix.py
index 97285fa..2ff140d 100644
--- a/core/ekf/ekf_gen/symb_matrix.py
+++ b/core/ekf/ekf_gen/symb_matrix.py
@@ -146,6 +146,7 @@ class Transpose(BaseBlock):
     def __init__(self, block):
         super().__init__(block.cols, block.rows, block.max_cols, block.max_rows)
         self.block = block
+        self.is_scalar = block.is_scalar
 
     def __repr__(self):
         sign = "-" if self.is_negative else ""
@@ -180,13 +181,13 @@ class Transpose(BaseBlock):
 
 class Mult(BaseBlock):
     def __init__(self, a, b):
-        if a.shape == (1, 1):
+        if a.is_scalar:
             rows = b.rows
             cols = b.cols
             max_rows = b.max_rows
             max_cols = b.max_cols
             self.commutative = True
-        elif b.shape == (1, 1):
+        elif b.is_scalar:
             rows = a.rows
             cols = a.cols
             max_rows = a.max_rows
@@ -215,6 +216,7 @@ class Mult(BaseBlock):
         else:
             self.terms.append(b)
 
+        self.is_scalar = all(t.is_scalar for t in self.terms)
         non_scalar_terms = [t for t in self.terms if not t.is_scalar]
         if len(non_scalar_terms) > 0:
             assert self.max_rows == non_scalar_terms[0].max_rows
@@ -290,6 +292,7 @@ class Add(BaseBlock):
             self.terms.extend(b.terms)
         else:
             self.terms.append(b)
+        self.is_scalar = all(t.is_scalar for t in self.terms)
 
     def set_negative(self):
         # the same block may be a term of several sums (or twice of this one)
-- 
2.43.0


From 0396b2dc9d9de56def9a4894b6b48b84e79fa06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 073/121] fix: a filter with an SO3 state did not compile

---
 common/math/so3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/so3.h b/common/math/so3.h
index d2c6702..1ab8890 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -232,6 +232,7 @@ class SO3
         w.setRandom();
         return SO3::exp(w);
     }
+    void setRandom() { *this = Random(); }
 
     Vec3 rotp(const Vec3& v) const { return rot_ * v; }
     Vec3 rota(const Vec3& v) const { return rot_.transpose() * v; }
-- 
2.43.0


From 0327784de7856cb78bfddf7e1a4338b15f275540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 074/121] fix: a measurement arriving after later-sorted ones
 of the same time made the estimator apply those twice

---
 core/ekf/rtk_ekf_estimator.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..ad862f6 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -118,19 +118,32 @@ class RtkEkfEstimator
 
         auto it = measurements_.insert(Meas{meas_time, z});
 
-        if (meas_time < t())
+        // Out-of-order measurement.  We need to rewind to apply it.
+        const MeasIterator next = std::next(it);
+        MeasIterator replay = measurements_.end();
+        const auto rewind = [&]() {
+            replay = measurements_.lower_bound(Meas{t(), {}});
+            states_.pop_back();
+        };
+        while (states_.size() > 1 && t() > meas_time)
         {
-            // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
-
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
+            rewind();
+        }
+        // Measurements with the same time which come after this one are already in this state, so
+        // go one state further back to apply all of them in order
+        if (next != measurements_.end() && !(next->t > t().quantized()))
+        {
+            while (states_.size() > 1 && !(meas_time > t().quantized()))
             {
-                states_.pop_back();
+                rewind();
             }
         }
 
-        rollFilter(it, measurements_.end());
+        if (replay == measurements_.end() || *it < *replay)
+        {
+            handleMeas(*it);
+        }
+        rollFilter(replay, measurements_.end());
 
         dropOldMeasurements();
 
-- 
2.43.0


From 44eb0e73001fa8cb27bf5a02b7210183daff25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 075/121] fix: every observation given to the estimator was
 treated as a GPS one

---
 core/ekf/rtk_ekf_estimator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..0e7b0f3 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -154,7 +154,8 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num),
+                     o.gnss_id});
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
-- 
2.43.0


From 54d983600652c9e7d89e7a14c601222184243ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 076/121] fix: initializing an estimator again kept its old
 states and measurements

---
 core/ekf/rtk_ekf_estimator.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 0e7b0f3..a70982b 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -49,6 +49,8 @@ void RtkEkfEstimator::init(const UTCTime& t0,
     u0.accel = -GRAVITY;
     u0.gyro.setZero();
 
+    states_.clear();
+    measurements_.clear();
     states_.emplace_back();
     x() = x0;
     t() = t0;
-- 
2.43.0


From 173fc92143ae96d6b57373a1d4d6a9ede2dfe731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 077/121] fix: more observations than the filter has room for
 were written past its buffers

---
 core/ekf/rtk_ekf_estimator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index ad862f6..0bc3e5f 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -106,6 +106,11 @@ class RtkEkfEstimator
 
         if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>)
         {
+            if (2 * z.size() > obsMeas::MAX_SIZE)
+            {
+                warn("Unable to handle {} observations at once", fmt(z.size()));
+                return Error::create("too many observations");
+            }
             for (const auto& obs : z)
             {
                 if (!hasCache(obs.gnss_id, obs.sat_num))
-- 
2.43.0


From c8daca71ea6a7b0043e94d0aac118bbe0319c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 078/121] fix: an IMU sample just after the estimate's time,
 but within the time quantum, ended the process

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index a70982b..d051c02 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -95,7 +95,7 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const ImuMeas& z)
 
 void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 {
-    if (meas_time > t())
+    if (meas_time > t().quantized())
     {
         Snapshot& snap = states_.back();
         states_.emplace_back();
-- 
2.43.0


From 2f37e746b998c69305a9bcddd52e2f73dc48854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 079/121] fix: the filter's process model rotated gravity the
 wrong way between the body and inertial frames

---
 core/ekf/rtk_ekf_impl.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index a4a1295..7ab4eb4 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -6,12 +6,12 @@ namespace ekf {
 
 #define T transpose()
 
+static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+
 ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dxdu)
 {
     const Vec3 omega = u.gyro - x.gyro_bias;
     const Vec3 acc = u.accel - x.acc_bias;
-    static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
-
     if (dxdx)
     {
         dxdx->setZero();
@@ -25,7 +25,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dPosdRot = -skew(x.vel);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = -skew(acc);
+        dVeldRot = skew(x.pose.rotp(gravity));
 
         dxdx->dVel_dAccBias = -Mat3::Identity();
     }
@@ -40,7 +40,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc;
+    xdot.vel = x.pose.rotp(gravity) + acc;
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -64,7 +64,7 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     ErrorState out = ErrorState::Zero();
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>());
     return out;
 }
 
-- 
2.43.0


From f9aeac78550d9b391f51b6a9f6543da4f7dc7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 080/121] fix: the filter's process model left out the rotation
 of the frame its velocity is in

---
 core/ekf/rtk_ekf.yaml     | 2 +-
 core/ekf/rtk_ekf_impl.cxx | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/ekf/rtk_ekf.yaml b/core/ekf/rtk_ekf.yaml
index 550cca3..bcd5a22 100644
--- a/core/ekf/rtk_ekf.yaml
+++ b/core/ekf/rtk_ekf.yaml
@@ -61,7 +61,7 @@ input:
 dynamics:
   #  pose, vel, acc_bias, gyro_bias, gps_clk, gal_clk, glo_clk, p_b2g, T_I2e, sd,
   pose: [[pose, vel, gyro_bias], [gyro]]
-  vel: [[pose, acc_bias], [accel]]
+  vel: [[pose, vel, acc_bias, gyro_bias], [accel, gyro]]
   acc_bias: [[], []]
   gyro_bias: [[], []]
   gps_clk: [[gps_clk], []]
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 7ab4eb4..796137a 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -27,7 +27,9 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dRotdBg = -Mat3::Identity();
         dVeldRot = skew(x.pose.rotp(gravity));
 
+        dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
+        dxdx->dVel_dGyroBias = -skew(x.vel);
     }
 
     if (dxdu)
@@ -35,12 +37,13 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdu->setZero();
         dxdu->dPose_dGyro.topRows<3>().setIdentity();
         dxdu->dVel_dAccel.setIdentity();
+        dxdu->dVel_dGyro = skew(x.vel);
     }
 
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rotp(gravity) + acc;
+    xdot.vel = x.pose.rotp(gravity) + acc - omega.cross(x.vel);
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -64,7 +67,8 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     ErrorState out = ErrorState::Zero();
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
+              (u.gyro - x.gyro_bias).cross(dx.vel) - x.vel.cross(dx.gyro_bias - eta.gyro);
     return out;
 }
 
-- 
2.43.0


From 3bdc27dced49dc7b068a7f7b93f9e2fe4539b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 081/121] fix: the process model's Jacobian left out the clock
 drift and the turning of the position error

---
 core/ekf/rtk_ekf_impl.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 796137a..d1b88cc 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -17,12 +17,14 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->setZero();
         auto dRotdRot = dxdx->dPose_dPose.block<3, 3>(0, 0);
         auto dPosdRot = dxdx->dPose_dPose.block<3, 3>(3, 0);
+        auto dPosdPos = dxdx->dPose_dPose.block<3, 3>(3, 3);
         auto dPosdVel = dxdx->dPose_dVel.block<3, 3>(3, 0);
         auto dRotdBg = dxdx->dPose_dGyroBias.block<3, 3>(0, 0);
         auto dVeldRot = dxdx->dVel_dPose.block<3, 3>(0, 0);
 
         dRotdRot = -skew(omega);
         dPosdRot = -skew(x.vel);
+        dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
         dVeldRot = skew(x.pose.rotp(gravity));
@@ -30,6 +32,10 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
         dxdx->dVel_dGyroBias = -skew(x.vel);
+
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -66,9 +72,13 @@ ErrorState errorStateDynamics(const ErrorState& dx,
 {
     ErrorState out = ErrorState::Zero();
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
-    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
+    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) -
+                         (u.gyro - x.gyro_bias).cross(dx.pose.tail<3>());
     out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
               (u.gyro - x.gyro_bias).cross(dx.vel) - x.vel.cross(dx.gyro_bias - eta.gyro);
+    out.gps_clk(0) = dx.gps_clk(1);
+    out.gal_clk(0) = dx.gal_clk(1);
+    out.glo_clk(0) = dx.glo_clk(1);
     return out;
 }
 
-- 
2.43.0


From 4b9b382550facb9ad3fa0f4c2c1a52bfc295566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 082/121] fix: the IMU factor corrected for the whole bias
 instead of its change since integration

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..ef3a9b2 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -165,7 +165,7 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
     Map<Vec9> residual(_res);
 
-    const ImuErrorState bias_adjustment = dStatedBias() * bias;  //(bias - bias_);
+    const ImuErrorState bias_adjustment = dStatedBias() * (bias - bias_);
     ImuState adjusted_state = state() + bias_adjustment;
 
     const double dt = delta_t();
-- 
2.43.0


From 25718b97be94b418b69e28a7e44d7e1a66ca741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 083/121] fix: the IMU factor's pose Jacobians were right only
 at the identity

---
 models/imu_model.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index ef3a9b2..65bbf94 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -191,9 +191,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -206,9 +206,11 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            const Mat3 R_end2start =
+                start_pose.rotation().R() * end_pose.rotation().R().transpose();
+            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * R_end2start;
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = R_end2start;
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From 3a02d5718aadf19db876ac77e3eb88462aaa483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 084/121] fix: splitting IMU data less than a quantum from a
 sample ended the process

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index 65bbf94..be56a79 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -84,7 +84,7 @@ Error ImuModel::integrate(const meas::ImuSample& imu)
     check(isFinite(imu.gyro), "NaN detected in imu gyroscope data");
 
     double dt = (imu.t - tf()).toSec();
-    check(dt >= TIME_QUANTIZATION,
+    check(imu.t > tf().quantized(),
           "IMU Samples must be in order, and spaced more than {}s apart (dt = {})",
           fmt(TIME_QUANTIZATION, dt));
 
-- 
2.43.0


From d6fb78c599445602154a05242075fad863d7c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 085/121] fix: the pseudorange factor's Jacobians ignored
 correlated noise

---
 models/prange_model.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..7400779 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -132,17 +132,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         {
             VecJacobian<3> jac(jacobians[1]);
             jac.drho().setZero();
-            jac.ddop() = sw_var * -e.T * sqrt_inv_cov_(1, 1) * R_E2n.T * R_n2b.T;
+            jac.ddop() = sw_var * -e.T * R_E2n.T * R_n2b.T;
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
 
         // res_by_clk
         if (jacobians[2])
         {
             VecJacobian<2> jac(jacobians[2]);
-            jac.drho() << sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(0, 0), 0;
-            jac.ddop() << 0, sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(1, 1);
+            jac.drho() << sw_var * C_LIGHT / 1e9, 0;
+            jac.ddop() << 0, sw_var * C_LIGHT / 1e9;
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
 
         // res_by_T_r2n
@@ -162,17 +164,17 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         if (jacobians[4])
         {
             Eigen::Map<Vec3> jac(jacobians[4]);
-            jac(0) = sqrt_inv_cov_(0, 0) * (est_prange - obs_.pseudorange);
-            jac(1) = sqrt_inv_cov_(1, 1) * (est_doppler - obs_.doppler);
-            jac(2) = -sqrt_inv_cov_(2, 2);
+            jac = sqrt_inv_cov_ *
+                  Vec3(est_prange - obs_.pseudorange, est_doppler - obs_.doppler, -1.0);
         }
         // res_by_p_b2g
         if (jacobians[5])
         {
             VecJacobian<3> jac(jacobians[5]);
-            jac.drho() = -sw_var * sqrt_inv_cov_(0, 0) * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
+            jac.drho() = -sw_var * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
             jac.ddop().setZero();
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
     }
 
-- 
2.43.0


From 18512b3b21c29ee88d3ab3da67fe366255c612bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 086/121] fix: ambiguities beyond the range of int lost their
 fractional part

---
 common/matrix_defs.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index aabd226..d4e1942 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -2,6 +2,8 @@
 #pragma once
 
 #include <Eigen/Core>
+#include <algorithm>
+#include <cmath>
 #include <vector>
 
 namespace mc {
@@ -188,21 +190,16 @@ Eigen::VectorXd argsort(const Eigen::MatrixBase<Derived>& x)
 template <typename Derived>
 Derived modf(const Derived& x, Derived* intpart)
 {
-    Eigen::Matrix<int, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> int_cast =
-        x.template cast<int>();
-    (*intpart) = int_cast.template cast<double>();
+    using Scalar = typename Derived::Scalar;
+    (*intpart) = x.unaryExpr([](const Scalar& v) { return std::trunc(v); });
     return x - (*intpart);
 }
 
 template <typename Derived>
 Derived modf(const Derived& x)
 {
-    Eigen::Matrix<int, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> int_cast =
-        x.template cast<int>();
-    Eigen::Matrix<double, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> floored =
-        int_cast.template cast<double>();
-
-    return x - floored;
+    Derived intpart(x.rows(), x.cols());
+    return modf(x, &intpart);
 }
 
 namespace detail {
-- 
2.43.0


From 77e07b7cde98bc609de5ace95722e58e57ae3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 087/121] fix: fixing ambiguities with a single candidate read
 past the candidates

---
 core/solver/lambda.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/solver/lambda.cxx b/core/solver/lambda.cxx
index e3a84c4..358a2c4 100644
--- a/core/solver/lambda.cxx
+++ b/core/solver/lambda.cxx
@@ -49,6 +49,9 @@ void lambda(const VectorXd& a,
 {
     const int n = a.rows();
 
+    // The ratio compares the best two
+    n_candidates = std::max(n_candidates, 2);
+
     // Pull integer offsets off the estimates (makes problem better conditioned)
     VectorXd incr(n);
     VectorXd ahat = modf(a, &incr);
-- 
2.43.0


From 81d7f55b55c9a02c7b123b2523c293f2efa6590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 088/121] fix: isFinite took infinite values for finite ones

---
 common/matrix_defs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index d4e1942..88966c9 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -149,13 +149,13 @@ bool isNan(const Eigen::MatrixBase<Derived>& m)
 template <typename Derived>
 bool isFinite(const Eigen::MatrixBase<Derived>& m)
 {
-    return (m.array() == m.array()).all();
+    return m.allFinite();
 }
 
 template <typename Derived>
 bool isFinite(const Eigen::DiagonalBase<Derived>& m)
 {
-    return (m.diagonal().array() == m.diagonal().array()).all();
+    return m.diagonal().allFinite();
 }
 
 const Vec3 GRAVITY = 9.80665 * Vec3::UnitZ();
-- 
2.43.0


From 6709d2fa94873224d9b87bf0070b46873cf643fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 089/121] fix: the logarithm of a quaternion with negative real
 part was the rotation the long way round

---
 common/math/dquat.h |  4 ++--
 common/math/quat.h  | 11 +++++++++--
 common/math/so3.h   |  6 ++----
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index cc2a79b..0779c59 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -283,7 +283,7 @@ class DQuat
         if (th2 > (T)1e-8)
         {
             const T th = sqrt(th2);
-            const T a = atan2(th, r0) / th;
+            const T a = Quat<T>::half_angle(th, r0) / th;
             const T b = gm / th2;
             // clang-format off
             wv << (T)2.0 * a * r,
@@ -331,7 +331,7 @@ class DQuat
         if (th2 > (T)4e-6)
         {
             const T s = sqrt(s2);
-            const T a1 = atan2(s, r0) / s;
+            const T a1 = Quat<T>::half_angle(s, r0) / s;
             const T b1 = gm / s2;
             v = (T)2.0 * (a1 * d + ((r0 - a1) * b1 - d0) * r);
 
diff --git a/common/math/quat.h b/common/math/quat.h
index e3c65e3..495f3b4 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -202,6 +202,13 @@ class Quat
         return q;
     }
 
+    // Half of the rotation angle of a quaternion with this vector norm and real part, the short way
+    // round: q and -q are the same rotation
+    static T half_angle(const T& norm_v, const T& w)
+    {
+        return w < (T)0. ? T(atan2(-norm_v, -w)) : T(atan2(norm_v, w));
+    }
+
     Vec3 log() const
     {
         const auto v = arr_.template block<3, 1>(1, 0);
@@ -209,7 +216,7 @@ class Quat
 
         if (norm_v > (T)4e-6)
         {
-            return (T)2.0 * atan2(norm_v, w()) * v / norm_v;
+            return (T)2.0 * half_angle(norm_v, w()) * v / norm_v;
         }
         else
         {
@@ -232,7 +239,7 @@ class Quat
         Vec3 r = v / norm_v;
         if (norm_v > (T)4e-6)
         {
-            th = 2. * atan2(norm_v, w());
+            th = 2. * half_angle(norm_v, w());
             const T th2 = th * th;
             // (b - 2c) / 2a, without dividing by sin(th)
             e = (1. - (th / 2.) / tan(th / 2.)) / th2;
diff --git a/common/math/so3.h b/common/math/so3.h
index 1ab8890..3e35cde 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -202,10 +202,8 @@ class SO3
         }
         else  // theta close to Pi
         {
-            // First, go to quaternion, then compute the axis-angle
-            // (the quaternion log is the inverse of the rotation log)
-            Quat<T> q = Quat<T>::from_R(rot_);
-            w = -q.log();
+            // The same vector as without the Jacobian, which stays continuous across Pi
+            w = log();
             const T th2 = w.squaredNorm();
             const T th = sqrt(th2);
 
-- 
2.43.0


From f4061dd47a02f88d63c058461c151c681d9a3af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 090/121] fix: the waypoint follower started from an
 uninitialised waypoint

---
 sim/dynamics/car.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/dynamics/car.h b/sim/dynamics/car.h
index 6655936..b35788a 100644
--- a/sim/dynamics/car.h
+++ b/sim/dynamics/car.h
@@ -44,7 +44,7 @@ struct SimCar final : public Dynamics
             return options_.waypoints[current_waypoint_ % options_.waypoints.size()];
         }
         Options options_;
-        int current_waypoint_;
+        int current_waypoint_ = 0;
     };
 
     SimCar(const Options& options);
-- 
2.43.0


From ef85b34374e7affe089f8cafd7d307aa439a26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 091/121] fix: simulated accelerometers felt gravity rotated
 out of the body frame

---
 sim/sensors/imu.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 2364c3d..44a13df 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -26,7 +26,7 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
 
         imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
+                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From 93f34d54e75cd6d02acd87f435127124eda226d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 092/121] fix: simulated accelerometers missed the centripetal
 acceleration

---
 sim/sensors/imu.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 44a13df..72ccb5b 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -25,8 +25,11 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         accel_bias_ += randomNormal<Vec3>() * options_.accel_noise_stdev * dt;
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
 
-        imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rotp(GRAVITY);
+        // The velocity is expressed in the (rotating) body frame
+        const Vec3 accel_b = x.d2x.linear() + x.dx.angular().cross(x.dx.linear());
+
+        imu->accel = accel_b + accel_bias_ + randomNormal<Vec3>() * options_.accel_noise_stdev -
+                     x.x.rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From 06db5ba1b78a62e5bec3952a64a8b8b0b0c07eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 093/121] fix: simulated IMU biases walked with the noise, not
 the walk, of the configuration

---
 sim/sensors/imu.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 72ccb5b..ed0b42b 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -22,8 +22,8 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
     {
         prev_t_ = t;
 
-        accel_bias_ += randomNormal<Vec3>() * options_.accel_noise_stdev * dt;
-        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
+        accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
+        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
         // The velocity is expressed in the (rotating) body frame
         const Vec3 accel_b = x.d2x.linear() + x.dx.angular().cross(x.dx.linear());
-- 
2.43.0


From 663c81eaac39955aef09616088920894e0c64d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 094/121] fix: the simulator replayed ephemerides before they
 were due and read past the last

---
 sim/sensors/gnss.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 4128fe9..df44ac3 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -147,7 +147,7 @@ bool GnssSim::sample(const UTCTime& t,
 
 bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 {
-    if (std::get<UTCTime>(gps_ephemerides_.front()) >= t)
+    if (!gps_ephemerides_.empty() && std::get<UTCTime>(gps_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GPSEphemeris>(gps_ephemerides_.front());
         gps_ephemerides_.erase(gps_ephemerides_.begin());
@@ -158,7 +158,7 @@ bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 }
 bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> eph)
 {
-    if (std::get<UTCTime>(glo_ephemerides_.front()) >= t)
+    if (!glo_ephemerides_.empty() && std::get<UTCTime>(glo_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GlonassEphemeris>(glo_ephemerides_.front());
         glo_ephemerides_.erase(glo_ephemerides_.begin());
@@ -169,7 +169,7 @@ bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> ep
 }
 bool GnssSim::sampleGalEph(const UTCTime& t, Out<ephemeris::GalileoEphemeris> eph)
 {
-    if (std::get<UTCTime>(gal_ephemerides_.front()) >= t)
+    if (!gal_ephemerides_.empty() && std::get<UTCTime>(gal_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GalileoEphemeris>(gal_ephemerides_.front());
         gal_ephemerides_.erase(gal_ephemerides_.begin());
-- 
2.43.0


From c4d7e4837c30640c7f5e1700ab8ccce44a2d4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 095/121] fix: simulated GNSS observations carried no time

---
 sim/sensors/gnss.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index df44ac3..fd1fd7f 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -132,6 +132,7 @@ bool GnssSim::sample(const UTCTime& t,
             doppler += normal_(gen_) * options_.doppler_stdev_;
 
             obs->emplace_back();
+            obs->back().t = t;
             obs->back().pseudorange = pseudorange;
             obs->back().doppler = doppler;
             obs->back().carrier_phase = carrier_phase;
-- 
2.43.0


From fc23993158273eff8ede4850f2e9a9b1741a8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 096/121] fix: the simulated controllers ran with a zero time
 step

---
 sim/sim.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/sim.cxx b/sim/sim.cxx
index b5bd343..620d139 100644
--- a/sim/sim.cxx
+++ b/sim/sim.cxx
@@ -16,7 +16,7 @@ void Sim::step(const double dt)
 {
     const Eigen::VectorXd control = waypoint_follower_.follow(dynamics_.x.x);
     const Eigen::VectorXd u =
-        dynamics_.controller(t(), control) + randomNormal(2) * options_.input_noise;
+        dynamics_.controller(t() + dt, control) + randomNormal(2) * options_.input_noise;
     dynamics_.step(t() + dt, u);
 
     std::vector<meas::GnssObservation> obs;
-- 
2.43.0


From 9361c0aa399e3fd59079bbe5e93b4cf353475e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 097/121] fix: the PID anti-windup never acted

---
 sim/controllers/pid.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sim/controllers/pid.cxx b/sim/controllers/pid.cxx
index f0b1744..5afcb3f 100644
--- a/sim/controllers/pid.cxx
+++ b/sim/controllers/pid.cxx
@@ -36,7 +36,6 @@ double PID::run(double dt, double x, double x_c, bool update_integrator)
 
 double PID::run(double dt, double x, double x_c, bool update_integrator, double xdot)
 {
-    using std::abs;
     // Calculate Error
     double error = x_c - x;
 
@@ -63,12 +62,16 @@ double PID::run(double dt, double x, double x_c, bool update_integrator, double
     // sum three terms
     double u = p_term - d_term + i_term;
 
-    // Integrator anti-windup
-    double u_sat = (u > options_.max)
-                       ? options_.max
-                       : (u < (double)-1.0 * options_.max) ? (double)-1.0 * options_.max : u;
-    if (u != u_sat && abs(i_term) > abs(u - p_term + d_term) && options_.ki > (double)0.0)
-        integrator_ = (u_sat - p_term + d_term) / options_.ki;
+    const double u_sat = (u > options_.max)
+                             ? options_.max
+                             : (u < (double)-1.0 * options_.max) ? (double)-1.0 * options_.max : u;
+
+    // Integrator anti-windup: keep only what the saturated output needs of the integral
+    if (u != u_sat && (u - u_sat) * i_term > (double)0.0)
+    {
+        const double needed = u_sat - p_term + d_term;
+        integrator_ = (needed * i_term > (double)0.0) ? needed / options_.ki : (double)0.0;
+    }
 
     // Set output
     return u_sat;
-- 
2.43.0


From 55fbee011c298137f48399d1fb7c1c12aea5d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 098/121] fix: the post-processor started the filter in 1970
 and stopped at the first message

---
 tools/post_process.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 72dd258..cb55dd5 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -102,6 +102,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
 
+    x.t = t;
     x.gps_clk.setZero();
     x.gal_clk.setZero();
     x.glo_clk.setZero();
-- 
2.43.0


From ecd3c18084b03b2db19ef25b3fa6cef573ef6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 099/121] fix: the post-processor left the initial input
 uninitialised without a simulated state

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index cb55dd5..3b45664 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -59,7 +59,7 @@ Input getInput(utils::Config& cfg)
 std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
 {
     State x;
-    Input u;
+    Input u = getInput(cfg);
     UTCTime t;
 
     Vec3 translation = Vec3::Zero();
-- 
2.43.0


From edcea6764cd19f66e35e05f73141742dde3e5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 100/121] fix: an initial heading displaced the origin of the
 local frame

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 3b45664..274f726 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -98,7 +98,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         math::Quatd q_hdg = math::Quatd::from_euler(0, 0, heading_rad);
 
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
-        x.T_I2e.real() = q_hdg * x.T_I2e.real();
+        x.T_I2e = math::DQuat<double>(q_hdg, Vec3::Zero()) * x.T_I2e;
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
 
-- 
2.43.0


From 4ff183ace92231a7dacdf676f243fd32cf5c8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 101/121] fix: estimate records held raw memory which their
 header does not describe

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 274f726..bcfcb3b 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -223,7 +223,7 @@ int main(int argc, char** argv)
         }
         log_writer.log(logging::ESTIMATE, ekf.t(), ekf.x().pose, ekf.x().vel, ekf.u().gyro,
                        ekf.u().accel, ekf.p_ecef(), ekf.x().gps_clk, ekf.x().gal_clk,
-                       ekf.x().glo_clk, ekf.cov());
+                       ekf.x().glo_clk);
 
         return Error::none();
     });
-- 
2.43.0


From aec84466c0087518063762a5181b6603c2dd6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 102/121] fix: the configuration shipped for the post-processor
 is one it can read

---
 config/rtk_ekf_post_process.yaml | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/config/rtk_ekf_post_process.yaml b/config/rtk_ekf_post_process.yaml
index ea53883..312c263 100644
--- a/config/rtk_ekf_post_process.yaml
+++ b/config/rtk_ekf_post_process.yaml
@@ -19,13 +19,11 @@ P0_stdev:
   glo_clk: [1.0, 1.0]
   p_b2g: [0.01, 0.01, 0.01]
   T_I2e: [1e-6, 1e-6, 3, 200, 200, 200] # rx, ry, rz, tx, ty, tz
-  sd: 1.0
+  sd: [1.0]
 
 # Measurement Covariances (sqrt of diagonal)
 point_pos_stdev: [1, 1, 3, 0.1, 0.1, 0.3]
-gps_obs_stdev: [0.01, 0.01]
-gal_obs_stdev: [0.01, 0.01]
-glo_obs_stdev: [0.01, 0.01]
+obs_stdev: [0.01, 0.01]
 fix_and_hold_stdev: 0.001
 imu_stdev:
   gyro: [0.01, 0.01, 0.01]
@@ -43,4 +41,4 @@ process_stdev:
   glo_clk: [0.1, 0.1]
   p_b2g: [0, 0, 0]
   T_I2e: [0, 0, 0, 0, 0, 0] # rx, ry, rz, tx, ty, tz
-  sd: 0.001
+  sd: [0.001]
-- 
2.43.0


From bf274c9f69e19c8780ed7bb434d37a365ee5b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 103/121] fix: the post-processor ended on observations logged
 later than they were measured

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index bcfcb3b..b22fbb8 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -249,7 +249,7 @@ int main(int argc, char** argv)
 
         if ((reader.nextStamp() - t).toSec() > 0.01)
         {
-            ekf.addMeasurement(t, obs_bundle);
+            ekf.addMeasurement(obs_bundle.front().t, obs_bundle);
             obs_bundle.clear();
         }
     });
-- 
2.43.0


From 922af8813f55c8fbf8bec545ec5e8a775ae15c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 104/121] fix: the parts of a copied ImuErrorState referred to
 the memory of the original

---
 models/imu_state.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/models/imu_state.h b/models/imu_state.h
index 2a1d9f5..7fd469e 100644
--- a/models/imu_state.h
+++ b/models/imu_state.h
@@ -11,6 +11,18 @@ struct ImuErrorState : public Vec9
 {
     ImuErrorState();
 
+    // The maps have to refer to our own memory, not to that of other
+    ImuErrorState(const ImuErrorState& other)
+        : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
+    {
+    }
+
+    ImuErrorState& operator=(const ImuErrorState& other)
+    {
+        Vec9::operator=(other);
+        return *this;
+    }
+
     template <typename Derived>
     ImuErrorState(const Eigen::MatrixBase<Derived>& other)
         : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
-- 
2.43.0


From 903858c5d6cf79e696f33a2627898b42783d4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 105/121] fix: the post-processor took the pose of the antenna
 for the local frame

---
 tools/post_process.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index b22fbb8..4f8311d 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -82,7 +82,10 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         u.accel = two_jet.d2x.linear() - Vec3(0, 0, 9.80665);
         u.gyro = two_jet.dx.angular();
 
-        x.T_I2e = T_e2g.inverse();
+        // T_e2g is the pose of the antenna: undo the lever arm and the pose of the body
+        cfg.get("p_b2g0", make_out(x.p_b2g), true);
+        const math::DQuat<double> T_g2b(math::Quat<double>::Identity(), -x.p_b2g);
+        x.T_I2e = (T_e2g * T_g2b * x.pose.inverse()).inverse();
     }
     else
     {
-- 
2.43.0


From e63a01055044a8f92a96be594b5c5017d535bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 106/121] fix: the simulator used an uninitialised lever arm
 unless one was configured

---
 sim/sensors/gnss.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/sensors/gnss.h b/sim/sensors/gnss.h
index 05515e2..68ccee8 100644
--- a/sim/sensors/gnss.h
+++ b/sim/sensors/gnss.h
@@ -34,7 +34,7 @@ class GnssSim
         double clock_walk_stdev_ = 1e-9;
         double clock_init_stdev_ = 1e-10;
         math::DQuat<double> T_e2n;
-        Vec3 p_b2g;
+        Vec3 p_b2g = Vec3::Zero();
     };
 
     GnssSim(const Options& options, const UTCTime& t0);
-- 
2.43.0


From 8b49378f8e6cd3ee60cc2714856cecb797d112da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 107/121] fix: the simulator ignored the configured input noise

---
 sim/simulate.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/simulate.cxx b/sim/simulate.cxx
index 4804850..e5ba0e8 100644
--- a/sim/simulate.cxx
+++ b/sim/simulate.cxx
@@ -53,6 +53,7 @@ int main(int argc, char** argv)
     cfg.get("eph_log", make_out(options.gnss_options.ephemeris_log), true);
     cfg.get("output_dir", make_out(output_dir), true);
 
+    cfg.get("input_noise", make_out(options.input_noise));
     cfg.get("max_speed", make_out(options.wp_options.max_speed));
     cfg.get("max_omega", make_out(options.wp_options.max_omega));
     cfg.get("gnss_update_rate", make_out(options.gnss_options.update_rate_hz_));
-- 
2.43.0


From e353ed117a17619291e82319458da30b7579cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 108/121] fix: the simulator left an incomplete log when it was
 interrupted

---
 sim/simulate.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sim/simulate.cxx b/sim/simulate.cxx
index e5ba0e8..b0bd721 100644
--- a/sim/simulate.cxx
+++ b/sim/simulate.cxx
@@ -1,3 +1,4 @@
+#include <csignal>
 #include <experimental/filesystem>
 #include <fstream>
 #include <regex>
@@ -106,6 +107,7 @@ int main(int argc, char** argv)
     mc::utils::ProgressBar prog(std::round(tmax / dt), 100);
     int i = 0;
 
+    signal(SIGINT, inthand);
     while (!stop && sim.t() < t_end)
     {
         sim.step(dt);
-- 
2.43.0


From afb57658dd042237e64d7e4e0983666059591743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 109/121] fix: a log named with a trailing slash is that log,
 and a backup of a log is none

---
 common/logging/log_reader.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6db2626..593fb42 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -32,7 +32,12 @@ bool isLogId(const std::string& maybe_log_id)
 
 fs::path getLatestLog(const fs::path& path)
 {
-    if (isLogId(path.stem()))
+    if (path.filename() == "." && path.has_parent_path())
+    {
+        // "log/" names the same directory as "log"
+        return getLatestLog(path.parent_path());
+    }
+    if (isLogId(path.filename()))
     {
         return path;
     }
@@ -41,11 +46,12 @@ fs::path getLatestLog(const fs::path& path)
     for (const auto& entry : fs::directory_iterator(path))
     {
         const auto split = utils::split_string(entry.path().string(), '/');
-        if (isLogId(entry.path().stem()))
+        if (isLogId(entry.path().filename()))
         {
             options.push_back(entry.path());
         }
     }
+    check(!options.empty(), "Unable to find a log in {}", fmt(path));
     std::sort(options.begin(), options.end());
     return fs::path(options.back());
 }
-- 
2.43.0


From e6f51bbc0ca710d5883505e4696c6745b3e0219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 110/121] fix: a log reader that opens another log reads that
 one only

---
 common/logging/log_reader.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 593fb42..a017a6c 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -151,8 +151,19 @@ void LogReader::open(const std::string& directory, bool quiet)
     namespace fs = std::experimental::filesystem;
     directory_ = getLatestLog(fs::path(directory));
 
+    // Nothing of a log opened before belongs to this one
+    streams_.clear();
+    amends_.clear();
+    start_time_ = UTCTime::max();
+    end_time_ = UTCTime::min();
+
     openLog(directory_);
 
+    for (auto& maint_cb : maintenance_callbacks_)
+    {
+        maint_cb.next_call = start_time_;
+    }
+
     if (!quiet)
     {
         fmt::print("Loading log      {}\n", directory_);
-- 
2.43.0


From e3326885cc03ef08dc77d367ec472def1e6c866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 111/121] fix: the Python log reader reads logs without streams
 and picks the latest log among other files

---
 common/logging/log_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 30c73aa..7078d3b 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -65,9 +65,10 @@ def get_log_files(file_path):
         open(os.path.join(file_path, 'manifest.yml')).read(), Loader=yaml.FullLoader
     )
 
+    # a log without streams has no list of keys
     files = {
         key: os.path.join(file_path, name)
-        for key, name in zip(manifest["keys"], manifest["key_names"])
+        for key, name in zip(manifest.get("keys", []), manifest.get("key_names", []))
     }
 
     # load amended topics
@@ -82,7 +83,8 @@ def get_log_files(file_path):
 def load(file_path, streams=None, normalize_time=True):
     # Load the most recent log if not supplied a direct id
     if not re.search(r'\d{8}_\d{6}\/?$', file_path):
-        file_path = os.path.join(file_path, sorted(os.listdir(file_path))[-1])
+        log_ids = [f for f in os.listdir(file_path) if re.fullmatch(r'\d{8}_\d{6}', f)]
+        file_path = os.path.join(file_path, sorted(log_ids)[-1])
 
     files = get_log_files(file_path)
 
-- 
2.43.0


From 09fa0374ad912b87a65b89e56f390d910ece5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 112/121] fix: errors and fatal errors are printed at the
 levels ERROR and FATAL

---
 common/print.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/print.cxx b/common/print.cxx
index 6cae90e..11f6c47 100644
--- a/common/print.cxx
+++ b/common/print.cxx
@@ -49,7 +49,7 @@ void error(const std::string fmt,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::ERROR)
     {
         fmt::print(stderr, fg(fmt::color::crimson) | fmt::emphasis::bold, "{}:{} ",
                    location.file_name(), location.line());
@@ -61,7 +61,7 @@ void fatal(const std::string fmt,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::FATAL)
     {
         fmt::print(stderr, bg(fmt::color::crimson) | fmt::emphasis::bold, "{}:{} ",
                    location.file_name(), location.line());
@@ -118,7 +118,7 @@ void error(bool condition,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::ERROR)
     {
         if (condition)
         {
@@ -132,7 +132,7 @@ void fatal(bool condition,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::FATAL)
     {
         if (condition)
         {
-- 
2.43.0


From d63fcefa056f776c4d00e4fba6bd0db407970ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 113/121] fix: RETURN_OR_ASSIGN evaluates its argument once

---
 common/error_result.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/common/error_result.h b/common/error_result.h
index 0e349fc..897cfe2 100644
--- a/common/error_result.h
+++ b/common/error_result.h
@@ -3,13 +3,14 @@
 #include "common/check.h"
 #include "common/error.h"
 
-#define RETURN_OR_ASSIGN(err_result) \
-    ({                               \
-        if (!err_result.ok())        \
-        {                            \
-            return err_result.err(); \
-        }                            \
-        err_result.res();            \
+#define RETURN_OR_ASSIGN(err_result)             \
+    ({                                           \
+        const auto mc_err_result = (err_result); \
+        if (!mc_err_result.ok())                 \
+        {                                        \
+            return mc_err_result.err();          \
+        }                                        \
+        mc_err_result.res();                     \
     })
 
 namespace mc {
-- 
2.43.0


From 080aae7005ed885b75079c2e3098303e83027d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 114/121] fix: the survey-in position of NAV-SVIN is signed

---
 parsers/ubx/ubx_defs.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index 95a71e7..476d20b 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -733,12 +733,12 @@ typedef struct
     uint32_t i_tow;  // GPS time of week ms of the navigation epoch. See the description of iTOW for
                      // details.
     uint32_t dur;    // Passed survey-in observation time s
-    uint32_t mean_x;       // Current survey-in mean position ECEF X coordinate cm
-    uint32_t mean_y;       // Current survey-in mean position ECEF Y coordinate cm
-    uint32_t mean_z;       // Current survey-in mean position ECEF Z coordinate cm
-    uint8_t mean_xhp;      // See Interface Description pg 165
-    uint8_t mean_yhp;      // See Interface Description pg 165
-    uint8_t mean_zhp;      // See Interface Description pg 165
+    int32_t mean_x;        // Current survey-in mean position ECEF X coordinate cm
+    int32_t mean_y;        // Current survey-in mean position ECEF Y coordinate cm
+    int32_t mean_z;        // Current survey-in mean position ECEF Z coordinate cm
+    int8_t mean_xhp;       // See Interface Description pg 165
+    int8_t mean_yhp;       // See Interface Description pg 165
+    int8_t mean_zhp;       // See Interface Description pg 165
     uint8_t reserved2;     // Reserved
     uint32_t mean_acc;     // Current survey-in mean position accuracy mm
     uint32_t obs;          // number of position observations used during survey-in
-- 
2.43.0


From 0542c8534fddbb023272c3b9ceab376fb0fc8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 115/121] fix: MON-TXBUF error bits and the fixed mode of
 CFG-TMODE3 are those of the receiver

---
 parsers/ubx/ubx_defs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index 476d20b..77b20e8 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -334,7 +334,7 @@ typedef struct
     {
         DISABLED = 0x00,
         SURVEY_IN = 0x01,  // Enable the survey in
-        FIXED = 0x03,      // Will supply base position (default ECEF)
+        FIXED = 0x02,      // Will supply base position (default ECEF)
         LLA = 0x100,       // Base position supplied in LLA
     };
     uint8_t version;
@@ -780,9 +780,9 @@ typedef struct
 
     enum
     {
-        ALLOC = 0x40,
-        MEM = 0x20,
-        LIMIT = 0x10
+        ALLOC = 0x80,
+        MEM = 0x40,
+        LIMIT = 0x3f
     };
 } __attribute__((packed)) MON_TXBUF_t;
 
-- 
2.43.0


From 5f27fc98f29e1fca0f6f34ccc07c3e62e0531ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 116/121] fix: the progress bar shows days, and long or unknown
 remaining times

---
 utils/progress_bar.cxx | 10 ++++++----
 utils/progress_bar.h   |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/utils/progress_bar.cxx b/utils/progress_bar.cxx
index abd2f6e..048fdc0 100644
--- a/utils/progress_bar.cxx
+++ b/utils/progress_bar.cxx
@@ -1,5 +1,6 @@
 #include "utils/progress_bar.h"
 
+#include <stdint.h>
 #include <stdio.h>
 
 #include <iostream>
@@ -115,19 +116,20 @@ void ProgressBar::finished()
     print(total_, t_end_);
 }
 
-std::string ProgressBar::ms_to_stamp(int ms)
+std::string ProgressBar::ms_to_stamp(double duration_ms)
 {
-    if (ms <= 0.0)
+    // Also covers durations which are unknown (NaN or infinite)
+    if (!(duration_ms > 0.0 && duration_ms < 1e15))
     {
         return "";
     }
+    const int64_t ms = duration_ms;
     int millis = ms % 1000;
     int sec = ((ms - millis) % (60 * 1000)) / 1000;
     int min = ((ms - (millis + sec * 1000)) % (60 * 60 * 1000)) / (60 * 1000);
     int hour =
         ((ms - (millis + (sec + min * 60) * 1000)) % (24 * 60 * 60 * 1000)) / (60 * 60 * 1000);
-    int day = ((ms - (millis + (sec + (min + hour * 60) * 60) * 1000)) / (24 * 60 * 60 * 1000)) /
-              (24 * 60 * 60 * 1000);
+    int day = (ms - (millis + (sec + (min + hour * 60) * 60) * 1000)) / (24 * 60 * 60 * 1000);
     char buf[25];
     if (day > 0)
         sprintf(buf, "%d:%d:%02d:%02d:%03d", day, hour, min, sec, millis);
diff --git a/utils/progress_bar.h b/utils/progress_bar.h
index 83646c4..12d7414 100644
--- a/utils/progress_bar.h
+++ b/utils/progress_bar.h
@@ -27,7 +27,7 @@ class ProgressBar
     void finished();
 
  private:
-    std::string ms_to_stamp(int ms);
+    std::string ms_to_stamp(double duration_ms);
 
     bool initialized_;
     int barwidth_;
-- 
2.43.0


From 7ebfcd62626c17b32ac32096e5b8a4974a0bada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 117/121] fix: milliseconds of times are printed with three
 digits, and far away times without a date are printed

---
 common/utctime.cxx | 51 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 3440598..c78ba37 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -1,5 +1,7 @@
 #include "common/utctime.h"
 
+#include <cstdio>
+
 #include "common/quantized_time.h"
 
 namespace mc {
@@ -278,14 +280,40 @@ UTCTime UTCTime::fromCalendar(int year, int month, int day, int hour, int minute
     int64_t nsec = std::round(1e9 * (sec - std::floor(sec)));
     return UTCTime((int64_t)epoch_time, nsec);
 }
-std::string UTCTime::str() const
+namespace {
+
+// Milliseconds are always printed with three digits
+std::string fraction(const UTCTime& t)
 {
-    time_t time(sec);
-    tm* date = gmtime(&time);
+    char buf[8];
+    std::snprintf(buf, sizeof(buf), ".%03d", static_cast<int>(t.nsec / 1'000'000));
+    return buf;
+}
 
+void printDate(std::ostream& os, const tm& date, const UTCTime& t)
+{
+    os << 1900 + static_cast<int64_t>(date.tm_year) << "/" << 1 + date.tm_mon << "/"
+       << date.tm_mday << " " << date.tm_hour << ":" << date.tm_min << ":" << date.tm_sec
+       << fraction(t);
+}
+
+}  // namespace
+
+std::string UTCTime::str() const
+{
     std::stringstream ss;
-    ss << 1900 + date->tm_year << "/" << 1 + date->tm_mon << "/" << date->tm_mday << " "
-       << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "." << nsec / 1'000'000;
+
+    const time_t time(sec);
+    tm date;
+    if (gmtime_r(&time, &date) == nullptr)
+    {
+        // Too far away for a date (e.g. MAX_TIME)
+        ss << sec << fraction(*this);
+    }
+    else
+    {
+        printDate(ss, date, *this);
+    }
 
     return ss.str();
 }
@@ -305,18 +333,15 @@ QuantizedTime UTCTime::quantized() const
 
 std::ostream& operator<<(std::ostream& os, const UTCTime& t)
 {
-    time_t time(t.sec);
-    tm* date = gmtime(&time);
-
-    if (date->tm_year == 70)
+    const time_t time(t.sec);
+    tm date;
+    if (gmtime_r(&time, &date) == nullptr || date.tm_year == 70)
     {
-        os << t.sec << "." << t.nsec / 1'000'000;
+        os << t.sec << fraction(t);
     }
     else
     {
-        os << 1900 + date->tm_year << "/" << 1 + date->tm_mon << "/" << date->tm_mday << " "
-           << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "."
-           << t.nsec / 1'000'000;
+        printDate(os, date, t);
     }
 
     return os;
-- 
2.43.0


From ddc354541b40f7cad36ae6db6b7de3cfb69723f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 118/121] fix: uniform random numbers cover intervals whose
 width is not a whole number

---
 common/random.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/random.h b/common/random.h
index c60df38..660f7ce 100644
--- a/common/random.h
+++ b/common/random.h
@@ -29,7 +29,7 @@ Derived randomUniformat(double lower_bound, double upper_bound)
     static std::uniform_real_distribution<double> U(0, 1.0);
     static std::default_random_engine g;
     Derived out;
-    const int width = upper_bound - lower_bound;
+    const double width = upper_bound - lower_bound;
     for (int i = 0; i < Derived::RowsAtCompileTime; i++)
     {
         for (int j = 0; j < Derived::ColsAtCompileTime; j++)
@@ -60,7 +60,7 @@ inline Eigen::MatrixXd randomUniform(double lower_bound, double upper_bound, int
     static std::uniform_real_distribution<double> U(0, 1.0);
     static std::default_random_engine g;
     Eigen::MatrixXd out(rows, cols);
-    const int width = upper_bound - lower_bound;
+    const double width = upper_bound - lower_bound;
     for (int i = 0; i < rows; i++)
     {
         for (int j = 0; j < cols; j++)
-- 
2.43.0


From 16b33e6bcc4ac80cc17363c14722833984ff3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 119/121] fix: factors keep their own weights, noise and frame
 instead of referring to the caller's

---
 models/gnss_dynamics_model.h          | 2 +-
 models/imu_model.h                    | 2 +-
 models/prange_model.h                 | 2 +-
 models/relative_carrier_phase_model.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/gnss_dynamics_model.h b/models/gnss_dynamics_model.h
index fbc68fa..0231096 100644
--- a/models/gnss_dynamics_model.h
+++ b/models/gnss_dynamics_model.h
@@ -17,7 +17,7 @@ class GnssDynamics
 
  private:
     const double dt_;
-    const Vec3& Xi_;  // diagonal of sqrt inverse covariance
+    const Vec3 Xi_;  // diagonal of sqrt inverse covariance
 };
 
 }  // namespace models
diff --git a/models/imu_model.h b/models/imu_model.h
index e319def..31e584f 100644
--- a/models/imu_model.h
+++ b/models/imu_model.h
@@ -71,7 +71,7 @@ class ImuModel
 
  private:
     Vec6 bias_;      // Imu Bias
-    const Vec6& R_;  // IMU covariance diagonal
+    const Vec6 R_;  // IMU covariance diagonal
 
     Mat9 covariance_inv_sqrt_;
 
diff --git a/models/prange_model.h b/models/prange_model.h
index 77a1107..8180344 100644
--- a/models/prange_model.h
+++ b/models/prange_model.h
@@ -30,7 +30,7 @@ class PseudorangeModel
 
     meas::GnssObservation obs_;
     Mat3 sqrt_inv_cov_;
-    const math::DQuat<double>& T_e2r_;
+    const math::DQuat<double> T_e2r_;
 };
 
 }  // namespace models
diff --git a/models/relative_carrier_phase_model.h b/models/relative_carrier_phase_model.h
index 9ce8973..0823eba 100644
--- a/models/relative_carrier_phase_model.h
+++ b/models/relative_carrier_phase_model.h
@@ -33,7 +33,7 @@ class RelativeCarrierPhase
     const double Xi_;      // sqrt inverse variance
     satellite::SatelliteState sat1_;
     satellite::SatelliteState sat2_;
-    const math::DQuat<double>& T_e2r_;
+    const math::DQuat<double> T_e2r_;
 };
 
 }  // namespace models
-- 
2.43.0


From 7db2533c5ee147975ec3d1ce2b97fef154b409c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 120/121] fix: the factors' Jacobian helpers no longer share
 names across files, which mixed them up in one program

---
 models/gnss_dynamics_model.cxx          | 4 ++++
 models/imu_model.cxx                    | 4 ++++
 models/prange_model.cxx                 | 4 ++++
 models/relative_carrier_phase_model.cxx | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/models/gnss_dynamics_model.cxx b/models/gnss_dynamics_model.cxx
index 63886f8..064572f 100644
--- a/models/gnss_dynamics_model.cxx
+++ b/models/gnss_dynamics_model.cxx
@@ -10,6 +10,8 @@ GnssDynamics::GnssDynamics(const UTCTime& t0, const UTCTime& tf, const Vec3& Xi)
 {
 }
 
+namespace {
+
 template <int N>
 struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>
 {
@@ -19,6 +21,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto sw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool GnssDynamics::Evaluate(const double* const* parameters,
                             double* residuals,
                             double** jacobians) const
diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index be56a79..685b8c4 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -132,6 +132,8 @@ Error ImuModel::finished()
     return Error::none();
 }
 
+namespace {
+
 struct PoseJacobian
 {
     PoseJacobian(double* ptr) : mat(ptr) {}
@@ -153,6 +155,8 @@ struct PoseJacobian
     Map<Matrix<double, 9, 8, RowMajor>> mat;
 };
 
+}  // namespace
+
 bool ImuModel::Evaluate(const double* const* parameters, double* _res, double** _jac) const
 {
     const math::DQuat<double> start_pose(parameters[0]);
diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 7400779..e0040eb 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -52,6 +52,8 @@ double PseudorangeModel::computeSagnac(const Vec3& rec_pos_ecef)
            C_LIGHT;
 }
 
+namespace {
+
 struct PoseJacobian final : public MatRM36
 {
     auto drho_drot() { return block<1, 3>(0, 0); }
@@ -72,6 +74,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto dsw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool PseudorangeModel::Evaluate(const double* const* parameters,
                                 double* _residual,
                                 double** jacobians) const
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index 3b9c9df..2e9bde9 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -63,6 +63,8 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
     }
 }
 
+namespace {
+
 struct PoseJacobian final : public Vec6
 {
     auto drot() { return head<3>(); }
@@ -71,6 +73,8 @@ struct PoseJacobian final : public Vec6
     Vec8 by_elements(const DQ& Q) { return (*this).transpose() * Q.dGenDParam(); }
 };
 
+}  // namespace
+
 bool RelativeCarrierPhase::Evaluate(const double* const* parameters,
                                     double* residual,
                                     double** jacobians) const
-- 
2.43.0


From 378b48e548560e99a498b05b0fae363d7fc55ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 121/121] fix: an element of a full circular buffer can be
 pushed to it

A full buffer used to destroy the element it makes room with before making
the new one, which was then made from a dead object if that was the
argument. There is a free slot even in a full buffer: use it first.
---
 common/circular_buffer.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index b12a9e4..18a1e37 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -77,36 +77,37 @@ class CircularBuffer
     template <typename... Args>
     void emplace_back(Args&&... args)
     {
+        // There is a free slot even in a full buffer.  Fill it before making room, because the new
+        // element may be made from the one that has to go.
+        new (&*tail_) T(args...);
         if (full())
             pop_front();
-        new (&*tail_) T(args...);
         ++tail_;
     }
 
     void push_back(const T& obj)
     {
+        new (&*tail_) T(obj);
         if (full())
             pop_front();
-        new (&*tail_) T(obj);
         ++tail_;
     }
 
     template <typename... Args>
     void emplace_front(Args&&... args)
     {
+        new (&*(head_ - 1)) T(args...);
         if (full())
             pop_back();
         --head_;
-        new (&*head_) T(args...);
     }
 
     void push_front(const T& obj)
     {
+        new (&*(head_ - 1)) T(obj);
         if (full())
             pop_back();
-
         --head_;
-        new (&*head_) T(obj);
     }
 
     T* data() { return buf_; }
-- 
2.43.0

