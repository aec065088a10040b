From e60919c1c82bcf1b5dad37c51225f1919bd8b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 01/93] fix: Latch::isReady reads the counter under the lock

The unlocked read raced with down()/downWait(): a caller that polled isReady()
had no happens-before edge with the threads that counted down, and could destroy
the latch while the last down() was still inside it.
---
 src/common/concurrent/Latch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/concurrent/Latch.cpp b/src/common/concurrent/Latch.cpp
index f149c16..3a66de3 100644
--- a/src/common/concurrent/Latch.cpp
+++ b/src/common/concurrent/Latch.cpp
@@ -45,6 +45,7 @@ void Latch::wait() {
 }
 
 bool Latch::isReady() {
+    std::unique_lock<std::mutex> unique(lock_);
     return counter_ == 0;
 }
 
-- 
2.43.0


From 1a73e9fdf3a6b95205ae6f92f15339305de22221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 02/93] fix: Cord can append an empty cord, a cord of another
 block size, and itself

Appending an empty cord read through a null pointer, a cord with another block
size was walked with the block size of the receiver, and a cord of several
blocks appended to itself never ended.
---
 src/common/base/Cord.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/common/base/Cord.cpp b/src/common/base/Cord.cpp
index 102afa2..9986cc0 100644
--- a/src/common/base/Cord.cpp
+++ b/src/common/base/Cord.cpp
@@ -226,17 +226,15 @@ Cord& Cord::operator<<(const char* value) {
 }
 
 Cord& Cord::operator<<(const Cord& rhs) {
-    char* next = rhs.head_;
-    while (next != rhs.tail_) {
-        write(next, blockContentSize_);
-        // Get the pointer to the next block
-        memcpy(reinterpret_cast<char*>(&next),
-               next + blockContentSize_,
-               sizeof(char*));
+    if (this == &rhs) {
+        // The blocks being read would grow while being appended
+        return *this << rhs.str();
     }
 
-    // Last block
-    write(rhs.tail_, rhs.blockPt_);
+    rhs.applyTo([this] (const char* buf, int32_t len) {
+        write(buf, len);
+        return true;
+    });
 
     return *this;
 }
-- 
2.43.0


From 8d847f8b78f841642e912cedb1b079400c7129e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 03/93] fix: ICord keeps its last full block and can be reused
 after clear

applyTo() and appending a cord lost the last block when the length was a multiple
of the block size, appending a cord to itself never ended, and writing after
clear() wrote through a null pointer.
---
 src/common/base/ICord.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 3432616..45404f6 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -47,8 +47,8 @@ public:
 
         len_ = 0;
 
-        head_ = nullptr;
-        tail_ = nullptr;
+        head_ = inlineBlock_;
+        tail_ = head_;
     }
 
     // Apply each block to the visitor until the end or the visitor
@@ -69,7 +69,8 @@ public:
         }
 
         // Last block
-        return visitor(tail_, lengthMod());
+        std::size_t lengthModSize = lengthMod();
+        return visitor(tail_, lengthModSize == 0 ? kBlockContentSize : lengthModSize);
     }
 
     // Append the cord content to the given string
@@ -181,15 +182,15 @@ public:
     }
 
     ICord<kBlockContentSize>& operator<<(const ICord& rhs) {
-        char* n = rhs.head_;
-        while (n != rhs.tail_) {
-            write(n, kBlockContentSize);
-            // Get the pointer to the next block
-            n = next(n);
+        if (this == &rhs) {
+            // The blocks being read would grow while being appended
+            return *this << rhs.str();
         }
 
-        // Last block
-        write(rhs.tail_, rhs.lengthMod());
+        rhs.applyTo([this] (const char* buf, int32_t len) {
+            write(buf, len);
+            return true;
+        });
 
         return *this;
     }
-- 
2.43.0


From 9dbdf23e05cea7cfb39c54ea9a6e12b18dccc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 04/93] fix: EitherOr can be assigned a value that is part of
 its own content

The assignment operators destroyed the current value before they read the new
one, so 'v = v.left()' read a destroyed object.
---
 src/common/base/EitherOr.h | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/common/base/EitherOr.h b/src/common/base/EitherOr.h
index 900480d..c8f4b44 100644
--- a/src/common/base/EitherOr.h
+++ b/src/common/base/EitherOr.h
@@ -264,32 +264,22 @@ public:
      * Assignments
      *
      **********************************************/
+    // The new value can be part of the current one, so it is always taken over
+    // before the current one is destroyed
     EitherOr& operator=(const LEFT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, v);
-        state_ = State::LEFT_TYPE;
-        return *this;
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(LEFT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, std::move(v));
-        state_ = State::LEFT_TYPE;
-        return *this;
+        return *this = EitherOr(std::move(v));
     }
 
     EitherOr& operator=(const RIGHT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, v);
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(RIGHT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, std::move(v));
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        return *this = EitherOr(std::move(v));
     }
 
     // Assign from a value which can only construct either LEFT or RIGHT,
@@ -300,10 +290,10 @@ public:
         EitherOr
     >&
     operator=(U&& v) noexcept {
-        reset();
-        new (&val_) Variant(convert_to_t<U>, std::forward<U>(v));
-        state_ = convert_to_s<U>;
-        return *this;
+        EitherOr tmp;
+        new (&tmp.val_) Variant(convert_to_t<U>, std::forward<U>(v));
+        tmp.state_ = convert_to_s<U>;
+        return *this = std::move(tmp);
     }
 
     EitherOr& operator=(const EitherOr& rhs) noexcept {
-- 
2.43.0


From d2318726537f4dfef3bfef84076a9029768c65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 05/93] fix: AuthResponse comparison looks at the other time
 zone name

---
 src/common/graph/Response.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index fe18498..bacfc8e 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -230,7 +230,7 @@ struct AuthResponse {
         if (!checkPointer(timeZoneOffsetSeconds.get(), rhs.timeZoneOffsetSeconds.get())) {
             return false;
         }
-        return checkPointer(timeZoneName.get(), timeZoneName.get());
+        return checkPointer(timeZoneName.get(), rhs.timeZoneName.get());
     }
 
     ErrorCode errorCode{ErrorCode::SUCCEEDED};
-- 
2.43.0


From bee04baa980401d65571228a8e6e834729f1a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 06/93] fix: clearing an AuthResponse also clears its time zone

---
 src/common/graph/Response.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index bacfc8e..332063a 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -211,6 +211,8 @@ struct AuthResponse {
         errorCode = ErrorCode::SUCCEEDED;
         sessionId = nullptr;
         errorMsg = nullptr;
+        timeZoneOffsetSeconds = nullptr;
+        timeZoneName = nullptr;
     }
 
     void clear() {
-- 
2.43.0


From 38580c746e86282900e74609cb3314e3d10e61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 07/93] fix: PlanDescription comparison includes the
 optimization time

---
 src/common/graph/Response.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index 332063a..2f6559c 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -361,7 +361,8 @@ struct PlanDescription {
     bool operator==(const PlanDescription &rhs) const {
         return planNodeDescs == rhs.planNodeDescs &&
             nodeIndexMap == rhs.nodeIndexMap &&
-            format == rhs.format;
+            format == rhs.format &&
+            optimize_time_in_us == rhs.optimize_time_in_us;
     }
 
     std::vector<PlanNodeDescription>     planNodeDescs;
-- 
2.43.0


From e2435fbc011e5bcd95fd94f50ab5297782702bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 08/93] fix: PlanNodeDescription comparison includes the output
 variable

---
 src/common/graph/Response.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/graph/Response.cpp b/src/common/graph/Response.cpp
index 4d91952..adb0e22 100644
--- a/src/common/graph/Response.cpp
+++ b/src/common/graph/Response.cpp
@@ -15,6 +15,9 @@ bool PlanNodeDescription::operator==(const PlanNodeDescription &rhs) const {
     if (id != rhs.id) {
         return false;
     }
+    if (outputVar != rhs.outputVar) {
+        return false;
+    }
     if (!checkPointer(description.get(), rhs.description.get())) {
         return false;
     }
-- 
2.43.0


From 4690d99319275c39370ce28f46ef57f7e2c882e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 09/93] fix: local date, time and date-time add the zone offset
 to UTC

---
 src/common/time/TimeUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 5e01b39..65ba3f2 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -88,7 +88,7 @@ public:
     static DateTime localDateTime() {
         auto time = unixTime();
         auto dt = TimeConversion::unixSecondsToDateTime(
-            time.seconds - Timezone::getGlobalTimezone().utcOffsetSecs());
+            time.seconds + Timezone::getGlobalTimezone().utcOffsetSecs());
         dt.microsec = time.milliseconds * 1000;
         return dt;
     }
@@ -145,7 +145,7 @@ public:
         if (unixTime == -1) {
             return Status::Error("Get unix time failed: %s.", std::strerror(errno));
         }
-        return TimeConversion::unixSecondsToDate(unixTime -
+        return TimeConversion::unixSecondsToDate(unixTime +
                                                  Timezone::getGlobalTimezone().utcOffsetSecs());
     }
 
@@ -201,7 +201,7 @@ public:
 
     static Time localTime() {
         auto time = unixTime();
-        auto t = TimeConversion::unixSecondsToTime(time.seconds -
+        auto t = TimeConversion::unixSecondsToTime(time.seconds +
                                                    Timezone::getGlobalTimezone().utcOffsetSecs());
         t.microsec = time.milliseconds * 1000;
         return t;
-- 
2.43.0


From ee1ede76fd89bdade01e3abca57f82bdc2d3adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 10/93] fix: second 60 in date-time and time texts is rejected,
 as it is in maps

---
 src/common/time/TimeUtils.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 65ba3f2..3b4c2c2 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -60,6 +60,10 @@ public:
                 return Status::Error();
             }
         }
+        // std::get_time accepts a leap second
+        if (tm.tm_sec > 59) {
+            return Status::Error("Invalid second number `%d'.", tm.tm_sec);
+        }
         DateTime dt;
         dt.year = tm.tm_year + 1900;
         dt.month = tm.tm_mon + 1;
@@ -182,6 +186,10 @@ public:
         if (ss.fail()) {
             return Status::Error();
         }
+        // std::get_time accepts a leap second
+        if (tm.tm_sec > 59) {
+            return Status::Error("Invalid second number `%d'.", tm.tm_sec);
+        }
         Time t;
         t.hour = tm.tm_hour;
         t.minute = tm.tm_min;
-- 
2.43.0


From 0f6f27a504b35c1912a4cfb34524c139a3e79fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 11/93] fix: StatusOr can be assigned a value that is part of
 its own content

---
 src/common/base/StatusOr.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index fa5a85c..9203070 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -195,10 +195,9 @@ public:
     // Move assigment operator from a rvalue of any compatible type with `T'
     template <typename U, typename = std::enable_if_t<is_initializable_v<U>>>
     StatusOr& operator=(U &&value) noexcept {
-        destruct();
-        new (&variant_) Variant(std::forward<U>(value));
-        state_ = kValue;
-        return *this;
+        // The new value can be part of the current one, so take it over before the current
+        // one is destructed
+        return *this = StatusOr(std::forward<U>(value));
     }
 
     // Copy assign from a lvalue of `Status'
-- 
2.43.0


From c9bab2e277580b4be7d605115d7eef3dbf18e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 12/93] fix: a ListenerNotFound status separates its kind from
 the message like all others

---
 src/common/base/Status.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 2e9ad75..6d305e1 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -97,7 +97,7 @@ const char *Status::toString(Code code) {
         case kPermissionError:
             return "PermissionError: ";
         case kListenerNotFound:
-            return "ListenerNotFound";
+            return "ListenerNotFound: ";
     }
     DLOG(FATAL) << "Invalid status code: " << static_cast<uint16_t>(code);
     return "";
-- 
2.43.0


From 198d01e003e13f7d4599ad71eaf6b2e73f4192c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 13/93] fix: a status message too long to be stored is cut to
 what fits, not to its length modulo 65536

---
 src/common/base/Status.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 6d305e1..53e35ed 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -10,7 +10,8 @@
 namespace nebula {
 
 Status::Status(Code code, folly::StringPiece msg) {
-    const uint16_t size = msg.size();
+    // The size field has 16 bits only, cut the message if it does not fit
+    const uint16_t size = std::min<size_t>(msg.size(), std::numeric_limits<uint16_t>::max());
     auto state = std::unique_ptr<char[]>(new char[size + kHeaderSize]);
     auto *header = reinterpret_cast<Header*>(state.get());
     header->size_ = size;
-- 
2.43.0


From 6e683d9e7f472c3b03338c4e60405121d126ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 14/93] fix: ConcurrentLRUCache reads its counters under the
 lock that guards them

---
 src/common/base/ConcurrentLRUCache.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/common/base/ConcurrentLRUCache.h b/src/common/base/ConcurrentLRUCache.h
index 83e8a48..7d819b2 100644
--- a/src/common/base/ConcurrentLRUCache.h
+++ b/src/common/base/ConcurrentLRUCache.h
@@ -71,7 +71,7 @@ public:
     uint64_t total() {
         uint64_t total = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            total += buckets_[i].lru_->total();
+            total += buckets_[i].total();
         }
         return total;
     }
@@ -79,7 +79,7 @@ public:
     uint64_t hits() {
         uint64_t hits = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            hits += buckets_[i].lru_->hits();
+            hits += buckets_[i].hits();
         }
         return hits;
     }
@@ -87,7 +87,7 @@ public:
     uint64_t evicts() {
         uint64_t evicts = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            evicts += buckets_[i].lru_->evicts();
+            evicts += buckets_[i].evicts();
         }
         return evicts;
     }
@@ -140,6 +140,21 @@ private:
             lru_->clear();
         }
 
+        uint64_t total() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->total();
+        }
+
+        uint64_t hits() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->hits();
+        }
+
+        uint64_t evicts() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->evicts();
+        }
+
         std::mutex lock_;
         std::unique_ptr<LRU<K, V>> lru_;
     };
-- 
2.43.0


From 96fbb8b179ff04c52449c28c7257747d0d6b30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 15/93] fix: ObjectPool::empty reads the list under the lock
 that guards it

---
 src/common/base/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/ObjectPool.h b/src/common/base/ObjectPool.h
index e165b89..f698225 100644
--- a/src/common/base/ObjectPool.h
+++ b/src/common/base/ObjectPool.h
@@ -47,6 +47,7 @@ public:
     }
 
     bool empty() const {
+        folly::SpinLockGuard g(lock_);
         return objects_.empty();
     }
 
@@ -69,7 +70,7 @@ private:
 
     std::list<OwnershipHolder> objects_;
 
-    folly::SpinLock lock_;
+    mutable folly::SpinLock lock_;
 };
 
 }   // namespace nebula
-- 
2.43.0


From e586a5aad744bfd6a79450edc64ea4a310fbc2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 16/93] fix: an out-of-range null value names its type like
 every other null

---
 src/common/datatypes/Value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index dffc374..ff1c2a7 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -452,6 +452,7 @@ const std::string& Value::typeName() const {
         { NullType::ERR_OVERFLOW, "ERR_OVERFLOW" },
         { NullType::UNKNOWN_PROP, "UNKNOWN_PROP" },
         { NullType::DIV_BY_ZERO, "DIV_BY_ZERO" },
+        { NullType::OUT_OF_RANGE, "OUT_OF_RANGE" },
     };
 
     static const std::string unknownType = "__UNKNOWN__";
-- 
2.43.0


From 4cfbe92dfc7b810a9276629f9630a66858355e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 17/93] fix: a dynamic value may be assigned a part of itself

---
 src/common/datatypes/Value.cpp | 78 +++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index ff1c2a7..1a7e459 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -472,127 +472,127 @@ const std::string& Value::typeName() const {
 }
 
 void Value::setNull(const NullType& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setN(v);
 }
 
 void Value::setNull(NullType&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setN(std::move(v));
 }
 
 void Value::setBool(const bool& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setB(v);
 }
 
 void Value::setBool(bool&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setB(std::move(v));
 }
 
 void Value::setInt(const int8_t& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(v);
 }
 
 void Value::setInt(int8_t&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(std::move(v));
 }
 
 void Value::setInt(const int16_t& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(v);
 }
 
 void Value::setInt(int16_t&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(std::move(v));
 }
 
 void Value::setInt(const int32_t& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(v);
 }
 
 void Value::setInt(int32_t&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(std::move(v));
 }
 
 void Value::setInt(const int64_t& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(v);
 }
 
 void Value::setInt(int64_t&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setI(std::move(v));
 }
 
 void Value::setFloat(const double& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setF(v);
 }
 
 void Value::setFloat(double&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setF(std::move(v));
 }
 
 void Value::setStr(const std::string& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setS(v);
 }
 
 void Value::setStr(std::string&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setS(std::move(v));
 }
 
 void Value::setStr(const char* v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setS(v);
 }
 
 void Value::setDate(const Date& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setD(v);
 }
 
 void Value::setDate(Date&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setD(std::move(v));
 }
 
 void Value::setTime(const Time& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setT(v);
 }
 
 void Value::setTime(Time&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setT(std::move(v));
 }
 
 void Value::setDateTime(const DateTime& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setDT(v);
 }
 
 void Value::setDateTime(DateTime&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setDT(std::move(v));
 }
 
 void Value::setVertex(const Vertex& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setV(v);
 }
 
 void Value::setVertex(Vertex&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setV(std::move(v));
 }
 
@@ -602,12 +602,12 @@ void Value::setVertex(std::unique_ptr<Vertex>&& v) {
 }
 
 void Value::setEdge(const Edge& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setE(v);
 }
 
 void Value::setEdge(Edge&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setE(std::move(v));
 }
 
@@ -617,12 +617,12 @@ void Value::setEdge(std::unique_ptr<Edge>&& v) {
 }
 
 void Value::setPath(const Path& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setP(v);
 }
 
 void Value::setPath(Path&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setP(std::move(v));
 }
 
@@ -632,12 +632,12 @@ void Value::setPath(std::unique_ptr<Path>&& v) {
 }
 
 void Value::setList(const List& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setL(v);
 }
 
 void Value::setList(List&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setL(std::move(v));
 }
 
@@ -647,12 +647,12 @@ void Value::setList(std::unique_ptr<List>&& v) {
 }
 
 void Value::setMap(const Map& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setM(v);
 }
 
 void Value::setMap(Map&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setM(std::move(v));
 }
 
@@ -662,12 +662,12 @@ void Value::setMap(std::unique_ptr<Map>&& v) {
 }
 
 void Value::setSet(const Set& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setU(v);
 }
 
 void Value::setSet(Set&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setU(std::move(v));
 }
 
@@ -677,12 +677,12 @@ void Value::setSet(std::unique_ptr<Set>&& v) {
 }
 
 void Value::setDataSet(const DataSet& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setG(v);
 }
 
 void Value::setDataSet(DataSet&& v) {
-    clear();
+    Value old(std::move(*this));  // v may be a part of it
     setG(std::move(v));
 }
 
@@ -1072,7 +1072,7 @@ void Value::clear() {
 
 Value& Value::operator=(Value&& rhs) noexcept {
     if (this == &rhs) { return *this; }
-    clear();
+    Value old(std::move(*this));  // rhs may be a part of it
     if (rhs.type_ == Type::__EMPTY__) { return *this; }
     switch (rhs.type_) {
         case Type::NULLVALUE:
@@ -1163,7 +1163,7 @@ Value& Value::operator=(Value&& rhs) noexcept {
 
 Value& Value::operator=(const Value& rhs) {
     if (this == &rhs) { return *this; }
-    clear();
+    Value old(std::move(*this));  // rhs may be a part of it
     if (rhs.type_ == Type::__EMPTY__) { return *this; }
     switch (rhs.type_) {
         case Type::NULLVALUE:
-- 
2.43.0


From 72f405bbe3dabe02d943f167e0bff3b3a7913b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 18/93] fix: equal infinities compare equal

---
 src/common/datatypes/Value.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 1a7e459..a338e94 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1779,7 +1779,9 @@ Value Value::equal(const Value& v) const {
                     return std::abs(getFloat() - v.getInt()) < kEpsilon;
                 }
                 case Value::Type::FLOAT: {
-                    return std::abs(getFloat() - v.getFloat()) < kEpsilon;
+                    // The difference of equal infinities is not a number
+                    return getFloat() == v.getFloat()
+                        || std::abs(getFloat() - v.getFloat()) < kEpsilon;
                 }
                 default: {
                     return kNullBadType;
@@ -2566,7 +2568,9 @@ bool operator==(const Value& lhs, const Value& rhs) {
                     return std::abs(lhs.getFloat() - rhs.getInt()) < kEpsilon;
                 }
                 case Value::Type::FLOAT: {
-                    return std::abs(lhs.getFloat() - rhs.getFloat()) < kEpsilon;
+                    // The difference of equal infinities is not a number
+                    return lhs.getFloat() == rhs.getFloat()
+                        || std::abs(lhs.getFloat() - rhs.getFloat()) < kEpsilon;
                 }
                 default: {
                     return false;
-- 
2.43.0


From d0538c384df4802f172b6e2df255bc7561e18816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 19/93] fix: an edge and its reverse, which are equal, are
 ordered alike

---
 src/common/datatypes/Edge.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/common/datatypes/Edge.cpp b/src/common/datatypes/Edge.cpp
index af01fb4..328f161 100644
--- a/src/common/datatypes/Edge.cpp
+++ b/src/common/datatypes/Edge.cpp
@@ -50,14 +50,21 @@ const Value& Edge::value(const std::string &key) const {
 }
 
 bool Edge::operator<(const Edge& rhs) const {
-    if (src != rhs.src) {
-        return src < rhs.src;
+    // An edge equals its reverse, so both have to take the same place in the order
+    const auto& lSrc = type > 0 ? src : dst;
+    const auto& lDst = type > 0 ? dst : src;
+    const auto& rSrc = rhs.type > 0 ? rhs.src : rhs.dst;
+    const auto& rDst = rhs.type > 0 ? rhs.dst : rhs.src;
+    if (lSrc != rSrc) {
+        return lSrc < rSrc;
     }
-    if (dst != rhs.dst) {
-        return dst < rhs.dst;
+    if (lDst != rDst) {
+        return lDst < rDst;
     }
-    if (type != rhs.type) {
-        return type < rhs.type;
+    const auto lType = type > 0 ? type : -type;
+    const auto rType = rhs.type > 0 ? rhs.type : -rhs.type;
+    if (lType != rType) {
+        return lType < rType;
     }
     if (ranking != rhs.ranking) {
         return ranking < rhs.ranking;
-- 
2.43.0


From ec7025540e36e0f5eec40425368bde09d242869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 20/93] fix: steps and paths are ordered transitively, and by
 rank too

---
 src/common/datatypes/Path.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index e6c9522..3eddc6a 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -95,10 +95,13 @@ struct Step {
     }
 
     bool operator<(const Step& rhs) const {
-        if (dst != rhs.dst) {
-            return dst < rhs.dst;
+        if (dst < rhs.dst) {
+            return true;
         }
-        if (type != rhs.dst) {
+        if (rhs.dst < dst) {
+            return false;
+        }
+        if (type != rhs.type) {
             return type < rhs.type;
         }
         if (ranking != rhs.ranking) {
@@ -176,13 +179,13 @@ struct Path {
     bool append(Path path);
 
     bool operator<(const Path& rhs) const {
-        if (src != rhs.src) {
-            return src < rhs.src;
+        if (src < rhs.src) {
+            return true;
         }
-        if (steps != rhs.steps) {
-            return steps < rhs.steps;
+        if (rhs.src < src) {
+            return false;
         }
-        return false;
+        return steps < rhs.steps;
     }
 
     bool hasDuplicateEdges() const;
-- 
2.43.0


From 4e25ee2cf63ee2e8ea4e6b51a2feaa71612be39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 21/93] fix: the remainder of the smallest integer by -1 is 0,
 not a trap

---
 src/common/datatypes/Value.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index a338e94..a361a7f 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -2371,6 +2371,10 @@ Value operator%(const Value& lhs, const Value& rhs) {
             switch (rhs.type()) {
                 case Value::Type::INT: {
                     int64_t denom = rhs.getInt();
+                    if (denom == -1) {
+                        // INT_MIN % -1 traps
+                        return 0;
+                    }
                     if (denom != 0) {
                         return lhs.getInt() % denom;
                     } else {
-- 
2.43.0


From 96e25f067ad51e84c73a7f64c5a6442c6998db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 22/93] fix: joining a text and a number or boolean keeps text
 after a zero byte

---
 src/common/datatypes/Value.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index a361a7f..8184e97 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1925,9 +1925,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::BOOL: {
             switch (rhs.type()) {
                 case Value::Type::STRING: {
-                    return folly::stringPrintf("%s%s",
-                                               lhs.getBool() ? "true" : "false",
-                                               rhs.getStr().c_str());
+                    return (lhs.getBool() ? "true" : "false") + rhs.getStr();
                 }
                 case Value::Type::LIST: {
                     auto ret = rhs.getList();
@@ -1954,9 +1952,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
                     return lhs.getInt() + rhs.getFloat();
                 }
                 case Value::Type::STRING: {
-                    return folly::stringPrintf("%ld%s",
-                                               lhs.getInt(),
-                                               rhs.getStr().c_str());
+                    return folly::to<std::string>(lhs.getInt()) + rhs.getStr();
                 }
                 case Value::Type::DATE: {
                     return rhs.getDate() + lhs.getInt();
@@ -1995,14 +1991,10 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::STRING: {
             switch (rhs.type()) {
                 case Value::Type::BOOL: {
-                    return folly::stringPrintf("%s%s",
-                                               lhs.getStr().c_str(),
-                                               rhs.getBool() ? "true" : "false");
+                    return lhs.getStr() + (rhs.getBool() ? "true" : "false");
                 }
                 case Value::Type::INT: {
-                    return folly::stringPrintf("%s%ld",
-                                               lhs.getStr().c_str(),
-                                               rhs.getInt());
+                    return lhs.getStr() + folly::to<std::string>(rhs.getInt());
                 }
                 case Value::Type::FLOAT: {
                     return lhs.getStr() + folly::to<std::string>(rhs.getFloat());
-- 
2.43.0


From 431fa2921fabe1ebb3b486ee287474ebdde2b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 23/93] fix: conversion to an integer does not depend on
 undefined conversions

---
 src/common/datatypes/Value.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 8184e97..2ab07e6 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1598,7 +1598,7 @@ Value Value::toFloat() const {
             const auto& str = getStr();
             char* pEnd;
             double val = strtod(str.c_str(), &pEnd);
-            if (*pEnd != '\0') {
+            if (pEnd != str.c_str() + str.size()) {
                 return Value::kNullValue;
             }
             return val;
@@ -1619,6 +1619,9 @@ Value Value::toInt() const {
             return *this;
         }
         case Value::Type::FLOAT: {
+            if (std::isnan(getFloat())) {
+                return kNullNaN;
+            }
             // Check if float value is in the range of int_64
             // Return min/max int_64 value and false to accommodate Cypher
             if (getFloat() <= std::numeric_limits<int64_t>::min()) {
@@ -1633,13 +1636,23 @@ Value Value::toInt() const {
             errno = 0;
             char* pEnd;
             auto it = std::find(str.begin(), str.end(), '.');
-            int64_t val =
-                (it == str.end())
-                    ? int64_t(strtoll(str.c_str(), &pEnd, 10))   // string representing int
-                    : int64_t(strtod(str.c_str(), &pEnd));       // string representing double
-            if (*pEnd != '\0') {
+            int64_t val = 0;
+            double dVal = 0.0;
+            if (it == str.end()) {
+                val = int64_t(strtoll(str.c_str(), &pEnd, 10));   // string representing int
+            } else {
+                dVal = strtod(str.c_str(), &pEnd);                // string representing double
+            }
+            if (pEnd != str.c_str() + str.size()) {
                 return Value::kNullValue;
             }
+            if (it != str.end()) {
+                if (dVal < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
+                    dVal >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
+                    return kNullOverflow;
+                }
+                return static_cast<int64_t>(dVal);
+            }
             // Check overflow
             if ((val == std::numeric_limits<int64_t>::max() ||
                  val == std::numeric_limits<int64_t>::min()) &&
-- 
2.43.0


From 94375ea29d9f31ae8613239138b2de95d60ea029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 24/93] fix: moving a date out of the range of dates overflows
 instead of hanging or wrapping

---
 src/common/datatypes/Value.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 2ab07e6..9edf726 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1926,6 +1926,31 @@ std::ostream& operator<<(std::ostream& os, const Value::Type& type) {
     return os;
 }
 
+// The date with the given day number, or an overflow when there is no such date
+static Value dateOfDay(int64_t day) {
+    static const int64_t kLastDay = Date(std::numeric_limits<int16_t>::max(), 12, 31).toInt();
+    if (day < 0 || day > kLastDay) {
+        return Value::kNullOverflow;
+    }
+    return Date(day);
+}
+
+static Value addDays(const Date& date, int64_t days) {
+    int64_t day;
+    if (__builtin_add_overflow(date.toInt(), days, &day)) {
+        return Value::kNullOverflow;
+    }
+    return dateOfDay(day);
+}
+
+static Value subDays(const Date& date, int64_t days) {
+    int64_t day;
+    if (__builtin_sub_overflow(date.toInt(), days, &day)) {
+        return Value::kNullOverflow;
+    }
+    return dateOfDay(day);
+}
+
 Value operator+(const Value& lhs, const Value& rhs) {
     if (lhs.isNull() || (lhs.empty() && !rhs.isNull())) {
         return lhs;
@@ -1968,7 +1993,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
                     return folly::to<std::string>(lhs.getInt()) + rhs.getStr();
                 }
                 case Value::Type::DATE: {
-                    return rhs.getDate() + lhs.getInt();
+                    return addDays(rhs.getDate(), lhs.getInt());
                 }
                 case Value::Type::LIST: {
                     auto ret = rhs.getList();
@@ -2037,7 +2062,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::DATE: {
             switch (rhs.type()) {
                 case Value::Type::INT: {
-                    return lhs.getDate() + rhs.getInt();
+                    return addDays(lhs.getDate(), rhs.getInt());
                 }
                 case Value::Type::STRING: {
                     return lhs.getDate().toString() + rhs.getStr();
@@ -2229,7 +2254,7 @@ Value operator-(const Value& lhs, const Value& rhs) {
         case Value::Type::DATE: {
             switch (rhs.type()) {
                 case Value::Type::INT: {
-                    return lhs.getDate() - rhs.getInt();
+                    return subDays(lhs.getDate(), rhs.getInt());
                 }
                 case Value::Type::DATE: {
                     return lhs.getDate().toInt() - rhs.getDate().toInt();
-- 
2.43.0


From 327e8d2b4a54905d96756fb727c416eaeeed3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 25/93] fix: merging tables puts the values in the order of the
 column names

---
 src/common/datatypes/DataSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/DataSet.h b/src/common/datatypes/DataSet.h
index 5b2b2b5..75d8f10 100644
--- a/src/common/datatypes/DataSet.h
+++ b/src/common/datatypes/DataSet.h
@@ -127,7 +127,7 @@ struct DataSet {
                         std::make_move_iterator(o.colNames.end()));
         for (std::size_t i = 0; i < rowSize(); ++i) {
             rows[i].values.reserve(newColSize);
-            rows[i].values.insert(rows[i].values.begin(),
+            rows[i].values.insert(rows[i].values.end(),
                                   std::make_move_iterator(o.rows[i].values.begin()),
                                   std::make_move_iterator(o.rows[i].values.end()));
         }
-- 
2.43.0


From d2c81841433d0dc6bda19dcdce020a44c9c4ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 26/93] fix: a path is appended exactly when it starts where
 the other ends

---
 src/common/datatypes/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.cpp b/src/common/datatypes/Path.cpp
index afa25e9..1667afd 100644
--- a/src/common/datatypes/Path.cpp
+++ b/src/common/datatypes/Path.cpp
@@ -28,7 +28,8 @@ void Path::reverse() {
 }
 
 bool Path::append(Path path) {
-    if (src != path.src && steps.back().dst != path.src) {
+    const auto& last = steps.empty() ? src : steps.back().dst;
+    if (!(last == path.src)) {
         return false;
     }
     steps.reserve(steps.size() + path.steps.size());
-- 
2.43.0


From 22510afa33c585f4a44cf003359cda90a77b8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 27/93] fix: reading a time or date-time takes the first field
 and the end by their types

---
 src/common/datatypes/DateOps.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/datatypes/DateOps.inl b/src/common/datatypes/DateOps.inl
index 1503851..00cdc39 100644
--- a/src/common/datatypes/DateOps.inl
+++ b/src/common/datatypes/DateOps.inl
@@ -291,7 +291,7 @@ void Cpp2Ops<nebula::Time>::read(Protocol* proto, nebula::Time* obj) {
 
     using apache::thrift::protocol::TProtocolException;
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 0, 1, protocol::T_I16))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 0, 1, protocol::T_BYTE))) {
         goto _loop;
     }
 
@@ -328,7 +328,7 @@ _readField_microsec:
             ::read(*proto, obj->microsec);
     }
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 4, 5, protocol::T_I32))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 4, 0, protocol::T_STOP))) {
         goto _loop;
     }
 
@@ -623,7 +623,7 @@ _readField_microsec:
         obj->microsec = microsec;
     }
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 7, 8, protocol::T_I32))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 7, 0, protocol::T_STOP))) {
         goto _loop;
     }
 
-- 
2.43.0


From e6816f2f64a5026a251f769d17c78d6d6cddbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 28/93] fix: the elements of a set are read by name

---
 src/common/datatypes/SetOps.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/SetOps.inl b/src/common/datatypes/SetOps.inl
index 79a80c8..6b75511 100644
--- a/src/common/datatypes/SetOps.inl
+++ b/src/common/datatypes/SetOps.inl
@@ -29,7 +29,7 @@ struct TccStructTraits<nebula::Set> {
             MAYBE_UNUSED apache::thrift::protocol::TType& _ftype) {
         if (_fname == "values") {
             fid = 1;
-            _ftype = apache::thrift::protocol::T_STRUCT;
+            _ftype = apache::thrift::protocol::T_SET;
         }
     }
 };
-- 
2.43.0


From 57e6f7a0865794a791668fdf53e0b66e5cbdb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 29/93] fix: a new edge or step has no type and no ranking

---
 src/common/datatypes/Edge.h | 4 ++--
 src/common/datatypes/Path.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/datatypes/Edge.h b/src/common/datatypes/Edge.h
index 288b3f2..aae1c16 100644
--- a/src/common/datatypes/Edge.h
+++ b/src/common/datatypes/Edge.h
@@ -17,9 +17,9 @@ namespace nebula {
 struct Edge {
     Value src;
     Value dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Edge() {}
diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index 3eddc6a..a8f3310 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -15,9 +15,9 @@ namespace nebula {
 
 struct Step {
     Vertex dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Step() = default;
-- 
2.43.0


From 4d03673d195aba638cf435b8a34258c86dff7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 30/93] fix: the size of an execution response counts its texts

---
 src/common/graph/ExecutionResponseOps.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/graph/ExecutionResponseOps.inl b/src/common/graph/ExecutionResponseOps.inl
index bbd233e..d7ca6cb 100644
--- a/src/common/graph/ExecutionResponseOps.inl
+++ b/src/common/graph/ExecutionResponseOps.inl
@@ -299,11 +299,11 @@ uint32_t Cpp2Ops<::nebula::ExecutionResponse>::serializedSize(
     }
     if (obj->spaceName != nullptr) {
         xfer += proto->serializedFieldSize("space_name", apache::thrift::protocol::T_STRING, 4);
-        xfer += proto->serializedSizeBinary(obj->spaceName);
+        xfer += proto->serializedSizeBinary(*obj->spaceName);
     }
     if (obj->errorMsg != nullptr) {
         xfer += proto->serializedFieldSize("error_msg", apache::thrift::protocol::T_STRING, 5);
-        xfer += proto->serializedSizeBinary(obj->errorMsg);
+        xfer += proto->serializedSizeBinary(*obj->errorMsg);
     }
     if (obj->planDesc != nullptr) {
         xfer += proto->serializedFieldSize("plan_desc", apache::thrift::protocol::T_STRUCT, 6);
@@ -312,7 +312,7 @@ uint32_t Cpp2Ops<::nebula::ExecutionResponse>::serializedSize(
     }
     if (obj->comment != nullptr) {
         xfer += proto->serializedFieldSize("comment", apache::thrift::protocol::T_STRING, 7);
-        xfer += proto->serializedSizeBinary(obj->comment);
+        xfer += proto->serializedSizeBinary(*obj->comment);
     }
     xfer += proto->serializedSizeStop();
     return xfer;
-- 
2.43.0


From 21ea5f5a58efa1ec2957f11cd219a5d20f02fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 31/93] fix: the head and the last element of an empty list are
 null

---
 src/common/function/FunctionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 008dc51..49207a1 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1858,7 +1858,8 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.front();
+                    auto &list = args[0].get().getList();
+                    return list.values.empty() ? Value::kNullValue : list.values.front();
                 }
                 default: {
                     return Value::kNullBadType;
@@ -1877,7 +1878,8 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.back();
+                    auto &list = args[0].get().getList();
+                    return list.values.empty() ? Value::kNullValue : list.values.back();
                 }
                 default: {
                     return Value::kNullBadType;
-- 
2.43.0


From 5de982c741b3207a9c0cba6dbd89e4f495d40c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 32/93] fix: padding with an empty text leaves the text instead
 of never ending

---
 src/common/function/FunctionManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 49207a1..918e624 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1271,6 +1271,9 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        return value;
+                    }
                     size -= value.size();
                     std::stringstream stream;
                     while (size > static_cast<int64_t>(extra.size())) {
@@ -1301,6 +1304,9 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        return value;
+                    }
                     std::stringstream stream;
                     stream << value;
                     size -= value.size();
-- 
2.43.0


From 4d87c66c1d05cbc81be1c5babb0e4c3d1b7317f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 33/93] fix: the length of a substring is not cut to 32 bits

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 918e624..c5c381a 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1338,7 +1338,7 @@ FunctionManager::FunctionManager() {
             }
             auto value = args[0].get().getStr();
             auto start = args[1].get().getInt();
-            auto length = 0;
+            int64_t length = 0;
             if (argSize == 3) {
                 length = args[2].get().getInt();
             } else {
-- 
2.43.0


From 05be6d5fbe83a29008600d2cceeff4c02d36868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 34/93] fix: a range up to the largest or smallest integer ends

---
 src/common/function/FunctionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index c5c381a..f67a562 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1628,8 +1628,11 @@ FunctionManager::FunctionManager() {
             }
 
             List res;
-            for (auto i = start; step > 0? i <= end : i >= end; i = i + step) {
+            for (auto i = start; step > 0? i <= end : i >= end;) {
                 res.emplace_back(i);
+                if (__builtin_add_overflow(i, step, &i)) {
+                    break;
+                }
             }
             return Value(res);
         };
-- 
2.43.0


From 6d2045d42d62d8d118281930b027ccece193d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 35/93] fix: rand() is not pure

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index f67a562..27539ae 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -822,7 +822,7 @@ FunctionManager::FunctionManager() {
         auto &attr = functions_["rand"];
         attr.minArity_ = 0;
         attr.maxArity_ = 0;
-        attr.isPure_ = true;
+        attr.isPure_ = false;
         attr.body_ = [](const auto &args) -> Value {
             UNUSED(args);
             return folly::Random::randDouble01();
-- 
2.43.0


From ffd0c856e88afb975ea026533b679aa8b042db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 36/93] fix: rand32(max) is not negative for a bound above the
 signed range

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 27539ae..f2ae507 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -845,7 +845,7 @@ FunctionManager::FunctionManager() {
                         return Value::kNullBadData;
                     }
                     auto value = folly::Random::rand32(max);
-                    return static_cast<int64_t>(static_cast<int32_t>(value));
+                    return static_cast<int64_t>(value);
                 }
                 return Value::kNullBadType;
             }
-- 
2.43.0


From 905895ec6f0bbf0f49c2428e73cb174046362648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 37/93] fix: abs and pow overflow to null when the result is no
 64-bit integer

---
 src/common/function/FunctionManager.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index f2ae507..68d3c3b 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -280,7 +280,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::INT: {
-                    return std::abs(args[0].get().getInt());
+                    auto val = args[0].get().getInt();
+                    if (val == std::numeric_limits<int64_t>::min()) {
+                        return Value::kNullOverflow;
+                    }
+                    return std::abs(val);
                 }
                 case Value::Type::FLOAT: {
                     return std::abs(args[0].get().getFloat());
@@ -472,6 +476,10 @@ FunctionManager::FunctionManager() {
                     args[1].get().getFloat();
                 auto val = std::pow(base, exp);
                 if (args[0].get().isInt() && args[1].get().isInt()) {
+                    // 2^63 is the first value out of the range of int64_t
+                    if (!(val >= -9223372036854775808.0 && val < 9223372036854775808.0)) {
+                        return Value::kNullOverflow;
+                    }
                     return static_cast<int64_t>(val);
                 }
                 return val;
-- 
2.43.0


From 0e7706bed81b2896ef7e37e70374372dd80dc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 38/93] fix: hashing a map, set or table does not end the
 process

---
 src/common/datatypes/Value.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 9edf726..57d9d4a 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -64,13 +64,32 @@ std::size_t hash<nebula::Value>::operator()(const nebula::Value& v) const noexce
             return hash<nebula::List>()(v.getList());
         }
         case nebula::Value::Type::MAP: {
-            LOG(FATAL) << "Hash for MAP has not been implemented";
+            // Equal maps may keep their elements in different orders
+            size_t seed = 0;
+            for (const auto& kv : v.getMap().kvs) {
+                seed += folly::hash::hash_combine(hash<string>()(kv.first),
+                                                  hash<nebula::Value>()(kv.second));
+            }
+            return seed;
         }
         case nebula::Value::Type::SET: {
-            LOG(FATAL) << "Hash for SET has not been implemented";
+            // Equal sets may keep their elements in different orders
+            size_t seed = 0;
+            for (const auto& elem : v.getSet().values) {
+                seed += hash<nebula::Value>()(elem);
+            }
+            return seed;
         }
         case nebula::Value::Type::DATASET: {
-            LOG(FATAL) << "Hash for DATASET has not been implemented";
+            const auto& ds = v.getDataSet();
+            size_t seed = 0;
+            for (const auto& name : ds.colNames) {
+                seed = folly::hash::hash_combine(seed, hash<string>()(name));
+            }
+            for (const auto& row : ds.rows) {
+                seed = folly::hash::hash_combine(seed, hash<nebula::List>()(row));
+            }
+            return seed;
         }
         default: {
             LOG(FATAL) << "Unknown type";
-- 
2.43.0


From 1bbbf4ed1ab25bb0569981416f14a486d02e3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 39/93] fix: the text of a large or infinite number gets no
 ".0" behind its exponent or name

---
 src/common/function/FunctionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 68d3c3b..74bdd66 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1210,8 +1210,8 @@ FunctionManager::FunctionManager() {
                 }
                 case Value::Type::FLOAT: {
                     auto str = folly::to<std::string>(args[0].get().getFloat());
-                    std::size_t found = str.find('.');
-                    if (found == std::string::npos) {
+                    // not for texts such as 1E21 and Infinity
+                    if (str.find_first_not_of("-0123456789") == std::string::npos) {
                         str += ".0";
                     }
                     return str;
-- 
2.43.0


From b5154806e79b333a97eb565aca0412daf322cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 40/93] fix: a column expression is read back from what it was
 written as

writeTo stores the index as a size, resetFrom read it as a value.
---
 src/common/expression/ColumnExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/ColumnExpression.cpp b/src/common/expression/ColumnExpression.cpp
index c98066a..fed5504 100644
--- a/src/common/expression/ColumnExpression.cpp
+++ b/src/common/expression/ColumnExpression.cpp
@@ -39,7 +39,7 @@ void ColumnExpression::writeTo(Encoder &encoder) const {
 }
 
 void ColumnExpression::resetFrom(Decoder &decoder) {
-    index_ = decoder.readValue().getInt();
+    index_ = static_cast<int32_t>(decoder.readSize());
 }
 
 }   // namespace nebula
-- 
2.43.0


From e2c520772dddee2f786cfac3e53ec2bdbf379d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 41/93] fix: aggregates differing in DISTINCT are not equal

---
 src/common/expression/AggregateExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/AggregateExpression.cpp b/src/common/expression/AggregateExpression.cpp
index 72b3d78..4f2258d 100644
--- a/src/common/expression/AggregateExpression.cpp
+++ b/src/common/expression/AggregateExpression.cpp
@@ -14,7 +14,7 @@ bool AggregateExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = static_cast<const AggregateExpression&>(rhs);
-    return name_ == r.name_ && *arg_ == *(r.arg_);
+    return name_ == r.name_ && distinct_ == r.distinct_ && *arg_ == *(r.arg_);
 }
 
 void AggregateExpression::writeTo(Encoder& encoder) const {
-- 
2.43.0


From f0b6ecbb03bbeb6e4ac186592ebba0d83c1c18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 42/93] fix: text search expressions copy and compare all their
 options

clone dropped operator, fuzziness, limit and timeout; equality compared the
addresses of the arguments, and arguments ignored the searched property.
---
 src/common/expression/TextSearchExpression.cpp | 6 ++++--
 src/common/expression/TextSearchExpression.h   | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/expression/TextSearchExpression.cpp b/src/common/expression/TextSearchExpression.cpp
index 1b35f98..90373c2 100644
--- a/src/common/expression/TextSearchExpression.cpp
+++ b/src/common/expression/TextSearchExpression.cpp
@@ -10,7 +10,9 @@
 namespace nebula {
 
 bool TextSearchArgument::operator==(const TextSearchArgument& rhs) const {
-    return val_ == rhs.val_ &&
+    return from_ == rhs.from_ &&
+           prop_ == rhs.prop_ &&
+           val_ == rhs.val_ &&
            op_ == rhs.op_ &&
            fuzziness_ == rhs.fuzziness_ &&
            limit_ == rhs.limit_ &&
@@ -45,7 +47,7 @@ bool TextSearchExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = dynamic_cast<const TextSearchExpression&>(rhs);
-    return arg_ == r.arg_;
+    return *arg_ == *r.arg_;
 }
 
 std::string TextSearchExpression::toString() const {
diff --git a/src/common/expression/TextSearchExpression.h b/src/common/expression/TextSearchExpression.h
index 1b0a992..06f1f0b 100644
--- a/src/common/expression/TextSearchExpression.h
+++ b/src/common/expression/TextSearchExpression.h
@@ -127,6 +127,10 @@ public:
 
     Expression* clone() const override {
         auto arg = TextSearchArgument::make(pool_, arg_->from(), arg_->prop(), arg_->val());
+        arg->setOP(arg_->op());
+        arg->setFuzziness(arg_->fuzziness());
+        arg->setLimit(arg_->limit());
+        arg->setTimeout(arg_->timeout());
         return pool_->add(new TextSearchExpression(pool_, kind_, arg));
     }
 
-- 
2.43.0


From 9840998dbb54d5238e57b3bad99800e5f98cec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 43/93] fix: versioned variables without a version can be
 compared and copied

---
 src/common/expression/VariableExpression.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/expression/VariableExpression.h b/src/common/expression/VariableExpression.h
index 5abbd1b..c4f3bd9 100644
--- a/src/common/expression/VariableExpression.h
+++ b/src/common/expression/VariableExpression.h
@@ -87,6 +87,9 @@ public:
             return false;
         }
 
+        if (version_ == nullptr || vve.version_ == nullptr) {
+            return version_ == vve.version_;
+        }
         return *version_ == *vve.version_;
     }
 
@@ -95,7 +98,8 @@ public:
     void accept(ExprVisitor* visitor) override;
 
     Expression* clone() const override {
-        return VersionedVariableExpression::make(pool_, var(), version_->clone());
+        return VersionedVariableExpression::make(
+            pool_, var(), version_ != nullptr ? version_->clone() : nullptr);
     }
 
 private:
-- 
2.43.0


From a54524620c4fe3ab7b76a2ad3ab1dec8168cb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 44/93] fix: NULL AND EMPTY, NULL OR EMPTY give NULL, not a
 type error

---
 src/common/expression/LogicalExpression.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/expression/LogicalExpression.cpp b/src/common/expression/LogicalExpression.cpp
index 71ab117..3d7547d 100644
--- a/src/common/expression/LogicalExpression.cpp
+++ b/src/common/expression/LogicalExpression.cpp
@@ -36,8 +36,10 @@ const Value& LogicalExpression::evalAnd(ExpressionContext &ctx) {
         if (!value.isBool()) {
             if (value.isNull()) {
                 result_ = value;
-            } else if (value.empty() && !result_.isNull()) {
-                result_ = value;
+            } else if (value.empty()) {
+                if (!result_.isNull()) {
+                    result_ = value;
+                }
             } else {
                 result_ = Value::kNullBadType;
                 return result_;
@@ -61,8 +63,10 @@ const Value& LogicalExpression::evalOr(ExpressionContext &ctx) {
         if (!value.isBool()) {
             if (value.isNull()) {
                 result_ = value;
-            } else if (value.empty() && !result_.isNull()) {
-                result_ = value;
+            } else if (value.empty()) {
+                if (!result_.isNull()) {
+                    result_ = value;
+                }
             } else {
                 result_ = Value::kNullBadType;
                 return result_;
-- 
2.43.0


From 0dbb8bef8b462e5d8cd44ff6c91ab30fd5c4da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 45/93] fix: an unknown builtin attribute of an edge is an
 unknown property

It returned whatever the expression had evaluated to before.
---
 src/common/expression/AttributeExpression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/expression/AttributeExpression.cpp b/src/common/expression/AttributeExpression.cpp
index c0f228b..a006dc9 100644
--- a/src/common/expression/AttributeExpression.cpp
+++ b/src/common/expression/AttributeExpression.cpp
@@ -46,6 +46,8 @@ const Value& AttributeExpression::eval(ExpressionContext &ctx) {
                     result_ = lvalue.getEdge().ranking;
                 } else if (rvalue.getStr() == kType) {
                     result_ = lvalue.getEdge().name;
+                } else {
+                    return Value::kNullUnknownProp;
                 }
                 return result_;
             }
-- 
2.43.0


From 39a94871b4c64432a4378316029dc80839e57719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 46/93] fix: ++ and -- of a versioned variable do not read it
 as a plain one

---
 src/common/expression/UnaryExpression.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/expression/UnaryExpression.cpp b/src/common/expression/UnaryExpression.cpp
index 0af1039..02a04e4 100644
--- a/src/common/expression/UnaryExpression.cpp
+++ b/src/common/expression/UnaryExpression.cpp
@@ -38,6 +38,14 @@ void UnaryExpression::resetFrom(Decoder& decoder) {
 }
 
 
+// The operand is a variable, versioned or not
+static const std::string& varName(const Expression* operand) {
+    if (operand->kind() == Expression::Kind::kVar) {
+        return static_cast<const VariableExpression*>(operand)->var();
+    }
+    return static_cast<const VersionedVariableExpression*>(operand)->var();
+}
+
 const Value& UnaryExpression::eval(ExpressionContext& ctx) {
     DCHECK(!!operand_);
     switch (kind_) {
@@ -61,8 +69,7 @@ const Value& UnaryExpression::eval(ExpressionContext& ctx) {
                 break;
             }
             result_ = operand_->eval(ctx) + 1;
-            auto* varExpr = static_cast<VariableExpression*>(operand_);
-            ctx.setVar(varExpr->var(), result_);
+            ctx.setVar(varName(operand_), result_);
             break;
         }
         case Kind::kUnaryDecr: {
@@ -72,8 +79,7 @@ const Value& UnaryExpression::eval(ExpressionContext& ctx) {
                 break;
             }
             result_ = operand_->eval(ctx) - 1;
-            auto* varExpr = static_cast<VariableExpression*>(operand_);
-            ctx.setVar(varExpr->var(), result_);
+            ctx.setVar(varName(operand_), result_);
             break;
         }
         case Kind::kIsNull: {
-- 
2.43.0


From e2efc85a83d420aea672eb28d8a82975a31b8916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 47/93] fix: removing a directory is not given up when an entry
 disappears meanwhile

---
 src/common/fs/FileUtils.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index c44cc38..4b05124 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -23,6 +23,10 @@ bool removeDir(const char* path, bool recursively) {
     // Assuming the path is a directory
     DIR *dh = opendir(path);
     if (!dh) {
+        if (errno == ENOENT) {
+            // It has been removed meanwhile
+            return true;
+        }
         LOG(ERROR) << "Failed to read the directory \"" << path
                    << "\" (" << errno << "): " << strerror(errno);
         return false;
@@ -30,8 +34,8 @@ bool removeDir(const char* path, bool recursively) {
 
     bool succeeded = true;
     struct dirent *dEnt;
-    errno = 0;
-    while (succeeded && !!(dEnt = readdir(dh))) {
+    // Only errno set by readdir itself tells of a failure to read the directory
+    while (succeeded && (errno = 0, !!(dEnt = readdir(dh)))) {
         if (!strcmp(dEnt->d_name, ".") || !strcmp(dEnt->d_name, "..")) {
             // Skip "." and ".."
             continue;
@@ -77,7 +81,7 @@ bool removeDir(const char* path, bool recursively) {
     }
 
     // All content has been removed, now remove the directory itself
-    if (rmdir(path)) {
+    if (rmdir(path) && errno != ENOENT) {
         LOG(ERROR) << "Failed to remove the directory \"" << path
                    << "\" (" << errno << "): " << strerror(errno);
         return false;
@@ -298,7 +302,7 @@ bool FileUtils::remove(const char* path, bool recursively) {
     case FileType::REGULAR:
     case FileType::SYM_LINK:
         // Regular file or link
-        if (unlink(path)) {
+        if (unlink(path) && errno != ENOENT) {
             // Failed
             LOG(ERROR) << "Failed to remove the file \"" << path
                        << "\" (" << errno << "): " << strerror(errno);
-- 
2.43.0


From dde76bb4ef5c7b9e9e9094ee7b58fcdcb850e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 48/93] fix: making a directory fails when the path is a link
 to no directory

---
 src/common/fs/FileUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index 4b05124..ba1cccb 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -335,9 +335,13 @@ bool FileUtils::makeDir(const std::string& dir, uint32_t mode) {
         return false;
     }
     FileType type = fileType(dir.c_str());
-    if (type == FileType::DIRECTORY || type == FileType::SYM_LINK) {
+    if (type == FileType::DIRECTORY) {
         // The directory already exists
         return true;
+    } else if (type == FileType::SYM_LINK) {
+        // The directory already exists if the link leads to one
+        struct stat st;
+        return stat(dir.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
     } else if (type != FileType::NOTEXIST) {
         // A file has existed, cannot create the directory
         return false;
-- 
2.43.0


From 4deb7de2a2794a5a56fd487be8e27cbdf0041c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 49/93] fix: iterating over a link to no file or directory is
 an error, not the end of the process

---
 src/common/fs/FileUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index ba1cccb..bb3bbef 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -557,6 +557,7 @@ void FileUtils::Iterator::openFileOrDirectory() {
         }
         path_ = std::move(result).value();
         openFileOrDirectory();
+        return;
     } else {
         status_ = Status::Error("Filetype not supported `%s': %s",
                                 path_.c_str(), FileUtils::getFileTypeName(type_));
-- 
2.43.0


From 6d3506bcbf09d2948ce914056dfbfae62c39ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 50/93] fix: a link longer than 1024 characters is read as a
 whole

---
 src/common/fs/FileUtils.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index bb3bbef..4f44ef2 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -93,12 +93,19 @@ bool removeDir(const char* path, bool recursively) {
 
 
 StatusOr<std::string> FileUtils::readLink(const char *path) {
-    char buffer[kMaxPathLen];
-    auto len = ::readlink(path, buffer, kMaxPathLen);
-    if (len == -1) {
-        return Status::Error("readlink %s: %s", path, ::strerror(errno));
+    std::string buffer(kMaxPathLen, '\0');
+    while (true) {
+        auto len = ::readlink(path, &buffer[0], buffer.size());
+        if (len == -1) {
+            return Status::Error("readlink %s: %s", path, ::strerror(errno));
+        }
+        if (static_cast<size_t>(len) < buffer.size()) {
+            buffer.resize(len);
+            return buffer;
+        }
+        // It might have been truncated
+        buffer.resize(buffer.size() * 2);
     }
-    return std::string(buffer, len);
 }
 
 StatusOr<std::string> FileUtils::realPath(const char *path) {
-- 
2.43.0


From 9f53c897bdf09005cb7aaa516eb5d39aa1310c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 51/93] fix: directory and last part of paths holding line
 breaks or ending in several slashes

---
 src/common/fs/FileUtils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index 4f44ef2..75610cb 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -120,10 +120,10 @@ StatusOr<std::string> FileUtils::realPath(const char *path) {
 
 std::string FileUtils::dirname(const char *path) {
     DCHECK(path != nullptr && *path != '\0');
-    if (::strcmp("/", path) == 0) {     // root only
+    if (path[::strspn(path, "/")] == '\0') {     // root only
         return "/";
     }
-    static const std::regex pattern("(.*)/([^/]+)/?");
+    static const std::regex pattern("([^]*)/([^/]+)/*");
     std::cmatch result;
     if (std::regex_match(path, result, pattern)) {
         if (result[1].first == result[1].second) {    // "/path" or "/path/"
@@ -137,10 +137,10 @@ std::string FileUtils::dirname(const char *path) {
 
 std::string FileUtils::basename(const char *path) {
     DCHECK(path != nullptr && *path != '\0');
-    if (::strcmp("/", path) == 0) {
+    if (path[::strspn(path, "/")] == '\0') {
         return "";
     }
-    static const std::regex pattern("(/*([^/]+/+)*)([^/]+)/?");
+    static const std::regex pattern("(/*([^/]+/+)*)([^/]+)/*");
     std::cmatch result;
     std::regex_match(path, result, pattern);
     return result[3].str();
-- 
2.43.0


From 1c483d169fd6b8bd66ed2904cedf1b227ee11f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 52/93] fix: a configuration file is read as a whole, and a
 failing read is an error

---
 src/common/conf/Configuration.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 42c25e3..af95174 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -37,22 +37,27 @@ Status Configuration::parseFromFile(const std::string &filename) {
             status = Status::Error("Unknown error");
             break;
         }
-        // get the file size
-        auto len = ::lseek(fd, 0, SEEK_END);
-        if (len == 0) {
+        // read the whole content
+        char buffer[4096];
+        while (true) {
+            auto charsRead = ::read(fd, buffer, sizeof(buffer));
+            if (charsRead == 0) {
+                break;
+            }
+            if (charsRead > 0) {
+                content.append(buffer, charsRead);
+            } else if (errno != EINTR) {
+                status = Status::Error("Failed to read file \"%s\": %s",
+                                       filename.c_str(), ::strerror(errno));
+                break;
+            }
+        }
+        if (status.ok() && content.empty()) {
             status = Status::Error("File \"%s\"is empty", filename.c_str());
-            break;
         }
-        ::lseek(fd, 0, SEEK_SET);
-        // read the whole content
-        // TODO(dutor) ::read might be interrupted by signals
-        auto buffer = std::make_unique<char[]>(len + 1);
-        auto charsRead = ::read(fd, buffer.get(), len);
-        UNUSED(charsRead);
-        buffer[len] = '\0';
         // strip off all comments
         static const std::regex comment("//.*|#.*");
-        content = std::regex_replace(buffer.get(), comment, "");
+        content = std::regex_replace(content, comment, "");
     } while (false);
 
     if (fd != -1) {
-- 
2.43.0


From 1996b8483c9dbd5c49ccbf52d3f6f3b37fe12da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 53/93] fix: // and # inside a string of a configuration file
 are no comment

---
 src/common/conf/Configuration.cpp | 32 +++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index af95174..5e70615 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -9,6 +9,33 @@
 namespace nebula {
 namespace conf {
 
+// Strip off all C++ and shell style comments outside of strings
+static std::string stripComments(const std::string &content) {
+    std::string result;
+    bool quoted = false;
+    for (size_t i = 0; i < content.size(); i++) {
+        auto c = content[i];
+        if (quoted) {
+            if (c == '\\' && i + 1 < content.size()) {
+                result.push_back(c);
+                c = content[++i];
+            } else if (c == '"') {
+                quoted = false;
+            }
+        } else if (c == '"') {
+            quoted = true;
+        } else if (c == '#' || content.compare(i, 2, "//") == 0) {
+            i = content.find_first_of("\r\n", i);
+            if (i == std::string::npos) {
+                break;
+            }
+            c = content[i];
+        }
+        result.push_back(c);
+    }
+    return result;
+}
+
 Configuration::Configuration() {
     content_ = std::make_unique<folly::dynamic>(folly::dynamic::object());
 }
@@ -55,9 +82,6 @@ Status Configuration::parseFromFile(const std::string &filename) {
         if (status.ok() && content.empty()) {
             status = Status::Error("File \"%s\"is empty", filename.c_str());
         }
-        // strip off all comments
-        static const std::regex comment("//.*|#.*");
-        content = std::regex_replace(content, comment, "");
     } while (false);
 
     if (fd != -1) {
@@ -68,7 +92,7 @@ Status Configuration::parseFromFile(const std::string &filename) {
         return status;
     }
 
-    return parseFromString(content);
+    return parseFromString(stripComments(content));
 }
 
 
-- 
2.43.0


From 3a3db3a61a4e943c16e54949389eb0a1d8777540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 54/93] fix: a configuration text that is no object is refused

---
 src/common/conf/Configuration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 5e70615..64b82f8 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -99,6 +99,9 @@ Status Configuration::parseFromFile(const std::string &filename) {
 Status Configuration::parseFromString(const std::string &content) {
     try {
         auto json = folly::parseJson(content);
+        if (!json.isObject()) {
+            return Status::Error("Illegal format (not an object)");
+        }
         content_ = std::make_unique<folly::dynamic>(std::move(json));
     } catch (std::exception &e) {
         LOG(ERROR) << e.what();
-- 
2.43.0


From 054714f0132021f2387cde0cc28d11c6b4c1fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 55/93] fix: reading an array item replaces the output, and
 leaves it alone on failure

---
 src/common/conf/Configuration.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 64b82f8..3368342 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -220,14 +220,16 @@ Status Configuration::fetchAsIntArray(
         return Status::Error("Item \"%s\" is not an array", key);
     }
 
+    std::vector<int64_t> items;
     for (auto& entry : iter->second) {
         try {
-            val.emplace_back(entry.asInt());
+            items.emplace_back(entry.asInt());
         } catch (const std::exception& ex) {
             // Avoid format sercure by literal
             return Status::Error("%s", ex.what());
         }
     }
+    val = std::move(items);
     return Status::OK();
 }
 
@@ -244,14 +246,16 @@ Status Configuration::fetchAsDoubleArray(
         return Status::Error("Item \"%s\" is not an array", key);
     }
 
+    std::vector<double> items;
     for (auto& entry : iter->second) {
         try {
-            val.emplace_back(entry.asDouble());
+            items.emplace_back(entry.asDouble());
         } catch (const std::exception& ex) {
             // Avoid format sercure by literal
             return Status::Error("%s", ex.what());
         }
     }
+    val = std::move(items);
     return Status::OK();
 }
 
@@ -268,14 +272,16 @@ Status Configuration::fetchAsBoolArray(
         return Status::Error("Item \"%s\" is not an array", key);
     }
 
+    std::vector<bool> items;
     for (auto& entry : iter->second) {
         try {
-            val.emplace_back(entry.asBool());
+            items.emplace_back(entry.asBool());
         } catch (const std::exception& ex) {
             // Avoid format sercure by literal
             return Status::Error("%s", ex.what());
         }
     }
+    val = std::move(items);
     return Status::OK();
 }
 
@@ -292,14 +298,16 @@ Status Configuration::fetchAsStringArray(
         return Status::Error("Item \"%s\" is not an array", key);
     }
 
+    std::vector<std::string> items;
     for (auto& entry : iter->second) {
         try {
-            val.emplace_back(entry.asString());
+            items.emplace_back(entry.asString());
         } catch (const std::exception& ex) {
             // Avoid format sercure by literal
             return Status::Error("%s", ex.what());
         }
     }
+    val = std::move(items);
     return Status::OK();
 }
 
-- 
2.43.0


From c6ce6fb0dc2620e0f19f0e22c437a773b9002faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 56/93] fix: reservoir sampling draws from all the samples
 seen, the current one included

---
 src/common/algorithm/ReservoirSampling.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/algorithm/ReservoirSampling.h b/src/common/algorithm/ReservoirSampling.h
index 395b9d7..5e8a024 100644
--- a/src/common/algorithm/ReservoirSampling.h
+++ b/src/common/algorithm/ReservoirSampling.h
@@ -26,7 +26,8 @@ public:
             ++cnt_;
             return true;
         } else {
-            auto index = folly::Random::rand64(cnt_);
+            // The sample is number cnt_ + 1, and stays with probability num_ / (cnt_ + 1)
+            auto index = folly::Random::rand64(cnt_ + 1);
             if (index < num_) {
                 samples_[index] = (std::move(sample));
                 ++cnt_;
-- 
2.43.0


From 4f623abf85703dbcdae3ed22c07ccd21cc7d6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 57/93] fix: the handlers of SIGCHLD and of fatal signals run
 once per signal

---
 src/common/base/SignalHandler.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/base/SignalHandler.cpp b/src/common/base/SignalHandler.cpp
index 99e0091..f4b69ff 100644
--- a/src/common/base/SignalHandler.cpp
+++ b/src/common/base/SignalHandler.cpp
@@ -100,11 +100,10 @@ void SignalHandler::doHandle(int sig, siginfo_t *info, void *uctx) {
             break;
         case SIGCHLD:
             // TODO(dutor) Since we rarely use this signal, we regard it as a general one for now.
+        default:
             handleGeneralSignal(sig, info);
             break;
     }
-
-    handleGeneralSignal(sig, info);
 }
 
 
-- 
2.43.0


From 85bf9ecded12ee8f41a6b4a5848a17774113219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 58/93] fix: a signal arriving while its handler is being
 installed finds the handler in place

---
 src/common/base/SignalHandler.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/common/base/SignalHandler.cpp b/src/common/base/SignalHandler.cpp
index f4b69ff..eb69d2c 100644
--- a/src/common/base/SignalHandler.cpp
+++ b/src/common/base/SignalHandler.cpp
@@ -71,15 +71,25 @@ Status SignalHandler::installInternal(int sig, Handler handler) {
     ::memset(&act, 0, sizeof(act));
     act.sa_sigaction = &handlerHook;
     act.sa_flags |= SA_SIGINFO;
-    if (::sigaction(sig, &act, nullptr) != 0) {
-        return Status::Error("Register signal %d failed: %s", sig, ::strerror(errno));
-    }
     auto index = sig - 1;
     if (handlers_[index]) {
         LOG(WARNING) << "Register signal " << sig << " twice!";
     }
-    handlers_[index] = std::move(handler);
-    return Status::OK();
+    // The handler has to be in place before the first signal arrives,
+    // and none may arrive while it is being replaced
+    sigset_t block;
+    sigset_t saved;
+    ::sigemptyset(&block);
+    ::sigaddset(&block, sig);
+    ::pthread_sigmask(SIG_BLOCK, &block, &saved);
+    handlers_[index].swap(handler);
+    auto status = Status::OK();
+    if (::sigaction(sig, &act, nullptr) != 0) {
+        status = Status::Error("Register signal %d failed: %s", sig, ::strerror(errno));
+        handlers_[index].swap(handler);
+    }
+    ::pthread_sigmask(SIG_SETMASK, &saved, nullptr);
+    return status;
 }
 
 
-- 
2.43.0


From de3a4edf86c2b22ebe1b9aaf3aabf8c82550dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 59/93] fix: listing the IPv4 addresses skips devices that have
 no address at all

---
 src/common/network/NetworkUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/network/NetworkUtils.cpp b/src/common/network/NetworkUtils.cpp
index dc1d758..6c16078 100644
--- a/src/common/network/NetworkUtils.cpp
+++ b/src/common/network/NetworkUtils.cpp
@@ -69,8 +69,8 @@ StatusOr<std::unordered_map<std::string, std::string>> NetworkUtils::listDeviceA
         return Status::Error("%s", ::strerror(errno));
     }
     for (auto *ifa = iflist; ifa != nullptr; ifa = ifa->ifa_next) {
-        // Skip non-IPv4 devices
-        if (ifa->ifa_addr->sa_family != AF_INET) {
+        // Skip the devices without an address, and non-IPv4 ones
+        if (ifa->ifa_addr == nullptr || ifa->ifa_addr->sa_family != AF_INET) {
             continue;
         }
         auto *addr = reinterpret_cast<struct sockaddr_in*>(ifa->ifa_addr);
-- 
2.43.0


From f7ae95237e7df56e67636bd1ad75e1958e7658b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 60/93] fix: the list of all IPv4 addresses holds every address
 of a device

---
 src/common/network/NetworkUtils.cpp | 50 ++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/common/network/NetworkUtils.cpp b/src/common/network/NetworkUtils.cpp
index 6c16078..5b6f64f 100644
--- a/src/common/network/NetworkUtils.cpp
+++ b/src/common/network/NetworkUtils.cpp
@@ -47,8 +47,33 @@ StatusOr<std::string> NetworkUtils::getIPv4FromDevice(const std::string &device)
 }
 
 
+// All pairs of device and IPv4 address, a device may have several ones
+static StatusOr<std::vector<std::pair<std::string, std::string>>> listIPv4Entries() {
+    struct ifaddrs *iflist;
+    std::vector<std::pair<std::string, std::string>> entries;
+    if (::getifaddrs(&iflist) != 0) {
+        return Status::Error("%s", ::strerror(errno));
+    }
+    for (auto *ifa = iflist; ifa != nullptr; ifa = ifa->ifa_next) {
+        // Skip the devices without an address, and non-IPv4 ones
+        if (ifa->ifa_addr == nullptr || ifa->ifa_addr->sa_family != AF_INET) {
+            continue;
+        }
+        auto *addr = reinterpret_cast<struct sockaddr_in*>(ifa->ifa_addr);
+        // inet_ntoa is thread safe but not re-entrant,
+        // we could use inet_ntop instead when we need support for IPv6
+        entries.emplace_back(ifa->ifa_name, ::inet_ntoa(addr->sin_addr));
+    }
+    ::freeifaddrs(iflist);
+    if (entries.empty()) {
+        return Status::Error("No IPv4 devices found");
+    }
+    return entries;
+}
+
+
 StatusOr<std::vector<std::string>> NetworkUtils::listIPv4s() {
-    auto result = listDeviceAndIPv4s();
+    auto result = listIPv4Entries();
     if (!result.ok()) {
         return std::move(result).status();
     }
@@ -63,24 +88,13 @@ StatusOr<std::vector<std::string>> NetworkUtils::listIPv4s() {
 
 
 StatusOr<std::unordered_map<std::string, std::string>> NetworkUtils::listDeviceAndIPv4s() {
-    struct ifaddrs *iflist;
-    std::unordered_map<std::string, std::string> dev2ipv4s;
-    if (::getifaddrs(&iflist) != 0) {
-        return Status::Error("%s", ::strerror(errno));
-    }
-    for (auto *ifa = iflist; ifa != nullptr; ifa = ifa->ifa_next) {
-        // Skip the devices without an address, and non-IPv4 ones
-        if (ifa->ifa_addr == nullptr || ifa->ifa_addr->sa_family != AF_INET) {
-            continue;
-        }
-        auto *addr = reinterpret_cast<struct sockaddr_in*>(ifa->ifa_addr);
-        // inet_ntoa is thread safe but not re-entrant,
-        // we could use inet_ntop instead when we need support for IPv6
-        dev2ipv4s[ifa->ifa_name] = ::inet_ntoa(addr->sin_addr);
+    auto result = listIPv4Entries();
+    if (!result.ok()) {
+        return std::move(result).status();
     }
-    ::freeifaddrs(iflist);
-    if (dev2ipv4s.empty()) {
-        return Status::Error("No IPv4 devices found");
+    std::unordered_map<std::string, std::string> dev2ipv4s;
+    for (auto &entry : result.value()) {
+        dev2ipv4s[entry.first] = entry.second;
     }
     return dev2ipv4s;
 }
-- 
2.43.0


From a4992ba6d8afcca4bb0b9e8afbd2d9331d146cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 61/93] fix: what a task without a value throws reaches its
 future as it was thrown

Anything that is not a std::exception ended the process, and the others
were cut down to std::exception.
---
 src/common/thread/GenericWorker.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/thread/GenericWorker.h b/src/common/thread/GenericWorker.h
index 26c7a9e..e4fbe33 100644
--- a/src/common/thread/GenericWorker.h
+++ b/src/common/thread/GenericWorker.h
@@ -190,8 +190,8 @@ auto GenericWorker::addTask(F &&f, Args &&...args)
             try {
                 (*task)();
                 promise->setValue(folly::unit);
-            } catch (const std::exception& ex) {
-                promise->setException(ex);
+            } catch (...) {
+                promise->setException(folly::exception_wrapper(std::current_exception()));
             }
         });
     }
@@ -235,8 +235,8 @@ auto GenericWorker::addDelayTask(size_t ms, F &&f, Args &&...args)
         try {
             (*task)();
             promise->setValue(folly::unit);
-        } catch (const std::exception& ex) {
-            promise->setException(ex);
+        } catch (...) {
+            promise->setException(folly::exception_wrapper(std::current_exception()));
         }
     });
     return future;
-- 
2.43.0


From 4f0df9d31197611b6592d80794390e23a49d0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 62/93] fix: a worker frees the events of its timers before
 their event base

With a repeated task still active, or a delayed one not yet due, the
destructor used the freed event base.
---
 src/common/thread/GenericWorker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index d81a20e..620c3fc 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -17,6 +17,8 @@ GenericWorker::GenericWorker() = default;
 GenericWorker::~GenericWorker() {
     stop();
     wait();
+    // The timers' events belong to `evbase_'
+    activeTimers_.clear();
     if (notifier_ != nullptr) {
         event_free(notifier_);
         notifier_ = nullptr;
-- 
2.43.0


From b21e9022e1b9d05b42f8837bf47e086cad1e70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 63/93] fix: of two threads stopping a worker only one is told
 it did

---
 src/common/thread/GenericWorker.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index 620c3fc..ea1038f 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -70,10 +70,9 @@ bool GenericWorker::start(std::string name) {
 }
 
 bool GenericWorker::stop() {
-    if (stopped_.load(std::memory_order_acquire)) {
+    if (stopped_.exchange(true, std::memory_order_acq_rel)) {
         return false;
     }
-    stopped_.store(true, std::memory_order_release);
     notify();
     return true;
 }
-- 
2.43.0


From 9c471e5ab1e215fc5a9d83b222a7ebf418acd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 64/93] fix: a repeated task added and purged at once is not
 missed by its purging

The worker took the new timers and the purgings one after the other, so
that it could drop the purging of a timer it had not yet seen, which then
ran for ever.
---
 src/common/thread/GenericWorker.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index ea1038f..c61525a 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -115,11 +115,14 @@ void GenericWorker::onNotify() {
             task();
         }
     }
+    decltype(purgingingTimers_) purgings;
     {
         decltype(pendingTimers_) newcomings;
         {
+            // Taken together, or a timer might be missed by its own purging
             std::lock_guard<std::mutex> guard(lock_);
             newcomings.swap(pendingTimers_);
+            purgings.swap(purgingingTimers_);
         }
         auto cb = [] (int fd, int16_t, void *arg) {
             UNUSED(fd);
@@ -143,15 +146,8 @@ void GenericWorker::onNotify() {
             activeTimers_[id] = std::move(timer);
         }
     }
-    {
-        decltype(purgingingTimers_) newcomings;
-        {
-            std::lock_guard<std::mutex> guard(lock_);
-            newcomings.swap(purgingingTimers_);
-        }
-        for (auto id : newcomings) {
-            purgeTimerInternal(id);
-        }
+    for (auto id : purgings) {
+        purgeTimerInternal(id);
     }
 }
 
-- 
2.43.0


From 1484f36adba6c7567412a64c20c1faf217c87ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 65/93] fix: a delayed task does not run early after a long
 task

The delay was counted from the time the event loop had cached before it
ran the long task.
---
 src/common/thread/GenericWorker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index c61525a..553f861 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -133,6 +133,10 @@ void GenericWorker::onNotify() {
                 worker->purgeTimerInternal(timer->id_);
             }
         };
+        if (!newcomings.empty()) {
+            // The tasks above may have taken long since the loop cached the time
+            event_base_update_cache_time(evbase_);
+        }
         for (auto &timer : newcomings) {
             timer->ev_ = event_new(evbase_, -1, EV_PERSIST, cb, timer.get());
 
-- 
2.43.0


From 8342269025be0bb5d6ca6ae79ce47fabbfd7d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 66/93] fix: refusing a metric name does not read past the end
 of its text

---
 src/common/stats/StatsManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/stats/StatsManager.cpp b/src/common/stats/StatsManager.cpp
index a22b0bc..903b0f1 100644
--- a/src/common/stats/StatsManager.cpp
+++ b/src/common/stats/StatsManager.cpp
@@ -209,7 +209,8 @@ StatusOr<StatsManager::VT> StatsManager::readValue(folly::StringPiece metricName
     folly::split(".", metricName, parts, true);
     if (parts.size() != 3) {
         LOG(ERROR) << "\"" << metricName << "\" is not a valid metric name";
-        return Status::Error("\"%s\" is not a valid metric name", metricName.data());
+        return Status::Error("\"%s\" is not a valid metric name",
+                             metricName.toString().c_str());
     }
 
     TimeRange range;
-- 
2.43.0


From d39c4e2a365d3982e5e36042a52a5e91989e1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 67/93] fix: a percentile is made of digits only

"pnan", "p-5" and "p1e5" were taken for percentiles, out of the range
that a histogram answers for.
---
 src/common/stats/StatsManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/stats/StatsManager.cpp b/src/common/stats/StatsManager.cpp
index 903b0f1..1fd6171 100644
--- a/src/common/stats/StatsManager.cpp
+++ b/src/common/stats/StatsManager.cpp
@@ -189,6 +189,13 @@ bool StatsManager::strToPct(folly::StringPiece part, double& pct) {
         size_t len = part.size()  - 1;
         if (len > 0 && len <= 6) {
             auto digits = folly::StringPiece(&(part[1]), len);
+            for (auto digit : digits) {
+                if (digit < '0' || digit > '9') {
+                    // Would otherwise take "nan", "-5" or "1e5" as well
+                    LOG(ERROR) << "Not only digits in " << part.toString();
+                    return false;
+                }
+            }
             pct = folly::to<double>(digits) / dividors[len - 1];
             return true;
         } else {
-- 
2.43.0


From 8bcccdd8b92bc6b6536a4e0edfb1c805cfe55dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 68/93] fix: a long full-text value is cut at a character, not
 inside one

The search engine refuses a document that is not valid UTF-8.
---
 src/common/plugin/fulltext/FTUtils.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/plugin/fulltext/FTUtils.h b/src/common/plugin/fulltext/FTUtils.h
index 7231965..c9621b9 100644
--- a/src/common/plugin/fulltext/FTUtils.h
+++ b/src/common/plugin/fulltext/FTUtils.h
@@ -170,7 +170,15 @@ struct DocIDTraits {
     }
 
     static std::string val(const std::string &v) {
-        return ((v.size() > MAX_INDEX_TYPE_LENGTH) ? v.substr(0, MAX_INDEX_TYPE_LENGTH) : v);
+        if (v.size() <= MAX_INDEX_TYPE_LENGTH) {
+            return v;
+        }
+        // Cut at a character, what is sent has to be valid UTF-8
+        size_t len = MAX_INDEX_TYPE_LENGTH;
+        while (len > 0 && (static_cast<unsigned char>(v[len]) & 0xC0) == 0x80) {
+            len--;
+        }
+        return v.substr(0, len);
     }
 
     static std::string normalizedJson(const std::string &v) {
-- 
2.43.0


From f96ab072be003c2324c13c1b2d58bce8c690c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 69/93] fix: the credentials for the search engine are quoted
 for the shell

A password with a blank, a quote or another character special to the shell
broke the command, or ran another one.
---
 src/common/plugin/fulltext/FTUtils.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/plugin/fulltext/FTUtils.h b/src/common/plugin/fulltext/FTUtils.h
index c9621b9..06d6ffa 100644
--- a/src/common/plugin/fulltext/FTUtils.h
+++ b/src/common/plugin/fulltext/FTUtils.h
@@ -81,10 +81,8 @@ struct HttpClient {
     std::string toString() const {
         std::stringstream os;
         if (!user.empty()) {
-            os << " -u " << user;
-            if (!password.empty()) {
-                os << ":" << password;
-            }
+            auto auth = password.empty() ? user : user + ":" + password;
+            os << " -u '" << boost::replace_all_copy(auth, "'", ESCAPE_SINGLE_QUOTE) << "'";
         }
         os << " \"http://" << host.host << ":" << host.port << "/";
         return os.str();
-- 
2.43.0


From f2e85e3e9d94b6f5d6376dbfb075ac8ae7840b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 70/93] fix: do not add an empty full-text index to the cache
 when a name is looked up

---
 src/common/clients/meta/MetaClient.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 0298977..17631f8 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3646,11 +3646,11 @@ MetaClient::getFTIndexByNameFromCache(GraphSpaceID spaceId, const std::string& n
         return Status::Error("Not ready!");
     }
     folly::RWSpinLock::ReadHolder holder(localCacheLock_);
-    if (fulltextIndexMap_.find(name) != fulltextIndexMap_.end() &&
-        fulltextIndexMap_[name].get_space_id() != spaceId) {
+    auto it = fulltextIndexMap_.find(name);
+    if (it == fulltextIndexMap_.end() || it->second.get_space_id() != spaceId) {
         return Status::IndexNotFound();
     }
-    return fulltextIndexMap_[name];
+    return it->second;
 }
 
 folly::Future<StatusOr<cpp2::CreateSessionResp>>
-- 
2.43.0


From 9ad676db7ce2af85b60f449671c504a613b5cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 71/93] fix: read the cached full-text clients under the cache
 lock

---
 src/common/clients/meta/MetaClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 17631f8..b497d4d 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3542,6 +3542,7 @@ StatusOr<std::vector<cpp2::FTClient>> MetaClient::getFTClientsFromCache() {
     if (!ready_) {
         return Status::Error("Not ready!");
     }
+    folly::RWSpinLock::ReadHolder holder(localCacheLock_);
     return fulltextClientList_;
 }
 
-- 
2.43.0


From fbf37e493224f63969f8b99a4e6c0953e6988667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 72/93] fix: fail the metadata load when the hosts cannot be
 listed

---
 src/common/clients/meta/MetaClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index b497d4d..afc6e06 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -261,7 +261,7 @@ bool MetaClient::loadData() {
     }
 
     auto hostsRet = listHosts().get();
-    if (!ret.ok()) {
+    if (!hostsRet.ok()) {
         LOG(ERROR) << "List hosts failed, status:" << hostsRet.status();
         return false;
     }
-- 
2.43.0


From 6fae1b2457f4412c2b405bd281e5014b8079e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 73/93] fix: map the leaders of a load through the space names
 of that load

---
 src/common/clients/meta/MetaClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index afc6e06..cee0d3d 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -273,7 +273,7 @@ bool MetaClient::loadData() {
             return *hostItem.hostAddr_ref();
         });
 
-    loadLeader(hostItems, spaceIndexByName_);
+    loadLeader(hostItems, spaceIndexByName);
 
     decltype(localCache_) oldCache;
     {
-- 
2.43.0


From e43f129610191c607ecd36ff37f49cc1d4640fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 74/93] fix: replace the index names with the rest of the
 cache, under its lock

---
 src/common/clients/meta/MetaClient.cpp | 38 ++++++++++++++++++--------
 src/common/clients/meta/MetaClient.h   |  5 +++-
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index cee0d3d..c13776d 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -203,6 +203,8 @@ bool MetaClient::loadData() {
     decltype(spaceEdgeIndexByType_)     spaceEdgeIndexByType;
     decltype(spaceTagIndexById_)        spaceTagIndexById;
     decltype(spaceAllEdgeMap_)          spaceAllEdgeMap;
+    decltype(tagNameIndexMap_)          tagNameIndexMap;
+    decltype(edgeNameIndexMap_)         edgeNameIndexMap;
 
     for (auto space : ret.value()) {
         auto spaceId = space.first;
@@ -237,7 +239,7 @@ bool MetaClient::loadData() {
             return false;
         }
 
-        if (!loadIndexes(spaceId, spaceCache)) {
+        if (!loadIndexes(spaceId, spaceCache, tagNameIndexMap, edgeNameIndexMap)) {
             LOG(ERROR) << "Load Indexes Failed";
             return false;
         }
@@ -288,6 +290,8 @@ bool MetaClient::loadData() {
         spaceEdgeIndexByType_   = std::move(spaceEdgeIndexByType);
         spaceTagIndexById_      = std::move(spaceTagIndexById);
         spaceAllEdgeMap_        = std::move(spaceAllEdgeMap);
+        tagNameIndexMap_        = std::move(tagNameIndexMap);
+        edgeNameIndexMap_       = std::move(edgeNameIndexMap);
         storageHosts_           = std::move(hosts);
     }
 
@@ -435,7 +439,9 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
 
 
 bool MetaClient::loadIndexes(GraphSpaceID spaceId,
-                             std::shared_ptr<SpaceInfoCache> cache) {
+                             std::shared_ptr<SpaceInfoCache> cache,
+                             NameIndexMap &tagNameIndexMap,
+                             NameIndexMap &edgeNameIndexMap) {
     auto tagIndexesRet = listTagIndexes(spaceId).get();
     if (!tagIndexesRet.ok()) {
         LOG(ERROR) << "Get tag indexes failed for spaceId " << spaceId
@@ -455,7 +461,7 @@ bool MetaClient::loadIndexes(GraphSpaceID spaceId,
         auto indexName = tagIndex.get_index_name();
         auto indexID = tagIndex.get_index_id();
         std::pair<GraphSpaceID, std::string> pair(spaceId, indexName);
-        tagNameIndexMap_[pair] = indexID;
+        tagNameIndexMap[pair] = indexID;
         auto tagIndexPtr = std::make_shared<cpp2::IndexItem>(tagIndex);
         tagIndexes.emplace(indexID, tagIndexPtr);
     }
@@ -466,7 +472,7 @@ bool MetaClient::loadIndexes(GraphSpaceID spaceId,
         auto indexName = edgeIndex.get_index_name();
         auto indexID = edgeIndex.get_index_id();
         std::pair<GraphSpaceID, std::string> pair(spaceId, indexName);
-        edgeNameIndexMap_[pair] = indexID;
+        edgeNameIndexMap[pair] = indexID;
         auto edgeIndexPtr = std::make_shared<cpp2::IndexItem>(edgeIndex);
         edgeIndexes.emplace(indexID, edgeIndexPtr);
     }
@@ -2158,11 +2164,15 @@ MetaClient::getTagIndexByNameFromCache(const GraphSpaceID space, const std::stri
         return Status::Error("Not ready!");
     }
     std::pair<GraphSpaceID, std::string> key(space, name);
-    auto iter = tagNameIndexMap_.find(key);
-    if (iter == tagNameIndexMap_.end()) {
-        return Status::IndexNotFound();
+    IndexID indexID;
+    {
+        folly::RWSpinLock::ReadHolder holder(localCacheLock_);
+        auto iter = tagNameIndexMap_.find(key);
+        if (iter == tagNameIndexMap_.end()) {
+            return Status::IndexNotFound();
+        }
+        indexID = iter->second;
     }
-    auto indexID = iter->second;
     auto itemStatus = getTagIndexFromCache(space, indexID);
     if (!itemStatus.ok()) {
         return itemStatus.status();
@@ -2177,11 +2187,15 @@ MetaClient::getEdgeIndexByNameFromCache(const GraphSpaceID space, const std::str
         return Status::Error("Not ready!");
     }
     std::pair<GraphSpaceID, std::string> key(space, name);
-    auto iter = edgeNameIndexMap_.find(key);
-    if (iter == edgeNameIndexMap_.end()) {
-        return Status::IndexNotFound();
+    IndexID indexID;
+    {
+        folly::RWSpinLock::ReadHolder holder(localCacheLock_);
+        auto iter = edgeNameIndexMap_.find(key);
+        if (iter == edgeNameIndexMap_.end()) {
+            return Status::IndexNotFound();
+        }
+        indexID = iter->second;
     }
-    auto indexID = iter->second;
     auto itemStatus = getEdgeIndexFromCache(space, indexID);
     if (!itemStatus.ok()) {
         return itemStatus.status();
diff --git a/src/common/clients/meta/MetaClient.h b/src/common/clients/meta/MetaClient.h
index e52e670..546fd2b 100644
--- a/src/common/clients/meta/MetaClient.h
+++ b/src/common/clients/meta/MetaClient.h
@@ -663,7 +663,10 @@ protected:
 
     bool loadUsersAndRoles();
 
-    bool loadIndexes(GraphSpaceID spaceId, std::shared_ptr<SpaceInfoCache> cache);
+    bool loadIndexes(GraphSpaceID spaceId,
+                     std::shared_ptr<SpaceInfoCache> cache,
+                     NameIndexMap &tagNameIndexMap,
+                     NameIndexMap &edgeNameIndexMap);
 
     bool loadListeners(GraphSpaceID spaceId, std::shared_ptr<SpaceInfoCache> cache);
 
-- 
2.43.0


From 23cdef4cd1e824c9b9740526ac75d2446424eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 75/93] fix: remove a listener whose peers changed before
 adding it again

---
 src/common/clients/meta/MetaClient.cpp | 79 +++++++++++++-------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index c13776d..2aba244 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -919,91 +919,92 @@ void MetaClient::listenerDiff(const LocalCache& oldCache, const LocalCache& newC
         return;
     }
 
-    VLOG(1) << "Let's check if any listeners parts added for " << options_.localHost_;
-    for (auto& spaceEntry : newMap) {
+    // A listener whose peers have changed is removed before it is added with the new ones
+    VLOG(1) << "Let's check if any old listeners removed....";
+    for (auto& spaceEntry : oldMap) {
         auto spaceId = spaceEntry.first;
-        auto oldSpaceIter = oldMap.find(spaceId);
-        if (oldSpaceIter == oldMap.end()) {
-            // new space is added
-            VLOG(1) << "[Listener] SpaceId " << spaceId << " was added!";
-            listener_->onSpaceAdded(spaceId, true);
+        auto newSpaceIter = newMap.find(spaceId);
+        if (newSpaceIter == newMap.end()) {
+            // remove old space
             for (const auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
                 for (const auto& info : partEntry.second) {
-                    VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                            << " was added!";
-                    listener_->onListenerAdded(spaceId, partId, info);
+                    VLOG(1) << "SpaceId " << spaceId << ", partId " << partId << " was removed!";
+                    listener_->onListenerRemoved(spaceId, partId, info.type_);
                 }
             }
+            listener_->onSpaceRemoved(spaceId, true);
+            VLOG(1) << "[Listener] SpaceId " << spaceId << " was removed!";
         } else {
-            // check if new part listener is added
+            // check if part listener is removed
             for (auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
-                auto oldPartIter = oldSpaceIter->second.find(partId);
-                if (oldPartIter == oldSpaceIter->second.end()) {
+                auto newPartIter = newSpaceIter->second.find(partId);
+                if (newPartIter == newSpaceIter->second.end()) {
                     for (const auto& info : partEntry.second) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was added!";
-                        listener_->onListenerAdded(spaceId, partId, info);
+                                << " was removed!";
+                        listener_->onListenerRemoved(spaceId, partId, info.type_);
                     }
                 } else {
                     std::sort(partEntry.second.begin(), partEntry.second.end());
-                    std::sort(oldPartIter->second.begin(), oldPartIter->second.end());
+                    std::sort(newPartIter->second.begin(), newPartIter->second.end());
                     std::vector<ListenerHosts> diff;
                     std::set_difference(partEntry.second.begin(),
                                         partEntry.second.end(),
-                                        oldPartIter->second.begin(),
-                                        oldPartIter->second.end(),
+                                        newPartIter->second.begin(),
+                                        newPartIter->second.end(),
                                         std::back_inserter(diff));
                     for (const auto& info : diff) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was added!";
-                        listener_->onListenerAdded(spaceId, partId, info);
+                                << " was removed!";
+                        listener_->onListenerRemoved(spaceId, partId, info.type_);
                     }
                 }
             }
         }
     }
 
-    VLOG(1) << "Let's check if any old listeners removed....";
-    for (auto& spaceEntry : oldMap) {
+    VLOG(1) << "Let's check if any listeners parts added for " << options_.localHost_;
+    for (auto& spaceEntry : newMap) {
         auto spaceId = spaceEntry.first;
-        auto newSpaceIter = newMap.find(spaceId);
-        if (newSpaceIter == newMap.end()) {
-            // remove old space
+        auto oldSpaceIter = oldMap.find(spaceId);
+        if (oldSpaceIter == oldMap.end()) {
+            // new space is added
+            VLOG(1) << "[Listener] SpaceId " << spaceId << " was added!";
+            listener_->onSpaceAdded(spaceId, true);
             for (const auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
                 for (const auto& info : partEntry.second) {
-                    VLOG(1) << "SpaceId " << spaceId << ", partId " << partId << " was removed!";
-                    listener_->onListenerRemoved(spaceId, partId, info.type_);
+                    VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
+                            << " was added!";
+                    listener_->onListenerAdded(spaceId, partId, info);
                 }
             }
-            listener_->onSpaceRemoved(spaceId, true);
-            VLOG(1) << "[Listener] SpaceId " << spaceId << " was removed!";
         } else {
-            // check if part listener is removed
+            // check if new part listener is added
             for (auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
-                auto newPartIter = newSpaceIter->second.find(partId);
-                if (newPartIter == newSpaceIter->second.end()) {
+                auto oldPartIter = oldSpaceIter->second.find(partId);
+                if (oldPartIter == oldSpaceIter->second.end()) {
                     for (const auto& info : partEntry.second) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was removed!";
-                        listener_->onListenerRemoved(spaceId, partId, info.type_);
+                                << " was added!";
+                        listener_->onListenerAdded(spaceId, partId, info);
                     }
                 } else {
                     std::sort(partEntry.second.begin(), partEntry.second.end());
-                    std::sort(newPartIter->second.begin(), newPartIter->second.end());
+                    std::sort(oldPartIter->second.begin(), oldPartIter->second.end());
                     std::vector<ListenerHosts> diff;
                     std::set_difference(partEntry.second.begin(),
                                         partEntry.second.end(),
-                                        newPartIter->second.begin(),
-                                        newPartIter->second.end(),
+                                        oldPartIter->second.begin(),
+                                        oldPartIter->second.end(),
                                         std::back_inserter(diff));
                     for (const auto& info : diff) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was removed!";
-                        listener_->onListenerRemoved(spaceId, partId, info.type_);
+                                << " was added!";
+                        listener_->onListenerAdded(spaceId, partId, info);
                     }
                 }
             }
-- 
2.43.0


From e2609835f1d44989743256349258ff2864476fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 76/93] fix: tell the remote listeners on the first load of the
 metadata too

---
 src/common/clients/meta/MetaClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 2aba244..2e95034 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -297,8 +297,9 @@ bool MetaClient::loadData() {
 
     diff(oldCache, localCache_);
     listenerDiff(oldCache, localCache_);
-    loadRemoteListeners();
+    // The remote listeners are looked up in the cache, which answers once it is ready
     ready_ = true;
+    loadRemoteListeners();
     return true;
 }
 
-- 
2.43.0


From 51161b623ecc0918a7c3deecc1bea02d1f04210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 77/93] fix: leave the ids given to a storage request unchanged

---
 src/common/clients/storage/StorageClientBase.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/clients/storage/StorageClientBase.inl b/src/common/clients/storage/StorageClientBase.inl
index 14e0362..1660d26 100644
--- a/src/common/clients/storage/StorageClientBase.inl
+++ b/src/common/clients/storage/StorageClientBase.inl
@@ -327,7 +327,8 @@ StorageClientBase<ClientType>::clusterIdsToHosts(GraphSpaceID spaceId,
         }
         leaders[partId] = std::move(leader).value();
     }
-    for (auto& id : ids) {
+    // f may convert the id in place, so give it a copy and leave the caller's ids as they are
+    for (auto id : ids) {
         CHECK(!!metaClient_);
         status = metaClient_->partId(numParts, f(id));
         if (!status.ok()) {
-- 
2.43.0


From d43ad2491a985f0f748fc4b32a8dbc086d4b2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 78/93] fix: forget an unreachable leader before the failed
 request completes

---
 src/common/clients/storage/StorageClientBase.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/storage/StorageClientBase.inl b/src/common/clients/storage/StorageClientBase.inl
index 1660d26..2441443 100644
--- a/src/common/clients/storage/StorageClientBase.inl
+++ b/src/common/clients/storage/StorageClientBase.inl
@@ -261,11 +261,11 @@ void StorageClientBase<ClientType>::getResponseImpl(
                     this] (folly::Try<Response>&& t) mutable {
             // exception occurred during RPC
             if (t.hasException()) {
+                invalidLeader(spaceId, partsId);
                 p.setValue(
                     Status::Error(
                         folly::stringPrintf("RPC failure in StorageClient: %s",
                                             t.exception().what().c_str())));
-                invalidLeader(spaceId, partsId);
                 return;
             }
             auto&& resp = std::move(t.value());
-- 
2.43.0


From c0e0699cb8f0d698a83c4ac1b35243f45b7b5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 79/93] fix: place the key of an internal read by the number of
 partitions, not by the space id

---
 src/common/clients/storage/InternalStorageClient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/storage/InternalStorageClient.cpp b/src/common/clients/storage/InternalStorageClient.cpp
index bf5f2aa..7477620 100644
--- a/src/common/clients/storage/InternalStorageClient.cpp
+++ b/src/common/clients/storage/InternalStorageClient.cpp
@@ -99,9 +99,14 @@ folly::SemiFuture<ErrOrVal> InternalStorageClient::getValue(size_t vIdLen,
                                                             folly::StringPiece key,
                                                             folly::EventBase* evb) {
     auto srcVid = key.subpiece(sizeof(PartitionID), vIdLen);
-    auto partId = metaClient_->partId(spaceId, srcVid.str());
-
     auto c = folly::makePromiseContract<ErrOrVal>();
+    auto numParts = metaClient_->partsNum(spaceId);
+    if (!numParts.ok()) {
+        c.first.setValue(nebula::cpp2::ErrorCode::E_SPACE_NOT_FOUND);
+        return std::move(c.second);
+    }
+    auto partId = metaClient_->partId(numParts.value(), srcVid.str());
+
     getValueImpl(spaceId, partId, key.str(), std::move(c.first), evb);
     return std::move(c.second);
 }
-- 
2.43.0


From d9c99fe52e5dd6fe56b8cce58ffb4ec50ad0c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 80/93] fix: tell an unknown space from an unknown part in an
 internal read

---
 src/common/clients/storage/InternalStorageClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/storage/InternalStorageClient.cpp b/src/common/clients/storage/InternalStorageClient.cpp
index 7477620..802bc2b 100644
--- a/src/common/clients/storage/InternalStorageClient.cpp
+++ b/src/common/clients/storage/InternalStorageClient.cpp
@@ -119,7 +119,7 @@ void InternalStorageClient::getValueImpl(GraphSpaceID spaceId,
     std::pair<HostAddr, cpp2::GetValueRequest> req;
     auto stLeaderHost = getFuzzyLeader(spaceId, partId);
     if (!stLeaderHost.ok()) {
-        if (stLeaderHost.status().toString().find("partid")) {
+        if (stLeaderHost.status().toString().find("partid") != std::string::npos) {
             p.setValue(nebula::cpp2::ErrorCode::E_PART_NOT_FOUND);
         } else {
             p.setValue(nebula::cpp2::ErrorCode::E_SPACE_NOT_FOUND);
-- 
2.43.0


From 07bd32888bb3a0ea6156adda81fd927aaaea6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 81/93] fix: clients of servers given by name were cached under
 the resolved address and never found again

---
 src/common/thrift/ThriftClientManager.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/thrift/ThriftClientManager.inl b/src/common/thrift/ThriftClientManager.inl
index bcbb2e4..97d0c31 100644
--- a/src/common/thrift/ThriftClientManager.inl
+++ b/src/common/thrift/ThriftClientManager.inl
@@ -83,7 +83,7 @@ std::shared_ptr<ClientType> ThriftClientManager<ClientType>::client(
     std::shared_ptr<ClientType> client(
         new ClientType(std::move(headerClientChannel)),
         [evb](auto* p) { evb->runImmediatelyOrRunInEventBaseThreadAndWait([p] { delete p; }); });
-    clientMap_->emplace(std::make_pair(resolved, evb), client);
+    clientMap_->emplace(std::make_pair(host, evb), client);
     return client;
 }
 
-- 
2.43.0


From 14f10ead7f896dfe582152a5bdc60c36cc7f8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 82/93] fix: addresses, data and paths given to curl and hdfs
 are quoted for the shell

A quote, a dollar sign, a blank or a semicolon in them broke the command, or
ran another one.
---
 src/common/hdfs/HdfsCommandHelper.cpp | 11 ++++++-----
 src/common/http/HttpClient.cpp        | 22 +++++++++++++++-------
 src/common/process/ProcessUtils.cpp   | 14 ++++++++++++++
 src/common/process/ProcessUtils.h     |  4 ++++
 4 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/common/hdfs/HdfsCommandHelper.cpp b/src/common/hdfs/HdfsCommandHelper.cpp
index b1c674c..7243e02 100644
--- a/src/common/hdfs/HdfsCommandHelper.cpp
+++ b/src/common/hdfs/HdfsCommandHelper.cpp
@@ -13,8 +13,8 @@ namespace hdfs {
 StatusOr<std::string> HdfsCommandHelper::ls(const std::string& hdfsHost,
                                             int32_t hdfsPort,
                                             const std::string& hdfsPath) {
-    auto command = folly::stringPrintf("hdfs dfs -ls hdfs://%s:%d%s",
-                                       hdfsHost.c_str(), hdfsPort, hdfsPath.c_str());
+    auto url = folly::stringPrintf("hdfs://%s:%d%s", hdfsHost.c_str(), hdfsPort, hdfsPath.c_str());
+    auto command = folly::stringPrintf("hdfs dfs -ls %s", ProcessUtils::shellQuote(url).c_str());
     LOG(INFO) << "Running HDFS Command: " << command;
     auto result = ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -28,9 +28,10 @@ StatusOr<std::string> HdfsCommandHelper::copyToLocal(const std::string& hdfsHost
                                                      int32_t hdfsPort,
                                                      const std::string& hdfsPath,
                                                      const std::string& localPath) {
-    auto command = folly::stringPrintf("hdfs dfs -copyToLocal hdfs://%s:%d%s %s",
-                                       hdfsHost.c_str(), hdfsPort, hdfsPath.c_str(),
-                                       localPath.c_str());
+    auto url = folly::stringPrintf("hdfs://%s:%d%s", hdfsHost.c_str(), hdfsPort, hdfsPath.c_str());
+    auto command = folly::stringPrintf("hdfs dfs -copyToLocal %s %s",
+                                       ProcessUtils::shellQuote(url).c_str(),
+                                       ProcessUtils::shellQuote(localPath).c_str());
     LOG(INFO) << "Running HDFS Command: " << command;
     auto result = ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
diff --git a/src/common/http/HttpClient.cpp b/src/common/http/HttpClient.cpp
index c2384ad..5592edf 100644
--- a/src/common/http/HttpClient.cpp
+++ b/src/common/http/HttpClient.cpp
@@ -11,7 +11,9 @@ namespace nebula {
 namespace http {
 
 StatusOr<std::string> HttpClient::get(const std::string& path, const std::string& options) {
-    auto command = folly::stringPrintf("/usr/bin/curl %s \"%s\"", options.c_str(), path.c_str());
+    auto command = folly::stringPrintf("/usr/bin/curl %s %s",
+                                       options.c_str(),
+                                       ProcessUtils::shellQuote(path).c_str());
     LOG(INFO) << "HTTP Get Command: " << command;
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -23,7 +25,9 @@ StatusOr<std::string> HttpClient::get(const std::string& path, const std::string
 
 StatusOr<std::string> HttpClient::post(const std::string& path, const std::string& header) {
     auto command =
-        folly::stringPrintf("/usr/bin/curl -X POST %s \"%s\"", header.c_str(), path.c_str());
+        folly::stringPrintf("/usr/bin/curl -X POST %s %s",
+                            header.c_str(),
+                            ProcessUtils::shellQuote(path).c_str());
     LOG(INFO) << "HTTP POST Command: " << command;
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -59,7 +63,9 @@ StatusOr<std::string> HttpClient::put(const std::string& path,
 
 StatusOr<std::string> HttpClient::put(const std::string& path, const std::string& header) {
     auto command =
-        folly::stringPrintf("/usr/bin/curl -X PUT %s \"%s\"", header.c_str(), path.c_str());
+        folly::stringPrintf("/usr/bin/curl -X PUT %s %s",
+                            header.c_str(),
+                            ProcessUtils::shellQuote(path).c_str());
     LOG(INFO) << "HTTP PUT Command: " << command;
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
     if (result.ok()) {
@@ -78,13 +84,15 @@ StatusOr<std::string> HttpClient::sendRequest(const std::string& path,
                                               const std::string& reqType) {
     std::string command;
     if (data.empty()) {
-        command = folly::stringPrintf("curl -X %s -s \"%s\"", reqType.c_str(), path.c_str());
+        command = folly::stringPrintf("curl -X %s -s %s",
+                                      reqType.c_str(),
+                                      ProcessUtils::shellQuote(path).c_str());
     } else {
         command =
-            folly::stringPrintf("curl -X %s -H \"Content-Type: application/json\" -d'%s' -s \"%s\"",
+            folly::stringPrintf("curl -X %s -H \"Content-Type: application/json\" -d%s -s %s",
                                 reqType.c_str(),
-                                folly::toJson(data).c_str(),
-                                path.c_str());
+                                ProcessUtils::shellQuote(folly::toJson(data)).c_str(),
+                                ProcessUtils::shellQuote(path).c_str());
     }
     LOG(INFO) << folly::stringPrintf("HTTP %s Command: %s", reqType.c_str(), command.c_str());
     auto result = nebula::ProcessUtils::runCommand(command.c_str());
diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index fa19edc..4704a6c 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -167,4 +167,18 @@ StatusOr<std::string> ProcessUtils::runCommand(const char* command) {
     return out.str();
 }
 
+
+std::string ProcessUtils::shellQuote(const std::string& text) {
+    std::string quoted = "'";
+    for (auto c : text) {
+        if (c == '\'') {
+            quoted += "'\\''";
+        } else {
+            quoted += c;
+        }
+    }
+    quoted += "'";
+    return quoted;
+}
+
 }   // namespace nebula
diff --git a/src/common/process/ProcessUtils.h b/src/common/process/ProcessUtils.h
index 3d139f5..21569ae 100644
--- a/src/common/process/ProcessUtils.h
+++ b/src/common/process/ProcessUtils.h
@@ -57,6 +57,10 @@ public:
      * Execute a shell command and return the standard output of the command
      */
     static StatusOr<std::string> runCommand(const char* command);
+    /**
+     * Quote a text so that the shell takes it as one argument, unchanged
+     */
+    static std::string shellQuote(const std::string& text);
 };
 
 }   // namespace nebula
-- 
2.43.0


From 49b27a0a6c4924ede949e5acda661c092756e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 83/93] fix: a download whose request could not be sent read
 the value of a failed result

---
 src/common/clients/meta/MetaClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 2e95034..5c8a63f 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3790,7 +3790,8 @@ folly::Future<StatusOr<bool>> MetaClient::download(const std::string& hdfsHost,
             LOG(INFO) << "Download Successfully";
             return true;
         } else {
-            LOG(ERROR) << "Download Failed: " << result.value();
+            LOG(ERROR) << "Download Failed: "
+                       << (result.ok() ? result.value() : result.status().toString());
             return false;
         }
     };
-- 
2.43.0


From 2d53ac04003078f4631c05cb32d47783abd7507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 84/93] fix: a pid file holding a number too large for a pid
 ended the process or blocked the start

---
 src/common/process/ProcessUtils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index 4704a6c..c02cca8 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -48,7 +48,12 @@ Status ProcessUtils::isPidAvailable(const std::string &pidFile) {
         return Status::OK();
     }
     // Now we have a valid pid
-    return isPidAvailable(folly::to<uint32_t>(iter.matched()[1].str()));
+    auto pid = folly::tryTo<pid_t>(iter.matched()[1].str());
+    if (!pid.hasValue()) {
+        // The number is too large to be a pid
+        return Status::OK();
+    }
+    return isPidAvailable(pid.value());
 }
 
 
-- 
2.43.0


From 08dc3674063b126def8c212714756c0131a91451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 85/93] fix: a pid file that could not be written was reported
 as made

---
 src/common/process/ProcessUtils.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index c02cca8..90b3754 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -76,9 +76,13 @@ Status ProcessUtils::makePidFile(const std::string &pidFile, pid_t pid) {
         pid = ::getpid();
     }
 
-    ::fprintf(file, "%d\n", pid);
-    ::fflush(file);
-    ::fclose(file);
+    auto written = ::fprintf(file, "%d\n", pid) > 0 && ::fflush(file) == 0;
+    if (::fclose(file) != 0) {
+        written = false;
+    }
+    if (!written) {
+        return Status::Error("Write `%s': %s", pidFile.c_str(), ::strerror(errno));
+    }
 
     return Status::OK();
 }
-- 
2.43.0


From bfb4cb9ab0e04d59b75f5734ab9081e5a0344192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 86/93] fix: asking verbosely for an unknown flag ended the
 process

---
 src/common/webservice/GetFlagsHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/webservice/GetFlagsHandler.cpp b/src/common/webservice/GetFlagsHandler.cpp
index bfe504b..83466cf 100644
--- a/src/common/webservice/GetFlagsHandler.cpp
+++ b/src/common/webservice/GetFlagsHandler.cpp
@@ -193,7 +193,8 @@ std::string GetFlagsHandler::valToString(const folly::dynamic& val) {
 std::string GetFlagsHandler::toStr(const folly::dynamic& vals) {
     std::stringstream ss;
     for (auto& fi : vals) {
-        if (verbose_) {
+        // There is nothing but the name to tell about an unknown flag
+        if (verbose_ && fi.count("type") > 0) {
             ss << "--" << fi["name"].asString() << ": " << fi["description"].asString() << "\n";
             ss << "  file: " << fi["file"].asString() << ", type: " << fi["type"].asString()
                << ", default: " << valToString(fi["default"])
-- 
2.43.0


From 0c6ee3a7d89f2448c74be64eeb22397333ba7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 87/93] fix: showing an infinite or NaN flag in JSON ended the
 process

---
 src/common/webservice/GetFlagsHandler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/webservice/GetFlagsHandler.cpp b/src/common/webservice/GetFlagsHandler.cpp
index 83466cf..a42ab2f 100644
--- a/src/common/webservice/GetFlagsHandler.cpp
+++ b/src/common/webservice/GetFlagsHandler.cpp
@@ -62,10 +62,15 @@ void GetFlagsHandler::onEOM() noexcept {
     folly::dynamic vals = getFlags();
     if (returnJson_) {
         folly::dynamic res = folly::dynamic::object("flags", vals);
+        // A flag of type double could be infinite or not a number
+        folly::json::serialization_opts opts;
+        opts.pretty_formatting = true;
+        opts.sort_keys = true;
+        opts.allow_nan_inf = true;
         ResponseBuilder(downstream_)
             .status(WebServiceUtils::to(HttpStatusCode::OK),
                     WebServiceUtils::toString(HttpStatusCode::OK))
-            .body(folly::toPrettyJson(res))
+            .body(folly::json::serialize(res, opts))
             .sendWithEOM();
     } else {
         ResponseBuilder(downstream_)
-- 
2.43.0


From 03b512b06af238fdc50f49ddd8d196475973b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 88/93] fix: setting flags without a body, or with one that is
 no object of plain values, ended the process

---
 src/common/webservice/SetFlagsHandler.cpp | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/common/webservice/SetFlagsHandler.cpp b/src/common/webservice/SetFlagsHandler.cpp
index baa97a7..e7c6e75 100644
--- a/src/common/webservice/SetFlagsHandler.cpp
+++ b/src/common/webservice/SetFlagsHandler.cpp
@@ -39,15 +39,20 @@ void SetFlagsHandler::onBody(std::unique_ptr<folly::IOBuf> body) noexcept {
 
 void SetFlagsHandler::onEOM() noexcept {
     folly::dynamic flags;
-    try {
-        std::string body = body_->moveToFbString().toStdString();
-        flags = folly::parseJson(body);
-        if (flags.empty()) {
+    if (err_ == HttpCode::SUCCEEDED) {
+        try {
+            std::string body;
+            if (body_) {
+                body = body_->moveToFbString().toStdString();
+            }
+            flags = folly::parseJson(body);
+            if (!flags.isObject() || flags.empty()) {
+                err_ = HttpCode::E_UNPROCESSABLE;
+            }
+        } catch (const std::exception &e) {
+            LOG(ERROR) << "Fail to update flags: " << e.what();
             err_ = HttpCode::E_UNPROCESSABLE;
         }
-    } catch (const std::exception &e) {
-        LOG(ERROR) << "Fail to update flags: " << e.what();
-        err_ = HttpCode::E_UNPROCESSABLE;
     }
     switch (err_) {
         case HttpCode::E_UNSUPPORTED_METHOD:
@@ -69,6 +74,11 @@ void SetFlagsHandler::onEOM() noexcept {
     folly::dynamic failedOptions = folly::dynamic::array();
     for (auto &item : flags.items()) {
         const std::string &name = item.first.asString();
+        if (item.second.isNull() || item.second.isArray() || item.second.isObject()) {
+            // Not the value of any flag
+            failedOptions.push_back(name);
+            continue;
+        }
         const std::string &value = item.second.asString();
         const std::string &newValue = gflags::SetCommandLineOption(name.c_str(), value.c_str());
         if (newValue.empty()) {
-- 
2.43.0


From 1a4df098eea9fc7d7b08adc2abd2d1697e80c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 89/93] fix: the status handler of a failed connection was
 never freed

---
 src/common/webservice/StatusHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/webservice/StatusHandler.cpp b/src/common/webservice/StatusHandler.cpp
index 5cfb2a8..96fafd6 100644
--- a/src/common/webservice/StatusHandler.cpp
+++ b/src/common/webservice/StatusHandler.cpp
@@ -64,6 +64,7 @@ void StatusHandler::requestComplete() noexcept {
 void StatusHandler::onError(ProxygenError error) noexcept {
     LOG(ERROR) << "Web service StorageHttpHandler got error: "
                << proxygen::getErrorString(error);
+    delete this;
 }
 
 folly::dynamic StatusHandler::getStatus() {
-- 
2.43.0


From c385c7c8b535998bbe3b8fceeeaf50a38e0fa17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 90/93] fix: a request of an unknown HTTP method ended the
 process

---
 src/common/webservice/Router.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/webservice/Router.cpp b/src/common/webservice/Router.cpp
index edf8b26..10047a1 100644
--- a/src/common/webservice/Router.cpp
+++ b/src/common/webservice/Router.cpp
@@ -104,8 +104,13 @@ proxygen::RequestHandler *Route::generateHandler(const std::string &path) const
 }
 
 proxygen::RequestHandler *Router::dispatch(const proxygen::HTTPMessage *msg) const {
+    auto method = msg->getMethod();
+    if (!method) {
+        // Not a method that any route could be registered for
+        return new NotFoundHandler();
+    }
     for (Route *r = head_; r != nullptr; r = r->next()) {
-        if (r->matches(msg->getMethod().value(), msg->getPath())) {
+        if (r->matches(*method, msg->getPath())) {
             return r->generateHandler(msg->getPath());
         }
     }
-- 
2.43.0


From 2e1ed506b0bcb05061a04b72bb8a58cf13f85dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 91/93] fix: a route with parameters took paths only a part of
 which matched it, and none when registered with a slash at the end

---
 src/common/webservice/Router.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/common/webservice/Router.cpp b/src/common/webservice/Router.cpp
index 10047a1..aa66305 100644
--- a/src/common/webservice/Router.cpp
+++ b/src/common/webservice/Router.cpp
@@ -21,17 +21,14 @@ void Route::checkPath(const std::string &path) {
 }
 
 void Route::setPath(const std::string &path) {
-    auto loc = path.find(':');
-    if (loc != std::string::npos) {
-        createPattenRegex(path);
-        this->path_ = path;
+    // remove the last / of path
+    if (path.size() > 1 && path.back() == '/') {
+        this->path_ = path.substr(0, path.length() - 1);
     } else {
-        // exact path, remove the last / of path
-        if (path.size() > 1 && path.back() == '/') {
-            this->path_ = path.substr(0, path.length() - 1);
-        } else {
-            this->path_ = path.empty() ? "/" : path;
-        }
+        this->path_ = path.empty() ? "/" : path;
+    }
+    if (this->path_.find(':') != std::string::npos) {
+        createPattenRegex(this->path_);
     }
 }
 
@@ -70,7 +67,7 @@ bool Route::matches(proxygen::HTTPMethod method, const std::string &path) const
         p.pop_back();
     }
     if (pattern_) {
-        return std::regex_search(p, *pattern_);
+        return std::regex_match(p, *pattern_);
     } else {
         return path_ == p;
     }
-- 
2.43.0


From 0e776e7217cd4db54d6b6dabab97557a72917583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 92/93] fix: destroying a web service that was never started
 crashed

---
 src/common/webservice/WebService.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/webservice/WebService.cpp b/src/common/webservice/WebService.cpp
index d7b9df4..ba06484 100644
--- a/src/common/webservice/WebService.cpp
+++ b/src/common/webservice/WebService.cpp
@@ -57,8 +57,12 @@ WebService::WebService(const std::string& name) {
 }
 
 WebService::~WebService() {
-    server_->stop();
-    wsThread_->join();
+    if (server_ != nullptr) {
+        server_->stop();
+    }
+    if (wsThread_ != nullptr) {
+        wsThread_->join();
+    }
 }
 
 Status WebService::start() {
-- 
2.43.0


From c18e02ab4a16852e3851efd741246ef860c396a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 93/93] fix: starting the web service notified a condition
 variable that may no longer exist

---
 src/common/webservice/WebService.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/common/webservice/WebService.cpp b/src/common/webservice/WebService.cpp
index ba06484..8771ef4 100644
--- a/src/common/webservice/WebService.cpp
+++ b/src/common/webservice/WebService.cpp
@@ -135,10 +135,9 @@ Status WebService::start() {
                     LOG(INFO) << "Web service started on "
                               << "HTTP[" << FLAGS_ws_http_port << "], "
                               << "HTTP2[" << FLAGS_ws_h2_port << "]";
-                    {
-                        std::lock_guard<std::mutex> g(mut);
-                        serverStartedDone = true;
-                    }
+                    // The waiting thread destroys cv as soon as it gets mut and sees the flag
+                    std::lock_guard<std::mutex> g(mut);
+                    serverStartedDone = true;
                     cv.notify_all();
                 },
                 [&] (std::exception_ptr eptr) {
@@ -148,10 +147,9 @@ Status WebService::start() {
                     } catch (const std::exception &e) {
                         status = Status::Error("%s", e.what());
                     }
-                    {
-                        std::lock_guard<std::mutex> g(mut);
-                        serverStartedDone = true;
-                    }
+                    // The waiting thread destroys cv as soon as it gets mut and sees the flag
+                    std::lock_guard<std::mutex> g(mut);
+                    serverStartedDone = true;
                     cv.notify_all();
                 });
     });
-- 
2.43.0

