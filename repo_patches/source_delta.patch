From 2d59815e6f46b06e4a79764a1a61c98a9847b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 01/36] fix: refuse malformed transaction payloads instead of
 reading past their end

---
 src/redis/Transaction.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..1aafcde 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -105,25 +105,43 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
-  if(src.empty()) return false;
+  if(src.size() < sizeof(int64_t)) return false;
 
   const char *pos = src.data();
   int64_t totalRequests = binaryStringToInt(pos);
   pos += sizeof(int64_t);
   size_t bytesConsumed = sizeof(int64_t);
 
+  // The payload may come straight from a client, never trust the sizes in it:
+  // Each request and each part takes up at least sizeof(int64_t) bytes.
+  if(totalRequests < 0 || (size_t) totalRequests > (src.size() - bytesConsumed) / sizeof(int64_t)) return false;
   requests.resize(totalRequests);
 
   for(int64_t i = 0; i < totalRequests; i++) {
+    if(src.size() - bytesConsumed < sizeof(int64_t)) {
+      clear();
+      return false;
+    }
+
     int64_t totalParts = binaryStringToInt(pos);
     pos += sizeof(int64_t);
     bytesConsumed += sizeof(int64_t);
 
     for(int64_t part = 0; part < totalParts; part++) {
+      if(src.size() - bytesConsumed < sizeof(int64_t)) {
+        clear();
+        return false;
+      }
+
       int64_t length = binaryStringToInt(pos);
       pos += sizeof(int64_t);
       bytesConsumed += sizeof(int64_t);
 
+      if(length < 0 || (size_t) length > src.size() - bytesConsumed) {
+        clear();
+        return false;
+      }
+
       requests[i].push_back(src.substr(bytesConsumed, length));
       pos += (length * sizeof(char));
       bytesConsumed += (length * sizeof(char));
-- 
2.43.0


From a0510071ea49155ce655c800ef5cc8a4e35c5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 02/36] fix: locality hash prefix with a hint reads past the
 end of the key

---
 src/storage/KeyLocators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/KeyLocators.hh b/src/storage/KeyLocators.hh
index b1ead2a..0ae119d 100644
--- a/src/storage/KeyLocators.hh
+++ b/src/storage/KeyLocators.hh
@@ -205,7 +205,7 @@ public:
   }
 
   std::string_view getPrefix() {
-    return std::string_view(keyBuffer.data(), keyPrefixSize + localityPrefixSize);
+    return std::string_view(keyBuffer.data(), localityPrefixSize != 0 ? localityPrefixSize : keyPrefixSize);
   }
 
 private:
-- 
2.43.0


From 90019b995116e3414258a704d9eb49561a0ee809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 03/36] fix: malformed storage keys are read out of bounds when
 taken apart

---
 src/storage/ReverseLocator.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/storage/ReverseLocator.hh b/src/storage/ReverseLocator.hh
index d5e6d4b..940819e 100644
--- a/src/storage/ReverseLocator.hh
+++ b/src/storage/ReverseLocator.hh
@@ -36,22 +36,26 @@ inline size_t extractPrefix(std::string_view dkey, std::string &key) {
   for(size_t i = 0; i < dkey.size(); i++) {
     // Hash?
     if(dkey[i] == '#') {
+      // The key might be malformed, don't look outside of it.
+      const bool escaped = (i > 0 && dkey[i-1] == '|');
+      const bool followedByHash = (i+1 < dkey.size() && dkey[i+1] == '#');
+
       // Is this the boundary?
-      if(dkey[i+1] == '#' && dkey[i-1] != '|') {
+      if(followedByHash && !escaped) {
         // Yes, our work here is done.
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] != '#') {
+      if(followedByHash && escaped && (i+2 == dkey.size() || dkey[i+2] != '#')) {
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] == '#') {
+      if(followedByHash && escaped && i+2 < dkey.size() && dkey[i+2] == '#') {
         key[key.size() - 1] = '#';
         return i+3;
       }
 
-      qdb_assert(dkey[i-1] == '|');
+      qdb_assert(escaped);
       // Replace previous character with '#'
       key[key.size() - 1] = '#';
     }
@@ -142,6 +146,8 @@ public:
   ReverseLocator() {}
 
   ReverseLocator(std::string_view sl) : slice(sl) {
+    if(sl.empty()) return;
+
     keyType = parseKeyType(sl.data()[0]);
     if(keyType == KeyType::kParseError || keyType == KeyType::kString) {
       return;
-- 
2.43.0


From 5c3f737768cd0139efa0cebc82abab545b5c3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 04/36] fix: expanding a buffer to exactly its capacity frees
 the bytes in use

---
 src/utils/SmartBuffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SmartBuffer.hh b/src/utils/SmartBuffer.hh
index f5bc06d..1d777b7 100644
--- a/src/utils/SmartBuffer.hh
+++ b/src/utils/SmartBuffer.hh
@@ -63,7 +63,7 @@ public:
   void expand(size_t size) {
     qdb_assert(realSize <= size);
 
-    if(size < containerSize()) {
+    if(size <= containerSize()) {
       // Easy path, no copying necessary
       realSize = size;
       return;
-- 
2.43.0


From a77f31349a1cee7e8967237de2dc4a1cba212d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 05/36] fix: deleting nothing from a versioned hash creates the
 key or freezes its version

---
 src/StateMachine.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..87969a6 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1427,8 +1427,10 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
 
   revision.setRevisionNumber(version);
 
+  // If nothing was removed, leave the descriptor alone: A missing key stays
+  // missing, and a later update in the same write batch increments the version.
   int64_t newsize = operation.keySize() - removed;
-  return operation.finalize(newsize, true);
+  return operation.finalize(newsize, removed != 0);
 }
 
 rocksdb::Status StateMachine::vhlen(StagingArea &stagingArea, std::string_view key, size_t &len) {
-- 
2.43.0


From 2c96ad05af7f1d858edc642daf35ca69fad49214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 06/36] fix: setting a key to the empty string makes the key
 disappear

---
 src/StateMachine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 87969a6..687f502 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1166,7 +1166,7 @@ rocksdb::Status StateMachine::WriteOperation::finalize(int64_t newsize, bool for
 
   if(newsize < 0) qdb_throw("invalid newsize: " << newsize);
 
-  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash) {
+  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash && keyinfo.getKeyType() != KeyType::kString) {
     stagingArea.del(dlocator.toView());
   }
   else if(keyinfo.getSize() != newsize || forceUpdate) {
@@ -1228,7 +1228,7 @@ rocksdb::Status StateMachine::set(StagingArea &stagingArea, std::string_view key
   if(!operation.valid()) return wrong_type();
 
   operation.write(value);
-  return operation.finalize(value.size());
+  return operation.finalize(value.size(), true);
 }
 
 rocksdb::Status StateMachine::dequePush(StagingArea &stagingArea, Direction direction, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &length) {
-- 
2.43.0


From 05e10db2e52e3391985cd746a3338b3765541b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 07/36] fix: smove with the same source and destination
 corrupts the size of the set

---
 src/StateMachine.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 687f502..645f4a2 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -931,6 +931,14 @@ rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view s
     return wrong_type();
   }
 
+  if(source == destination) {
+    // Moving an element onto itself, nothing changes.
+    outcome = operation1.fieldExists(element);
+    operation1.finalize(operation1.keySize());
+    operation2.finalize(operation2.keySize());
+    return rocksdb::Status::OK();
+  }
+
   if(operation1.deleteField(element)) {
     outcome = 1;
     operation1.finalize(operation1.keySize() - 1);
-- 
2.43.0


From 95c1794f24c875a7c2428f9e7f49b115c5b9dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 08/36] fix: sismember within a read-write transaction
 dereferences a null snapshot

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 645f4a2..d7768af 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -905,7 +905,7 @@ rocksdb::Status StateMachine::sismember(StagingArea &stagingArea, std::string_vi
   FieldLocator locator(KeyType::kSet, key, element);
 
   std::string tmp;
-  return db->Get(stagingArea.snapshot->opts(), locator.toView(), &tmp);
+  return stagingArea.get(locator.toView(), tmp);
 }
 
 rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
-- 
2.43.0


From 4c0e4c5535160e1b3189677a65f4ad68dd501425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 09/36] fix: hincrby overflows silently

---
 src/StateMachine.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index d7768af..054b028 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -562,7 +562,10 @@ rocksdb::Status StateMachine::hincrby(StagingArea &stagingArea, std::string_view
     return malformed("hash value is not an integer");
   }
 
-  result += incrbyInt64;
+  if(__builtin_add_overflow(result, incrbyInt64, &result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment or decrement would overflow");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
-- 
2.43.0


From f7c2285bd0afc8f56b37b5d96ac95842b43f07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 10/36] fix: locality hash commands with an empty key, field or
 hint terminate the server

---
 src/StateMachine.cc | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 054b028..d2723f8 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -403,6 +403,12 @@ void StateMachine::lhsetInternal(WriteOperation &operation, std::string_view key
 rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end) {
   if((end - start) % 3 != 0) qdb_throw("lhmset: distance between start and end iterators must be a multiple of three");
 
+  for(auto it = start; it != end; it += 3) {
+    if(key.empty() || it->sv().empty() || (it+1)->sv().empty()) {
+      return malformed("key, field and locality hint cannot be empty");
+    }
+  }
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -417,6 +423,10 @@ rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view
 }
 
 rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string_view value, bool &fieldcreated) {
+  if(key.empty() || field.empty() || hint.empty()) {
+    return malformed("key, field and locality hint cannot be empty");
+  }
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -428,6 +438,12 @@ rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, int64_t &removed) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  removed = 0;
+  if(key.empty() || field.empty() || hint.empty()) {
+    // No such field can possibly exist.
+    return rocksdb::Status::OK();
+  }
+
   LocalityFieldLocator locator(key, hint, field);
 
   rocksdb::Status st = stagingArea.exists(locator.toView());
@@ -442,7 +458,6 @@ rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_vie
     return st;
   }
 
-  removed = 0;
   return rocksdb::Status::OK();
 }
 
@@ -453,6 +468,9 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
   if(!operation.valid()) return wrong_type();
 
   for(ReqIterator it = start; it != end; it++) {
+    // No such field can possibly exist.
+    if(key.empty() || it->sv().empty()) continue;
+
     std::string hint;
     bool exists = operation.getAndDeleteLocalityIndex(*it, hint);
     if(exists) {
@@ -468,6 +486,11 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhget(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string &value) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  if(key.empty() || field.empty()) {
+    // No such field can possibly exist.
+    return rocksdb::Status::NotFound();
+  }
+
   if(!hint.empty()) {
     // We were given a hint, whooo. Fast path.
     LocalityFieldLocator locator(key, hint, field);
@@ -713,6 +736,14 @@ rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view key, std::string_view cursor, std::string_view matchloc, size_t count, std::string &newCursor, std::vector<std::string> &results) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  results.clear();
+  newCursor = "";
+
+  if(key.empty()) {
+    // No such key can possibly exist.
+    return rocksdb::Status::OK();
+  }
+
   std::string_view cursorHint;
   std::string_view cursorField;
 
@@ -735,6 +766,10 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
     }
 
     cursorHint = extractor.getOriginalPrefix();
+    if(cursorHint.empty()) {
+      return malformed("invalid cursor");
+    }
+
     cursorField = extractor.getRawSuffix();
 
     // We start from the given hint + field.
-- 
2.43.0


From d57d01773c0bc8c374135fedb5d2157360836bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 11/36] fix: lease requests with an empty holder or against
 another type terminate the server

---
 src/Dispatcher.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..a1bf562 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -387,6 +387,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::err("value is not an integer or out of range");
       }
 
+      if(request[2].empty()) {
+        return Formatter::err("lease holder cannot be empty");
+      }
+
       qdb_assert(request[4].size() == 8u);
 
       ClockValue timestamp = binaryStringToUnsignedInt(request[4]);
@@ -420,7 +424,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From 5aaae14995516d104bca55cbf1391a2fceeff549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 12/36] fix: lhget_with_fallback with a wrong number of
 arguments gets no reply

---
 src/Dispatcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index a1bf562..ff55b33 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -706,6 +706,8 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       return Formatter::scan(newcursor, vec);
     }
     case RedisCommand::LHGET_WITH_FALLBACK: {
+      if(request.size() != 4 && request.size() != 5) return errArgs(request);
+
       // First, try LHGET...
       RedisEncodedResponse resp;
       if(request.size() == 4) {
-- 
2.43.0


From 5e5af3dbd390efe0c3ab229260e5c7e9ec741f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 13/36] fix: hvals hides that the key holds the wrong type

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index ff55b33..5ddac60 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -580,6 +580,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
-- 
2.43.0


From 6456e9bad2c976012a5f7f6f38e50f8fc05c675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 14/36] fix: lhset_and_del_fallback deletes the fallback field
 even if it could not be set

---
 src/Dispatcher.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 5ddac60..22e3bf2 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -343,7 +343,12 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::LHSET_AND_DEL_FALLBACK: {
       if(request.size() != 6) return errArgs(request);
       RedisEncodedResponse resp = dispatchLHSET(stagingArea, request[1], request[2], request[3], request[4]);
-      dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
+
+      // Only drop the old value if the new one is in place.
+      if(resp.val[0] != '-') {
+        dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
+      }
+
       return resp;
     }
     case RedisCommand::LHDEL_WITH_FALLBACK: {
-- 
2.43.0


From 5a32abd948adb75794656a9d18fd5bb94a1704f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 15/36] fix: an empty text counts as the integer zero

---
 src/utils/ParseUtils.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 3d9e036..62fbe59 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -44,6 +44,8 @@ inline std::vector<std::string> split(std::string data, const std::string &token
 }
 
 inline bool parseInt64(std::string_view str, int64_t &ret) {
+  if(str.empty()) return false;
+
   char *endptr = NULL;
   ret = strtoll(str.data(), &endptr, 10);
   if(endptr != str.data() + str.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
-- 
2.43.0


From 41bcdecce6e481d57e130561df9764fcb1c0a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 16/36] fix: a scan count of zero spelled as 00 or +0 never
 makes progress

---
 src/utils/CommandParsing.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/CommandParsing.hh b/src/utils/CommandParsing.hh
index 284f805..f4855da 100644
--- a/src/utils/CommandParsing.hh
+++ b/src/utils/CommandParsing.hh
@@ -79,6 +79,11 @@ inline ScanCommandArguments parseScanCommand(const RedisRequest::const_iterator
         args.error = "value is not an integer or out of range";
         return args;
       }
+
+      if(args.count <= 0) {
+        args.error = "syntax error";
+        return args;
+      }
     }
     else if(caseInsensitiveEquals(*pos, "match") && supportMatch) {
       args.match = *(pos+1);
-- 
2.43.0


From d4642b0babc07f3426d2da774fd9b7d4ea0ebeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:28 +0000
Subject: [PATCH 17/36] fix: hincrbymulti adds leftovers of failed increments
 to its reply

---
 src/Dispatcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 22e3bf2..a57f25c 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -224,8 +224,8 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       int64_t ret = 0;
       while(index < request.size()) {
         int64_t tmpret = 0;
-        store.hincrby(stagingArea, request[index], request[index+1], request[index+2], tmpret);
-        ret += tmpret;
+        rocksdb::Status st = store.hincrby(stagingArea, request[index], request[index+1], request[index+2], tmpret);
+        if(st.ok()) ret += tmpret;
 
         index += 3;
       }
-- 
2.43.0


From 3969156eaa51adc8fd9fd3cdfefd73375dce9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 18/36] fix: deleting nothing from a versioned hash, then
 updating it in the same transaction, terminates the server

---
 src/StateMachine.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index d2723f8..28db023 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1450,11 +1450,8 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
-  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
-
   for(ReqIterator it = start; it != end; it++) {
     removed += operation.deleteField(*it);
-    revision.addUpdate(*it, "");
   }
 
   // Have we modified this key in the same write batch already?
@@ -1471,7 +1468,14 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
     descriptor.setStartIndex(version);
   }
 
-  revision.setRevisionNumber(version);
+  if(removed != 0) {
+    VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
+    revision.setRevisionNumber(version);
+
+    for(ReqIterator it = start; it != end; it++) {
+      revision.addUpdate(*it, "");
+    }
+  }
 
   // If nothing was removed, leave the descriptor alone: A missing key stays
   // missing, and a later update in the same write batch increments the version.
-- 
2.43.0


From 26b004853b3d079e7cdc41e3162b360218acc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 19/36] fix: updating, deleting, and updating again a versioned
 hash in one transaction terminates the server

---
 src/StateMachine.cc                         |  5 +++++
 src/storage/VersionedHashRevisionTracker.cc | 11 +++++++++++
 src/storage/VersionedHashRevisionTracker.hh |  6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 28db023..0f66cff 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1811,6 +1811,10 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
       int64_t count = 0;
       remove_all_with_prefix(locator.toView(), count, stagingArea);
       if(count != keyInfo.getSize()) qdb_throw("mismatch between keyInfo counter and number of elements deleted by remove_all_with_prefix: " << count << " vs " << keyInfo.getSize());
+
+      // The key may be re-created later in this write batch, with versions
+      // starting from scratch: forget any revision tracked up to now.
+      if(keyInfo.getKeyType() == KeyType::kVersionedHash) stagingArea.getRevisionTracker().forget(*it);
     }
     else if(keyInfo.getKeyType() == KeyType::kLocalityHash) {
       // wipe out fields
@@ -1925,6 +1929,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
 
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
+  stagingArea.getRevisionTracker().clear();
   mExpirationCache.clear();
   return rocksdb::Status::OK();
 }
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..f655423 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -61,6 +61,17 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
   return contents[std::string(key)];
 }
 
+//------------------------------------------------------------------------------
+// Forget the revision of a specific key, or of all keys
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::forget(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+void VersionedHashRevisionTracker::clear() {
+  contents.clear();
+}
+
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..d437a77 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -67,6 +67,12 @@ public:
   //----------------------------------------------------------------------------
   VersionedHashRevision& forKey(std::string_view key);
 
+  //----------------------------------------------------------------------------
+  // Forget the revision of a specific key, or of all keys
+  //----------------------------------------------------------------------------
+  void forget(std::string_view key);
+  void clear();
+
   //----------------------------------------------------------------------------
   // Is it empty?
   //----------------------------------------------------------------------------
-- 
2.43.0


From 1e5173bbe89decd32b781d3e7c1e9c3a5c559032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 20/36] fix: revisions of versioned hashes refer to the memory
 of requests that are gone when published

---
 src/storage/VersionedHashRevisionTracker.cc | 3 ++-
 src/storage/VersionedHashRevisionTracker.hh | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index f655423..589413c 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -51,7 +51,8 @@ void VersionedHashRevision::addUpdate(std::string_view field, std::string_view v
 // Serialize contents
 //------------------------------------------------------------------------------
 std::string VersionedHashRevision::serialize() const {
-  return Formatter::vhashRevision(currentRevision, updateBatch).val;
+  std::vector<std::pair<std::string_view, std::string_view>> batch(updateBatch.begin(), updateBatch.end());
+  return Formatter::vhashRevision(currentRevision, batch).val;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index d437a77..9964bbb 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -53,7 +53,7 @@ public:
 
 private:
   uint64_t currentRevision = 0;
-  std::vector<std::pair<std::string_view, std::string_view>> updateBatch;
+  std::vector<std::pair<std::string, std::string>> updateBatch;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From cb3d65cb498742c7177a51ba7ac1d4cab45ed4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 21/36] fix: scanning a deque with a huge count never makes
 progress

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 0f66cff..474e71d 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -880,7 +880,7 @@ rocksdb::Status StateMachine::dequeScanBack(StagingArea &stagingArea, std::strin
 
   uint64_t startingMarker = cursorMarker - count;
 
-  if(startingMarker <= keyinfo.getStartIndex() + 1) {
+  if(count > cursorMarker || startingMarker <= keyinfo.getStartIndex() + 1) {
     newCursor = "";
     startingMarker = keyinfo.getStartIndex() + 1;
   }
-- 
2.43.0


From b88eb3f88c3b473d32e438ec56345697e2b49600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 22/36] fix: scanning a locality hash by hint pattern loses
 elements after the first page

---
 src/StateMachine.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 474e71d..b8cdded 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -756,6 +756,18 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
+
+  if(!patternPrefix.empty()) {
+    // All hints which could possibly match start with the same characters.
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+
+    if(patternPrefix.size() != matchloc.size()) {
+      // Not an exact match, drop the end-of-hint marker.
+      requiredPrefix.resize(requiredPrefix.size() - 2);
+    }
+  }
+
   std::string_view scanStart = requiredPrefix;
 
   if(!cursor.empty()) {
@@ -774,23 +786,9 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
 
     // We start from the given hint + field.
     locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
-    }
-
     locator.resetField(cursorField);
     scanStart = locator.toView();
   }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
-
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
-    }
-  }
 
   newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
-- 
2.43.0


From 2bd56c3c6d460ae5e5f49607689d807632cf210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:16 +0000
Subject: [PATCH 23/36] fix: matching against an empty text or with an
 unterminated pattern reads past the end

---
 deps/StringMatchLen.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index 47f2c5f..fafb42a 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -47,7 +47,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
     while(patternLen) {
         switch(pattern[0]) {
         case '*':
-            while (pattern[1] == '*') {
+            while (patternLen > 1 && pattern[1] == '*') {
                 pattern++;
                 patternLen--;
             }
@@ -72,27 +72,29 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         {
             int negation, match;
 
+            if (stringLen == 0)
+                return 0; /* no match */
             pattern++;
             patternLen--;
-            negation = pattern[0] == '^';
+            negation = patternLen > 0 && pattern[0] == '^';
             if (negation) {
                 pattern++;
                 patternLen--;
             }
             match = 0;
             while(1) {
-                if (pattern[0] == '\\') {
+                if (patternLen == 0) {
+                    pattern--;
+                    patternLen++;
+                    break;
+                } else if (pattern[0] == '\\' && patternLen >= 2) {
                     pattern++;
                     patternLen--;
                     if (pattern[0] == string[0])
                         match = 1;
                 } else if (pattern[0] == ']') {
                     break;
-                } else if (patternLen == 0) {
-                    pattern--;
-                    patternLen++;
-                    break;
-                } else if (pattern[1] == '-' && patternLen >= 3) {
+                } else if (patternLen >= 3 && pattern[1] == '-') {
                     int start = pattern[0];
                     int end = pattern[2];
                     int c = string[0];
@@ -137,6 +139,8 @@ inline int stringmatchlen(const char *pattern, int patternLen,
             }
             /* fall through */
         default:
+            if (stringLen == 0)
+                return 0; /* no match */
             if (!nocase) {
                 if (pattern[0] != string[0])
                     return 0; /* no match */
@@ -151,7 +155,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         pattern++;
         patternLen--;
         if (stringLen == 0) {
-            while(*pattern == '*') {
+            while(patternLen > 0 && *pattern == '*') {
                 pattern++;
                 patternLen--;
             }
-- 
2.43.0


From ab48f5ad1574c68f50b967a2614b5e7df4185a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:13 +0000
Subject: [PATCH 24/36] fix: a malformed or empty transaction sent by a client
 terminates the server

---
 src/Dispatcher.cc        |  8 ++++++--
 src/redis/Transaction.cc | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index a57f25c..cb19dd4 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -475,7 +475,9 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::TX_READWRITE: {
       // Unpack transaction and process
       Transaction transaction;
-      qdb_assert(transaction.deserialize(request));
+      if(!transaction.deserialize(request) || transaction.empty()) {
+        return Formatter::err("malformed transaction");
+      }
       return dispatch(stagingArea, transaction);
     }
     default: {
@@ -829,7 +831,9 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
     case RedisCommand::TX_READONLY: {
       // Unpack transaction and process
       Transaction transaction;
-      qdb_assert(transaction.deserialize(request));
+      if(!transaction.deserialize(request) || transaction.empty()) {
+        return Formatter::err("malformed transaction");
+      }
       return dispatchReadOnly(stagingArea, transaction);
     }
     case RedisCommand::VHLEN: {
diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 1aafcde..da2da56 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -92,11 +92,9 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
   if(!this->deserialize(req[1])) return false;
 
-  if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
-  }
-  else {
-    qdb_assert(this->containsWrites());
+  if(this->containsWrites() != (req.getCommand() == RedisCommand::TX_READWRITE)) {
+    clear();
+    return false;
   }
 
   this->setPhantom(phantom);
@@ -146,6 +144,13 @@ bool Transaction::deserialize(const PinnedBuffer &src) {
       pos += (length * sizeof(char));
       bytesConsumed += (length * sizeof(char));
     }
+
+    CommandType type = requests[i].getCommandType();
+    if(type != CommandType::READ && type != CommandType::WRITE) {
+      clear();
+      return false;
+    }
+
     checkNthCommandForWrites(i);
   }
 
-- 
2.43.0


From 58a4c65ccecc57dce00e3e756d086ef25ab7445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:13 +0000
Subject: [PATCH 25/36] fix: printing a malformed transaction request
 terminates the server

---
 src/Formatter.cc    | 2 +-
 src/RedisRequest.cc | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index ee493f3..138bb45 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -144,7 +144,7 @@ RedisEncodedResponse Formatter::simpleRedisRequest(const RedisRequest &req) {
 RedisEncodedResponse Formatter::redisRequest(const RedisRequest &req) {
   if(req.getCommand() == RedisCommand::TX_READWRITE || req.getCommand() == RedisCommand::TX_READONLY) {
     Transaction transaction;
-    transaction.deserialize(req[1]);
+    if(!transaction.deserialize(req)) return simpleRedisRequest(req);
 
     ArrayResponseBuilder builder(transaction.size() + 1);
     builder.push_back(Formatter::string(req[0]));
diff --git a/src/RedisRequest.cc b/src/RedisRequest.cc
index 7b2eacc..e7e4bc5 100644
--- a/src/RedisRequest.cc
+++ b/src/RedisRequest.cc
@@ -47,8 +47,7 @@ void RedisRequest::parseCommand() {
 std::string RedisRequest::toPrintableString() const {
   if(this->getCommand() == RedisCommand::TX_READONLY || this->getCommand() == RedisCommand::TX_READWRITE) {
     Transaction transaction;
-    transaction.fromRedisRequest(*this);
-    return transaction.toPrintableString();
+    if(transaction.deserialize(*this)) return transaction.toPrintableString();
   }
 
   std::stringstream ss;
-- 
2.43.0


From 1a01a5dc80c2a6590f1d0edae96cd0e98cf381e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:13 +0000
Subject: [PATCH 26/36] fix: lease requests inside a serialized transaction
 terminate the server

---
 src/Dispatcher.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index cb19dd4..9ac7920 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -396,7 +396,9 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::err("lease holder cannot be empty");
       }
 
-      qdb_assert(request[4].size() == 8u);
+      if(request[4].size() != 8u) {
+        return Formatter::err("malformed timestamp");
+      }
 
       ClockValue timestamp = binaryStringToUnsignedInt(request[4]);
       LeaseInfo leaseInfo;
@@ -419,7 +421,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::TIMESTAMPED_LEASE_GET: {
       if(request.size() != 3) return Formatter::errArgs("lease_get");
 
-      qdb_assert(request[2].size() == 8u);
+      if(request[2].size() != 8u) {
+        return Formatter::err("malformed timestamp");
+      }
+
       ClockValue timestamp = binaryStringToUnsignedInt(request[2]);
 
       LeaseInfo leaseInfo;
@@ -439,7 +444,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::TIMESTAMPED_LEASE_RELEASE: {
       if(request.size() != 3) return Formatter::errArgs("lease_release");
 
-      qdb_assert(request[2].size() == 8u);
+      if(request[2].size() != 8u) {
+        return Formatter::err("malformed timestamp");
+      }
+
       ClockValue timestamp = binaryStringToUnsignedInt(request[2]);
 
       rocksdb::Status st = store.lease_release(stagingArea, request[1], timestamp);
@@ -481,7 +489,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       return dispatch(stagingArea, transaction);
     }
     default: {
-      qdb_throw("internal dispatching error in RedisDispatcher for " << request);
+      return dispatchingError(request, 0);
     }
   }
 }
-- 
2.43.0


From bac92b6e57ccfaca1990781294e83af906b9ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:19 +0000
Subject: [PATCH 27/36] fix: a leader losing its last entries to another leader
 while replicating terminates

---
 src/raft/RaftReplicator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 416a630..d7daee9 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -94,6 +94,11 @@ bool RaftReplicaTracker::buildPayload(LogIndex nextIndex, int64_t payloadLimit,
   std::vector<std::string> &entries, RaftTerm &lastEntryTerm) {
 
   int64_t payloadSize = std::min(payloadLimit, journal.getLogSize() - nextIndex);
+  if(payloadSize < 0) {
+    qdb_warn("Journal has shrunk below " << nextIndex << " while building payload, some other leader must have removed entries");
+    return false;
+  }
+
   entries.resize(payloadSize);
 
   RaftJournal::Iterator iterator = journal.getIterator(nextIndex, true);
-- 
2.43.0


From 0e3852c7f98dc242e8bef23250b22316b476e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:19 +0000
Subject: [PATCH 28/36] fix: a leader receiving a reply of unexpected type
 crashes

---
 src/raft/RaftReplicator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index d7daee9..e7a87b9 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -146,7 +146,7 @@ static AppendEntriesReception retrieve_response(
   if(rep == nullptr) return AppendEntriesReception::kError;
 
   if(!RaftParser::appendEntriesResponse(rep, resp)) {
-    if(strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
+    if(rep->str == nullptr || strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
       // unexpected response
       qdb_critical("cannot parse response from append entries");
     }
@@ -166,7 +166,7 @@ static bool retrieve_heartbeat_reply(std::future<redisReplyPtr> &fut, RaftHeartb
   if(rep == nullptr) return false;
 
   if(!RaftParser::heartbeatResponse(rep, resp)) {
-    if(strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
+    if(rep->str == nullptr || strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
       // unexpected response
       qdb_critical("cannot parse response from heartbeat");
     }
-- 
2.43.0


From 9f2a4b19bf58faaf79a1135935cae158681ea37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:42 +0000
Subject: [PATCH 29/36] fix: a candidate given votes of a quorum along with a
 veto blocks forever

---
 src/raft/RaftUtils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index b19a0a1..eb1cac3 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -64,7 +64,9 @@ ElectionOutcome RaftElection::performPreVote(RaftVoteRequest votereq, RaftState
     registry.registerVote(it->first, it->second, deadline);
   }
 
-  qdb_info(registry.describeOutcome());
+  // describeOutcome may log by itself, don't call it with the logging mutex held
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
   return registry.determineOutcome();
 }
 
@@ -118,7 +120,10 @@ ElectionOutcome RaftElection::perform(RaftVoteRequest votereq, RaftState &state,
   registry.observeTermsAndLeases(state, lease, broadcastTimepoint);
 
   ElectionOutcome outcome = registry.determineOutcome();
-  qdb_info(registry.describeOutcome());
+
+  // describeOutcome may log by itself, don't call it with the logging mutex held
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
 
   if(outcome == ElectionOutcome::kElected) {
     if(state.ascend(votereq.term)) {
-- 
2.43.0


From 722b2e8a796c4096a3acb17afb2d970454c52709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 30/36] fix: a write racing with the loss of leadership blocks
 its node forever

---
 src/raft/RaftDispatcher.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..79227e3 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -436,7 +436,7 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
   LeaseFilter::transform(tx, txTimestamp);
 
   // send request to the write tracker
-  std::scoped_lock lock(raftCommand);
+  std::unique_lock lock(raftCommand);
 
   LogIndex index = journal.getLogSize();
 
@@ -445,7 +445,8 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
     // - We retrieved the state snapshot.
     // - The raft term was changed in the meantime, we lost leadership.
     // - The journal rejected the entry due to term mismatch.
-    // Let's simply retry.
+    // Let's simply retry - without holding the lock, the mutex is not recursive.
+    lock.unlock();
     return this->service(conn, tx);
   }
 
-- 
2.43.0


From f45b7f2e54eb4a3501fa7ad626191c173668b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 31/36] fix: a follower commits leftover entries the leader
 never sent

---
 src/raft/RaftDispatcher.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 79227e3..27b149e 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -566,7 +566,19 @@ RaftAppendEntriesResponse RaftDispatcher::appendEntries(RaftAppendEntriesRequest
     }
   }
 
-  journal.setCommitIndex(std::min(journal.getLogSize()-1, req.commitIndex));
+  //----------------------------------------------------------------------------
+  // Only entries up to prevIndex + the ones just received are known to be
+  // identical to those of the leader. Whatever comes after might be leftovers
+  // from previous terms, and must not be committed.
+  //----------------------------------------------------------------------------
+
+  LogIndex lastMatching = req.prevIndex + LogIndex(req.entries.size());
+  LogIndex newCommitIndex = std::min(lastMatching, req.commitIndex);
+
+  if(newCommitIndex > journal.getCommitIndex()) {
+    journal.setCommitIndex(newCommitIndex);
+  }
+
   warnIfLagging(req.commitIndex);
   return {snapshot->term, journal.getLogSize(), true, ""};
 }
-- 
2.43.0


From 6a520ab3f312a8ab1a3b2aa8608457a3088fc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 32/36] fix: membership changes involving unknown replicas
 terminate the leader

---
 src/raft/RaftDispatcher.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 27b149e..f0709fa 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -83,7 +83,21 @@ bool RaftDispatcher::checkIfNodeRemovalAcceptable(const RaftServer &srv) {
   // look like after the node removal
 
   ReplicationStatus replicationStatus = replicator.getStatus();
-  replicationStatus.removeReplicas(journal.getMembership().observers);
+  const RaftMembership membership = journal.getMembership();
+
+  for(const RaftServer& observer : membership.observers) {
+    // The replicator might not have picked up all observers yet
+    if(replicationStatus.contains(observer)) {
+      replicationStatus.removeReplica(observer);
+    }
+  }
+
+  for(const RaftServer& node : membership.nodes) {
+    // No information about a full member, unsafe to accept
+    if(node != srv && node != state.getMyself() && !replicationStatus.contains(node)) {
+      return false;
+    }
+  }
 
   ReplicaStatus leaderStatus = { state.getMyself(), true, journal.getLogSize() };
   replicationStatus.addReplica(leaderStatus);
@@ -287,7 +301,7 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       }
       else if(req.getCommand() == RedisCommand::RAFT_PROMOTE_OBSERVER) {
         ReplicationStatus replicationStatus = replicator.getStatus();
-        if(!replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
+        if(!replicationStatus.contains(srv) || !replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
           return conn->err("membership update blocked, observer is not up-to-date");
         }
 
-- 
2.43.0


From 5165f683b9799c15f32871752aadb3486f4ebd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 33/36] fix: CLIENT without arguments reads out of bounds

---
 src/QuarkDBNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..487250b 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,8 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
+
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From a0fb7aedfdd2be9b45470623e5018ba9bf40edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:39 +0000
Subject: [PATCH 34/36] fix: a membership change before replication has started
 crashes a new leader

---
 src/raft/RaftReplicator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index e7a87b9..eb283fe 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -671,6 +671,12 @@ static std::vector<RaftServer> all_servers_except_myself(const std::vector<RaftS
 }
 
 void RaftReplicator::reconfigure() {
+  std::scoped_lock lock(mtx);
+
+  // Not active? Nothing to do: the current membership will be picked up
+  // during activation.
+  if(!snapshot) return;
+
   RaftMembership membership = journal.getMembership();
   qdb_info("Reconfiguring replicator for membership epoch " << membership.epoch);
 
-- 
2.43.0


From 1184497f38417b0d9fa0411e0b740116d17f3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:40 +0000
Subject: [PATCH 35/36] fix: requests with malformed sizes crash the server or
 are misread

---
 src/RedisParser.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..bec68a3 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -54,6 +54,11 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
     int retcode = readInteger('*', request_size);
     if(retcode <= 0) return retcode;
 
+    if(request_size == 0) {
+      qdb_warn("Redis protocol error, received empty request");
+      return -1;
+    }
+
     element_size = -1;
     current_element = 0;
 
@@ -61,11 +66,14 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
       qdb_warn("Unauthenticated client attempted to send request with " << request_size << " elements - shutting the connection down");
       return -2;
     }
-
-    req.resize(request_size);
   }
 
   for( ; current_element < request_size; current_element++) {
+    // Grow as elements come in, the announced size is not to be trusted
+    if(req.size() <= (size_t) current_element) {
+      req.resize(current_element + 1);
+    }
+
     int rc = readElement(req.getPinnedBuffer(current_element), authenticated);
     if(rc <= 0) return rc;
     element_size = -1;
@@ -106,7 +114,11 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   char *endptr;
   long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  const char *digits = current_integer.c_str()+1;
+  const char *end = current_integer.c_str()+current_integer.size();
+
+  // INT_MAX-2: we need to be able to add the trailing \r\n without overflow
+  if(endptr == digits || endptr != end || num < 0 || num > INT_MAX-2) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
-- 
2.43.0


From 0e0e4a2a3bdd9716bb350c5b7e015b923ab37848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:40 +0000
Subject: [PATCH 36/36] fix: malformed entries of another node are read out of
 bounds

---
 src/raft/RaftCommon.hh | 13 +++++++++++--
 src/raft/RaftUtils.cc  |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftCommon.hh b/src/raft/RaftCommon.hh
index 138ad10..ae47dc7 100644
--- a/src/raft/RaftCommon.hh
+++ b/src/raft/RaftCommon.hh
@@ -79,20 +79,29 @@ struct RaftEntry {
     return ss.str();
   }
 
-  static void deserialize(RaftEntry &entry, std::string_view data) {
+  // Returns false if data is malformed
+  static bool deserialize(RaftEntry &entry, std::string_view data) {
     entry.request.clear();
+    if(data.size() < sizeof(term)) return false;
+
     entry.term = fetch_int_from_string(data.data());
 
     const char *pos = data.data() + sizeof(term);
     const char *end = data.data() + data.size();
 
     while(pos < end) {
-      int64_t len = fetch_int_from_string(pos);
+      int64_t len;
+      if(end - pos < (int64_t) sizeof(len)) return false;
+
+      len = fetch_int_from_string(pos);
       pos += sizeof(len);
+      if(len < 0 || len > end - pos) return false;
 
       entry.request.emplace_back(pos, len);
       pos += len;
     }
+
+    return true;
   }
 
   static int64_t fetchTerm(std::string_view data) {
diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index eb1cac3..21baadf 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -160,7 +160,8 @@ bool RaftParser::appendEntries(RedisRequest &&source, RaftAppendEntriesRequest &
 
   int64_t index = 3;
   for(int64_t i = 0; i < nreqs; i++) {
-    RaftEntry::deserialize(dest.entries[i], source[index]);
+    if(!RaftEntry::deserialize(dest.entries[i], source[index])) return false;
+    if(dest.entries[i].request.size() == 0) return false;
     index++;
   }
 
-- 
2.43.0

