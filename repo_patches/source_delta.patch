From e21f3e43a7038e0e6d78859b384da7a501342972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 01/14] fix: reject malformed numbers in text requests

strtoull() skips white spaces, possibly beyond the end of the request
and of the receive buffer, and accepts signs; a stale errno made the
largest 64 bit value invalid.
---
 src/memcache/memcache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..a94221f 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -53,13 +53,16 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull skips white spaces (even beyond the line) and accepts signs.
+    if( *p < '0' || '9' < *p ) return 0;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
-    if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
         errno == ERANGE ) return 0;
     char c = *end;
-    if( c != CR && c != LF && c != SP ) return 0;
+    if( c != CR && c != SP ) return 0;
+    if( c == CR && *(end+1) != LF ) return 0;
     if( i > static_cast<unsigned long long>(std::numeric_limits<UInt>::max()) ) return 0;
     result = true;
     return static_cast<UInt>(i);
-- 
2.43.0


From 7a3f750315e6b6cc771da183ed00c89696304bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 02/14] fix: counter acquire overflowed near 2^32 resources

m_consumption + resources wrapped around, so that a request could succeed
with more resources in use than its maximum.
---
 src/counter/object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..3149d68 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,7 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        if( resources > maximum || m_consumption > maximum - resources )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From a83851e4636bdd3b876ae3eef06be0300551f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 03/14] fix: binary Flush with expiration 0 flushes immediately

Zero was taken as the flush time itself, which means "no flush pending",
so the request reported success and did nothing (or cancelled a pending
flush).  flush_all 0 of the text protocol flushes at once.
---
 src/memcache/memcache.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index a94221f..4ad37e6 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -904,9 +904,9 @@ void binary_request::parse() noexcept {
             return; // invalid
         if( extras_len == 4 ) { // yrmcds extension
             m_exptime = binary_exptime(p_extra);
-        } else {
-            m_exptime = g_current_time.load(relaxed);
         }
+        if( m_exptime == 0 )    // flush immediately
+            m_exptime = g_current_time.load(relaxed);
         break;
     case binary_command::Append:
     case binary_command::AppendQ:
-- 
2.43.0


From c67e2f2c552eb3c9bfb9abb1eb6ad202f0104e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 04/14] fix: parse the number of incr/decr in place

A negative value was taken as a huge number, and with secure_erase an
unerased copy of the value was left on the heap.
---
 src/memcache/object.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..a195f64 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,20 +4,37 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <cctype>
 #include <cstdint>
 #include <fcntl.h>
 #include <limits>
 #include <stdio.h>
-#include <string>
+#include <stdexcept>
 #include <unistd.h>
 
 namespace {
 
+// Parse the decimal number at the head of the data.
+//
+// White spaces before the number and anything after it are ignored.
+// The data is not copied, as the copy would have to be erased.
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
-    if( ull > std::numeric_limits<std::uint64_t>::max() )
-        throw std::out_of_range("out of range for uint64");
-    return static_cast<std::uint64_t>(ull);
+    const std::uint64_t max = std::numeric_limits<std::uint64_t>::max();
+    std::size_t i = 0;
+    while( i < len && std::isspace((unsigned char)p[i]) )
+        ++i;
+    if( i < len && p[i] == '+' )
+        ++i;
+    if( i == len || p[i] < '0' || '9' < p[i] )
+        throw std::invalid_argument("not a decimal number");
+    std::uint64_t n = 0;
+    for( ; i < len && '0' <= p[i] && p[i] <= '9'; ++i ) {
+        const std::uint64_t d = p[i] - '0';
+        if( n > (max - d) / 10 )
+            throw std::out_of_range("out of range for uint64");
+        n = n * 10 + d;
+    }
+    return n;
 }
 
 } // anonymous namespace
-- 
2.43.0


From c9b5a4f7b23ec145c2f068587f2db0dcc7667bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 05/14] fix: erase temporary copies of object data in prepend

With secure_erase, object::prepend freed the old contents (or the contents
read back from the temporary file) without overwriting them.
---
 src/memcache/object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index a195f64..394fd39 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -133,14 +133,14 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From dfa3e5ddbd4b7ce7ddb81cfc90556230aea1913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 06/14] fix: LaG locked and returned expired objects

---
 src/memcache/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..cd5ced0 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -184,6 +184,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::LaGK:
     case binary_command::LaGKQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( (binary_command::LaG <= cmd.command()) &&
                 (cmd.command() <= binary_command::LaGKQ) ) {
                 if( obj.locked() ) {
@@ -193,7 +194,6 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 obj.lock();
                 add_lock(k);
             }
-            if( obj.expired() ) return false;
             if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
                 obj.touch( cmd.exptime() );
                 if( ! m_slaves.empty() )
-- 
2.43.0


From c760a05be13bd21a944bd867826911d488c6e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 07/14] fix: LaGKQ on a missing key was not answered

---
 src/memcache/sockets.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cd5ced0..63ccf51 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -217,7 +217,9 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() ||
+                cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From 3bf891d26815ebee6a3a2da4d0ebfe3d5f954107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 08/14] fix: responses to unknown binary commands did not echo
 the opcode

---
 src/memcache/memcache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.hpp b/src/memcache/memcache.hpp
index 37b6464..acb4f56 100644
--- a/src/memcache/memcache.hpp
+++ b/src/memcache/memcache.hpp
@@ -311,6 +311,9 @@ public:
     // Return the command type.
     binary_command command() const noexcept { return m_command; }
 
+    // Return the opcode as sent.
+    char opcode() const noexcept { return m_p[1]; }
+
     // The command is quiet or not.
     bool quiet() const noexcept { return m_quiet; }
 
@@ -398,7 +401,7 @@ private:
                      std::uint32_t data_len, std::uint64_t cas,
                      binary_status status = binary_status::OK) const noexcept {
         buf[0] = '\x81';
-        buf[1] = (char)m_request.command();
+        buf[1] = m_request.opcode();
         cybozu::hton(key_len, buf+2);
         buf[4] = (char)extras_len;
         buf[5] = '\x00';
-- 
2.43.0


From c82173b0ad699e47c66c006adf1de5f46b52bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 09/14] fix: deleting an expired object reported success

---
 src/memcache/sockets.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 63ccf51..42218b0 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -169,6 +169,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     std::function<void(const cybozu::hash_key&)> repl = nullptr;
     std::function<bool(const cybozu::hash_key&, object&)> pred;
     std::function<void(const cybozu::hash_key&, object&)> foreach_pred;
+    bool expired = false;
 
     switch( cmd.command() ) {
     case binary_command::Get:
@@ -391,11 +392,15 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::Delete:
     case binary_command::DeleteQ:
         std::tie(p, len) = cmd.key();
-        pred = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+        pred = [this,&cmd,&r,&expired](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                expired = true;
+                return false;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -409,7 +414,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 repl_delete(m_slaves, k);
             return true;
         };
-        if( ! m_hash.remove_if(cybozu::hash_key(p, len), pred) &&
+        if( (! m_hash.remove_if(cybozu::hash_key(p, len), pred) || expired) &&
             ! cmd.quiet() )
             r.error( binary_status::NotFound );
         break;
@@ -614,6 +619,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
     hash_map::creator c = nullptr;
     std::function<bool(const cybozu::hash_key&, object&)> pred;
     std::function<void(const cybozu::hash_key&, object&)> foreach_pred;
+    bool expired = false;
 
     switch( cmd.command() ) {
     case text_command::SET:
@@ -817,12 +823,16 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::DELETE:
         std::tie(p, len) = cmd.key();
-        pred = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+        pred = [this,&cmd,&r,&expired](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                expired = true;
+                return false;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
@@ -831,7 +841,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                 repl_delete(m_slaves, k);
             return true;
         };
-        if( ! m_hash.remove_if(cybozu::hash_key(p, len), pred) &&
+        if( (! m_hash.remove_if(cybozu::hash_key(p, len), pred) || expired) &&
             ! cmd.no_reply() )
             r.not_found();
         break;
-- 
2.43.0


From 2c7a616852df7a69cd4c74aa4ee7e1e6f159a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 10/14] fix: incr/decr with an initial value failed on expired
 objects

---
 src/memcache/sockets.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 42218b0..cb67732 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -426,7 +426,19 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                char buf[24];
+                int numlen = snprintf(buf, sizeof(buf), "%llu",
+                                      (unsigned long long)cmd.initial());
+                obj.set(buf, numlen, 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -464,7 +476,19 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                char buf[24];
+                int numlen = snprintf(buf, sizeof(buf), "%llu",
+                                      (unsigned long long)cmd.initial());
+                obj.set(buf, numlen, 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
-- 
2.43.0


From d1a9eeebb0e7b9dfeeea46d5cffac1a6c14ea671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 11/14] fix: cas, append and prepend ignored max_data_size

---
 src/memcache/sockets.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cb67732..1838853 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -352,6 +352,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -379,6 +383,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -708,6 +716,11 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                if( ! cmd.no_reply() )
+                    r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -730,6 +743,11 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                if( ! cmd.no_reply() )
+                    r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -742,6 +760,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From 3f329b85caf7adf511ec3c17211b992e6107e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 12/14] fix: replicated empty data lost its flags and
 expiration time

The slave decoded a replicated object without data with flags 0 and no
expiration time.
---
 src/memcache/memcache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 4ad37e6..3335204 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -871,10 +871,13 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        // Clients cannot store empty data, but they may be replicated.
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From dc60a6db8f42bfb6f2c8d19926b4ed265655e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 13/14] fix: a flush requested during a flushing collection was
 lost

---
 src/memcache/gc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..d298489 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -143,8 +143,9 @@ void gc_thread::gc() {
         }
     }
 
+    // keep another flush requested during this collection.
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.flush_time.compare_exchange_strong(t, 0);
 }
 
 
-- 
2.43.0


From 5a9e0c5573b7c8a772446ff680e836b1086c337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 14/14] fix: releasing zero resources of a counter not acquired
 was refused

---
 src/counter/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..b48d582 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -211,7 +211,7 @@ void counter_socket::on_acquire(const cybozu::hash_key& k, std::uint32_t resourc
 bool counter_socket::on_release(const cybozu::hash_key& k, std::uint32_t resources) {
     auto it = m_acquired_resources.find(&k);
     if( it == m_acquired_resources.end() )
-        return false;
+        return resources == 0;
     if( it->second < resources )
         return false;
     if( it->second == resources ) {
-- 
2.43.0

