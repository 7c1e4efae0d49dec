From 67732fb07d66e03d40b6ee2d87c6a3829e815ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 1/5] fix: join drops the last segment of a single-segment base
 path

RFC 3986 section 5.2.3 removes all but the last segment of the base path
when merging. A base path with exactly one segment was kept in full, so that
joining "http://a/b" with "c" gave "http://a/b/c".
---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..3a4f90c 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -743,7 +743,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From 05264dd96cbf7adac159d7f8f9e8d169bdefbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 2/5] fix: remove_dot_segments keeps an empty segment before a
 final dot-segment

RFC 3986 section 5.2.4 turns "/a//." into "/a//" and "/a//b/.." into
"/a//": an empty segment is a segment like any other. The final empty
segment was merged with an empty segment that preceded it.
---
 lib/uri/uri.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 3a4f90c..a68f3ae 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -783,7 +783,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -793,13 +793,8 @@ void parts::path::remove_dot_segments () {
   this->segments.erase (outit, end);
 
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    // The path ended with a dot-segment: it now ends with an empty segment.
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From e4e83d586c03f1f17322660519a1ec459b059adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 3/5] fix: accept a reg-name host that starts with an IPv4
 address

The host rule committed to IPv4address as soon as a prefix of the host
matched, so that "http://1.2.3.4.example/" and "http://1.2.3.456/" were
rejected although both hosts are valid RFC 3986 reg-names.
---
 lib/uri/uri.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index a68f3ae..b22bd18 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,12 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Every IPv4address is also a reg-name. Trying IPv4address first would commit
+// to the leading part of names such as "1.2.3.4.example" or "1.2.3.456" and
+// leave the rest of the host unmatched, so reg-name stands for both here.
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From ef4ea747d61f23a63c5566651fd5d6412119fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 4/5] fix: a path beginning with "//" is not valid without an
 authority

Such parts passed valid(), but composing them yields a string whose path is
read back as an authority ("a://x") or which is not a URI at all
("a://a:b"). RFC 3986 section 3.3 forbids this form.
---
 lib/uri/uri.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b22bd18..6ccd4b4 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -862,6 +862,12 @@ bool parts::valid () const noexcept {
   if (!this->path.valid ()) {
     return false;
   }
+  // RFC 3986 section 3.3: without an authority component, the path cannot begin
+  // with two slash characters.
+  if (!this->authority.has_value () &&
+      static_cast<std::string> (this->path).starts_with ("//")) {
+    return false;
+  }
   if (this->query.has_value () &&
       !rule{this->query.value ()}.concat (queryfn).done ()) {
     return false;
-- 
2.43.0


From d1e0866918fa4755a08618c9afd4cbdb7e9b3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 5/5] fix: iter_move of the pctdecode view iterator yields the
 decoded character

---
 include/uri/pctdecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..6dd38e2 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) noexcept (noexcept (*it)) {
+    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0

