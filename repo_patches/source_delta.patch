From 0dd01fc2de9870ea663985fe5c202d9d33f5a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 01/27] fix: accept lowercase hexadecimal digits

hex_digit treated 'a'..'f' as invalid, so percent escapes such as %2f and
IPv6 addresses with lowercase digits were rejected (RFC 3986 2.1, 3.2.2).
---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From e3796d8a5304ebeb8cdb1ee604892287041c4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 02/27] fix: allow digits in a scheme

scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From 5f5c544996f4d5f6dbe50d189ceb3441d730fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 03/27] fix: validate the first character of an absolute path

parse_path_absolute skipped the character after the leading slash, so
"/?q", "/ x" and "/%zz" were accepted with the wrong path.
---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From 3d0dd81c1cc518583edf58d7134b449e2c17f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 04/27] fix: a query parameter without a value ends at '&'

A key was allowed to contain '&', so "?a&b=c" was parsed as the single
parameter "a&b" going forward, and failed an assertion going backward.
---
 include/boost/url/detail/char_type.hpp | 19 +++++++++++++++++++
 include/boost/url/detail/parse.hpp     | 18 ++++++++----------
 include/boost/url/impl/url_base.ipp    |  6 +++---
 include/boost/url/impl/url_view.ipp    |  6 +++---
 4 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..cb89aae 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -429,6 +429,25 @@ qkey_pct_set() noexcept
     return pct_encoding(tab);
 }
 
+// characters in the key of a parsed parameter
+inline
+pct_encoding
+qparam_key_pct_set() noexcept
+{
+    // qkey_pct_set() minus '&'
+    static constexpr char tab[] =
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" //   0...31
+        "\3\1\3\3\1\3\3\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\1\3\3\3\1" //  32...63
+        "\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\3\3\3\3\1" //  64...95
+        "\3\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\3\3\3\1\3" //  96..127
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 128..159
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 160..191
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 192..223
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 224..255
+        ;
+    return pct_encoding(tab);
+}
+
 inline
 pct_encoding
 qval_pct_set() noexcept
diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..a18838e 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -755,7 +755,7 @@ struct parser
         if(*p_ != '?')
             return;
         auto const ek =
-            qkey_pct_set();
+            qparam_key_pct_set();
         auto const ev =
             qval_pct_set();
         std::size_t n = 0;
@@ -768,15 +768,13 @@ struct parser
                 return;
             if(p_ >= end_)
                 break;
-            if(*p_ != '=')
-                break;
-            ++p_;
-            if(p_ >= end_)
-                break;
-            p_ = ev.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
+            if(*p_ == '=')
+            {
+                p_ = ev.parse(
+                    p_ + 1, end_, ec);
+                if(ec)
+                    return;
+            }
             if(p_ >= end_)
                 break;
             if(*p_ != '&')
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..187f10f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1651,19 +1651,19 @@ parse() noexcept
             *p == '&' ));
     auto p0 = p++;
     auto const ek =
-        detail::qkey_pct_set();
+        detail::qparam_key_pct_set();
     error_code ec;
     p = ek.parse(p, end, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if( p == end ||
+        *p != '=')
     {
         nv_ = 0;
         return;
     }
     auto const ev =
         detail::qval_pct_set();
-    BOOST_ASSERT(*p == '=');
     p0 = p++;
     p = ev.parse(p, end, ec);
     BOOST_ASSERT(! ec);
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..7af009e 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -660,19 +660,19 @@ parse() noexcept
             *p == '&' ));
     auto p0 = p++;
     auto const ek =
-        detail::qkey_pct_set();
+        detail::qparam_key_pct_set();
     error_code ec;
     p = ek.parse(p, end, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if( p == end ||
+        *p != '=')
     {
         nv_ = 0;
         return;
     }
     auto const ev =
         detail::qval_pct_set();
-    BOOST_ASSERT(*p == '=');
     p0 = p++;
     p = ev.parse(p, end, ec);
     BOOST_ASSERT(! ec);
-- 
2.43.0


From 7c8d1c5cd1b3aac1b94738b842e219acbf3cdf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 05/27] fix: query parameters end where the fragment begins

The iterators parsed up to the end of the URL, running into the fragment.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 include/boost/url/impl/url_view.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 187f10f..8283543 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1640,7 +1640,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 7af009e..ae3eb81 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -649,7 +649,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
-- 
2.43.0


From cf48f340dc745e4029380960e183545d4cc4ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 06/27] fix: reparse the first query parameter when
 decrementing to it

---
 include/boost/url/impl/url_base.ipp | 1 +
 include/boost/url/impl/url_view.ipp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 8283543..08a0e55 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1627,6 +1627,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index ae3eb81..89b1b49 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -636,6 +636,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
-- 
2.43.0


From f6e47e936460de43956d648cb49d168a973b3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 07/27] fix: path segments end where the query begins

The segment iterators compared against the start of the fragment, so
iterating the segments of a URL with a query ran past the path, and
an edit returning the end iterator of a path without a query asserted.
---
 include/boost/url/impl/url_base.ipp | 9 +++------
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 08a0e55..d366284 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1245,10 +1245,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1297,16 +1297,13 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_frag]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
     auto const p0 =
         v_->s_ + off_;
     auto p = p0;
-    if(*p == '/')
+    if(p != end && *p == '/')
         ++p;
     while(p < end)
     {
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 89b1b49..560c916 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From aa35e5d7654accaca346a9c845d08b3d1202931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 08/27] fix: compare schemes independently of the C locale

string_to_scheme passed plain char to the C library tolower, which is
undefined for negative values and depends on the global locale; it now
uses detail::to_lower, which returned the wrong letter.
---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cb89aae..003748b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return 'a' + u;
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0


From 6bc8604814bafce0cbb000b34ca42dca47e9c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 09/27] fix: reject IPv6 literals with a malformed embedded
 IPv4 address

"[::.1.2.3]" has no first octet and "[::01.2.3.4]" has an octet with a
leading zero; both were accepted (RFC 3986 3.2.2).
---
 include/boost/url/detail/parse.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index a18838e..b1232e5 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -457,6 +457,7 @@ struct parser
         bool b = false; // got '::'
         bool c = false; // need colon
         long word = 0;
+        auto w = p_; // start of word
         for(;;)
         {
             if(p_ == end_)
@@ -493,6 +494,7 @@ struct parser
                 }
                 else if(c)
                 {
+                    w = p_;
                     word = parse_word(ec);
                     if(ec)
                         return;
@@ -515,6 +517,18 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
+                if(! c)
+                {
+                    // missing octet
+                    ec = error::syntax;
+                    return;
+                }
+                if(*w == '0' && p_ - w > 1)
+                {
+                    // leading zero
+                    ec = error::syntax;
+                    return;
+                }
                 if(! maybe_octet(word))
                 {
                     // invalid octet
@@ -571,6 +585,7 @@ struct parser
             }
             else if(! c)
             {
+                w = p_;
                 word = parse_word(ec);
                 if(ec)
                     return;
-- 
2.43.0


From 49fbff5f2615257392d03b2452ebf019c9e10fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 10/27] fix: accept IPvFuture hosts

The grammar and host_type::ipvfuture document them, but every literal
that is not an IPv6 address was rejected.
---
 include/boost/url/detail/parse.hpp | 41 ++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b1232e5..ab44de3 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -280,7 +280,13 @@ struct parser
             return;
         }
         ++p_;
-        parse_ip_v6(ec);
+        bool const future =
+            p_ != end_ &&
+            (*p_ == 'v' || *p_ == 'V');
+        if(future)
+            parse_ip_vfuture(ec);
+        else
+            parse_ip_v6(ec);
         if(ec)
             return;
         if(p_ == end_)
@@ -294,7 +300,9 @@ struct parser
             return;
         }
         ++p_;
-        pt.host = host_type::ipv6;
+        pt.host = future ?
+            host_type::ipvfuture :
+            host_type::ipv6;
     }
 
     void
@@ -603,6 +611,35 @@ struct parser
         }
     }
 
+    // IPvFuture = "v" 1*HEXDIG "."
+    //     1*( unreserved / sub-delims / ":" )
+    void
+    parse_ip_vfuture(
+        error_code& ec) noexcept
+    {
+        ++p_;
+        auto p0 = p_;
+        while(p_ < end_ &&
+            hex_digit(*p_) != -1)
+            ++p_;
+        if( p_ == p0 ||
+            p_ == end_ ||
+            *p_ != '.')
+        {
+            ec = error::syntax;
+            return;
+        }
+        ++p_;
+        p0 = p_;
+        auto const e =
+            userinfo_pct_set();
+        while(p_ < end_ &&
+            ! e.is_special(*p_))
+            ++p_;
+        if(p_ == p0)
+            ec = error::syntax;
+    }
+
     // port = *DIGIT
     void
     match_port() noexcept
-- 
2.43.0


From 7c1786fe675bfae4745e9e64583386d91490967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:30 +0000
Subject: [PATCH 11/27] fix: keep the null terminator when a URL grows

storage::resize terminates the new string; moving the old terminator along
with the tail overwrote it with an uninitialized byte when the buffer was
freshly allocated.
---
 include/boost/url/impl/url_base.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index d366284..bb47ff3 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1396,7 +1396,7 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     auto const n = s.size() + 1;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
     v.s_[pos.off_] = '/';
     std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
@@ -1424,7 +1424,7 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     auto const n = ns + 1;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
     v.s_[pos.off_] = '/';
     pct.encode(v.s_ + pos.off_ + 1, s);
@@ -1785,7 +1785,7 @@ resize(
         s_ + pos + n,
         s_ + pos,
         pt_.offset[detail::id_end] -
-            pos + 1);
+            pos);
     for(auto i = id + 1;
         i <= detail::id_end; ++i)
         pt_.offset[i] += n;
@@ -1839,7 +1839,7 @@ resize(
         s_ + pos + n,
         s_ + pos,
         pt_.offset[detail::id_end] -
-            pos + 1);
+            pos);
     for(auto i = first + 1;
         i < last; ++i)
         pt_.offset[i] =
-- 
2.43.0


From f8361ffbfdbd9577fa48d278bc882fbb473b8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:30 +0000
Subject: [PATCH 12/27] fix: tell the storage when a URL shrinks

The storage kept its old size, so editing the segments of a URL which had
been shortened failed an assertion.
---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index bb47ff3..9a321dc 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1768,6 +1768,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1822,6 +1823,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From 942dda4146d4860c6c56bb6d4aec35a65fff8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 13/27] fix: set_encoded_userinfo put two characters of the
 user in the password

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 9a321dc..a876c68 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -347,7 +347,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From 21bf3005684c9d910b074627cb110e545ff3588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 14/27] fix: clearing the user of a URL without userinfo

set_user("") read the last character of an empty string when the URL
had an authority but no userinfo.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index a876c68..36a723c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -391,7 +391,7 @@ set_user(
     if(s.empty())
     {
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From a58da8be1352d64a29b1f18c0d7b5f5024e20934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 15/27] fix: password_part asserted on every URL with a
 password

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 36a723c..88dc6ff 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -509,7 +509,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
-- 
2.43.0


From 6b4956a2a8fa527ccaa89b6f687f2ce7968b55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 16/27] fix: set_password_part

A part without a leading colon lost its first character instead of being
rejected, and ":" on a URL without authority was cleared again.
---
 include/boost/url/impl/url_base.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 88dc6ff..ee1252f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -615,10 +615,10 @@ set_password_part(
 {
     if(s.empty())
         return set_password(s);
+    if(s.front() != ':')
+        invalid_part::raise();
     if(s.size() == 1)
     {
-        if(s.front() != ':')
-            invalid_part::raise();
         if(pt_.length(
             detail::id_user) != 0)
         {
@@ -637,6 +637,7 @@ set_password_part(
         dest[3] = '@';
         pt_.split(
             detail::id_user, 2);
+        return *this;
     }
     set_encoded_password(
         s.substr(1));
-- 
2.43.0


From 0278a2581e16c6b46bc89def10ce209aa9384ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:08 +0000
Subject: [PATCH 17/27] fix: set_port_part(":") on a URL without authority

The colon was written without the leading "//", which changed the path
or the scheme of the URL.
---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index ee1252f..0ddc422 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -889,6 +889,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From f3791d2f0d533f62a8ee4e44da832b5b0fea6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 18/27] fix: set_encoded_url("") kept the old segments,
 parameters and host type

---
 include/boost/url/impl/url_base.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 0ddc422..9d2935a 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -69,6 +69,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = detail::parts();
         return *this;
     }
     error_code ec;
-- 
2.43.0


From 35766d61fd584a3dd06fc6d07681887571e64083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 19/27] fix: update the host type when the authority or host
 changes

---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 9d2935a..bb1af11 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -211,6 +211,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -236,6 +237,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -695,6 +697,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From b4f71c43dd46bb36acede14e805e9999557d41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 20/27] fix: set_encoded_path did not update the number of
 segments

---
 include/boost/url/detail/parse.hpp  | 12 ++++++++----
 include/boost/url/impl/url_base.ipp | 11 +++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index ab44de3..851a8d6 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -1063,7 +1063,7 @@ match_port(string_view s)
 }
 
 inline
-void
+std::size_t
 match_path_abempty(string_view s)
 {
     parts pt;
@@ -1074,10 +1074,11 @@ match_path_abempty(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 inline
-void
+std::size_t
 match_path_absolute(string_view s)
 {
     parts pt;
@@ -1088,10 +1089,11 @@ match_path_absolute(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 inline
-void
+std::size_t
 match_path_noscheme(string_view s)
 {
     parts pt;
@@ -1102,10 +1104,11 @@ match_path_noscheme(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 inline
-void
+std::size_t
 match_path_rootless(string_view s)
 {
     parts pt;
@@ -1116,6 +1119,7 @@ match_path_rootless(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 } // detail
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index bb1af11..7de4fe0 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -939,32 +939,35 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
+    std::size_t nseg;
     if(has_authority())
     {
         // path-abempty
-        detail::match_path_abempty(s);
+        nseg = detail::match_path_abempty(s);
     }
     else if(s.front() == '/')
     {
         // path-absolute
-        detail::match_path_absolute(s);
+        nseg = detail::match_path_absolute(s);
     }
     else if(pt_.length(
         detail::id_scheme) == 0)
     {
         // path-noscheme
-        detail::match_path_noscheme(s);
+        nseg = detail::match_path_noscheme(s);
     }
     else
     {
         // path-rootless
-        detail::match_path_rootless(s);
+        nseg = detail::match_path_rootless(s);
     }
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = nseg;
     return *this;
 }
 
-- 
2.43.0


From dc240a4d715d4fb1c756123fa3e6b02196187d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 21/27] fix: setting the query did not update the number of
 parameters

---
 include/boost/url/detail/parse.hpp  | 13 +++++++++++++
 include/boost/url/impl/url_base.ipp |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 851a8d6..e37bfbb 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -1062,6 +1062,19 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// Returns the number of parameters
+// in a query, without its leading '?'
+inline
+std::size_t
+count_params(string_view s) noexcept
+{
+    std::size_t n = 1;
+    for(auto const c : s)
+        if(c == '&')
+            ++n;
+    return n;
+}
+
 inline
 std::size_t
 match_path_abempty(string_view s)
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7de4fe0..eb75f65 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1011,6 +1011,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1022,6 +1023,7 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = detail::count_params(s);
     return *this;
 }
 
@@ -1033,6 +1035,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1043,6 +1046,7 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(s);
     return *this;
 }
 
@@ -1054,6 +1058,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1067,6 +1072,7 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(s);
     return *this;
 }
 
-- 
2.43.0


From f6cd0ea5659558a84a9372cc5446cb6a63672dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 22/27] fix: set_encoded_origin

Trailing garbage was accepted and a path in the argument was prepended
to the path of the URL; the host type was not updated.
---
 include/boost/url/detail/parse.hpp  | 9 +--------
 include/boost/url/impl/url_base.ipp | 9 +++++++--
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e37bfbb..38264f1 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -930,7 +930,7 @@ parse_origin(
 {
     parser pr(s);
 
-    // scheme ":" [ "//" authority ]
+    // scheme ":" hier-part
     if(! pr.match_scheme())
     {
         ec = error::syntax;
@@ -943,15 +943,8 @@ parse_origin(
     }
     pr.mark(pt, id_scheme);
     pr.parse_hier_part(pt, ec);
-
-    // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
     if(ec)
         return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index eb75f65..3e816db 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -96,6 +96,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -104,12 +105,15 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    // the path is not part of the origin
+    auto const n =
+        pt.offset[detail::id_path];
     auto const dest =
         resize(
             detail::id_scheme,
             detail::id_path,
-            s.size());
-    s.copy(dest, s.size());
+            n);
+    s.copy(dest, n);
     pt_.split(
         detail::id_scheme,
         pt.length(detail::id_scheme));
@@ -124,6 +128,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
-- 
2.43.0


From bf0c1c65df34def10caf65ca8c8d4d8550f02054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 23/27] fix: refuse to add or remove a scheme or authority if
 the path changes

set_host("x") on "a/b" gave "//xa/b", set_host("") on "http://h//x" gave
"http://x" and set_scheme("") on "x:a:b" gave "a:b". The setters now throw
invalid_part, as set_encoded_path does for a path which does not fit.
---
 include/boost/url/impl/url_base.ipp | 73 +++++++++++++++++++++++++++++
 include/boost/url/url_base.hpp      |  1 +
 2 files changed, 74 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 3e816db..abc2a19 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -93,6 +93,7 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_path(false, false);
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -105,6 +106,8 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    check_path(true, pt.length(
+        detail::id_user, detail::id_path) != 0);
     // the path is not part of the origin
     auto const n =
         pt.offset[detail::id_path];
@@ -159,6 +162,7 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_path(false, has_authority());
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -213,6 +217,8 @@ set_encoded_authority(
 {
     if(s.empty())
     {
+        check_path(pt_.length(
+            detail::id_scheme) != 0, false);
         resize(
             detail::id_user,
             detail::id_path, 0);
@@ -222,6 +228,8 @@ set_encoded_authority(
 
     detail::parts pt;
     detail::parse_authority(pt, s);
+    check_path(pt_.length(
+        detail::id_scheme) != 0, true);
     auto const dest = resize(
         detail::id_user,
         detail::id_path,
@@ -331,6 +339,8 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
+            check_path(pt_.length(
+                detail::id_scheme) != 0, false);
             resize(
                 detail::id_user,
                 detail::id_host, 0);
@@ -345,6 +355,8 @@ set_encoded_userinfo(
 
     detail::parts pt;
     detail::parse_userinfo(pt, s);
+    check_path(pt_.length(
+        detail::id_scheme) != 0, true);
     auto dest = resize(
         detail::id_user,
         detail::id_host,
@@ -438,6 +450,8 @@ set_user(
         e.encode(dest + 2, s);
         return *this;
     }
+    check_path(pt_.length(
+        detail::id_scheme) != 0, true);
     auto const n = e.encoded_size(s);
     auto const dest = resize(
         detail::id_user, 2 + n + 1);
@@ -476,6 +490,8 @@ set_encoded_user(
     }
 
     // add '@'
+    check_path(pt_.length(
+        detail::id_scheme) != 0, true);
     auto const dest = resize(
         detail::id_user,
         2 + n + 1);
@@ -566,6 +582,8 @@ set_password(
         e.encode(dest + 1, s);
         return *this;
     }
+    check_path(pt_.length(
+        detail::id_scheme) != 0, true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -603,6 +621,8 @@ set_encoded_password(
         s.copy(dest + 1, n);
         return *this;
     }
+    check_path(pt_.length(
+        detail::id_scheme) != 0, true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -636,6 +656,8 @@ set_password_part(
             dest[1] = '@';
             return *this;
         }
+        check_path(pt_.length(
+            detail::id_scheme) != 0, true);
         auto const dest = resize(
             detail::id_user,
             detail::id_host, 4);
@@ -694,6 +716,8 @@ set_host(
                 detail::id_user, s_
                     ) == "//");
             // remove authority
+            check_path(pt_.length(
+                detail::id_scheme) != 0, false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -714,6 +738,8 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(pt_.length(
+                detail::id_scheme) != 0, true);
             auto const dest = resize(
                 detail::id_user,
                 2 + s.size());
@@ -740,6 +766,8 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(pt_.length(
+                detail::id_scheme) != 0, true);
             auto const dest = resize(
                 detail::id_user,
                 2 + e.encoded_size(s));
@@ -775,6 +803,8 @@ set_encoded_host(
     if(! has_authority())
     {
         // add authority
+        check_path(pt_.length(
+            detail::id_scheme) != 0, true);
         auto const dest = resize(
             detail::id_user,
             2 + s.size());
@@ -846,6 +876,8 @@ set_port(string_view s)
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
+            check_path(pt_.length(
+                detail::id_scheme) != 0, false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -860,6 +892,8 @@ set_port(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(pt_.length(
+            detail::id_scheme) != 0, true);
         auto const dest = resize(
             detail::id_user,
             3 + s.size());
@@ -901,6 +935,8 @@ set_port_part(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(pt_.length(
+            detail::id_scheme) != 0, true);
         auto const dest = resize(
             detail::id_user, 3);
         dest[0] = '/';
@@ -1779,6 +1815,43 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// Throws if the path would be parsed differently
+// in a URL with or without a scheme or authority.
+void
+url_base::
+check_path(
+    bool has_scheme,
+    bool has_authority) const
+{
+    auto const s = encoded_path();
+    if(s.empty())
+        return;
+    if(has_authority)
+    {
+        // path-abempty
+        if(s.front() != '/')
+            invalid_part::raise();
+        return;
+    }
+    if(s.front() == '/')
+    {
+        // path-absolute
+        if(s.size() > 1 && s[1] == '/')
+            invalid_part::raise();
+        return;
+    }
+    if(has_scheme)
+        return;
+    // path-noscheme
+    for(auto const c : s)
+    {
+        if(c == '/')
+            break;
+        if(c == ':')
+            invalid_part::raise();
+    }
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..c2c744b 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1609,6 +1609,7 @@ public:
     normalize_scheme() noexcept;
 
 private:
+    inline void check_path(bool has_scheme, bool has_authority) const;
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
 };
-- 
2.43.0


From 8b2a9e2ce46538ea50f9e5ed648c565547780299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 24/27] fix: edit the segments of a relative path

Erasing the first segment of a path without a leading slash asserted,
and inserting before it or replacing it merged or rooted the segments.
---
 include/boost/url/impl/url_base.ipp | 169 +++++++++++++++++-----------
 include/boost/url/url_base.hpp      |   4 +
 2 files changed, 106 insertions(+), 67 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index abc2a19..5929c9f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1430,22 +1430,24 @@ erase( iterator first, iterator last ) noexcept ->
     BOOST_ASSERT(last.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(first.off_ <= v.pt_.offset[detail::id_query]);
     BOOST_ASSERT(last.off_ <= v.pt_.offset[detail::id_query]);
-    auto const d = last.off_ - first.off_;
-    if( d == 0 )
+    BOOST_ASSERT(first.off_ <= last.off_);
+    if( first.off_ == last.off_ )
         return first;
-    BOOST_ASSERT(d > 0);
-    int c = 0;
+    // Count the number of segments in the range
+    std::size_t c = 0;
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
-        c += (*i == '/'); // Count the number of segments in the range
-    BOOST_ASSERT(c > 0);
+        c += (*i == '/');
+    auto d = last.off_ - first.off_;
+    if( v.s_[first.off_] != '/' )
+    {
+        // first segment of a rootless path
+        ++c;
+        if( last.off_ != v.pt_.offset[detail::id_query] )
+            ++d; // '/' of the next segment
+    }
     BOOST_ASSERT(v.pt_.nseg >= c);
+    v.resize_path(first.off_, d, 0);
     v.pt_.nseg -= c;
-    std::memmove(v.s_ + first.off_, v.s_ + last.off_, v.pt_.offset[detail::id_end] - last.off_ + 1);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) - d);
-    BOOST_ASSERT(v.size() + d == v.a_.size());
-    auto const s = v.a_.resize(v.size());
-    BOOST_ASSERT(v.s_ == s);
-    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
     first.parse();
     return first;
 }
@@ -1457,22 +1459,8 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     iterator
 {
     BOOST_ASSERT(detail::pchar_pct_set().check(s));
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    BOOST_ASSERT(pos.v_ == &v);
-    BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
-    BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
-    auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = s.size() + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_);
-    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
-    ++v.pt_.nseg;
-    pos.off_ += n;
+    auto const dest = insert_space(pos, s.size());
+    s.copy(dest, s.size());
     pos.parse();
     return pos;
 }
@@ -1482,6 +1470,21 @@ url_base::
 segments_type::
 insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     iterator
+{
+    auto const pct = detail::pchar_pct_set();
+    BOOST_ASSERT(pct.encoded_size(s) == ns);
+    auto const dest = insert_space(pos, ns);
+    pct.encode(dest, s);
+    pos.parse();
+    return pos;
+}
+
+// Makes room for a segment of n characters, and
+// moves pos past it. Returns the new segment.
+char*
+url_base::
+segments_type::
+insert_space( iterator& pos, std::size_t n )
 {
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
@@ -1489,20 +1492,44 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     BOOST_ASSERT(pos.v_ == &v);
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
-    auto const pct = detail::pchar_pct_set();
-    BOOST_ASSERT(pct.encoded_size(s) == ns);
-    auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = ns + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_);
-    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
+    // rootless paths stay rootless
+    bool const rootless =
+        pos.off_ == v.pt_.offset[detail::id_path] &&
+        v.pt_.nseg != 0 &&
+        v.s_[pos.off_] != '/';
+    auto dest = v.resize_path(pos.off_, 0, n + 1);
     ++v.pt_.nseg;
-    pos.off_ += n;
-    pos.parse();
-    return pos;
+    if(rootless)
+    {
+        dest[n] = '/';
+        pos.off_ += n;
+        return dest;
+    }
+    dest[0] = '/';
+    pos.off_ += n + 1;
+    return dest + 1;
+}
+
+// Makes room for n characters in place
+// of the segment at pos, and moves pos past it.
+char*
+url_base::
+segments_type::
+replace_space( iterator& pos, std::size_t n )
+{
+    BOOST_ASSERT(v_ != nullptr);
+    url_base& v = *v_;
+    BOOST_ASSERT(v.size() == v.a_.size());
+    BOOST_ASSERT(pos.v_ == &v);
+    BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
+    BOOST_ASSERT(pos.off_ < v.pt_.offset[detail::id_query]);
+    // keep the leading '/'
+    std::size_t const n0 =
+        v.s_[pos.off_] == '/' ? 1 : 0;
+    auto const dest = v.resize_path(
+        pos.off_ + n0, pos.n_ - n0, n);
+    pos.off_ += n0 + n;
+    return dest;
 }
 
 auto
@@ -1530,19 +1557,10 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = s.size();
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_encoded_impl(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const dest = replace_space(pos, s.size());
+    s.copy(dest, s.size());
+    pos.parse();
+    return pos;
 }
 
 auto
@@ -1551,19 +1569,11 @@ segments_type::
 replace( iterator pos, string_view s ) ->
     iterator
 {
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = detail::pchar_pct_set().encoded_size(s);
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_impl(erase(pos), s, ns);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const pct = detail::pchar_pct_set();
+    auto const dest = replace_space(pos, pct.encoded_size(s));
+    pct.encode(dest, s);
+    pos.parse();
+    return pos;
 }
 
 //----------------------------------------------------------
@@ -1960,6 +1970,31 @@ resize(
     return s_ + pt_.offset[first];
 }
 
+// Resizes a range of the path
+char*
+url_base::
+resize_path(
+    std::size_t pos,
+    std::size_t len,
+    std::size_t new_size)
+{
+    // grow
+    if(new_size > len)
+        s_ = a_.resize(
+            size() - len + new_size);
+    std::memmove(
+        s_ + pos + new_size,
+        s_ + pos + len,
+        size() - pos - len);
+    pt_.resize(detail::id_path,
+        pt_.length(detail::id_path) -
+            len + new_size);
+    // shrink
+    if(new_size < len)
+        s_ = a_.resize(size());
+    return s_ + pos;
+}
+
 } // urls
 } // boost
 
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index c2c744b..8746003 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1612,6 +1612,7 @@ private:
     inline void check_path(bool has_scheme, bool has_authority) const;
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline char* resize_path(std::size_t pos, std::size_t len, std::size_t new_size);
 };
 
 //----------------------------------------------------------
@@ -1638,6 +1639,9 @@ private:
     iterator
     insert_impl( iterator pos, string_view s, std::size_t ns );
 
+    inline char* insert_space( iterator& pos, std::size_t n );
+    inline char* replace_space( iterator& pos, std::size_t n );
+
 public:
 
     segments_type() = default;
-- 
2.43.0


From 8d5a5cd615671da13bf7ac01a183195249fb659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:26 +0000
Subject: [PATCH 25/27] fix: refuse segment edits which change how the URL is
 parsed

Without an authority, erasing or inserting the first segment could leave
a path starting with "//", no longer rootless, or with a colon in the
first segment of a relative reference. Such edits now throw invalid_part.
---
 include/boost/url/impl/url_base.ipp | 68 ++++++++++++++++++++++++-----
 include/boost/url/url_base.hpp      | 14 +++---
 2 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 5929c9f..a042537 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1408,7 +1408,7 @@ end() const noexcept ->
 auto
 url_base::
 segments_type::
-erase( iterator pos ) noexcept ->
+erase( iterator pos ) ->
     iterator
 {
     auto last = pos;
@@ -1418,7 +1418,7 @@ erase( iterator pos ) noexcept ->
 auto
 url_base::
 segments_type::
-erase( iterator first, iterator last ) noexcept ->
+erase( iterator first, iterator last ) ->
     iterator
 {
     BOOST_ASSERT(v_ != nullptr);
@@ -1433,6 +1433,13 @@ erase( iterator first, iterator last ) noexcept ->
     BOOST_ASSERT(first.off_ <= last.off_);
     if( first.off_ == last.off_ )
         return first;
+    if( first.off_ == v.pt_.offset[detail::id_path] &&
+        last.off_ != v.pt_.offset[detail::id_query] )
+        v.check_first_segment(
+            (*last).encoded_string(),
+            v.s_[first.off_] == '/',
+            last.off_ + last.n_ !=
+                v.pt_.offset[detail::id_query]);
     // Count the number of segments in the range
     std::size_t c = 0;
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
@@ -1459,7 +1466,7 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     iterator
 {
     BOOST_ASSERT(detail::pchar_pct_set().check(s));
-    auto const dest = insert_space(pos, s.size());
+    auto const dest = insert_space(pos, s, s.size());
     s.copy(dest, s.size());
     pos.parse();
     return pos;
@@ -1473,18 +1480,18 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
 {
     auto const pct = detail::pchar_pct_set();
     BOOST_ASSERT(pct.encoded_size(s) == ns);
-    auto const dest = insert_space(pos, ns);
+    auto const dest = insert_space(pos, s, ns);
     pct.encode(dest, s);
     pos.parse();
     return pos;
 }
 
-// Makes room for a segment of n characters, and
+// Makes room for the segment s of n characters, and
 // moves pos past it. Returns the new segment.
 char*
 url_base::
 segments_type::
-insert_space( iterator& pos, std::size_t n )
+insert_space( iterator& pos, string_view s, std::size_t n )
 {
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
@@ -1497,6 +1504,14 @@ insert_space( iterator& pos, std::size_t n )
         pos.off_ == v.pt_.offset[detail::id_path] &&
         v.pt_.nseg != 0 &&
         v.s_[pos.off_] != '/';
+    if( pos.off_ == v.pt_.offset[detail::id_path] )
+        v.check_first_segment(
+            s, ! rootless, v.pt_.nseg != 0);
+    else
+        v.check_first_segment(
+            (*begin()).encoded_string(),
+            v.s_[v.pt_.offset[detail::id_path]] == '/',
+            true);
     auto dest = v.resize_path(pos.off_, 0, n + 1);
     ++v.pt_.nseg;
     if(rootless)
@@ -1510,12 +1525,12 @@ insert_space( iterator& pos, std::size_t n )
     return dest + 1;
 }
 
-// Makes room for n characters in place
+// Makes room for the segment s of n characters in place
 // of the segment at pos, and moves pos past it.
 char*
 url_base::
 segments_type::
-replace_space( iterator& pos, std::size_t n )
+replace_space( iterator& pos, string_view s, std::size_t n )
 {
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
@@ -1523,6 +1538,10 @@ replace_space( iterator& pos, std::size_t n )
     BOOST_ASSERT(pos.v_ == &v);
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ < v.pt_.offset[detail::id_query]);
+    if( pos.off_ == v.pt_.offset[detail::id_path] )
+        v.check_first_segment(
+            s, v.s_[pos.off_] == '/',
+            v.pt_.nseg != 1);
     // keep the leading '/'
     std::size_t const n0 =
         v.s_[pos.off_] == '/' ? 1 : 0;
@@ -1557,7 +1576,7 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
-    auto const dest = replace_space(pos, s.size());
+    auto const dest = replace_space(pos, s, s.size());
     s.copy(dest, s.size());
     pos.parse();
     return pos;
@@ -1570,7 +1589,7 @@ replace( iterator pos, string_view s ) ->
     iterator
 {
     auto const pct = detail::pchar_pct_set();
-    auto const dest = replace_space(pos, pct.encoded_size(s));
+    auto const dest = replace_space(pos, s, pct.encoded_size(s));
     pct.encode(dest, s);
     pos.parse();
     return pos;
@@ -1862,6 +1881,35 @@ check_path(
     }
 }
 
+// Throws if a path with the given
+// first segment does not fit the URL.
+void
+url_base::
+check_first_segment(
+    string_view s,
+    bool absolute,
+    bool more) const
+{
+    if(has_authority())
+        return;
+    if(absolute)
+    {
+        // can't start with "//"
+        if(s.empty() && more)
+            invalid_part::raise();
+        return;
+    }
+    // segment-nz
+    if(s.empty())
+        invalid_part::raise();
+    if(pt_.length(detail::id_scheme) != 0)
+        return;
+    // segment-nz-nc
+    for(auto const c : s)
+        if(c == ':')
+            invalid_part::raise();
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 8746003..24f207f 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1610,6 +1610,7 @@ public:
 
 private:
     inline void check_path(bool has_scheme, bool has_authority) const;
+    inline void check_first_segment(string_view s, bool absolute, bool more) const;
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
     inline char* resize_path(std::size_t pos, std::size_t len, std::size_t new_size);
@@ -1639,8 +1640,8 @@ private:
     iterator
     insert_impl( iterator pos, string_view s, std::size_t ns );
 
-    inline char* insert_space( iterator& pos, std::size_t n );
-    inline char* replace_space( iterator& pos, std::size_t n );
+    inline char* insert_space( iterator& pos, string_view s, std::size_t n );
+    inline char* replace_space( iterator& pos, string_view s, std::size_t n );
 
 public:
 
@@ -1680,15 +1681,18 @@ public:
 
         @par Exception Safety
 
-        No-throw guarantee.
+        Strong guarantee.
 
         @param first The first segment to be erased.
 
         @param last One past the last segment to be erased.
+
+        @throw std::exception the remaining segments can
+        not be the path of this URL.
     */
     BOOST_URL_DECL
     iterator
-    erase( iterator first, iterator last ) noexcept;
+    erase( iterator first, iterator last );
 
     /** Erase the specified path segment
 
@@ -1703,7 +1707,7 @@ public:
     */
     BOOST_URL_DECL
     iterator
-    erase( iterator pos ) noexcept;
+    erase( iterator pos );
 
     /** Insert an encoded path segment at the specified position.
 
-- 
2.43.0


From 0590d203ed06d41bccb393b58c9a2c4bc8f85924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:40 +0000
Subject: [PATCH 26/27] fix: static_pool handed out memory past its buffer

When aligning moved the next block past the end, the remaining capacity
wrapped around and every request was granted.
---
 include/boost/url/static_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..ca912e4 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,10 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        auto const n = static_cast<
+            std::size_t>(p - base_);
+        if( u < u0 || n > capacity_ ||
+            bytes > capacity_ - n)
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
-- 
2.43.0


From ae4c74a90673e4e9743f162e2c6f1b926d719306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:04 +0000
Subject: [PATCH 27/27] fix: static_pool allocator rejects element counts whose
 size overflows

---
 include/boost/url/static_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index ca912e4..50441be 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -105,6 +105,9 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > std::size_t(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0

