From 5e0f2ce74192596b4214118ee635c4a9b2455bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:41 +0000
Subject: [PATCH 01/33] fix: accept lower case hexadecimal digits

RFC 3986 HEXDIG is case-insensitive: "%2f" and "[fe80::1]" are valid, and were
rejected (or asserted on when already stored).
---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From 683ecb708d5b51a474c09e7959c8eed76652e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 02/33] fix: hex_digit returns a signed type

Callers compare the result with -1, which never matched where plain char is
unsigned, so any two characters after '%' were accepted as an escape.
---
 include/boost/url/detail/char_type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..1149ef0 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -49,7 +49,7 @@ is_alpha(
 }
 
 inline
-char
+signed char
 hex_digit(char c) noexcept
 {
     static constexpr char tab[] =
@@ -70,7 +70,8 @@ hex_digit(char c) noexcept
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 224..239
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 240..255
         ;
-    return tab[static_cast<unsigned char>(c)];
+    return static_cast<signed char>(
+        tab[static_cast<unsigned char>(c)]);
 }
 
 inline
-- 
2.43.0


From 672893e84988a91572faf854ca4507bc544ee231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 03/33] fix: accept digits in the scheme

scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ), as the documentation says.
---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 1149ef0..d14fb5f 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -79,10 +79,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From 7a2fefe9e4c605642450eb3f8e3fbe6fbae1fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:25 +0000
Subject: [PATCH 04/33] fix: validate the first character of an absolute path

It was skipped, so "/?q" had no query, "/%" and "/ " were accepted, and
decoding such a path read past its end.
---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From 7759298bff1c8987702c10cbb472d9a78f82e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:07 +0000
Subject: [PATCH 05/33] fix: check the first octet of an IPv4 address inside an
 IPv6 literal

"[::01.2.3.4]" and "[::.2.3.4]" are not IPv6 addresses, but were accepted: the
octet was judged from the value of the preceding word, or of none.
---
 include/boost/url/detail/parse.hpp | 39 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..dde0dd8 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -429,21 +429,6 @@ struct parser
         return v;
     }
 
-    // return `true` if the hex
-    // word could be 0..255 if
-    // interpreted as decimal
-    bool
-    maybe_octet(long word)
-    {
-        if(word > 0x255)
-            return false;
-        if(((word >>  4) & 0xf) > 9)
-            return false;
-        if((word & 0xf) > 9)
-            return false;
-        return true;
-    }
-
     void
     parse_ip_v6(
         error_code& ec) noexcept
@@ -456,7 +441,7 @@ struct parser
         int n = 8; // words needed
         bool b = false; // got '::'
         bool c = false; // need colon
-        long word = 0;
+        char const* word = nullptr; // last word
         for(;;)
         {
             if(p_ == end_)
@@ -490,10 +475,12 @@ struct parser
                         break;
                     b = true;
                     c = false;
+                    word = nullptr;
                 }
                 else if(c)
                 {
-                    word = parse_word(ec);
+                    word = p_;
+                    parse_word(ec);
                     if(ec)
                         return;
                     --n;
@@ -515,14 +502,25 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
+                if(word == nullptr)
+                {
+                    // missing octet
+                    ec = error::syntax;
+                    return;
+                }
+                // the last word is the first octet
+                auto const p1 = p_;
+                p_ = word;
+                auto m = match_octet();
+                if( m == -1 ||
+                    p_ != p1)
                 {
                     // invalid octet
                     ec = error::syntax;
                     return;
                 }
                 ++p_;
-                auto m = match_octet();
+                m = match_octet();
                 if( m == -1)
                 {
                     ec = error::syntax;
@@ -571,7 +569,8 @@ struct parser
             }
             else if(! c)
             {
-                word = parse_word(ec);
+                word = p_;
+                parse_word(ec);
                 if(ec)
                     return;
                 --n;
-- 
2.43.0


From 5f84d07eb9c27dc6b730849b3218c7ed8848563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:37 +0000
Subject: [PATCH 06/33] fix: parse IPvFuture hosts

The documented host grammar and host_type::ipvfuture include them, but every
"[v1.x]" literal was rejected.
---
 include/boost/url/detail/parse.hpp | 40 ++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index dde0dd8..fc581fb 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -280,7 +280,17 @@ struct parser
             return;
         }
         ++p_;
-        parse_ip_v6(ec);
+        auto type = host_type::ipv6;
+        if(p_ != end_ && (
+            *p_ == 'v' || *p_ == 'V'))
+        {
+            type = host_type::ipvfuture;
+            parse_ip_vfuture(ec);
+        }
+        else
+        {
+            parse_ip_v6(ec);
+        }
         if(ec)
             return;
         if(p_ == end_)
@@ -294,7 +304,33 @@ struct parser
             return;
         }
         ++p_;
-        pt.host = host_type::ipv6;
+        pt.host = type;
+    }
+
+    void
+    parse_ip_vfuture(
+        error_code& ec) noexcept
+    {
+        // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
+        auto p0 = ++p_;
+        while(p_ < end_ &&
+            hex_digit(*p_) != -1)
+            ++p_;
+        if( p_ == p0 ||
+            p_ == end_ ||
+            *p_ != '.')
+        {
+            ec = error::syntax;
+            return;
+        }
+        p0 = ++p_;
+        auto const e =
+            userinfo_pct_set();
+        while(p_ < end_ &&
+            ! e.is_special(*p_))
+            ++p_;
+        if(p_ == p0)
+            ec = error::syntax;
     }
 
     void
-- 
2.43.0


From ec1e46bbfd34a63213de1e5d833a67463f0bd75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:24 +0000
Subject: [PATCH 07/33] fix: password_part asserted the wrong end of the string

The part ends with '@'; the assertion looked at its first character and aborted
for every non-empty password.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..28aa601 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -509,7 +509,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
-- 
2.43.0


From f3ef5e264c60b735b0da42f15a3f3d40d0020bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:33 +0000
Subject: [PATCH 08/33] fix: segment iterators stop at the end of the path

They ran on into the query, up to the fragment.
---
 include/boost/url/impl/url_base.ipp | 4 ++--
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 28aa601..1d1f9d0 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1245,10 +1245,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..8a2ea61 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From 8429edb3759105a54e5b5e32dddfba53d2c1a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:18 +0000
Subject: [PATCH 09/33] fix: query parameters end at '&' and at the end of the
 query

A key without '=' swallowed the following parameters ("?z&x=1" had one), and
the iterators ran into the fragment, asserting on "?k#f".
---
 include/boost/url/detail/parse.hpp  | 29 ++++++++++++++++-------------
 include/boost/url/impl/url_base.ipp | 11 +++++++----
 include/boost/url/impl/url_view.ipp |  9 ++++++---
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index fc581fb..d4d5828 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -13,6 +13,7 @@
 #include <boost/url/detail/char_type.hpp>
 #include <boost/url/detail/parts.hpp>
 #include <boost/url/error.hpp>
+#include <algorithm>
 
 namespace boost {
 namespace urls {
@@ -797,23 +798,25 @@ struct parser
         for(;;)
         {
             ++n;
-            p_ = ek.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
-            if(p_ >= end_)
-                break;
-            if(*p_ != '=')
-                break;
-            ++p_;
-            if(p_ >= end_)
-                break;
-            p_ = ev.parse(
-                p_, end_, ec);
+            // '&' ends a key without value
+            p_ = ek.parse(p_,
+                std::find(p_, end_, '&'), ec);
             if(ec)
                 return;
             if(p_ >= end_)
                 break;
+            if(*p_ == '=')
+            {
+                ++p_;
+                if(p_ >= end_)
+                    break;
+                p_ = ev.parse(
+                    p_, end_, ec);
+                if(ec)
+                    return;
+                if(p_ >= end_)
+                    break;
+            }
             if(*p_ != '&')
                 break;
             ++p_;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 1d1f9d0..e3b3d75 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1638,9 +1638,9 @@ parse() noexcept
 {
     BOOST_ASSERT(v_);
     BOOST_ASSERT(v_->pt_.nparam > 0);
-    auto const end =
+    char const* const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
@@ -1653,10 +1653,13 @@ parse() noexcept
     auto const ek =
         detail::qkey_pct_set();
     error_code ec;
-    p = ek.parse(p, end, ec);
+    // '&' ends a key without value
+    auto const last =
+        std::find(p, end, '&');
+    p = ek.parse(p, last, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if(p == last)
     {
         nv_ = 0;
         return;
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 8a2ea61..15a9c03 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -649,7 +649,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
@@ -662,10 +662,13 @@ parse() noexcept
     auto const ek =
         detail::qkey_pct_set();
     error_code ec;
-    p = ek.parse(p, end, ec);
+    // '&' ends a key without value
+    auto const last =
+        std::find(p, end, '&');
+    p = ek.parse(p, last, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if(p == last)
     {
         nv_ = 0;
         return;
-- 
2.43.0


From f4c84a22a89fcb59069196a34f30bde5fac745c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 10/33] fix: decrementing a params iterator to the first
 element

It kept the key and value lengths of the element it came from.
---
 include/boost/url/impl/url_base.ipp | 1 +
 include/boost/url/impl/url_view.ipp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index e3b3d75..785edd3 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1627,6 +1627,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 15a9c03..2cf13b0 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -636,6 +636,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
-- 
2.43.0


From 7ccf206d327a0de2de9a02009171b2af61fb4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:23 +0000
Subject: [PATCH 11/33] fix: host type follows changes of the host or its
 removal

---
 include/boost/url/impl/url_base.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 785edd3..a69b7f8 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -69,6 +69,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = detail::parts();
         return *this;
     }
     error_code ec;
@@ -95,6 +96,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -123,6 +125,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -210,6 +213,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -235,6 +239,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -693,6 +698,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From cbaf33ed2eb4ca8af3c77a1e29e4110115c69406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:51 +0000
Subject: [PATCH 12/33] fix: set_encoded_path updates the number of segments

---
 include/boost/url/impl/url_base.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index a69b7f8..e15f224 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -13,6 +13,7 @@
 #include <boost/url/error.hpp>
 #include <boost/url/url_base.hpp>
 #include <boost/url/detail/parse.hpp>
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 
@@ -924,6 +925,7 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
     if(has_authority())
@@ -950,6 +952,9 @@ set_encoded_path(
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    // a leading '/' doesn't divide segments
+    pt_.nseg = 1 + std::count(
+        s.begin() + 1, s.end(), '/');
     return *this;
 }
 
-- 
2.43.0


From 97e28327c937f371e9bfc4d1121766aed3d0aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:01 +0000
Subject: [PATCH 13/33] fix: setting the query updates the number of parameters

---
 include/boost/url/impl/url_base.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index e15f224..a627d2b 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -998,6 +998,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1009,6 +1010,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
@@ -1020,6 +1023,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1030,6 +1034,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
@@ -1041,6 +1047,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1054,6 +1061,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
-- 
2.43.0


From c2ea2e7545dd0c0c362a82e4bc40ba1e81cfb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:35 +0000
Subject: [PATCH 14/33] fix: set_encoded_origin accepts exactly a scheme and an
 authority

---
 include/boost/url/detail/parse.hpp  | 18 +++++++++---------
 include/boost/url/impl/url_base.ipp |  5 +++--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index d4d5828..161e30e 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -918,7 +918,7 @@ parse_origin(
 {
     parser pr(s);
 
-    // scheme ":" [ "//" authority ]
+    // scheme ":" [ "//" authority [ "/" ] ]
     if(! pr.match_scheme())
     {
         ec = error::syntax;
@@ -930,16 +930,16 @@ parse_origin(
         return;
     }
     pr.mark(pt, id_scheme);
-    pr.parse_hier_part(pt, ec);
 
     // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
-    if(ec)
-        return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
+    if(pr.match_literal("//"))
+    {
+        pr.parse_authority(pt, ec);
+        if(ec)
+            return;
+        // not part of the origin
+        pr.match_literal("/");
+    }
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index a627d2b..a8e4279 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -110,8 +110,9 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path,
-            s.size());
-    s.copy(dest, s.size());
+            pt.offset[detail::id_path]);
+    s.copy(dest,
+        pt.offset[detail::id_path]);
     pt_.split(
         detail::id_scheme,
         pt.length(detail::id_scheme));
-- 
2.43.0


From 1754c3bfe9115d8d99cb8a02eee8d12d2ef504d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:46 +0000
Subject: [PATCH 15/33] fix: set_encoded_userinfo splits user and password
 after the slashes

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index a8e4279..2e67bf1 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -354,7 +354,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From a2460d3830c32cbf14624129b3e74a23ea6069e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:58 +0000
Subject: [PATCH 16/33] fix: set_userinfo_part("@") sets an empty userinfo

---
 include/boost/url/impl/url_base.ipp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 2e67bf1..38303c0 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -369,6 +369,19 @@ set_userinfo_part(
         if(s.back() != '@')
             invalid_part::raise();
         s.remove_suffix(1);
+        if(s.empty())
+        {
+            // empty userinfo, keep '@'
+            auto const dest = resize(
+                detail::id_user,
+                detail::id_host, 3);
+            dest[0] = '/';
+            dest[1] = '/';
+            dest[2] = '@';
+            pt_.split(
+                detail::id_user, 2);
+            return *this;
+        }
     }
     return set_encoded_userinfo(s);
 }
-- 
2.43.0


From 493edf1eec33287f24b0f5284f58568170e535d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:31 +0000
Subject: [PATCH 17/33] fix: set_user("") on an authority without userinfo

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 38303c0..fe252f7 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -411,7 +411,7 @@ set_user(
     if(s.empty())
     {
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From 9e3402fed79aa214f3203effe36ffa25929296af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 18/33] fix: set_password_part requires the colon and accepts
 any password

---
 include/boost/url/impl/url_base.ipp | 43 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index fe252f7..c7aca3d 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -635,31 +635,30 @@ set_password_part(
 {
     if(s.empty())
         return set_password(s);
-    if(s.size() == 1)
+    if(s.front() != ':')
+        invalid_part::raise();
+    auto const e =
+        detail::userinfo_pct_set();
+    e.validate(s);
+
+    auto const n = s.size();
+    if(pt_.length(detail::id_user) != 0)
     {
-        if(s.front() != ':')
-            invalid_part::raise();
-        if(pt_.length(
-            detail::id_user) != 0)
-        {
-            auto const dest = resize(
-                detail::id_password, 2);
-            dest[0] = ':';
-            dest[1] = '@';
-            return *this;
-        }
         auto const dest = resize(
-            detail::id_user,
-            detail::id_host, 4);
-        dest[0] = '/';
-        dest[1] = '/';
-        dest[2] = ':';
-        dest[3] = '@';
-        pt_.split(
-            detail::id_user, 2);
+            detail::id_password, n + 1);
+        s.copy(dest, n);
+        dest[n] = '@';
+        return *this;
     }
-    set_encoded_password(
-        s.substr(1));
+    auto const dest = resize(
+        detail::id_user,
+        detail::id_host,
+        2 + n + 1);
+    dest[0] = '/';
+    dest[1] = '/';
+    s.copy(dest + 2, n);
+    dest[2 + n] = '@';
+    pt_.split(detail::id_user, 2);
     return *this;
 }
 
-- 
2.43.0


From 0087f44c670c362abe0208b5b55db4186bc5561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 19/33] fix: set_port_part(":") adds the authority when there
 is none

---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c7aca3d..0aa37b1 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -908,6 +908,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From 2320056ae28e1ec464903cae80f225f778c44cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:18 +0000
Subject: [PATCH 20/33] fix: shrinking a component updates the size of the
 storage

---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 0aa37b1..6347018 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1823,6 +1823,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1877,6 +1878,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From 1f27df35a196f09f60c88644065cabb93211f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 21/33] fix: terminate the first buffer of the storage

---
 include/boost/url/detail/storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 225d801..f9ddc2c 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -86,6 +86,10 @@ public:
                 p_, cap_ + 1);
             p[size_] = 0;
         }
+        else
+        {
+            p[0] = 0;
+        }
         p_ = p;
         cap_ = cap;
         return p_;
-- 
2.43.0


From 02c928d34e274706df1d03a58b53b17e1b52fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:10 +0000
Subject: [PATCH 22/33] fix: never ask the allocator for more than its maximum
 size

---
 include/boost/url/detail/storage.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index f9ddc2c..37125d3 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -11,6 +11,7 @@
 #define BOOST_URL_DETAIL_STORAGE_HPP
 
 #include <boost/url/config.hpp>
+#include <boost/url/error.hpp>
 #include <cstdlib>
 #include <cstring>
 #include <memory>
@@ -69,8 +70,12 @@ public:
         if(n <= cap_)
             return p_;
 
+        // including the terminator
         std::size_t cap =
             traits::max_size(a_);
+        if(n >= cap)
+            too_large::raise();
+        --cap;
         if(cap_ < cap - cap_)
         {
             cap = 2 * cap_;
-- 
2.43.0


From 1bc1405b40b345771c84b06621ffbfe8c9ed528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:28 +0000
Subject: [PATCH 23/33] fix: static pool refuses when the alignment padding
 does not fit

---
 include/boost/url/static_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..262308e 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,11 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        auto const used = u -
+            std::uintptr_t(base_);
+        if( u < u0 ||
+            used > capacity_ ||
+            bytes > capacity_ - used)
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
-- 
2.43.0


From 6b921ae8ba0b90d6a14cd18b5872ea037634538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:47 +0000
Subject: [PATCH 24/33] fix: static pool refuses counts whose size overflows

---
 include/boost/url/static_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 262308e..f8fb718 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -106,6 +106,9 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > size_type(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From 247e8a0331c4c288514a5afd731b01a06864cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:05 +0000
Subject: [PATCH 25/33] fix: assignment copies the URL

---
 include/boost/url/basic_url.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index 0219765..a6a28b5 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -65,8 +65,11 @@ public:
 
     basic_url&
     operator=(
-        basic_url const&)
+        basic_url const& other)
     {
+        if(this != &other)
+            set_encoded_url(
+                other.encoded_url());
         return *this;
     }
 };
-- 
2.43.0


From f7e7c7ec8a2e9beefff5a95cc7055ceaffedf718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 26/33] fix: scheme lookup does not depend on the locale

---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index d14fb5f..4c23ce3 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return 'a' + u;
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0


From 9db20632485b915761178d2d3f2eba8275fb1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:25 +0000
Subject: [PATCH 27/33] fix: reject changes that would make the path parse
 differently

---
 include/boost/url/impl/url_base.ipp | 65 +++++++++++++++++++++++++++++
 include/boost/url/url_base.hpp      |  1 +
 2 files changed, 66 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6347018..098449f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -94,6 +94,7 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_path(false, false);
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -106,6 +107,8 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    check_path(true, pt.length(
+        detail::id_user) != 0);
     auto const dest =
         resize(
             detail::id_scheme,
@@ -158,6 +161,8 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_path(
+            false, has_authority());
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -212,6 +217,8 @@ set_encoded_authority(
 {
     if(s.empty())
     {
+        check_path(
+            ! scheme().empty(), false);
         resize(
             detail::id_user,
             detail::id_path, 0);
@@ -221,6 +228,8 @@ set_encoded_authority(
 
     detail::parts pt;
     detail::parse_authority(pt, s);
+    check_path(
+        ! scheme().empty(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_path,
@@ -330,6 +339,8 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
+            check_path(
+                ! scheme().empty(), false);
             resize(
                 detail::id_user,
                 detail::id_host, 0);
@@ -344,6 +355,8 @@ set_encoded_userinfo(
 
     detail::parts pt;
     detail::parse_userinfo(pt, s);
+    check_path(
+        ! scheme().empty(), true);
     auto dest = resize(
         detail::id_user,
         detail::id_host,
@@ -372,6 +385,8 @@ set_userinfo_part(
         if(s.empty())
         {
             // empty userinfo, keep '@'
+            check_path(
+                ! scheme().empty(), true);
             auto const dest = resize(
                 detail::id_user,
                 detail::id_host, 3);
@@ -450,6 +465,8 @@ set_user(
         e.encode(dest + 2, s);
         return *this;
     }
+    check_path(
+        ! scheme().empty(), true);
     auto const n = e.encoded_size(s);
     auto const dest = resize(
         detail::id_user, 2 + n + 1);
@@ -488,6 +505,8 @@ set_encoded_user(
     }
 
     // add '@'
+    check_path(
+        ! scheme().empty(), true);
     auto const dest = resize(
         detail::id_user,
         2 + n + 1);
@@ -578,6 +597,8 @@ set_password(
         e.encode(dest + 1, s);
         return *this;
     }
+    check_path(
+        ! scheme().empty(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -615,6 +636,8 @@ set_encoded_password(
         s.copy(dest + 1, n);
         return *this;
     }
+    check_path(
+        ! scheme().empty(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -650,6 +673,8 @@ set_password_part(
         dest[n] = '@';
         return *this;
     }
+    check_path(
+        ! scheme().empty(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -704,6 +729,8 @@ set_host(
                 detail::id_user, s_
                     ) == "//");
             // remove authority
+            check_path(
+                ! scheme().empty(), false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -724,6 +751,8 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(
+                ! scheme().empty(), true);
             auto const dest = resize(
                 detail::id_user,
                 2 + s.size());
@@ -750,6 +779,8 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(
+                ! scheme().empty(), true);
             auto const dest = resize(
                 detail::id_user,
                 2 + e.encoded_size(s));
@@ -785,6 +816,8 @@ set_encoded_host(
     if(! has_authority())
     {
         // add authority
+        check_path(
+            ! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user,
             2 + s.size());
@@ -853,6 +886,8 @@ set_port(string_view s)
             detail::id_port) == 2)
         {
             // remove authority
+            check_path(
+                ! scheme().empty(), false);
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
@@ -870,6 +905,8 @@ set_port(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(
+            ! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user,
             3 + s.size());
@@ -911,6 +948,8 @@ set_port_part(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(
+            ! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user, 3);
         dest[0] = '/';
@@ -1799,6 +1838,32 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// Raise unless the current path can follow the given parts
+void
+url_base::
+check_path(
+    bool scheme,
+    bool authority) const
+{
+    auto const s = encoded_path();
+    if(s.empty())
+        return;
+    if(authority)
+    {
+        // path-abempty
+        if(s.front() != '/')
+            invalid_part::raise();
+        return;
+    }
+    // "//" would begin an authority
+    if(s.substr(0, 2) == "//")
+        invalid_part::raise();
+    // a colon in the first segment would end a scheme
+    if(! scheme && s.substr(0, s.find('/')
+            ).find(':') != string_view::npos)
+        invalid_part::raise();
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..1dfd30e 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1611,6 +1611,7 @@ public:
 private:
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline void check_path(bool scheme, bool authority) const;
 };
 
 //----------------------------------------------------------
-- 
2.43.0


From 665028b518f2df352da6ba337dac157bb5bff96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:14 +0000
Subject: [PATCH 28/33] fix: a segment edit at the end of the path returns the
 end iterator

---
 include/boost/url/impl/url_base.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 098449f..573a963 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1385,16 +1385,13 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_frag]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
     auto const p0 =
         v_->s_ + off_;
     auto p = p0;
-    if(*p == '/')
+    if(p < end && *p == '/')
         ++p;
     while(p < end)
     {
-- 
2.43.0


From dd10a2745e40444bf1ed59061dadcb2c39a1b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:31 +0000
Subject: [PATCH 29/33] fix: inserting segments into relative paths and before
 the first segment

---
 include/boost/url/impl/url_base.ipp | 107 +++++++++++++++++-----------
 include/boost/url/url_base.hpp      |  12 ++--
 2 files changed, 75 insertions(+), 44 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 573a963..3042979 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1467,59 +1467,80 @@ erase( iterator first, iterator last ) noexcept ->
     return first;
 }
 
-auto
+// Raise if the path would be parsed differently
+// with s as its first segment
+void
 url_base::
 segments_type::
-insert_encoded_impl( iterator pos, string_view s ) ->
-    iterator
+check_first( string_view s, bool more ) const
+{
+    auto const path = v_->encoded_path();
+    if( path.empty() || path.front() == '/' )
+    {
+        // "//" would begin an authority
+        if( s.empty() && more && ! v_->has_authority() )
+            invalid_part::raise();
+        return;
+    }
+    // the path has to remain relative
+    if( s.empty() )
+        invalid_part::raise();
+    // a colon in the first segment would end a scheme
+    if( v_->scheme().empty() && s.find(':') != string_view::npos )
+        invalid_part::raise();
+}
+
+// Replace n0 characters of the path with n uninitialized characters
+char*
+url_base::
+segments_type::
+splice( std::size_t off, std::size_t n0, std::size_t n )
 {
-    BOOST_ASSERT(detail::pchar_pct_set().check(s));
-    BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
     BOOST_ASSERT(v.size() == v.a_.size());
-    BOOST_ASSERT(pos.v_ == &v);
-    BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
-    BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
-    auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = s.size() + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
-    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
-    ++v.pt_.nseg;
-    pos.off_ += n;
-    pos.parse();
-    return pos;
+    auto const end = v.pt_.offset[detail::id_end];
+    if( n > n0 )
+        v.s_ = v.a_.reserve(end + n - n0);
+    std::memmove(v.s_ + off + n, v.s_ + off + n0, end - off - n0 + 1);
+    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path) + n - n0);
+    v.s_ = v.a_.resize(v.size());
+    return v.s_ + off;
 }
 
-auto
+// Insert a segment of ns characters, to be written to the returned
+// position, and move pos after it.
+char*
 url_base::
 segments_type::
-insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
-    iterator
+insert_impl( iterator& pos, string_view s, std::size_t const ns )
 {
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
     BOOST_ASSERT(pos.v_ == &v);
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
-    auto const pct = detail::pchar_pct_set();
-    BOOST_ASSERT(pct.encoded_size(s) == ns);
-    auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = ns + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
-    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
+    auto const path = v.encoded_path();
+    bool relative = false;
+    if( pos.off_ == v.pt_.offset[detail::id_path] )
+    {
+        check_first(s, ! path.empty());
+        relative = ! path.empty() && path.front() != '/';
+    }
+    auto dest = splice(pos.off_, 0, ns + 1);
+    pos.off_ += ns + 1;
+    if( relative )
+    {
+        // the slash belongs to the next segment
+        dest[ns] = '/';
+        --pos.off_;
+    }
+    else
+    {
+        *dest++ = '/';
+    }
     ++v.pt_.nseg;
-    pos.off_ += n;
     pos.parse();
-    return pos;
+    return dest;
 }
 
 auto
@@ -1528,7 +1549,10 @@ segments_type::
 insert_encoded( iterator pos, string_view s ) ->
     iterator
 {
-    return insert_encoded_impl(pos, detail::pchar_pct_set().validate(s));
+    detail::pchar_pct_set().validate(s);
+    auto const dest = insert_impl(pos, s, s.size());
+    s.copy(dest, s.size());
+    return pos;
 }
 
 auto
@@ -1537,7 +1561,10 @@ segments_type::
 insert( iterator pos, string_view s ) ->
     iterator
 {
-    return insert_impl(pos, s, detail::pchar_pct_set().encoded_size(s));
+    auto const pct = detail::pchar_pct_set();
+    auto const dest = insert_impl(pos, s, pct.encoded_size(s));
+    pct.encode(dest, s);
+    return pos;
 }
 
 auto
@@ -1556,7 +1583,7 @@ replace_encoded( iterator pos, string_view s ) ->
     if( n0 < n )
         v.s_ = v.a_.reserve(v.a_.size() + n - n0);
     auto const cap = v.a_.capacity();
-    auto r = insert_encoded_impl(erase(pos), s);
+    auto r = insert_encoded(erase(pos), s);
     BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
     (void) cap;
     return r;
@@ -1577,7 +1604,7 @@ replace( iterator pos, string_view s ) ->
     if( n0 < n )
         v.s_ = v.a_.reserve(v.a_.size() + n - n0);
     auto const cap = v.a_.capacity();
-    auto r = insert_impl(erase(pos), s, ns);
+    auto r = insert(erase(pos), s);
     BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
     (void) cap;
     return r;
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 1dfd30e..ac39698 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1631,12 +1631,16 @@ public:
 private:
 
     BOOST_URL_DECL
-    iterator
-    insert_encoded_impl( iterator pos, string_view s );
+    void
+    check_first( string_view s, bool more ) const;
 
     BOOST_URL_DECL
-    iterator
-    insert_impl( iterator pos, string_view s, std::size_t ns );
+    char*
+    splice( std::size_t off, std::size_t n0, std::size_t n );
+
+    BOOST_URL_DECL
+    char*
+    insert_impl( iterator& pos, string_view s, std::size_t ns );
 
 public:
 
-- 
2.43.0


From 73d574649ab75d49a4c0b8a2691a69bd9a880bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 30/33] fix: replace a segment in place

---
 include/boost/url/impl/url_base.ipp | 55 +++++++++++++++--------------
 include/boost/url/url_base.hpp      |  4 +++
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 3042979..785f107 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1567,6 +1567,28 @@ insert( iterator pos, string_view s ) ->
     return pos;
 }
 
+// Replace a segment with one of ns characters, to be written to the
+// returned position, and move pos after it.
+char*
+url_base::
+segments_type::
+replace_impl( iterator& pos, string_view s, std::size_t const ns )
+{
+    BOOST_ASSERT(v_ != nullptr);
+    url_base& v = *v_;
+    BOOST_ASSERT(pos.v_ == &v);
+    BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
+    BOOST_ASSERT(pos.off_ < v.pt_.offset[detail::id_query]);
+    if( pos.off_ == v.pt_.offset[detail::id_path] )
+        check_first(s, pos.n_ != v.pt_.length(detail::id_path));
+    // keep the slash
+    std::size_t const lead = v.s_[pos.off_] == '/';
+    auto const dest = splice(pos.off_ + lead, pos.n_ - lead, ns);
+    pos.off_ += lead + ns;
+    pos.parse();
+    return dest;
+}
+
 auto
 url_base::
 segments_type::
@@ -1574,19 +1596,9 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = s.size();
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_encoded(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const dest = replace_impl(pos, s, s.size());
+    s.copy(dest, s.size());
+    return pos;
 }
 
 auto
@@ -1595,19 +1607,10 @@ segments_type::
 replace( iterator pos, string_view s ) ->
     iterator
 {
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = detail::pchar_pct_set().encoded_size(s);
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const pct = detail::pchar_pct_set();
+    auto const dest = replace_impl(pos, s, pct.encoded_size(s));
+    pct.encode(dest, s);
+    return pos;
 }
 
 //----------------------------------------------------------
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index ac39698..41d27a7 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1642,6 +1642,10 @@ private:
     char*
     insert_impl( iterator& pos, string_view s, std::size_t ns );
 
+    BOOST_URL_DECL
+    char*
+    replace_impl( iterator& pos, string_view s, std::size_t ns );
+
 public:
 
     segments_type() = default;
-- 
2.43.0


From d66eb53407f65ed2b4222f12ba6472565001c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:57 +0000
Subject: [PATCH 31/33] fix: erasing the first segment of a relative path

---
 include/boost/url/impl/url_base.ipp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 785f107..c88a192 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1447,13 +1447,20 @@ erase( iterator first, iterator last ) noexcept ->
     BOOST_ASSERT(last.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(first.off_ <= v.pt_.offset[detail::id_query]);
     BOOST_ASSERT(last.off_ <= v.pt_.offset[detail::id_query]);
-    auto const d = last.off_ - first.off_;
-    if( d == 0 )
+    if( first.off_ == last.off_ )
         return first;
-    BOOST_ASSERT(d > 0);
-    int c = 0;
+    BOOST_ASSERT(last.off_ > first.off_);
+    std::size_t c = 0;
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
         c += (*i == '/'); // Count the number of segments in the range
+    if( v.s_[first.off_] != '/' )
+    {
+        // first segment of a relative path
+        ++c;
+        if( last.off_ != v.pt_.offset[detail::id_query] )
+            ++last.off_; // keep the path relative
+    }
+    auto const d = last.off_ - first.off_;
     BOOST_ASSERT(c > 0);
     BOOST_ASSERT(v.pt_.nseg >= c);
     v.pt_.nseg -= c;
-- 
2.43.0


From 1528cb01f171e64294758c26716f99cd5309c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 32/33] fix: inserting after an empty first segment

---
 include/boost/url/impl/url_base.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c88a192..25d44c9 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1533,6 +1533,11 @@ insert_impl( iterator& pos, string_view s, std::size_t const ns )
         check_first(s, ! path.empty());
         relative = ! path.empty() && path.front() != '/';
     }
+    else if( path == "/" && ! v.has_authority() )
+    {
+        // "//" would begin an authority
+        invalid_part::raise();
+    }
     auto dest = splice(pos.off_, 0, ns + 1);
     pos.off_ += ns + 1;
     if( relative )
-- 
2.43.0


From c0d4f154ddcd674a4d121af6613bf86862ab1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:35 +0000
Subject: [PATCH 33/33] fix: erasing before an empty segment of a relative path

---
 include/boost/url/impl/url_base.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 25d44c9..43cf867 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1457,8 +1457,14 @@ erase( iterator first, iterator last ) noexcept ->
     {
         // first segment of a relative path
         ++c;
-        if( last.off_ != v.pt_.offset[detail::id_query] )
-            ++last.off_; // keep the path relative
+        // keep the path relative: it cannot
+        // begin with an empty segment
+        while( last.off_ != v.pt_.offset[detail::id_query] && v.s_[last.off_] == '/' )
+        {
+            ++last.off_;
+            if( last.off_ == v.pt_.offset[detail::id_query] || v.s_[last.off_] == '/' )
+                ++c;
+        }
     }
     auto const d = last.off_ - first.off_;
     BOOST_ASSERT(c > 0);
-- 
2.43.0

