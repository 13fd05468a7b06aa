From cec2113643558bec6b4d76c03fed2fecd08f3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 01/29] fix: next_unbiased must reject against 2^32 mod n

0u - n % n parses as 0u - (n % n) == 0, so no draw was ever rejected and the
result was biased.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..138db34 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From 29dc23599a225027c64f63289582377225b63853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 02/29] fix: to_text of nested arrays, vecs and strings in
 arrays

The array and vec overloads were declared after to_text_n, so unqualified lookup
did not find them for the items and they were shown as '#<ref address>'.
---
 lib/h/ce/ce.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 138db34..658ebd7 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -986,6 +986,10 @@ namespace ce
         }
     }
 
+    // declared before to_text_n so that nested arrays, arrays of vec, ... are found when converting its items
+    template<size_t N, class T> char* to_text(char text[], T const (&values)[N]);
+    template<size_t N, class...U> char* to_text(char text[], vec<N, U...> const& value);
+
     template<class T> char* to_text_n(char text[], size_t n, T const values[])
     {
         text = to_text(text, '[');
-- 
2.43.0


From 9389bd95027aeef48d9585c63fb846f2a4cf0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 03/29] fix: measure vecs (and arrays) by their size

as_string used 1024 chars for any vec, so the text of a vec of vecs of vecs of
double could be written past the end of the buffer.
---
 lib/h/ce/ce.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 658ebd7..b9686b8 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1033,6 +1033,10 @@ namespace ce
 
     template<class T> struct measure<T> { static constexpr size_t value = 1024; };
     template<size_t N> struct measure<char[N]> { static constexpr size_t value = N; };
+    template<size_t N> struct measure<char const[N]> { static constexpr size_t value = N; };
+    template<size_t N, class T> struct measure<T[N]> { static constexpr size_t value = 2 + N * (measure<T>::value + 2); };
+    template<size_t N, class T> struct measure<T const[N]> : measure<T[N]> { };
+    template<size_t N, class...U> struct measure<vec<N, U...>> { static constexpr size_t value = 2 + N * (measure<car_t<U...>>::value + 2); };
     template<> struct measure<char> { static constexpr size_t value = 1; };
     template<> struct measure<signed char> { static constexpr size_t value = 4; };
     template<> struct measure<unsigned char> { static constexpr size_t value = 3; };
-- 
2.43.0


From 39a48d0340bb7027b105286973b7380cb0111cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 04/29] fix: z_query stack size and wrap around at the top of
 the range

A query can push one span per z bit (48), only 32 fit; and hi + 0x0ffff wraps
for boxes that reach the largest coordinates, which returned nothing.
---
 lib/h/ce/zorder.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..0a228b4 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -114,16 +114,18 @@ namespace ce
         size = 0;
 
         //data = z_lower_bound(data, last, lo);
-        last = z_lower_bound(data, last, hi + 0x0ffff);
+        if (hi <= ~uint64_t(0x0ffff))
+            last = z_lower_bound(data, last, hi + 0x0ffff);
 
-        uint64_t spans[32 * 2];
+        // each push splits at a lower bit, at most one per bit
+        uint64_t spans[64 * 2];
         auto next = &spans[0];
 
         while (data < last)
         {
             uint64_t zn = *data++;
 
-            while (zn > hi + 0x0ffff)
+            while (zn > hi && zn - hi > 0x0ffff)
             {
                 // pop
                 if (next <= &spans[0])
@@ -154,7 +156,7 @@ namespace ce
                 }
                 else
                 {
-                    //CE_ASSERT(next < &spans[32 * 2]);
+                    //CE_ASSERT(next < &spans[64 * 2]);
                     // push
                     next[0] = mi;
                     next[1] = hi;
-- 
2.43.0


From b0aed75bbcaca9003724c2a4a088b414c00f0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 05/29] fix: CE_IO_BIND names with a space before the comma

"a , b" gave the names "a" and "".
---
 lib/h/ce/io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..5f44be2 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -46,6 +46,9 @@ namespace ce
                 while (s[k] > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                while (s[k] != '\0' && s[k] <= ' ')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From b542c086021ad7f7992262266c17e1f664f02b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 06/29] fix: nameof of types with a space in their name

Everything up to the first space was dropped: 'unsigned int' was named 'int' and
'pair<int, char>' was named 'char>'. Only drop the leading kind MSVC shows.
---
 lib/h/ce/nameof.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..37e37ad 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,19 @@ namespace ce
             return 0;
         };
 
+        // length of the `enum `, `class `, ... some compilers show before the name of a type
+        static constexpr unsigned skip_kind(char const text[])
+        {
+            constexpr char const* kinds[]{ "enum ", "class ", "struct ", "union " };
+            for (auto kind : kinds)
+            {
+                auto n = same(kind, text);
+                if (kind[n] == '\0')
+                    return n;
+            }
+            return 0;
+        }
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -67,7 +80,7 @@ namespace ce
         template<class T, T...> struct nameof;
         template<class T> struct nameof<T>
         {
-            static constexpr auto _skip = skip(' ', name_type<T>.data);
+            static constexpr auto _skip = skip_kind(name_type<T>.data);
             static constexpr auto text = const_text<name_type<T>.size - _skip>{ name_type<T>.data + _skip };
         };
 
-- 
2.43.0


From c28239df36638d587675d4f708495a85cc6387ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 07/29] fix: nameof / as_enum of nested and anonymous namespace
 enums

Only the first qualifier was dropped, so a scoped enum in a namespace or struct
gave 'color::green' and as_enum could not find 'green'; names of an enum in an
anonymous namespace start with '(' and were taken to be unknown.
---
 lib/h/ce/nameof.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 37e37ad..42c6dd5 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -37,12 +37,14 @@ namespace ce
                     return i;
         }
 
+        // length of everything up to and including the last `what`
         static constexpr unsigned skip(char what, char const text[])
         {
+            unsigned last = 0;
             for (unsigned n = 0; text[n] != 0; ++n)
-                if (text[n] == what && text[n + 1] != what)
-                    return n + 1;
-            return 0;
+                if (text[n] == what)
+                    last = n + 1;
+            return last;
         };
 
         // length of the `enum `, `class `, ... some compilers show before the name of a type
@@ -86,7 +88,8 @@ namespace ce
 
         template<class T, T N> struct nameof<T, N>
         {
-            static constexpr bool is_known = name_item<N>.data[0] != '(';
+            // an unknown item is shown as a cast of its value, but a name can also start with "(anonymous namespace)::"
+            static constexpr bool is_known = name_item<N>.data[0] != '(' || name_item<N>.data[skip(')', name_item<N>.data)] == ':';
             static constexpr auto _skip = skip(':', name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
-- 
2.43.0


From 97fb818ed4185924f59ce5f6d8ddc391ba24ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 08/29] fix: in_range_rr_edge accepted points past the end of
 the edge

The projection of the point must be on the edge, but a point closer than the
range to the start was accepted even if it projects past the end.
---
 lib/h/ce/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e478e5d..e7cbc48 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -151,14 +151,14 @@ namespace ce
             if (dp < 0)
                 return false;
 
-            auto pp = int64_t(px) * px + int64_t(py) * py;
-            if (pp < rr)
-                return true;
-
             auto dd = int64_t(dx) * dx + int64_t(dy) * dy;
             if (dp > dd)
                 return false;
 
+            auto pp = int64_t(px) * px + int64_t(py) * py;
+            if (pp < rr)
+                return true;
+
             return ab_less_cd(dd, pp - rr, dp, dp);
         };
 
-- 
2.43.0


From 003acd14d7f4ce65061c646719294f087d722d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 09/29] fix: muldiv (and intersect) lost the divisor's low 16
 bits

For |d| < 65536 the factor was dropped and the intersection of two lines came
back as the end of the first one; for larger d it was imprecise.
---
 lib/h/ce/math.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e7cbc48..838098e 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -81,12 +81,19 @@ namespace ce
 #endif
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
-            int64_t d16 = d >> 16;
-
-            if (d16 == 0)
+            if (d == 0)
                 return b;
 
-            int64_t t = (n << 16) / d16;
+            if (d < 0)
+                n = -n, d = -d;
+
+            // 32.32 fixed point factor: whole part, then the fraction with the divisor reduced to 31 bits
+            int64_t q = n / d;
+            int64_t r = n % d;
+            while (d >> 31 != 0)
+                d >>= 1, r >>= 1;
+
+            int64_t t = q * 0x0000000100000000 + r * 0x0000000100000000 / d;
 
             //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
             return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
-- 
2.43.0


From cfbbd66ca39448d6231cdc946391a6c07b989ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 10/29] fix: limit the depth of intro_sort

The fall back to heap sort was missing, so many equal items took quadratic time
and linear stack (a crash from about 10^5 items).
---
 lib/h/ce/sort.h | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/sort.h b/lib/h/ce/sort.h
index cb73e05..d706af4 100644
--- a/lib/h/ce/sort.h
+++ b/lib/h/ce/sort.h
@@ -78,6 +78,37 @@ namespace ce
         return p;
     }
 
+    template<class T>
+    void heap_sort(T* a, T* b)
+    {
+        size_t n = b - a;
+
+        // move `k` down from `i` into the max heap of `size` items
+        auto lower = [a](size_t size, T k, size_t i)
+        {
+            for (size_t c; (c = i * 2 + 1) < size; i = c)
+            {
+                if (c + 1 < size && a[c] < a[c + 1])
+                    ++c;
+                if (!(k < a[c]))
+                    break;
+                a[i] = a[c];
+            }
+            a[i] = k;
+        };
+
+        for (size_t i = n / 2; i > 0; --i)
+            lower(n, a[i - 1], i - 1);
+
+        while (n > 1)
+        {
+            --n;
+            T k = a[n];
+            a[n] = a[0];
+            lower(n, k, 0);
+        }
+    }
+
     template<size_t N, class T>
     void intro_sort(T* a, T* b, size_t intro)
     {
@@ -85,8 +116,8 @@ namespace ce
         if (n < N)
             return insertion_sort(a, b);
 
-        //if (limit == 0)
-        //    return heap_sort();
+        if (intro == 0)
+            return heap_sort(a, b);
 
         T* p = partition(a, b);
         size_t limit = intro / 2;
-- 
2.43.0


From 1dd8890520e7c84180ad74e8836f34a468d01d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 11/29] fix: dictionary key 0 was never found

With no heap the linear scan started at the unused entry 0, so a key equal to
its (zero) name ended the search with nil: find(0) missed and every bind(0)
added another entry.
---
 lib/h/ce/dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..4accf6e 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -51,7 +51,7 @@ namespace ce
                     return ptr_t(i);
 
             // linear scan
-            for (size_t i = heap; i < size; ++i)
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From 4cf2b64c6b98600cf15df4158d3416356eb76be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 12/29] fix: bind to a dictionary of one entry wrote past its
 end

Entry 0 is not used, so dictionary<1, ...> has no room, but the first bind was
given entry 1.
---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index 4accf6e..8c12d9d 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,10 +64,10 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                i = size + !size; // add 1 if size == 0 so we don't allocate 0
+                if (i >= N)
                     return ptr_t::nil;
 
-                i = size + !size; // add 1 if size == 0 so we don't allocate 0
                 size = i + 1;
 
                 names[i] = n;
-- 
2.43.0


From cbf5f9bd93fdaab9f7b38b72eb09882b15377e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 13/29] fix: CE_LOG(fail, ...) as documented

The README example logs at level 'fail' and shows 'F:', but the level was not
known and logged as 'M:'.
---
 lib/h/ce/ce.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index b9686b8..bd86849 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1187,6 +1187,7 @@ namespace ce
 }
 
 #define _CE_LOG_fatal ~, 0
+#define _CE_LOG_fail ~, 0
 #define _CE_LOG_error ~, 1
 #define _CE_LOG_warn ~, 2
 #define _CE_LOG_note ~, 3
-- 
2.43.0


From e6715c64a3494a924157b06d0c919d689369d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 14/29] fix: keep non ascii characters at the ends of log names

utf-8 bytes are negative chars, so they were trimmed as if they were spaces.
---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index bd86849..c58574f 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1131,7 +1131,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (uint8_t(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1161,7 +1161,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (uint8_t(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
-- 
2.43.0


From 1edec0ee184085dba2046e80458170ca33f37795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 15/29] fix: CE_IO_BIND names with non ascii characters

utf-8 bytes are negative chars, so they ended the name as if they were spaces.
---
 lib/h/ce/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index 5f44be2..17d831e 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,13 +40,13 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (uint8_t(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
                     ++k;
 
                 if (s[k] == ',')
-- 
2.43.0


From b4d4949a38a2f203fc2bdd25a650cabe9b15984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 16/29] fix: as_string of arrays

Arrays decayed to pointers on the way to to_text, so as_string and CE_LOG showed
the address of an array instead of its items, and read past the end of a char
array that fills all of its space.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index c58574f..6b488b9 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1049,7 +1049,7 @@ namespace ce
     template<> struct measure<long long> { static constexpr size_t value = 20; };          // -9223372036854775808
     template<> struct measure<unsigned long long> { static constexpr size_t value = 20; }; // 18??????????????????
 
-    template<class T> inline char* to_text_m(char* text, T from)
+    template<class T> inline char* to_text_m(char* text, T const& from)
     {
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
-- 
2.43.0


From fde5628c643aaf8b0ea6ca00d232d02a2eba45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 17/29] fix: bulk::back did not compile

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 6b488b9..8716010 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1373,8 +1373,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 257a32cf5d660cb746bee3143a81738cb739842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 18/29] fix: locating a point could go in circles around
 constrained edges

---
 lib/h/ce/cdt.h | 66 ++++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..b3cd2ac 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -512,18 +512,6 @@ namespace ce
 
         size_t locate_insertion_node(int64_t px, int64_t py, size_t hint) const
         {
-#if 0
-            for (size_t f = size * 2; --f >= 6;)
-            {
-                vec2<int64_t> a{ vs[fs[f].p0].x - px, vs[fs[f].p0].y - py };
-                vec2<int64_t> b{ vs[fs[f].p1].x - px, vs[fs[f].p1].y - py };
-                vec2<int64_t> c{ vs[fs[f].p2].x - px, vs[fs[f].p2].y - py };
-
-                if (in(a, b) && in(b, c) && in(c, a))
-                    return f * 4;
-            }
-            return 0;
-#else
             if (hint < 24 || hint >= size * 8)
                 hint = size * 8 - 4;
 
@@ -537,7 +525,11 @@ namespace ce
             if (!in(p1, p2))
                 e = es[e].e, t = p1, p1 = p2, p2 = t;
 
-            while (e != 0)
+            // the walk can go in circles where constraints keep the mesh from being delaunay
+            // so look at every face if it takes more steps than there are faces
+            auto steps = size * 2;
+
+            while (e != 0 && steps-- > 0)
             {
                 vec2<int64_t> p0{ vs[es[e].p].x - px, vs[es[e].p].y - py };
 
@@ -581,8 +573,20 @@ namespace ce
                     e = es[e % 4 < 2 ? e + 1 : e - 2].e, p1 = p0;
                 }
             }
+
+            if (e == 0)
+                return 0;
+
+            for (size_t f = size * 2; --f >= 6;)
+            {
+                vec2<int64_t> a{ vs[fs[f].p0].x - px, vs[fs[f].p0].y - py };
+                vec2<int64_t> b{ vs[fs[f].p1].x - px, vs[fs[f].p1].y - py };
+                vec2<int64_t> c{ vs[fs[f].p2].x - px, vs[fs[f].p2].y - py };
+
+                if (in(a, b) && in(b, c) && in(c, a))
+                    return f * 4;
+            }
             return 0;
-#endif
         }
 
         size_t insert_point_at_node(int64_t px, int64_t py, size_t n)
@@ -958,18 +962,6 @@ namespace ce
 
         uint locate(int32_t px, int32_t py, uint hint) const
         {
-#if 0
-            for (size_t f = size * 2; --f >= 6;)
-            {
-                vec2<int32_t> a{ vs[fs[f].p0].x * m2w32 - px, vs[fs[f].p0].y * m2w32 - py };
-                vec2<int32_t> b{ vs[fs[f].p1].x * m2w32 - px, vs[fs[f].p1].y * m2w32 - py };
-                vec2<int32_t> c{ vs[fs[f].p2].x * m2w32 - px, vs[fs[f].p2].y * m2w32 - py };
-
-                if (inside(a, b) && inside(b, c) && inside(c, a))
-                    return f * 4;
-            }
-            return 0;
-#else
             auto e = hint & ~3;
             if (e < 24 || e > size * 8 - 4)
                 e = uint(size * 8 - 4);
@@ -982,7 +974,11 @@ namespace ce
             if (!inside(p1, p2))
                 e = es[e].e, t = p1, p1 = p2, p2 = t;
 
-            while (e != 0)
+            // the walk can go in circles where constraints keep the mesh from being delaunay
+            // so look at every face if it takes more steps than there are faces
+            auto steps = size * 2;
+
+            while (e != 0 && steps-- > 0)
             {
                 vec2<int32_t> p0{ vs[es[e].p].x * m2w32 - px, vs[es[e].p].y * m2w32 - py };
 
@@ -1025,8 +1021,20 @@ namespace ce
                     e = es[e % 4 < 2 ? e + 1 : e - 2].e, p1 = p0;
                 }
             }
-            return e;
-#endif
+
+            if (e == 0)
+                return 0;
+
+            for (size_t f = size * 2; --f >= 6;)
+            {
+                vec2<int32_t> a{ vs[fs[f].p0].x * m2w32 - px, vs[fs[f].p0].y * m2w32 - py };
+                vec2<int32_t> b{ vs[fs[f].p1].x * m2w32 - px, vs[fs[f].p1].y * m2w32 - py };
+                vec2<int32_t> c{ vs[fs[f].p2].x * m2w32 - px, vs[fs[f].p2].y * m2w32 - py };
+
+                if (inside(a, b) && inside(b, c) && inside(c, a))
+                    return uint(f * 4 + 3);
+            }
+            return 0;
         }
 
         uint locate(vec2<int32_t> const& p, uint hint) const { return locate(p.x, p.y, hint); }
-- 
2.43.0


From 411afbd95685bbb0eecc88ae92b58be11ea088c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 19/29] fix: nameof of 64 bit enum values beyond 32 bits

---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 42c6dd5..368546c 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -105,11 +105,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return static_cast<unsigned long long>(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (static_cast<unsigned long long>(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0


From 118e4538ad0f1f14c2e955d368b01e95f0bd5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 20/29] fix: get of an aggregate's member did not compile

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 8716010..1f529c9 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -419,10 +419,10 @@ namespace ce
         template<size_t N, class T, class...Ts> auto get(items<size_t, N>, T, Ts...ts) { return get(items<size_t, N - 1>{}, ts...); }
 
         template<class T, size_t N, size_t = arrity_count<T>::value> struct crack { static detail::any get(T) = delete; };
-        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return get(items<size_t, N>{}, _0); } };
-        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return get(items<size_t, N>{}, _0, _1); } };
-        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return get(items<size_t, N>{}, _0, _1, _2); } };
-        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return get(items<size_t, N>{}, _0, _1, _2, _3); } };
+        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return detail::get(items<size_t, N>{}, _0); } };
+        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return detail::get(items<size_t, N>{}, _0, _1); } };
+        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return detail::get(items<size_t, N>{}, _0, _1, _2); } };
+        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return detail::get(items<size_t, N>{}, _0, _1, _2, _3); } };
 #else
         template<class T, size_t N> struct crack { static detail::any get(T) = delete; };
         template<class T> struct crack<T, 0> { static auto get(T t) { return t._0; } };
-- 
2.43.0


From b92ca067be77d689816898b6444651d49fc3f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 21/29] fix: sleeping went on too short when a signal handler
 ran

---
 lib/os_posix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/os_posix.cpp b/lib/os_posix.cpp
index 519133a..c7eac88 100644
--- a/lib/os_posix.cpp
+++ b/lib/os_posix.cpp
@@ -26,6 +26,7 @@ SOFTWARE.
 
 #if CE_API_POSIX
 
+#include <errno.h>
 #include <unistd.h>
 #include <time.h>
 
@@ -68,7 +69,9 @@ namespace ce
                 ts.tv_sec = ns / 1000000000u;
                 ts.tv_nsec = ns % 1000000000u;
             }
-            nanosleep(&ts, nullptr);
+            // a signal handler ends the sleep early, go on with what is left
+            while (nanosleep(&ts, &ts) == -1 && errno == EINTR)
+                ;
         }
 
         file_t open_file(char const [])
-- 
2.43.0


From 19fe0dabf6f162fe4aaa249646141fdf1b12e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 22/29] fix: debug output was lost or cut when a write was
 interrupted or short

---
 lib/os_posix.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/os_posix.cpp b/lib/os_posix.cpp
index c7eac88..64e9d21 100644
--- a/lib/os_posix.cpp
+++ b/lib/os_posix.cpp
@@ -39,7 +39,15 @@ namespace ce
             if (text == nullptr)
                 return;
 
-            write(STDERR_FILENO, text, __builtin_strlen(text));
+            // a write can be interrupted or take less than all of it
+            for (size_t n = __builtin_strlen(text); n > 0;)
+            {
+                auto done = write(STDERR_FILENO, text, n);
+                if (done > 0)
+                    text += done, n -= size_t(done);
+                else if (done == 0 || errno != EINTR)
+                    return;
+            }
         }
 
         uint64_t monotonic_timestamp()
-- 
2.43.0


From e9a66194ed20256555b6932dbdb6966694d1ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 23/29] fix: digit separators are no quotes in the names of log
 values

---
 lib/h/ce/ce.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 1f529c9..b2739f4 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1123,6 +1123,17 @@ namespace ce
         char text[N]{ };
         char const* data[COUNT + !COUNT]{ };
 
+        // true if the text ends with (part of) a number, where ' separates digits
+        static constexpr bool in_number(char const* text, char const* end)
+        {
+            auto digit = [](char c) { return '0' <= c && c <= '9'; };
+            auto word = [&](char c) { return digit(c) || 'a' <= (c | 32) && (c | 32) <= 'z' || c == '_' || c == '.' || c == '\''; };
+            auto p = end;
+            while (p != text && word(p[-1]))
+                --p;
+            return p != end && (digit(p[0]) || p[0] == '.');
+        }
+
         constexpr names(char const* src)
         {
             size_t i = 0;
@@ -1147,7 +1158,7 @@ namespace ce
                     {
                         if (*src == ',' && (balance == 0 || src[1] == '\0'))
                             break;
-                        else if (*src == '"' || *src == '\'')
+                        else if (*src == '"' || *src == '\'' && !in_number(name, text + i))
                             quote = *src;
                         else if (*src == '(' || *src == '[' || *src == '{')
                             balance += 1;
-- 
2.43.0


From 4db0a6be88ec7058833814fe030d04360a214281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 24/29] fix: raw strings end with their own delimiter in the
 names of log values

---
 lib/h/ce/ce.h | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index b2739f4..737634a 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1123,15 +1123,44 @@ namespace ce
         char text[N]{ };
         char const* data[COUNT + !COUNT]{ };
 
+        // start of the identifier or (part of a) number the text ends with
+        static constexpr char const* last_word(char const* text, char const* end)
+        {
+            auto word = [](char c) { return '0' <= c && c <= '9' || 'a' <= (c | 32) && (c | 32) <= 'z' || c == '_' || c == '.' || c == '\''; };
+            while (end != text && word(end[-1]))
+                --end;
+            return end;
+        }
+
         // true if the text ends with (part of) a number, where ' separates digits
         static constexpr bool in_number(char const* text, char const* end)
         {
-            auto digit = [](char c) { return '0' <= c && c <= '9'; };
-            auto word = [&](char c) { return digit(c) || 'a' <= (c | 32) && (c | 32) <= 'z' || c == '_' || c == '.' || c == '\''; };
-            auto p = end;
-            while (p != text && word(p[-1]))
-                --p;
-            return p != end && (digit(p[0]) || p[0] == '.');
+            auto p = last_word(text, end);
+            return p != end && ('0' <= *p && *p <= '9' || *p == '.');
+        }
+
+        // true if the text ends with the prefix of a raw string: R LR uR UR u8R
+        static constexpr bool in_raw(char const* text, char const* end)
+        {
+            auto p = last_word(text, end);
+            if (end - p > 1 && (*p == 'L' || *p == 'u' || *p == 'U'))
+                p += p[0] == 'u' && p[1] == '8' ? 2 : 1;
+            return end - p == 1 && *p == 'R';
+        }
+
+        // true if end is the quote that ends the raw string starting at text
+        static constexpr bool ends_raw(char const* text, char const* end)
+        {
+            auto p = text;
+            while (*p != '(')
+                ++p;
+            auto size = p - text;
+            if (end - p < size + 2 || end[-size - 1] != ')')
+                return false;
+            for (; size != 0; --size)
+                if (*--p != *--end)
+                    return false;
+            return true;
         }
 
         constexpr names(char const* src)
@@ -1149,6 +1178,7 @@ namespace ce
                 int balance = &name - data + 1 == COUNT ? 1 : 0;
                 char quote = 0;
                 bool escape = false;
+                char const* raw = nullptr;
                 size_t trim = i;
 
                 // copy until comma (with balanced ()[]{} and not in a string or char) or eos
@@ -1159,12 +1189,17 @@ namespace ce
                         if (*src == ',' && (balance == 0 || src[1] == '\0'))
                             break;
                         else if (*src == '"' || *src == '\'' && !in_number(name, text + i))
+                        {
                             quote = *src;
+                            raw = quote == '"' && in_raw(name, text + i) ? src + 1 : nullptr;
+                        }
                         else if (*src == '(' || *src == '[' || *src == '{')
                             balance += 1;
                         else if (*src == ')' || *src == ']' || *src == '}')
                             balance -= 1;
                     }
+                    else if (raw != nullptr)
+                        quote = *src == quote && ends_raw(raw, src) ? 0 : quote;
                     else if (escape)
                         escape = false;
                     else if (*src == '\\')
-- 
2.43.0


From 88ed39391332ea25fe572bca17fe4e1773f05394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 25/29] fix: text of null strings among values read through the
 null pointer

---
 lib/h/ce/ce.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 737634a..4c82f35 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1054,7 +1054,7 @@ namespace ce
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
         {
-            return to_text_s(text, measure<T>::value, from);
+            return from == nullptr ? to_text_p(text, "#<nil>") : to_text_s(text, measure<T>::value, from);
         }
         else
         {
@@ -1081,6 +1081,8 @@ namespace ce
     template<> struct as_string<char const*>
     {
         char const* as;
+
+        as_string(char const* value) : as{ value == nullptr ? "#<nil>" : value } { }
     };
 
     template<class...Ts> as_string(Ts const&...)->as_string<Ts const&...>;
-- 
2.43.0


From f9e762a47347da3df99f1c6c8b3d69740b3356bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 26/29] fix: text of arrays of long strings overflowed the
 storage measured for it

---
 lib/h/ce/ce.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 4c82f35..8830c27 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1049,13 +1049,40 @@ namespace ce
     template<> struct measure<long long> { static constexpr size_t value = 20; };          // -9223372036854775808
     template<> struct measure<unsigned long long> { static constexpr size_t value = 20; }; // 18??????????????????
 
-    template<class T> inline char* to_text_m(char* text, T const& from)
+    // strings are cut to what is measured for them, so are the strings in arrays and vecs
+    template<class T> struct has_strings : items<bool, is_same<T, char const*>::value || is_same<T, char*>::value> { };
+    template<class T> struct has_strings<T const> : has_strings<T> { };
+    template<size_t N, class T> struct has_strings<T[N]> : has_strings<T> { };
+    template<size_t N, class T> struct has_strings<T const[N]> : has_strings<T> { };
+    template<size_t N, class...U> struct has_strings<vec<N, U...>> : has_strings<car_t<U...>> { };
+
+    template<class T> char* to_text_m(char* text, T const& from);
+
+    template<class T> char* to_text_mn(char* text, size_t n, T const values[])
+    {
+        text = to_text(text, '[');
+
+        char const* p = "";
+        for (size_t i = 0; i < n; p = ", ", ++i)
+            text = to_text_m(to_text(text, p), values[i]);
+
+        return to_text(text, ']');
+    }
+
+    template<size_t N, class T> char* to_text_mi(char* text, T const (&values)[N]) { return to_text_mn(text, N, &values[0]); }
+    template<size_t N, class...U> char* to_text_mi(char* text, vec<N, U...> const& value) { return to_text_mn(text, N, &value.x); }
+
+    template<class T> char* to_text_m(char* text, T const& from)
     {
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
         {
             return from == nullptr ? to_text_p(text, "#<nil>") : to_text_s(text, measure<T>::value, from);
         }
+        else if constexpr (has_strings<U>::value)
+        {
+            return to_text_mi(text, from);
+        }
         else
         {
             return to_text(text, from);
-- 
2.43.0


From 9ed8d6ff9058e7ce8c72ae846dd2d6b207bdb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 27/29] fix: text of a char array without a terminator was not
 terminated

---
 lib/h/ce/ce.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 8830c27..108df4e 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1102,7 +1102,22 @@ namespace ce
 
     template<size_t N> struct as_string<char const (&)[N]>
     {
-        char const (&as)[N];
+        char copy[N + 1];
+        char const* as;
+
+        // an array without a terminator is copied to get one
+        as_string(char const (&value)[N]) : as{ value }
+        {
+            size_t n = 0;
+            while (n < N && value[n] != 0)
+                ++n;
+
+            if (n == N)
+                *to_text_s(copy, N, value) = '\0', as = copy;
+        }
+
+        as_string(as_string const&) = delete;
+        as_string& operator=(as_string const&) = delete;
     };
 
     template<> struct as_string<char const*>
@@ -1112,9 +1127,12 @@ namespace ce
         as_string(char const* value) : as{ value == nullptr ? "#<nil>" : value } { }
     };
 
-    template<class...Ts> as_string(Ts const&...)->as_string<Ts const&...>;
+    template<> struct as_string<char const* const&> : as_string<char const*>
+    {
+        using as_string<char const*>::as_string;
+    };
 
-    as_string(char const*)->as_string<char const*>;
+    template<class...Ts> as_string(Ts const&...)->as_string<Ts const&...>;
 
     template<class...Ts> bool call_error_hook(char const info[], Ts const*... args)
     {
-- 
2.43.0


From c5c03584607d463cdf708ffae966457750157c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 28/29] fix: a program's own name next or next32 broke the
 random number generators

---
 lib/h/ce/ce.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 108df4e..cec9f9e 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -704,6 +704,9 @@ namespace ce
 
     namespace random
     {
+        // declared ahead of the generators: in their members a name of the program, next, would hide theirs
+        template<class T> inline uint32_t next(T& g);
+
         // 64 bit state - 32 bit result
         // http://prng.di.unimi.it/xoroshiro64starstar.c
 
@@ -733,8 +736,8 @@ namespace ce
             friend uint32_t next32(xoroshiro64ss& g) { return next(g); }
             friend uint64_t next64(xoroshiro64ss& g)
             {
-                uint64_t a = next32(g);
-                return (a << 32) | next32(g);
+                uint64_t a = next(g);
+                return (a << 32) | next(g);
             }
 
         };
-- 
2.43.0


From 73b326572c6f8a30f3bc50e65a137ed17eb81a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:10 +0000
Subject: [PATCH 29/29] fix: sleep_ns on Windows slept less than asked for, or
 for ever

---
 lib/os_win32.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/os_win32.cpp b/lib/os_win32.cpp
index 4d69bff..988fc1d 100644
--- a/lib/os_win32.cpp
+++ b/lib/os_win32.cpp
@@ -91,15 +91,15 @@ namespace ce
 
         void sleep_ns(uint64_t ns)
         {
-            DWORD ms = 0;
-            if (ns != 0)
+            // whole milliseconds, never less than asked for
+            auto ms64 = ns / 1000000u + (ns % 1000000u != 0);
+            do
             {
-                auto ms64 = ns < 1000000u ? 1 : ns / 1000000u;
-                ms = (DWORD)ms64;
-                if (ms != ms64)
-                    ms = ~(DWORD)0;
-            }
-            SleepEx(ms, FALSE);
+                // ~0 would be INFINITE
+                DWORD ms = ms64 < ~(DWORD)0 ? (DWORD)ms64 : ~(DWORD)0 - 1;
+                SleepEx(ms, FALSE);
+                ms64 -= ms;
+            } while (ms64 != 0);
         }
 
         file_t open_file(char const path[])
-- 
2.43.0

