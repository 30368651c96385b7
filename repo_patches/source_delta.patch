From 7822b211a93e865126fc36d5460edc91fabc24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:23 +0000
Subject: [PATCH 01/57] fix: insert at index 0 of a longer array no longer
 discards the existing contents

---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..6252a16 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1065,8 +1065,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just take a reference of theirs */
+      if (isEmpty() && slen > 0 && n == slen) {
         *this = rca;
         return;
       }
@@ -1093,8 +1093,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just take a reference of theirs */
+      if (isEmpty() && slen > 0) {
         *this = rca;
         return;
       }
@@ -1120,8 +1120,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just move theirs */
+      if (isEmpty() && slen > 0 && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1148,8 +1148,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just move theirs */
+      if (isEmpty() && slen > 0) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From 46bcb688bbc6448f82dce4d594f1e33963877d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 02/57] fix: reserve() on a shared buffer corrupted the other
 owners

---
 src/ReferenceCountedArray.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 6252a16..fb3803c 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -605,6 +605,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     virtual void reserve(const size_t newSize,
         double scaling_factor = 1) const {
+      if (isShared()) {
+        // Never reallocate or shift a buffer that others are using
+        COW(std::max(newSize, length()));
+        return;
+      }
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
       }
-- 
2.43.0


From c6187bf5458d057e69bd447ea47cca60d624eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:53 +0000
Subject: [PATCH 03/57] fix: String::reserve() overwrote the last character of
 an exactly full buffer

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 762f842..5f4cd6b 100755
--- a/src/String.h
+++ b/src/String.h
@@ -138,7 +138,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             double scaling_factor = 1) const override {
           const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
-          if (constBuf() != nullptr) {
+          if (constBuf() != nullptr && offset + length() < capacity()) {
             *Buf(capacity() - offset - 1) = '\0';
           }
         }
-- 
2.43.0


From 53950839ec52ac75adff3aae458a0ba3b56801e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 04/57] fix: replace() of one item at index length() wrote past
 the end of the array

---
 src/ReferenceCountedArray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index fb3803c..0d45b9d 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1218,7 +1218,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      const auto newlen = std::max(length(), pos + 1);
+      AboutToModify(newlen);
+      sublen = newlen;
       *(Buf(pos)) = item;
     }
 
@@ -1233,7 +1235,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      const auto newlen = std::max(length(), pos + 1);
+      AboutToModify(newlen);
+      sublen = newlen;
       *(Buf(pos)) = std::move(item);
     }
 
-- 
2.43.0


From a2b57fad44c3418a9f09e9b08fad3c739db95554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:53 +0000
Subject: [PATCH 05/57] fix: slice() with a length reaching before its start
 produced a huge length

---
 src/ReferenceCountedArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 0d45b9d..29a12ff 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -980,7 +980,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         len = length() - start;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = std::max<ssize_t>(length() - start + len, 0);
       setLength(len);
     }
 
-- 
2.43.0


From 0da962986a28d63d336c8774dbb569842cb09ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:17 +0000
Subject: [PATCH 06/57] fix: resize() with a value leaked the elements it
 constructed over

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 29a12ff..02c44e4 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -652,14 +652,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        // The whole capacity is already constructed by ArrayRef::reserve()
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From 04ada81ce893979f02cf2aa0c1e3d2b87ab35059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:42 +0000
Subject: [PATCH 07/57] fix: a moved-from array kept its length with no buffer
 behind it

---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 02c44e4..3c43a88 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -443,11 +443,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -549,11 +547,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From 6c3594f93f72aa480583a7ccfa7333c0d6d5d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:05 +0000
Subject: [PATCH 08/57] fix: copy-on-write gave up its reference before copying
 the shared buffer

---
 src/ReferenceCountedArray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 3c43a88..e158031 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -381,14 +381,14 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * Also take a hint size n of the new ReferenceCountedArray's size as to avoid needless copying/allocing.
      */
     inline void COW(size_t n) const {
-      const_pointer oldBuf = constBuf();
-      const size_t oldLength = length();
+      // Hold the old buffer until it is copied, the other owners may be going away
+      const ReferenceCountedArray old(*this);
 
       assert(isShared());
       doDetach(); //Detach from the shared reference
       reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
-      sublen = std::min(oldLength, n);
-      std::copy(oldBuf, oldBuf + sublen, Buf());
+      sublen = std::min(old.length(), n);
+      std::copy(old.cbegin(), old.cbegin() + sublen, Buf());
     }
 
   protected:
-- 
2.43.0


From 9ec2a2fb5e9bf8578a96bfac77ac0c7514010746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:27 +0000
Subject: [PATCH 09/57] fix: writing through front(), back() or read() changed
 every object sharing the buffer

---
 src/Array.h                 |  4 +++-
 src/ReferenceCountedArray.h | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..5901e4a 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -127,7 +127,9 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index e158031..8815346 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -826,7 +826,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @sa at()
      * Unlike at() this is unchecked.
      */
-    inline reference read(size_t pos) noexcept __attribute__((pure)) {
+    inline reference read(size_t pos) {
+      getOwnCopy();
       return *(Buf(pos));
     };
     inline const_reference read(size_t pos) const noexcept __attribute__((pure)) {
@@ -886,7 +887,6 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element but does a COW since it may be written to.
          */
         inline reference mget(void) {
-          rca.getOwnCopy();
           return rca.read(start);
         }
 
@@ -894,7 +894,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element without a COW.
          */
         inline const_reference get(void) const noexcept __attribute__((pure)) {
-          return rca.read(start);
+          return static_cast<const ReferenceCountedArray&>(rca).read(start);
         }
 
         /**
@@ -910,7 +910,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         };
 
 #ifdef CPPUNIT_VERSION
-        inline size_t rcount() const noexcept { return rca.read(start).rcount(); }
+        inline size_t rcount() const noexcept { return get().rcount(); }
         inline intptr_t rptr() const noexcept __attribute__((pure)) { return get().rptr(); }
 #endif
     };
@@ -986,7 +986,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -994,7 +995,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From 3d2dac0b8a6e89b48e51e9c44fc47e504aeb4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:04 +0000
Subject: [PATCH 10/57] fix: c_str() read one past the end of an exactly full
 buffer

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 5f4cd6b..19659a8 100755
--- a/src/String.h
+++ b/src/String.h
@@ -234,7 +234,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (offset + length() >= capacity() || *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From 749ad094d9293730828757811d08b881f4d1e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 11/57] fix: comparing a String holding a NUL with a cstring
 read past the end of the cstring

---
 src/String.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..f40feb7 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -78,8 +78,11 @@ int String::compare(const String& str, size_t n) const noexcept
 int String::compare(const char* str) const noexcept
 {
   for (size_t pos = 0; pos < length(); ++pos) {
-    if (*constBuf(pos) != *str++)
-      return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    if (*constBuf(pos) != *str)
+      return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)str;
+    // We have a character, even if it is a '\0', where the cstring has ended
+    if (*str++ == '\0')
+      return 1;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
@@ -89,8 +92,13 @@ int String::compare(const char* str, size_t n) const noexcept
   if (n == 0)
     return 0;
   for (size_t pos = 0; pos < length(); ++pos) {
-    if (*constBuf(pos) != *str++ || --n == 0)
-      return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    if (*constBuf(pos) != *str)
+      return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)str;
+    // We have a character, even if it is a '\0', where the cstring has ended
+    if (*str++ == '\0')
+      return 1;
+    if (--n == 0)
+      return 0;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
-- 
2.43.0


From d3a40e2f0e5b497bdeacd43ad2747e83bf643d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:08 +0000
Subject: [PATCH 12/57] fix: rifind() ignored its lpos argument

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index f40feb7..029cf32 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -308,7 +308,7 @@ size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
   std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
   std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
-  return this_upper.rfind(str_upper);
+  return this_upper.rfind(str_upper, lpos);
 }
 
 size_t String::rfind(const String& str, const size_t lpos) const noexcept {
-- 
2.43.0


From 2817478b9e6347dcc94ac13193395527c89a1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:11 +0000
Subject: [PATCH 13/57] fix: split() and sub() never returned when given an
 empty string to look for

---
 src/String.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 029cf32..f80f0ae 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -219,7 +219,7 @@ Array<String> String::split(const String& delim, size_t limit) const {
     // All done when there's nothing left
     if (it >= cend()) break;
 
-    if ((pos = _find(delim, it - cbegin())) == npos)
+    if (delim.isEmpty() || (pos = _find(delim, it - cbegin())) == npos)
       pos = cend() - it;
     array << (*this)(it - cbegin(), pos);
     assert(++ref);
@@ -325,6 +325,7 @@ size_t String::rfind(const String& str, const size_t lpos) const noexcept {
 }
 
 String String::sub(const String& search, const String& replacement, int limit) const {
+  if (search.isEmpty()) return *this;
   String newStr(length()), search_str(*this);
   size_type pos = 0;
   auto cnt = 0;
-- 
2.43.0


From 6a9e80cbfcb6108538d6c326b234ce1c73a17569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:15 +0000
Subject: [PATCH 14/57] fix: String::printf() read past its buffer when the
 output was longer than it

---
 src/String.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index f80f0ae..70a3ed8 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -258,6 +258,17 @@ String String::printf(const char* format, ...) {
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
 
+  if (len < 0)
+    return String();
+  if (size_t(len) >= sizeof(va_out)) {
+    // Did not fit, format again into a buffer with room for the trailing '\0'
+    String out(size_t(len), '\0');
+    out.reserve(len);
+    va_start(va, format);
+    vsnprintf(out.mdata(), size_t(len) + 1, format, va);
+    va_end(va);
+    return out;
+  }
   return String(va_out, len);
 }
 
-- 
2.43.0


From 8d3c254ba0e7960e521dc574ec5474930094920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:52 +0000
Subject: [PATCH 15/57] fix: join() of empty strings with an empty delimiter
 tried to allocate the whole address space

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 5901e4a..a0831e4 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -157,7 +157,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From 940635e3295423a0daa311941e855cfb1e3e3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:10 +0000
Subject: [PATCH 16/57] fix: Array += of a temporary Array did not compile

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index a0831e4..b98dc4d 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -322,7 +322,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array& operator+=(Array&& array) & {
-      append(std::move(array));
+      this->append(std::move(array));
       return *this;
     }
 
-- 
2.43.0


From 392bc70d166a3113f28ac99d7efb2de30fee62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:42 +0000
Subject: [PATCH 17/57] fix: insert(), replace() and write() of one of the
 array's own elements used it after it was freed

---
 src/ReferenceCountedArray.h | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 8815346..c96f640 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -838,8 +838,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      // Copy it first as it may be one of our own elements
+      write(pos, value_type(item));
     };
     inline void write(size_t pos, value_type&& item) {
       getOwnCopy();
@@ -1169,14 +1169,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const_reference item)
     {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      AboutToModify(length() + 1);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
-      ++sublen;
+      // Copy it first as it may be one of our own elements
+      insert(pos, value_type(item));
     }
 
     /**
@@ -1207,13 +1201,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post COW is done if needed.
      */
     void replace(size_t pos, const_reference item) {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      const auto newlen = std::max(length(), pos + 1);
-      AboutToModify(newlen);
-      sublen = newlen;
-      *(Buf(pos)) = item;
+      // Copy it first as it may be one of our own elements
+      replace(pos, value_type(item));
     }
 
     /**
-- 
2.43.0


From f4a6bc314573a01fb52ee19e51e8d44954b8abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:04 +0000
Subject: [PATCH 18/57] fix: inserting an array of objects into itself
 duplicated elements

---
 src/ReferenceCountedArray.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index c96f640..5027121 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1057,6 +1057,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const ReferenceCountedArray& rca, size_t n) {
       if (n == 0) return;
+      // Inserting ourself, keep the old buffer to copy from
+      if (&rca == this) return insert(pos, ReferenceCountedArray(rca), n);
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1085,6 +1087,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains all items from rca inserted at index pos.
      */
     void insert(size_t pos, const ReferenceCountedArray& rca) {
+      // Inserting ourself, keep the old buffer to copy from
+      if (&rca == this) return insert(pos, ReferenceCountedArray(rca));
       if (pos != 0)
         validateIndex(pos - 1);
 
-- 
2.43.0


From d072b03a29fddd359d049efd4daa60e444438570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:05 +0000
Subject: [PATCH 19/57] fix: replacing part of an array of objects with the
 array itself duplicated elements

---
 src/ReferenceCountedArray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 5027121..4f9dd1a 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1234,6 +1234,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void replace(size_t pos, const ReferenceCountedArray& rca, size_t n = npos) {
       if (n == 0) return;
+      // Replacing with ourself, keep the old buffer to copy from
+      if (&rca == this) return replace(pos, ReferenceCountedArray(rca), n);
       if (pos != 0)
         validateIndex(pos - 1);
 
-- 
2.43.0


From 254c9a6dcc9a9d9c6607626c6b251a1ec06d9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:13 +0000
Subject: [PATCH 20/57] fix: an operation that could not allocate its own copy
 of a shared buffer lost the contents

---
 src/ReferenceCountedArray.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 4f9dd1a..626e6a0 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -382,13 +382,19 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     inline void COW(size_t n) const {
       // Hold the old buffer until it is copied, the other owners may be going away
-      const ReferenceCountedArray old(*this);
+      ReferenceCountedArray old(*this);
 
       assert(isShared());
       doDetach(); //Detach from the shared reference
-      reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
-      sublen = std::min(old.length(), n);
-      std::copy(old.cbegin(), old.cbegin() + sublen, Buf());
+      try {
+        reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+        sublen = std::min(old.length(), n);
+        std::copy(old.cbegin(), old.cbegin() + sublen, Buf());
+      } catch (...) {
+        // Keep what we had
+        swap(const_cast<ReferenceCountedArray&>(*this), old);
+        throw;
+      }
     }
 
   protected:
-- 
2.43.0


From d2d93839cdf8c738fe200f0250963f8f42f3258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 21/57] fix: shift() of a temporary array emptied the first
 element of every array sharing its buffer

---
 src/Array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index b98dc4d..8fb1d9b 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -115,10 +115,10 @@ class Array : public ReferenceCountedArray<T> {
       return temp;
     }
 
-    inline value_type shift() && noexcept {
+    inline value_type shift() && {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+      // A temporary may still be sharing its buffer
+      return std::move(this->front());
     }
 
     /**
@@ -134,9 +134,9 @@ class Array : public ReferenceCountedArray<T> {
       return temp;
     }
 
-    inline value_type pop() && noexcept {
+    inline value_type pop() && {
       assert(!this->isEmpty());
-      assert(!this->isShared());
+      // A temporary may still be sharing its buffer
       return std::move(this->back());
     }
 
-- 
2.43.0


From cb06a7b0bafd245f13f32148be71da4c66602a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:56 +0000
Subject: [PATCH 22/57] fix: assigning a list to a HashTable did not compile

---
 src/HashTable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..750fb20 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -116,9 +116,7 @@ class HashTable {
      * @param list An initializer_list
      */
     HashTable& operator=(std::initializer_list<value_type> list) & {
-      for (const auto& item : list) {
-        (*this)[item.key()] = item.value();
-      }
+      map = list;
       return *this;
     }
 
-- 
2.43.0


From 769357fe7540354cf57cbdf22e617122969ad632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 23/57] fix: assigning a temporary Stream did not compile

---
 src/Stream.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Stream.h b/src/Stream.h
index 779a13e..a822717 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -72,13 +72,11 @@ class Stream {
           swap(a.loading, b.loading);
         }
 
-        Stream& operator=(Stream stream) & {
+        Stream& operator=(Stream stream) & noexcept {
           swap(*this, stream);
           return *this;
         }
 
-        Stream& operator=(Stream&& stream) & noexcept = default;
-
         void reserve(const size_t) const;
 
         /**
-- 
2.43.0


From a6a11416821b3ce210068a1bb53a68f7e004c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 24/57] fix: a moved-from Stream kept its position with no
 content behind it

---
 src/Stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Stream.h b/src/Stream.h
index a822717..9fcf81f 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -55,7 +55,9 @@ class Stream {
   public:
         Stream() noexcept = default;
         Stream(const Stream& stream) noexcept = default;
-        Stream(Stream&& stream) noexcept = default;
+        Stream(Stream&& stream) noexcept : Stream() {
+          swap(*this, stream);
+        }
         Stream(const int newSize) {
           if (newSize > 0) reserve(newSize);
         }
-- 
2.43.0


From 5478ac118d3a0d4413ff994310ee682652946800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:19 +0000
Subject: [PATCH 25/57] fix: reading a Stream positioned past its content read
 outside of the buffer

---
 src/Stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..8b9ec7e 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -72,7 +72,8 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  /* The position may be past the end of the content */
+  size_t toRead = pos < length() ? std::min(maxSize, length() - pos) : 0;
 
   /* No need to split the string, return a substring */
   if (!delim) {
-- 
2.43.0


From 0e9b5d08e920ec26eed1b56c93efa6c08c965914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:19 +0000
Subject: [PATCH 26/57] fix: Stream::read() with a delimiter returned one byte
 more than asked for

---
 src/Stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 8b9ec7e..c07bc45 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -88,7 +88,7 @@ String Stream::read(size_t maxSize, char delim) {
   while ((ret.length() < toRead) && (str[pos] != delim)) {
     ret += str[pos++];
   }
-  if (str.size() > pos && str[pos] == delim) {
+  if (ret.length() < toRead && str[pos] == delim) {
     ret += delim;
     ++pos;
   }
-- 
2.43.0


From 3ec0bf5c7f3db512dd49e84471518e9afc380ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:09 +0000
Subject: [PATCH 27/57] fix: Stream::loadFile() failed on an empty file

---
 src/Stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index c07bc45..927df53 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -114,6 +114,10 @@ int Stream::loadFile(const int fd)
   if (size < 0) {
     return 1;
   }
+  /* There is nothing to map in an empty file */
+  if (size == 0) {
+    return 0;
+  }
   reserve(size);
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
-- 
2.43.0


From 5049eb1e326b275d577514e463f6db5019ed5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:09 +0000
Subject: [PATCH 28/57] fix: Stream::loadFile() leaked its descriptor and
 mapping when out of memory

---
 src/Stream.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 927df53..33f2b66 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -101,7 +101,13 @@ int Stream::loadFile(const String& file)
   int fd = open(file.c_str(), O_RDONLY);
   if (fd == -1)
     return 1;
-  int ret = loadFile(fd);
+  int ret;
+  try {
+    ret = loadFile(fd);
+  } catch (...) {
+    close(fd);
+    throw;
+  }
   close(fd);
   return ret;
 }
@@ -125,7 +131,13 @@ int Stream::loadFile(const int fd)
   }
   loading = 1;
 
-  puts(String(static_cast<const char*>(map), size));
+  try {
+    puts(String(static_cast<const char*>(map), size));
+  } catch (...) {
+    munmap(map, size);
+    loading = 0;
+    throw;
+  }
 
   munmap(map, size);
 #else
-- 
2.43.0


From 8d034ecbad962b3bdf5b9641d098455fc4ea23ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:09 +0000
Subject: [PATCH 29/57] fix: AtomicFile::commit() leaked the descriptor when
 fchmod() or fsync() failed

---
 src/AtomicFile.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..5982581 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -75,6 +75,7 @@ bool AtomicFile::abort() {
 
 bool AtomicFile::commit() {
   bool result, remove_temp;
+  int fd;
 
   result = false;
   remove_temp = true;
@@ -84,7 +85,10 @@ bool AtomicFile::commit() {
   if (::fsync(_fd) != 0) {
     goto cleanup;
   }
-  if (::close(_fd) != 0) {
+  /* The descriptor is gone even when close(2) fails. */
+  fd = _fd;
+  _fd = -1;
+  if (::close(fd) != 0) {
     goto cleanup;
   }
   if (std::rename(_tmpname.c_str(), _fname.c_str()) != 0) {
@@ -98,7 +102,10 @@ cleanup:
   if (remove_temp) {
     ::unlink(_tmpname.c_str());
   }
-  _fd = -1;
+  if (is_open()) {
+    ::close(_fd);
+    _fd = -1;
+  }
   return result;
 }
 BDLIB_NS_END
-- 
2.43.0


From 58980c3836a7920e1b79f47412402f9b31e98750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:09 +0000
Subject: [PATCH 30/57] fix: AtomicFile::commit() with no file open removed the
 last temporary name

---
 src/AtomicFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index 5982581..a299345 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -77,6 +77,9 @@ bool AtomicFile::commit() {
   bool result, remove_temp;
   int fd;
 
+  if (!is_open()) {
+    return false;
+  }
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
-- 
2.43.0


From 2e461362b09586e2bf220392bf1fe3a50d8042ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:09 +0000
Subject: [PATCH 31/57] fix: AtomicFile::open() leaked the previous descriptor
 and temporary file

---
 src/AtomicFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index a299345..68d79f6 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,10 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Do not leak a file which was neither committed nor aborted. */
+  if (is_open()) {
+    abort();
+  }
   _fname = fname;
   _mode = mode;
 
-- 
2.43.0


From e1c01fbd2706e3aa28b0300f47a05c54dccd579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 32/57] fix: decoding base64 of a length that is not a multiple
 of 4 read past the input

---
 src/base64.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..e2bc1bc 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -122,7 +122,9 @@ char *b64enc(const unsigned char *src, size_t *len, const char* charset)
 void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char* charset_index)
 {
   char *buf = dest;
-  size_t blocks = (*len / NUM_ENCODED_BYTES) + ((*len % NUM_ENCODED_BYTES) ? 1 : 0);
+  const size_t rest = *len % NUM_ENCODED_BYTES;
+  size_t blocks = (*len / NUM_ENCODED_BYTES) + (rest ? 1 : 0);
+  unsigned char last[NUM_ENCODED_BYTES];
 
   if (!charset_index) {
     charset_index = b64_indexes;
@@ -130,6 +132,12 @@ void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char*
 
   /* Convert the encoded base64 character back into our base255 ASCII character */
   while (blocks > 0) {
+    /* Pad an incomplete last block */
+    if (blocks == 1 && rest) {
+      memset(last, PADDING_CHAR, sizeof(last));
+      memcpy(last, data, rest);
+      data = last;
+    }
     /* buf[0] is the 6 bits from data[0] + left-most 2 bits of data[1] */
     *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data[1]] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
     if (data[2] != PADDING_CHAR) {
-- 
2.43.0


From ea5f699681f3339c9645714befd748ce48f9d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 33/57] fix: b64dec() wrote outside its table for an alphabet
 with 8-bit characters

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index e2bc1bc..6bb627c 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -164,7 +164,7 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
     char charset_index[256];
     memset(charset_index, -1, sizeof(charset_index));
     for (size_t i = 0; i < 64; ++i)
-      charset_index[int(charset[i])] = i;
+      charset_index[static_cast<unsigned char>(charset[i])] = i;
     b64dec_buf(data, len, dest, charset_index);
   }  else
     b64dec_buf(data, len, dest);
-- 
2.43.0


From bbe7b8fbca6d06b2e9ac1a1639be9ce49c24d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 34/57] fix: strlcat() read past the end of an unterminated
 destination

---
 src/Cstrings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index a768dfe..18dba8d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -75,7 +75,7 @@ strlcat(char *dst, const char *src, size_t siz)
   size_t dlen;
 
   /* Find the end of dst and adjust bytes left but don't go past end */
-  while (*d != '\0' && n-- != 0)
+  while (n-- != 0 && *d != '\0')
     d++;
   dlen = d - dst;
   n = siz - dlen;
-- 
2.43.0


From 116837426b8beaafcf7666d7feebae6b97d6be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 35/57] fix: str_redup() with a part of the old string used it
 after it was freed

---
 src/Cstrings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index 18dba8d..150b75d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -98,6 +98,7 @@ void
 str_redup(char **str, const char *newstr)
 {
         size_t len;
+        char *old = *str;
 
         if (!newstr) {
                 if (*str) free(*str);
@@ -105,8 +106,10 @@ str_redup(char **str, const char *newstr)
                 return;
         }
         len = strlen(newstr) + 1;
-        *str = static_cast<char*>(realloc(*str, len));
+        // newstr may be a part of the old string
+        *str = static_cast<char*>(realloc(nullptr, len));
         memcpy(*str, newstr, len);
+        if (old) free(old);
 }
 
 char *
-- 
2.43.0


From 8ea19a38c5797d5387adec6fcb2d47bcc3704730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:40 +0000
Subject: [PATCH 36/57] fix: c_str() aborted the program when it could not
 allocate room for the terminator

---
 src/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.h b/src/String.h
index 19659a8..9c16de6 100755
--- a/src/String.h
+++ b/src/String.h
@@ -229,7 +229,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 	 * @post There is a '\\0' at the end of the buffer.
 	 * @post The actual String size is unchanged.
 	 */
-        const char* c_str() const noexcept {
+        const char* c_str() const {
           if (length() == 0)
             return "";
           assert(constBuf() != nullptr);
@@ -267,7 +267,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
         /**
          * @sa c_str()
          */
-        inline const char* operator*() const noexcept { return c_str(); };
+        inline const char* operator*() const { return c_str(); };
 
         /**
          * @sa c_str()
-- 
2.43.0


From c505a87ad8ac651951f3933d1eb41b936601949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:30 +0000
Subject: [PATCH 37/57] fix: String::reserve() and resize() of the largest size
 wrapped around to zero

---
 src/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/String.h b/src/String.h
index 9c16de6..dc2f21a 100755
--- a/src/String.h
+++ b/src/String.h
@@ -37,6 +37,7 @@
 #include <sys/types.h>
 #include <algorithm> // min() / max()
 #include <functional>
+#include <new>
 
 #ifdef CPPUNIT_VERSION
 #include <string>
@@ -136,6 +137,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         void reserve(const size_t newSize,
             double scaling_factor = 1) const override {
+          if (newSize == npos)
+            throw std::bad_alloc(); // No room for the terminator
           const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
           if (constBuf() != nullptr && offset + length() < capacity()) {
-- 
2.43.0


From 63e8be3cc0e471da993c90ddbea870f963a9c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 38/57] fix: converting a Tcl value to uint64_t always gave 0
 (inverted result test)

---
 src/ScriptInterpTCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..32ad935 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -274,7 +274,7 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
-- 
2.43.0


From cc4f7f493986e4ea0f4afe1e4815dbd64148ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 39/57] fix: unsigned values above the signed maximum became
 negative in Tcl

---
 src/ScriptInterpTCL.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..44cae70 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -393,7 +393,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -403,7 +403,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -413,7 +413,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
@@ -423,6 +423,8 @@ inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  if (value > INT64_MAX)
+    return Tcl_ObjPrintf("%lu", static_cast<unsigned long>(value));
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From e4ed2e17a6019081206603c5e464ed3596877ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:00 +0000
Subject: [PATCH 40/57] fix: Tcl integers of 2^63 and more were wrapped into
 the C++ type instead of giving 0

---
 src/ScriptInterpTCL.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 32ad935..2704926 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -179,9 +179,19 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
   return tcl_to_c_cast<char*>::from(obj, si);
 }
 
+/**
+ * @brief Get the value of an integer object if it fits into a long.
+ * Tcl_GetLongFromObj() alone accepts any magnitude below 2^64 and wraps it.
+ */
+static bool tcl_get_long(Tcl_Obj* obj, long& v) {
+  double d = 0;
+  return Tcl_GetLongFromObj(0, obj, &v) == TCL_OK &&
+    Tcl_GetDoubleFromObj(0, obj, &d) == TCL_OK && (v < 0) == (d < 0);
+}
+
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (tcl_get_long(obj, v)) {
     if ((v < INT8_MIN || v > INT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -195,7 +205,7 @@ int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (tcl_get_long(obj, v)) {
     if ((v < 0 || v > UINT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -209,7 +219,7 @@ uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (tcl_get_long(obj, v)) {
     if ((v < INT16_MIN || v > INT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -223,7 +233,7 @@ int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (tcl_get_long(obj, v)) {
     if ((v < 0 || v > UINT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -237,7 +247,7 @@ uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (tcl_get_long(obj, v)) {
     if ((v < INT32_MIN || v > INT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -251,7 +261,7 @@ int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (tcl_get_long(obj, v)) {
     if ((v < 0 || v > UINT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -265,7 +275,7 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  if (!tcl_get_long(obj, v)) {
     return 0;
     //return "Type Error";
   }
@@ -274,10 +284,16 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  double d = 0;
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
+  if (d < 0) {
+    //return "OverflowError";
+    return 0;
+  }
   return v;
 }
 
-- 
2.43.0


From bab9b453c7648bd9c8e5a791527ce4651c346138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 41/57] fix: a Tcl command found its handler by the invoked
 name: ::cmd, a renamed or a self-replacing command crashed or vanished

---
 src/ScriptInterpTCL.cpp |  3 ++-
 src/ScriptInterpTCL.h   | 29 ++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 2704926..969129b 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -66,7 +66,8 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
   String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  /* Keep it alive should the callback delete or replace its own command. */
+  const auto ccd(static_cast<ScriptCmdTCL*>(clientData)->shared_from_this());
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 44cae70..fdb83cb 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -145,9 +145,16 @@ class ScriptInterpTCL : public ScriptInterp {
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
 
-        struct ScriptCmdTCL : public ScriptCmd {
+        struct ScriptCmdTCL : public ScriptCmd,
+            public std::enable_shared_from_this<ScriptCmdTCL> {
+          Tcl_Command token;
+
           static int _createCommand_callback(ClientData clientData,
               Tcl_Interp *interp, int objc, Tcl_Obj *CONST objv[]);
+          /* Tcl removed the command: deleted, replaced or interp gone. */
+          static void _deleteCommand_callback(ClientData clientData) {
+            static_cast<ScriptCmdTCL*>(clientData)->registered = false;
+          }
 
           ScriptCmdTCL(const ScriptCmdTCL&) = delete;
           ScriptCmdTCL& operator=(const ScriptCmdTCL&) = delete;
@@ -156,22 +163,25 @@ class ScriptInterpTCL : public ScriptInterp {
               const char* _usage, size_t _callbackParamMin,
               size_t _callbackParamMax) noexcept :
               ScriptCmd(_si, std::move(_cmdName), std::move(_callback_proxy),
-                  _usage, _callbackParamMin, _callbackParamMax) {};
+                  _usage, _callbackParamMin, _callbackParamMax),
+              token(nullptr) {};
           virtual ~ScriptCmdTCL() {
             this->unregisterCmd();
           }
           virtual void registerCmd() {
             if (registered)
               return;
-            Tcl_CreateObjCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName, _createCommand_callback, nullptr, nullptr);
+            token = Tcl_CreateObjCommand(
+                static_cast<ScriptInterpTCL*>(si)->interp, *cmdName,
+                _createCommand_callback, this, _deleteCommand_callback);
             ScriptCmd::registerCmd();
           }
           virtual void unregisterCmd() {
             if (!registered)
               return;
-            Tcl_DeleteCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName);
+            /* By token, the script may have renamed it. */
+            Tcl_DeleteCommandFromToken(
+                static_cast<ScriptInterpTCL*>(si)->interp, token);
             ScriptCmd::unregisterCmd();
           }
         };
@@ -310,7 +320,12 @@ class ScriptInterpTCL : public ScriptInterp {
         }
 
         virtual void deleteCommand(const String& cmdName) {
-          CmdHandlerData.erase(cmdName);
+          const auto cmd = CmdHandlerData.find(cmdName);
+          if (cmd == std::end(CmdHandlerData))
+            return;
+          /* It may be running and outlive its entry here. */
+          cmd->second->unregisterCmd();
+          CmdHandlerData.erase(cmd);
         }
 
         /* Variable linking */
-- 
2.43.0


From c1ce96be124251af7f56f0db6ffb56605a144356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 42/57] fix: commands of one Tcl interp were visible to, and
 removed by, every other interp

---
 src/ScriptInterpTCL.cpp | 1 -
 src/ScriptInterpTCL.h   | 6 +++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 969129b..4964612 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,7 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::ScriptCmdPtr>ScriptInterpTCL::CmdHandlerData;
 std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
 
 int ScriptInterpTCL::init() {
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index fdb83cb..fa87c95 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -139,8 +139,7 @@ class ScriptInterpTCL : public ScriptInterp {
       Tcl_Obj* obj, ScriptInterp* si);
   private:
         Tcl_Interp *interp;
-        static std::unordered_map<String, ScriptCmdPtr>
-          CmdHandlerData;
+        std::unordered_map<String, ScriptCmdPtr> CmdHandlerData;
 
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
@@ -295,7 +294,8 @@ class ScriptInterpTCL : public ScriptInterp {
         static std::unordered_map<String, link_var_hook_t> link_var_hooks;
 
   public:
-        ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
+        ScriptInterpTCL() : ScriptInterp(), interp(nullptr), CmdHandlerData(),
+            trace_ptrs() {
           init();
         }
         virtual ~ScriptInterpTCL() {
-- 
2.43.0


From 9efb22524287db35b360738a97002b4d27194d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 43/57] fix: setting a linked char buffer read past the end of
 shorter values

---
 src/ScriptInterpTCL.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index fa87c95..d3afb46 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -270,11 +270,12 @@ class ScriptInterpTCL : public ScriptInterp {
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
 
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
-              data->size);
-          if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
-              std::is_same<T, const char*>::value)
+          /* The new value may be shorter than the buffer. */
+          if (data->size > 0) {
+            strncpy(static_cast<T>(data->ptr),
+                tcl_to_c_cast<T>::from(obj, nullptr), data->size - 1);
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
+          }
           if (link_var_hook != std::end(link_var_hooks))
             link_var_hook->second(
                 (const void*)(oldval.get()), (const void*)(data->ptr));
-- 
2.43.0


From f964fce37423d6005b275d16c667f33112ff1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 44/57] fix: reading a linked String from Tcl cut it at the
 first NUL

---
 src/ScriptInterpTCL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 4964612..96f2638 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -113,8 +113,8 @@ const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
 const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
     char *name1, char *name2, int flags) {
   if (value) {
-    Tcl_SetVar2(interp,name1,name2,
-        tcl_to_c_cast<const char*>::from(value, nullptr), flags);
+    Tcl_IncrRefCount(value);
+    Tcl_SetVar2Ex(interp, name1, name2, value, flags);
     Tcl_DecrRefCount(value);
   }
   return nullptr;
-- 
2.43.0


From da4041cea83adef46abe5769c61fb521dffbde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 45/57] fix: the hook of a linked variable was found by the
 name used in the script and shared by all interps

---
 src/ScriptInterpTCL.cpp | 17 +++++++-------
 src/ScriptInterpTCL.h   | 50 ++++++++++++++++-------------------------
 2 files changed, 28 insertions(+), 39 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 96f2638..ed3e4a7 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,8 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
-
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
@@ -95,13 +93,16 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   return TCL_OK;
 }
 
-void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
-    Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+void ScriptInterpTCL::setupTraces(const String& varName, void* var,
+    size_t size, Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
+    link_var_hook_t hook_func) {
+  auto data = std::make_unique<trace_ptr_data>(var, size, hook_func);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-  if (hook_func != nullptr)
-    link_var_hooks[varName] = hook_func;
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get,
+      data.get());
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set,
+      data.get());
+  trace_ptrs[varName] = std::move(data);
 }
 
 const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index d3afb46..62372f1 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -199,13 +199,15 @@ class ScriptInterpTCL : public ScriptInterp {
         struct trace_ptr_data {
           void* ptr;
           size_t size;
-          trace_ptr_data(void* _ptr, size_t _size) : ptr(_ptr), size(_size) {};
+          link_var_hook_t hook;
+          trace_ptr_data(void* _ptr, size_t _size, link_var_hook_t _hook) :
+            ptr(_ptr), size(_size), hook(_hook) {};
           trace_ptr_data(const trace_ptr_data&) = delete;
           trace_ptr_data& operator=(const trace_ptr_data&) = delete;
         };
         std::unordered_map<String, std::unique_ptr<trace_ptr_data>> trace_ptrs;
 
-        void setupTraces(const String& name, ClientData var,
+        void setupTraces(const String& name, void* var, size_t size,
             Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
             link_var_hook_t hook_func);
 
@@ -215,8 +217,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template<typename T>
         static inline const char* tcl_traceGet(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
+          auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
-              c_to_tcl_cast<T&>::from(*static_cast<T*>(clientData), interp),
+              c_to_tcl_cast<T&>::from(*static_cast<T*>(data->ptr), interp),
               interp, name1, name2, flags);
         }
         template<typename T>
@@ -227,13 +230,6 @@ class ScriptInterpTCL : public ScriptInterp {
               c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
                 interp), interp, name1, name2, flags);
         }
-        template<typename T>
-        static inline const char* tcl_traceGetPtr(ClientData clientData,
-            Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(clientData),
-                interp), interp, name1, name2, flags);
-        }
 
         template<typename T>
         static const char* tcl_traceSet(ClientData clientData,
@@ -242,14 +238,13 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto oldval(std::move(*static_cast<T*>(clientData)));
+          auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto oldval(std::move(*static_cast<T*>(data->ptr)));
 
-          *static_cast<T*>(clientData) =
+          *static_cast<T*>(data->ptr) =
             std::move(tcl_to_c_cast<T>::from(obj, nullptr));
-          const auto link_var_hook = link_var_hooks.find(name1);
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)&oldval, (const void*)(clientData));
+          if (data->hook != nullptr)
+            data->hook((const void*)&oldval, (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -260,12 +255,11 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto link_var_hook = link_var_hooks.find(name1);
           auto data = static_cast<const trace_ptr_data*>(clientData);
           /* Save oldval */
           typedef typename std::pointer_traits<T>::element_type T_name;
           std::unique_ptr<T_name[]> oldval;
-          if (link_var_hook != std::end(link_var_hooks)) {
+          if (data->hook != nullptr) {
             oldval = std::move(std::make_unique<T_name[]>(data->size));
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
@@ -276,9 +270,8 @@ class ScriptInterpTCL : public ScriptInterp {
                 tcl_to_c_cast<T>::from(obj, nullptr), data->size - 1);
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
           }
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)(oldval.get()), (const void*)(data->ptr));
+          if (data->hook != nullptr)
+            data->hook((const void*)(oldval.get()), (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -292,7 +285,6 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        static std::unordered_map<String, link_var_hook_t> link_var_hooks;
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), CmdHandlerData(),
@@ -301,7 +293,6 @@ class ScriptInterpTCL : public ScriptInterp {
         }
         virtual ~ScriptInterpTCL() {
           CmdHandlerData.clear();
-          link_var_hooks.clear();
           trace_ptrs.clear();
           destroy();
         }
@@ -339,7 +330,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, (void*) &var, sizeof(var),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) tcl_traceSet<T>, hook_func);
         }
@@ -352,11 +343,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T* var, size_t size,
             link_var_hook_t hook_func = nullptr) {
-          auto data = std::make_unique<trace_ptr_data>(var, size);
-          setupTraces(varName, (ClientData) data.get(),
+          setupTraces(varName, (void*) var, size,
               (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
               (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>, hook_func);
-          trace_ptrs[varName] = std::move(data);
         }
 
         /**
@@ -368,8 +357,8 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T* var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) var,
-              (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
+          setupTraces(varName, (void*) var, sizeof(*var),
+              (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
 
@@ -382,7 +371,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, (void*) &var, sizeof(var),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -393,7 +382,6 @@ class ScriptInterpTCL : public ScriptInterp {
          */
         virtual void unlinkVar(const String& varName) {
           Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-          link_var_hooks.erase(varName);
           trace_ptrs.erase(varName);
         }
 
-- 
2.43.0


From 8a15a78bcc6e678dfd9a8ac04a7df3dd37d5f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 46/57] fix: linking a variable name again left the earlier
 link active and cleared its C++ variable

---
 src/ScriptInterpTCL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index ed3e4a7..8d05b23 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -97,6 +97,8 @@ void ScriptInterpTCL::setupTraces(const String& varName, void* var,
     size_t size, Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
     link_var_hook_t hook_func) {
   auto data = std::make_unique<trace_ptr_data>(var, size, hook_func);
+  /* Drop an earlier link, its traces would stay active. */
+  unlinkVar(varName);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get,
       data.get());
-- 
2.43.0


From 529fcee8e6280cf809eb7f2a9fb5fee28e2e3c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:25 +0000
Subject: [PATCH 47/57] fix: calling a script callback evaluated its parameters
 as script text

---
 src/ScriptInterpTCL.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 62372f1..bdae35f 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -126,8 +126,13 @@ class ScriptCallbackerTCL : public ScriptCallbacker {
       ScriptCallbacker(_si, _cmd) {};
     virtual ~ScriptCallbackerTCL() {};
     inline virtual String call(const Array<String>& params = Array<String>()) {
-      return si->eval(String::printf("%s %s", cmd.c_str(),
-            params.join(" ", true).c_str()));
+      /* As a list, so that each param stays one unsubstituted word. */
+      Tcl_Obj* list = c_to_tcl_cast<const Array<String>&>::from(params,
+          nullptr);
+      Tcl_IncrRefCount(list);
+      const String script(cmd + " " + tcl_to_c_cast<String>::from(list, si));
+      Tcl_DecrRefCount(list);
+      return si->eval(script);
     }
 
 };
-- 
2.43.0


From ed11444f45159178a69d2edd77730376991240a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 48/57] fix: clear() leaks the buffer when the other owner lets
 go at the same time

---
 src/ReferenceCountedArray.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 626e6a0..6a2f06c 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -274,6 +274,23 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline int decRef() const noexcept { return Ref ? --Ref->refs : 0; };
 
   protected:
+    /**
+     * @brief Let go of our reference unless it is the last one.
+     * @return Whether we own the last reference, which is kept.
+     * @note Other owners may be going away at the same time, so only the
+     * decrement itself can tell who is last.
+     */
+    bool releaseShared() noexcept {
+      if (!Ref)
+        return false;
+      if (decRef() >= 1) {
+        Ref = nullptr;
+        return false;
+      }
+      incRef();
+      return true;
+    }
+
     /**
      * @brief Set the lengths to the specified length
      * @param newLen the new length to set to
@@ -344,13 +361,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * ie, operator=() was called.
      */
     void Detach() noexcept {
-      if (isShared()) {
-        doDetach();
-      } else {
-        sublen = 0;
-        offset = 0;
-        my_hash = 0;
-      }
+      releaseShared();
+      sublen = 0;
+      offset = 0;
+      my_hash = 0;
     }
 
     /**
-- 
2.43.0


From a6662c1832b1ab97f90eacf3d0c742d1f1d0151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 49/57] fix: data race on the cleanse counter between
 destructors in different threads

---
 src/String.cpp |  2 +-
 src/String.h   | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 70a3ed8..fa51ad3 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -36,7 +36,7 @@
 
 BDLIB_NS_BEGIN
 
-unsigned char String::cleanse_ctr = 0;
+std::atomic<unsigned char> String::cleanse_ctr{0};
 
 /* Accessors */
 int String::compare(const String& str) const noexcept
diff --git a/src/String.h b/src/String.h
index dc2f21a..eafffe0 100755
--- a/src/String.h
+++ b/src/String.h
@@ -31,6 +31,7 @@
 #include "bdlib.h"
 #include "ReferenceCountedArray.h"
 
+#include <atomic>
 #include <cassert>
 #include <cstring>
 #include <iostream>
@@ -66,7 +67,7 @@ typedef char String_Array_Type;
 class String : public ReferenceCountedArray<String_Array_Type> {
   private:
         typedef std::allocator<String_Array_Type> Allocator;
-        static unsigned char cleanse_ctr;
+        static std::atomic<unsigned char> cleanse_ctr;
 
         /* Cleanse our buffer using OPENSSL_cleanse() */
         void cleanse() noexcept {
@@ -75,13 +76,15 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
           unsigned char *p = reinterpret_cast<unsigned char *>(ptr);
           size_t loop = len;
+          unsigned char ctr = cleanse_ctr.load(std::memory_order_relaxed);
           while(loop--)
           {
-            *(p++) = static_cast<unsigned char>(cleanse_ctr);
-            cleanse_ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
+            *(p++) = ctr;
+            ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
           }
-          if(memchr(ptr, cleanse_ctr, len))
-            cleanse_ctr += (63 + reinterpret_cast<size_t>(p));
+          if(memchr(ptr, ctr, len))
+            ctr += (63 + reinterpret_cast<size_t>(p));
+          cleanse_ctr.store(ctr, std::memory_order_relaxed);
         }
   public:
 
-- 
2.43.0


From a6c41d4d0a2be81177c91ac744dc5c89b2b37acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 50/57] fix: buffer released unwiped when its last two Strings
 are destroyed at the same time

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index eafffe0..4170179 100755
--- a/src/String.h
+++ b/src/String.h
@@ -153,7 +153,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         ~String() {
           /* If deallocating the last reference, cleanse the string buffer with OPENSSL_cleanse() */
-          if (rcount() == 1) {
+          if (releaseShared()) {
             cleanse();
           }
         }
-- 
2.43.0


From 83dc9a8ea7e918a4385674b75c121ca3a1c44935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 51/57] fix: reading a String that ends with the istream
 reported failure

operator>>() used get() to look for the end of the word, so a last word
without trailing whitespace left the stream failed although it was read.
---
 src/String.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index fa51ad3..dddf24a 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -166,15 +166,12 @@ std::istream& operator>>(std::istream& is, String& string) {
 
   if (!is.fail())
   {
-    do
-    {
-      string += ch;
-      is.get(ch);
-    } while (!is.fail() && !isspace(ch));
-
-    if (isspace(ch))    // put whitespace back on the stream
+    string += ch;
+    // Leave whitespace on the stream. Reaching the end only ends the word.
+    int next;
+    while ((next = is.peek()) != std::char_traits<char>::eof() && !isspace(next))
     {
-      is.putback(ch);
+      string += static_cast<char>(is.get());
     }
   }
   return is;
-- 
2.43.0


From 98eec44f8df4906c9636d63a08055348d0a1a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 52/57] fix: getline() of a last line without a newline
 reported failure

The line was read but the stream was left failed, so a reading loop lost it.
---
 src/String.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index dddf24a..ab085b5 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -182,8 +182,12 @@ std::istream& getline(std::istream& is, String& string) {
   char ch = 0;
   string = "";     // empty string, will build one char at-a-time
  
-  while (is.get(ch) && ch != '\n')
+  while (is.get(ch) && ch != '\n') {
     string += ch;
+    // A last line without a newline is a line too
+    if (is.peek() == std::char_traits<char>::eof())
+      break;
+  }
   
   return is;
 }
-- 
2.43.0


From b81302b8b267981df510c26e281fd6ec27abe217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 53/57] fix: writing a temporary String which shares its buffer
 aborted

operator<<(ostream&, String&&) only reads the buffer, it may be shared.
---
 src/String.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 4170179..718bf6e 100755
--- a/src/String.h
+++ b/src/String.h
@@ -614,7 +614,6 @@ inline std::ostream& operator<<(std::ostream& os, const String& string) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, String&& string) {
-  assert(!string.isShared());
   for (const char* c = string.cbegin(); c != string.cend(); ++c)
     os << std::move(*c);
   return os;
-- 
2.43.0


From 60a5fb3ca1e8bbdbb7cb961dd1e4fe528ddbdc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:27 +0000
Subject: [PATCH 54/57] fix: Stream::read() with a delimiter lost data when an
 allocation failed

---
 src/Stream.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 33f2b66..5db9dd9 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -84,14 +84,17 @@ String Stream::read(size_t maxSize, char delim) {
 
   /* Must reconstruct a new string */
   String ret(toRead);
+  size_t end = pos;
 
-  while ((ret.length() < toRead) && (str[pos] != delim)) {
-    ret += str[pos++];
+  while ((ret.length() < toRead) && (str[end] != delim)) {
+    ret += str[end++];
   }
-  if (ret.length() < toRead && str[pos] == delim) {
+  if (ret.length() < toRead && str[end] == delim) {
     ret += delim;
-    ++pos;
+    ++end;
   }
+  /* Only move once the data has been read, an allocation may have failed */
+  pos = end;
 
   return ret;
 }
-- 
2.43.0


From 129e0d4cf47de5240668c74de3e11f11fbfd46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:00 +0000
Subject: [PATCH 55/57] fix: read the written element when a linked variable is
 an array element

The write trace of a linked variable looked up only the first part of
the name, so writing a variable linked as name(index) from Tcl always
failed and never reached the C++ variable.
---
 src/ScriptInterpTCL.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 8d05b23..91118bb 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -125,10 +125,7 @@ const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
 
 Tcl_Obj* ScriptInterpTCL::TraceSet(Tcl_Interp *interp, char *name1,
     char *name2, int flags) {
-  Tcl_Obj *name1o = c_to_tcl_cast<const char*>::from(name1, interp);
-  Tcl_Obj *value = Tcl_ObjGetVar2(interp, name1o, 0, flags);
-  Tcl_DecrRefCount(name1o);
-  return value;
+  return Tcl_GetVar2Ex(interp, name1, name2, flags);
 }
 
 Tcl_Obj* c_to_tcl_cast<const Array<String>&>::from(const Array<String>& array,
-- 
2.43.0


From 2028b023bb0722989819ffc0ede96120ca79eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:42 +0000
Subject: [PATCH 56/57] fix: writing a linked Array from Tcl dereferenced a
 null interp

The write traces convert without an interp, which the list conversions
dereferenced.
---
 src/ScriptInterpTCL.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 91118bb..ea15451 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -335,7 +335,9 @@ Array<String> tcl_to_c_cast<Array<String>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  /* There is no interp when a linked variable is written. */
+  if (Tcl_ListObjGetElements(
+        si ? (reinterpret_cast<ScriptInterpTCL*>(si))->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<String>();
 
@@ -353,7 +355,9 @@ Array<Array<String>> tcl_to_c_cast<Array<Array<String>>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  /* There is no interp when a linked variable is written. */
+  if (Tcl_ListObjGetElements(
+        si ? (reinterpret_cast<ScriptInterpTCL*>(si))->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<Array<String>>();
 
-- 
2.43.0


From c6e1648eb2360cc7b31a619ac1ee1f2035bbd9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:31 +0000
Subject: [PATCH 57/57] fix: inserting or replacing with a C string that is a
 part of the String itself

The buffer was moved, modified or released before the characters were
copied from it, s += s.c_str() read freed memory.
---
 src/String.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index ab085b5..e9e50d6 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -30,6 +30,7 @@
 #include "HashTable.h"
 #include <cstdarg>
 #include <cstdio>
+#include <functional>
 #include "base64.h"
 //#include <memory>
 //#include <iostream>
@@ -113,6 +114,14 @@ size_t String::copy(char *dst, size_t n) const noexcept
   return slen;
 }
 
+/* Whether the cstring is a part of the string itself. */
+static inline bool isPartOf(const char* cstring, const String& string) noexcept
+{
+  const std::less<const char*> before{};
+
+  return !before(cstring, string.cbegin()) && before(cstring, string.cend());
+}
+
 /**
  * @brief Insert a cstring at the given index.
  * @param string The cstring to be inserted.
@@ -129,6 +138,8 @@ void String::insert(size_t pos, const char *string, size_t n)
     validateIndex(pos - 1);
   
   const auto slen = (n == npos) ? std::strlen(string) : n;
+  /* Our own characters must stay as they are until copied. */
+  const String self(isPartOf(string, *this) ? *this : String());
 
   AboutToModify(length() + slen);
   /* Shift right */
@@ -150,6 +161,8 @@ void String::replace(size_t pos, const char *string, size_t n)
     validateIndex(pos - 1);
 
   const auto slen = (n == npos) ? std::strlen(string) : n;
+  /* Our own characters must stay as they are until copied. */
+  const String self(isPartOf(string, *this) ? *this : String());
   auto newlen = pos + slen;
 
   if (newlen < length())
-- 
2.43.0

