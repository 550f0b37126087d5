From 529437f321f22f65abfad253195476ba8d47fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:25 +0000
Subject: [PATCH 01/43] fix: leave moved-from arrays empty

Outside of the unit tests a moved-from object kept its offset and length
with no buffer behind them, so any use of it dereferenced a null pointer.
---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..01c7d41 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -443,11 +443,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -549,11 +547,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From 978877e11888d32e5a7ce6374af6181b1fd6680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:04 +0000
Subject: [PATCH 02/43] fix: do not leak or use freed storage when a
 copy-on-write loses its last sharer

Another thread may drop the other references between the isShared() check and
the detach. doDetach() then dropped the last reference without freeing it, and
COW() copied out of a buffer it no longer held a reference to.
---
 src/ReferenceCountedArray.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 01c7d41..ce2d1d1 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -254,10 +254,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
-     * @note This does not free the old reference, as it is still in use
+     * @note The old reference is normally still in use and is not free'd, but
+     * the other users of it may have let go of it since we checked.
      */
     void doDetach() const noexcept {
-      decRef();
+      if (Ref && decRef() < 1)
+        delete Ref;
       Ref = nullptr;
       sublen = 0;
       offset = 0;
@@ -381,14 +383,13 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * Also take a hint size n of the new ReferenceCountedArray's size as to avoid needless copying/allocing.
      */
     inline void COW(size_t n) const {
-      const_pointer oldBuf = constBuf();
-      const size_t oldLength = length();
+      // Keep the shared buffer alive until it has been copied from
+      const ReferenceCountedArray old(*this);
 
-      assert(isShared());
       doDetach(); //Detach from the shared reference
       reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
-      sublen = std::min(oldLength, n);
-      std::copy(oldBuf, oldBuf + sublen, Buf());
+      sublen = std::min(old.length(), n);
+      std::copy(old.cbegin(), old.cbegin() + sublen, Buf());
     }
 
   protected:
-- 
2.43.0


From c483f470b9d8cd3bfdb0b12cc606b7131079e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:24 +0000
Subject: [PATCH 03/43] fix: reserve() must not touch storage shared with other
 objects

It moved or reallocated a buffer that other objects were still using, and
String::reserve() overwrote the last byte of the buffer even when it was
shared or in use.
---
 src/ReferenceCountedArray.h | 6 ++++++
 src/String.h                | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index ce2d1d1..dff3a25 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -602,6 +602,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     virtual void reserve(const size_t newSize,
         double scaling_factor = 1) const {
+      if (isShared()) {
+        // The buffer is not ours to move around or grow
+        if (capacity() - offset < newSize)
+          COW(std::max(newSize, length()));
+        return;
+      }
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
       }
diff --git a/src/String.h b/src/String.h
index 762f842..44ff954 100755
--- a/src/String.h
+++ b/src/String.h
@@ -138,7 +138,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             double scaling_factor = 1) const override {
           const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
-          if (constBuf() != nullptr) {
+          // Only touch the spare room of a buffer that nobody else is using
+          if (!isShared() && capacity() - offset > length()) {
             *Buf(capacity() - offset - 1) = '\0';
           }
         }
-- 
2.43.0


From df03f394663e7b8c8a0fa400a988d0f1ed5d3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:44 +0000
Subject: [PATCH 04/43] fix: String::reserve(npos) wrapped around to 0

The request succeeded without allocating, so resize(npos) and
String(npos, ch) then wrote outside of the buffer. It now fails to allocate.
---
 src/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 44ff954..3f5fb08 100755
--- a/src/String.h
+++ b/src/String.h
@@ -136,7 +136,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         void reserve(const size_t newSize,
             double scaling_factor = 1) const override {
-          const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
+          const size_t realSize = newSize > 0 && newSize < npos ?
+            newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
           // Only touch the spare room of a buffer that nobody else is using
           if (!isShared() && capacity() - offset > length()) {
-- 
2.43.0


From 4b4e22c3da07a1a93c3f378e4a9adefdb5eaef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:05 +0000
Subject: [PATCH 05/43] fix: c_str() read past the end of an exactly filled
 buffer

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 3f5fb08..e669e07 100755
--- a/src/String.h
+++ b/src/String.h
@@ -236,7 +236,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (offset + length() >= capacity() || *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From cc14129237e6b03eef44aeb95d9335fcf567f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:50 +0000
Subject: [PATCH 06/43] fix: front(), back() and read() handed out writable
 references to shared storage

Writing through them changed every other object sharing the buffer, and left a
stale cached hash behind.
---
 src/Array.h                 |  4 +++-
 src/ReferenceCountedArray.h | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..5901e4a 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -127,7 +127,9 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index dff3a25..30bcc48 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -834,7 +834,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @sa at()
      * Unlike at() this is unchecked.
      */
-    inline reference read(size_t pos) noexcept __attribute__((pure)) {
+    inline reference read(size_t pos) {
+      getOwnCopy();
       return *(Buf(pos));
     };
     inline const_reference read(size_t pos) const noexcept __attribute__((pure)) {
@@ -894,7 +895,6 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element but does a COW since it may be written to.
          */
         inline reference mget(void) {
-          rca.getOwnCopy();
           return rca.read(start);
         }
 
@@ -902,7 +902,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element without a COW.
          */
         inline const_reference get(void) const noexcept __attribute__((pure)) {
-          return rca.read(start);
+          return const_cast<const ReferenceCountedArray&>(rca).read(start);
         }
 
         /**
@@ -918,7 +918,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         };
 
 #ifdef CPPUNIT_VERSION
-        inline size_t rcount() const noexcept { return rca.read(start).rcount(); }
+        inline size_t rcount() const noexcept { return get().rcount(); }
         inline intptr_t rptr() const noexcept __attribute__((pure)) { return get().rptr(); }
 #endif
     };
@@ -994,7 +994,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -1002,7 +1003,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From 60367e5422b397e08e9fca6064675ea54492560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:10 +0000
Subject: [PATCH 07/43] fix: inserting a longer array at the front replaced the
 contents

insert(0, x) with x longer than the receiver dropped what was there instead of
moving it behind x.
---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 30bcc48..f5b57c5 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1070,8 +1070,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* Nothing here yet, just replace ours with a reference of theirs */
+      if (isEmpty() && slen > 0 && n == slen) {
         *this = rca;
         return;
       }
@@ -1098,8 +1098,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* Nothing here yet, just replace ours with a reference of theirs */
+      if (isEmpty() && slen > 0) {
         *this = rca;
         return;
       }
@@ -1125,8 +1125,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* Nothing here yet, just move theirs */
+      if (isEmpty() && slen > 0 && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1153,8 +1153,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* Nothing here yet, just move theirs */
+      if (isEmpty() && slen > 0) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From d178d8ddd68297cc4c882a1802796700892a77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:50 +0000
Subject: [PATCH 08/43] fix: inserting or writing an array's own element used
 it after it was moved

insert(), replace() and write() took the element by reference and read it only
after the buffer had been reallocated or shifted.
---
 src/ReferenceCountedArray.h | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index f5b57c5..0c18c6d 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -846,8 +846,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      // item may be one of ours
+      write(pos, value_type(item));
     };
     inline void write(size_t pos, value_type&& item) {
       getOwnCopy();
@@ -1177,14 +1177,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const_reference item)
     {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      AboutToModify(length() + 1);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
-      ++sublen;
+      // item may be one of ours
+      insert(pos, value_type(item));
     }
 
     /**
@@ -1215,11 +1209,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post COW is done if needed.
      */
     void replace(size_t pos, const_reference item) {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      // item may be one of ours
+      replace(pos, value_type(item));
     }
 
     /**
-- 
2.43.0


From 731d71111bffc145a8dd6c37f265a54225a252cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:45 +0000
Subject: [PATCH 09/43] fix: inserting an array into itself copied from the
 shifted buffer

s.insert(1, s), s.append(s, n) and s.replace(1, s) read their source out of the
buffer they were modifying. Hold a reference to it as the source instead.
---
 src/ReferenceCountedArray.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 0c18c6d..963a518 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1064,6 +1064,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains n items from rca inserted at index pos.
      */
     void insert(size_t pos, const ReferenceCountedArray& rca, size_t n) {
+      if (&rca == this) {
+        const ReferenceCountedArray source(rca);
+        insert(pos, source, n);
+        return;
+      }
       if (n == 0) return;
       if (pos != 0)
         validateIndex(pos - 1);
@@ -1093,6 +1098,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains all items from rca inserted at index pos.
      */
     void insert(size_t pos, const ReferenceCountedArray& rca) {
+      if (&rca == this) {
+        const ReferenceCountedArray source(rca);
+        insert(pos, source);
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1119,6 +1129,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains n items from rca inserted at index pos.
      */
     void insert(size_t pos, ReferenceCountedArray&& rca, size_t n) {
+      if (&rca == this) {
+        insert(pos, static_cast<const ReferenceCountedArray&>(rca), n);
+        return;
+      }
       if (n == 0) return;
       if (pos != 0)
         validateIndex(pos - 1);
@@ -1148,6 +1162,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains all items from rca inserted at index pos.
      */
     void insert(size_t pos, ReferenceCountedArray&& rca) {
+      if (&rca == this) {
+        insert(pos, static_cast<const ReferenceCountedArray&>(rca));
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1235,6 +1253,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @param n The number of characters to use for the replace.
      */
     void replace(size_t pos, const ReferenceCountedArray& rca, size_t n = npos) {
+      if (&rca == this) {
+        const ReferenceCountedArray source(rca);
+        replace(pos, source, n);
+        return;
+      }
       if (n == 0) return;
       if (pos != 0)
         validateIndex(pos - 1);
@@ -1267,6 +1290,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @param n The number of characters to use for the replace.
      */
     void replace(size_t pos, ReferenceCountedArray&& rca, size_t n = npos) {
+      if (&rca == this) {
+        replace(pos, static_cast<const ReferenceCountedArray&>(rca), n);
+        return;
+      }
       if (n == 0) return;
       if (pos != 0)
         validateIndex(pos - 1);
-- 
2.43.0


From 8a42c632240c6e4fdb57a52086b4081e7a0f938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:03 +0000
Subject: [PATCH 10/43] fix: replace(length(), item) wrote past the end

It is accepted as the position to replace at, like for the other forms of
replace(), and extends the array like they do.
---
 src/ReferenceCountedArray.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 963a518..55ebfd0 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1242,8 +1242,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      const auto newlen = std::max(length(), pos + 1);
+      AboutToModify(newlen);
       *(Buf(pos)) = std::move(item);
+      sublen = newlen;
     }
 
     /**
-- 
2.43.0


From 111069dfcd6e621c74319224a8d525a485c5969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:23 +0000
Subject: [PATCH 11/43] fix: slice() with large or far negative positions left
 an invalid range

Lengths were truncated to int, start + len could overflow, and counting back
further than the slice's start produced a huge length.
---
 src/ReferenceCountedArray.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 55ebfd0..08fbc1a 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -957,9 +957,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * The returned slice is a reference to the original array until modified.
      */
     void slice(ssize_t start, ssize_t len = -1) noexcept {
-      if (len == -1) len = int(length()) - start;
+      const ssize_t mylen = length();
       // Start is after the end, set us to an empty array
-      if (start >= static_cast<signed>(length())) {
+      if (start >= mylen) {
         offset = length();
         setLength(0);
         return;
@@ -967,18 +967,19 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       //Count backwards from the end
       if (start < 0)
-        start = length() + start;
+        start = mylen + start;
       // Start was before the beginning, just reset to the beginning
       if (start < 0)
         start = 0;
 
       offset += start;
+      const ssize_t remaining = mylen - start;
       //If the length of the subarray exceeds the end of the array, truncate to the end of the array
-      if (start + len >= static_cast<signed>(length()))
-        len = length() - start;
+      if (len == -1 || len > remaining)
+        len = remaining;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = std::max(remaining + len, ssize_t(0));
       setLength(len);
     }
 
-- 
2.43.0


From 4480d23025caabd2dc51eb6830f45d6820334150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:25 +0000
Subject: [PATCH 12/43] fix: String::compare() truncated the difference in
 length to int

Strings whose lengths differ by 2^31 or more compared the wrong way around or
as equal.
---
 src/String.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..014fd0a 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -52,7 +52,7 @@ int String::compare(const String& str) const noexcept
   if (diff)
     return diff;
   else
-    return mylen - slen;
+    return (mylen > slen) - (mylen < slen);
 }
 
 int String::compare(const String& str, size_t n) const noexcept
@@ -64,15 +64,13 @@ int String::compare(const String& str, size_t n) const noexcept
   if (cbegin() == str.cbegin() && mylen == str.length())
     return 0;
 
-  const auto slen = n ? std::min(str.length(), n) : str.length();
+  const auto slen = std::min(str.length(), n);
   const auto len = std::min(mylen, slen);
   const auto diff = std::memcmp(cbegin(), str.cbegin(), len);
   if (diff)
     return diff;
-  else if (n)
-    return std::min(mylen, n) - slen;
   else
-    return mylen - slen;
+    return (std::min(mylen, n) > slen) - (std::min(mylen, n) < slen);
 }
 
 int String::compare(const char* str) const noexcept
-- 
2.43.0


From 4816edcfb31fc15856742c1eac45622f32322f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 13/43] fix: comparing a String holding a '\0' to a cstring
 read past its end

---
 src/String.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 014fd0a..68174c0 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -78,6 +78,9 @@ int String::compare(const char* str) const noexcept
   for (size_t pos = 0; pos < length(); ++pos) {
     if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    // We have an embedded '\0' where str ends
+    if (*(str - 1) == '\0')
+      return 1;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
@@ -87,8 +90,13 @@ int String::compare(const char* str, size_t n) const noexcept
   if (n == 0)
     return 0;
   for (size_t pos = 0; pos < length(); ++pos) {
-    if (*constBuf(pos) != *str++ || --n == 0)
+    if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    // We have an embedded '\0' where str ends
+    if (*(str - 1) == '\0')
+      return 1;
+    if (--n == 0)
+      return 0;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
-- 
2.43.0


From 1fef75da0b1068d421deb600fafa6078f8737ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:23 +0000
Subject: [PATCH 14/43] fix: shifting an expiring array emptied the element
 other handles share

---
 src/Array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 5901e4a..672ade8 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -118,7 +118,8 @@ class Array : public ReferenceCountedArray<T> {
     inline value_type shift() && noexcept {
       assert(!this->isEmpty());
       assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+      pointer item{this->Buf(0)};
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
-- 
2.43.0


From 5f1f4abb37dcdb4211681527612b4646f162ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 15/43] fix: postfix increment of an empty array underflowed
 its length

---
 src/Array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 672ade8..8ec9702 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -274,8 +274,7 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline const Array operator++(int) & {
       Array tmp((*this)(0, 1));
-      ++(this->offset);
-      this->subLength(1);
+      ++(*this);
       return tmp;
     }
 
-- 
2.43.0


From 943a0e41664c5cb69899b0061675db953b1e4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:10 +0000
Subject: [PATCH 16/43] fix: advancing an array by a negative or large count
 left its storage

---
 src/Array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 8ec9702..5768c88 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -329,7 +329,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator+=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (size_t(n) > this->length()) {
         this->offset = this->length();
         this->setLength(0);
       } else {
@@ -342,7 +342,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator-=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (size_t(n) > this->length()) {
         this->offset = this->length();
         this->setLength(0);
       } else
-- 
2.43.0


From 629781baaa6cf5fc0a2f0cc24271cc7718a8c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:32 +0000
Subject: [PATCH 17/43] fix: joining with an empty delimiter underflowed the
 size

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 5768c88..1934e3e 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -158,7 +158,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From 7c2da34f9f738d0b05a976801bc7361a263db515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:56 +0000
Subject: [PATCH 18/43] fix: strlcat read one byte past the destination

---
 src/Cstrings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index a768dfe..18dba8d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -75,7 +75,7 @@ strlcat(char *dst, const char *src, size_t siz)
   size_t dlen;
 
   /* Find the end of dst and adjust bytes left but don't go past end */
-  while (*d != '\0' && n-- != 0)
+  while (n-- != 0 && *d != '\0')
     d++;
   dlen = d - dst;
   n = siz - dlen;
-- 
2.43.0


From fbed958fb356a740ba31e4b999fef17f6ee9a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:58 +0000
Subject: [PATCH 19/43] fix: base64 decoding read past an incomplete last block

---
 src/base64.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..cd53e63 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -122,6 +122,7 @@ char *b64enc(const unsigned char *src, size_t *len, const char* charset)
 void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char* charset_index)
 {
   char *buf = dest;
+  size_t left = *len;
   size_t blocks = (*len / NUM_ENCODED_BYTES) + ((*len % NUM_ENCODED_BYTES) ? 1 : 0);
 
   if (!charset_index) {
@@ -130,17 +131,22 @@ void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char*
 
   /* Convert the encoded base64 character back into our base255 ASCII character */
   while (blocks > 0) {
+    /* An incomplete last block is decoded as if it was padded. */
+    const unsigned char data1 = left > 1 ? data[1] : PADDING_CHAR;
+    const unsigned char data2 = left > 2 ? data[2] : PADDING_CHAR;
+    const unsigned char data3 = left > 3 ? data[3] : PADDING_CHAR;
     /* buf[0] is the 6 bits from data[0] + left-most 2 bits of data[1] */
-    *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data[1]] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
-    if (data[2] != PADDING_CHAR) {
+    *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data1] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
+    if (data2 != PADDING_CHAR) {
       /* buf[1] is the right-most 4 bits of data[1] + left-most 4 bits of data[2] */
-      *buf++ = ((charset_index[data[1]] & 0x0f) << 4) + ((charset_index[data[2]] & 0x3c) >> 2);
-      if (data[3] != PADDING_CHAR) {
+      *buf++ = ((charset_index[data1] & 0x0f) << 4) + ((charset_index[data2] & 0x3c) >> 2);
+      if (data3 != PADDING_CHAR) {
         /* buf[2] is the right-most 2 bits of data[2] + data[3] */
-        *buf++ = ((charset_index[data[2]] & 0x03) << 6) + charset_index[data[3]];
+        *buf++ = ((charset_index[data2] & 0x03) << 6) + charset_index[data3];
       }
     }
     data += NUM_ENCODED_BYTES;
+    left -= NUM_ENCODED_BYTES;
     --blocks;
   }
 
-- 
2.43.0


From 1f73c66b5eff50255886b33c7017a8f78ef7a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:59 +0000
Subject: [PATCH 20/43] fix: base64 alphabets with bytes above 0x7f wrote
 outside the index

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index cd53e63..0c35a9b 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -162,7 +162,7 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
     char charset_index[256];
     memset(charset_index, -1, sizeof(charset_index));
     for (size_t i = 0; i < 64; ++i)
-      charset_index[int(charset[i])] = i;
+      charset_index[static_cast<unsigned char>(charset[i])] = i;
     b64dec_buf(data, len, dest, charset_index);
   }  else
     b64dec_buf(data, len, dest);
-- 
2.43.0


From 5b4697689285fc767672e956c787053504922e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:01 +0000
Subject: [PATCH 21/43] fix: base64 wrote through a null pointer or leaked when
 memory ran out

---
 src/base64.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 0c35a9b..213a744 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -27,6 +27,8 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <memory>
+#include <new>
 #include "base64.h"
 #include "String.h"
 
@@ -102,10 +104,8 @@ void b64enc_buf(const unsigned char *data, size_t *len, char *dest, const char*
 
 String base64Encode(const String& string, const char* charset) {
   size_t len = string.length();
-  char *p = b64enc(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset);
-  BDLIB_NS::String encoded(p, len);
-  free(p);
-  return encoded;
+  std::unique_ptr<char, decltype(&::free)> p(b64enc(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset), ::free);
+  return BDLIB_NS::String(p.get(), len);
 }
 
 char *b64enc(const unsigned char *src, size_t *len, const char* charset)
@@ -113,6 +113,8 @@ char *b64enc(const unsigned char *src, size_t *len, const char* charset)
   /* Take the length and round up the next 4-byte boundary */
   size_t dlen = (((*len + (NUM_ASCII_BYTES - 1)) / NUM_ASCII_BYTES) * NUM_ENCODED_BYTES);
   char *dest = static_cast<char*>(malloc(dlen + 1));
+  if (dest == nullptr)
+    throw std::bad_alloc();
 
   b64enc_buf(src, len, dest, charset);
   dest[*len] = '\0';
@@ -157,6 +159,8 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
 {
   size_t dlen = ((*len / NUM_ENCODED_BYTES) + ((*len % NUM_ENCODED_BYTES) ? 1 : 0)) * NUM_ASCII_BYTES;
   char *dest = static_cast<char*>(malloc(dlen + 1));
+  if (dest == nullptr)
+    throw std::bad_alloc();
 
   if (charset) {
     char charset_index[256];
@@ -172,10 +176,8 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
 
 String base64Decode(const String& string, const char* charset) {
   size_t len = string.length();
-  char *p = b64dec(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset);
-  BDLIB_NS::String decoded(p, len);
-  free(p);
-  return decoded;
+  std::unique_ptr<char, decltype(&::free)> p(b64dec(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset), ::free);
+  return BDLIB_NS::String(p.get(), len);
 }
 
 BDLIB_NS_END
-- 
2.43.0


From 1f99767aaa9ed3e85a460c82ac30f858507cc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 22/43] fix: AtomicFile::commit leaked the descriptor on
 failure and unlinked a stale name when not open

---
 src/AtomicFile.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..ada8c32 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -74,16 +74,21 @@ bool AtomicFile::abort() {
 }
 
 bool AtomicFile::commit() {
-  bool result, remove_temp;
+  bool result, remove_temp, close_fd;
 
+  if (!is_open()) {
+    return false;
+  }
   result = false;
   remove_temp = true;
+  close_fd = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
     goto cleanup;
   }
   if (::fsync(_fd) != 0) {
     goto cleanup;
   }
+  close_fd = false;
   if (::close(_fd) != 0) {
     goto cleanup;
   }
@@ -95,6 +100,9 @@ bool AtomicFile::commit() {
   result = true;
 
 cleanup:
+  if (close_fd) {
+    ::close(_fd);
+  }
   if (remove_temp) {
     ::unlink(_tmpname.c_str());
   }
-- 
2.43.0


From 4878b5a874fa671fd97d22a305e7eb7e7d0d3028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:39 +0000
Subject: [PATCH 23/43] fix: AtomicFile::open leaked the tempfile and
 descriptor of a file still open

---
 src/AtomicFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index ada8c32..e82c689 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,8 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Do not leave behind a previous tempfile. */
+  abort();
   _fname = fname;
   _mode = mode;
 
-- 
2.43.0


From 02a3ad429671c031bd29764ff74b6504b9c3e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:41 +0000
Subject: [PATCH 24/43] fix: String::printf read past its buffer for text of
 4096 bytes or more

---
 src/String.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 68174c0..b13d860 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -30,6 +30,7 @@
 #include "HashTable.h"
 #include <cstdarg>
 #include <cstdio>
+#include <memory>
 #include "base64.h"
 //#include <memory>
 //#include <iostream>
@@ -256,7 +257,18 @@ String String::printf(const char* format, ...) {
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
 
-  return String(va_out, len);
+  if (len < 0)
+    return String();
+  if (static_cast<size_t>(len) < sizeof(va_out))
+    return String(va_out, len);
+
+  /* Did not fit, format again into a large enough buffer. */
+  const std::unique_ptr<char[]> buf(new char[static_cast<size_t>(len) + 1]);
+  va_start(va, format);
+  vsnprintf(buf.get(), static_cast<size_t>(len) + 1, format, va);
+  va_end(va);
+
+  return String(buf.get(), len);
 }
 
 String& String::chomp() noexcept {
-- 
2.43.0


From 28b4699e96f8f4bd2e776cc555c1b8812b089751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 25/43] fix: Stream::seek truncated positions to int before
 clamping them

---
 src/Stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..b36a120 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -47,7 +47,7 @@ void Stream::reserve(const size_t newSize) const {
 }
 
 int Stream::seek(int offset, int whence) {
-  int newpos;
+  ssize_t newpos;
 
   switch (whence) {
     case SEEK_SET:
-- 
2.43.0


From 860b61526d3680db0352a64a3e95f5505f798b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 26/43] fix: Stream::read past the data underflowed, and
 returned one byte too many before a delimiter

---
 src/Stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index b36a120..baced9d 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -72,7 +72,7 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  size_t toRead = pos < length() ? std::min(maxSize, length() - pos) : 0;
 
   /* No need to split the string, return a substring */
   if (!delim) {
@@ -87,7 +87,7 @@ String Stream::read(size_t maxSize, char delim) {
   while ((ret.length() < toRead) && (str[pos] != delim)) {
     ret += str[pos++];
   }
-  if (str.size() > pos && str[pos] == delim) {
+  if (ret.length() < toRead && str[pos] == delim) {
     ret += delim;
     ++pos;
   }
-- 
2.43.0


From 8d6cf8c60d0bff25eb399654dcbb026d6c766f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:04 +0000
Subject: [PATCH 27/43] fix: Stream::loadFile failed on an empty file

---
 src/Stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index baced9d..490df14 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -113,6 +113,10 @@ int Stream::loadFile(const int fd)
   if (size < 0) {
     return 1;
   }
+  /* There is nothing to map in an empty file */
+  if (size == 0) {
+    return 0;
+  }
   reserve(size);
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
-- 
2.43.0


From 606da51bddd2e4713da82fdcff95b5763d5bd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 28/43] fix: Stream::writeFile ignored a failure to close the
 file

---
 src/Stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 490df14..933dfa0 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -163,7 +163,8 @@ int Stream::writeFile(const String& file, mode_t mode) const
   if (fd == -1)
     return 1;
   int ret = writeFile(fd);
-  close(fd);
+  if (close(fd) != 0)
+    ret = 1;
   return ret;
 }
 
-- 
2.43.0


From 6e9396bbf959d56378ff7daddde6da499abd5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:33 +0000
Subject: [PATCH 29/43] fix: String::split() dropped or repeated the rest when
 no delimiter was left

---
 src/String.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index b13d860..9a9dfec 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -218,8 +218,11 @@ Array<String> String::split(const String& delim, size_t limit) const {
     // All done when there's nothing left
     if (it >= cend()) break;
 
-    if ((pos = _find(delim, it - cbegin())) == npos)
-      pos = cend() - it;
+    // The rest is the last piece
+    if (!delim.length() || (pos = _find(delim, it - cbegin())) == npos) {
+      array << (*this)(it - cbegin());
+      return array;
+    }
     array << (*this)(it - cbegin(), pos);
     assert(++ref);
     it += pos + delim.length();
-- 
2.43.0


From 47c20a3e8e6f633689daad645d5ef107f0f57af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:35 +0000
Subject: [PATCH 30/43] fix: String::rifind() ignored its lower bound

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 9a9dfec..00541a3 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -321,7 +321,7 @@ size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
   std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
   std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
-  return this_upper.rfind(str_upper);
+  return this_upper.rfind(str_upper, lpos);
 }
 
 size_t String::rfind(const String& str, const size_t lpos) const noexcept {
-- 
2.43.0


From b0f116df7843be6cae999080dccc3f45b2d4224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:38 +0000
Subject: [PATCH 31/43] fix: String::sub() never ended on an empty search text
 and ignored limit 0

---
 src/String.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 00541a3..2aacbc4 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -340,13 +340,16 @@ size_t String::rfind(const String& str, const size_t lpos) const noexcept {
 String String::sub(const String& search, const String& replacement, int limit) const {
   String newStr(length()), search_str(*this);
   size_type pos = 0;
-  auto cnt = 0;
+
+  // There is nothing to find and no way to move on
+  if (!search.length())
+    return search_str;
   // Search in our const string so that stuff like \->\\ doesnt become \\\, \\\\ etc.
-  while ((pos = search_str.find(search)) != npos) {
+  while (limit != 0 && (pos = search_str.find(search)) != npos) {
     newStr += search_str(0, pos);
     newStr += replacement;
     search_str += pos + search.length();
-    if (limit != -1 && ++cnt == limit) break;
+    if (limit > 0) --limit;
   }
   // Left over
   if (search_str.length())
-- 
2.43.0


From 608e2422ffc3cbb4b2cc1b32072780920f1c3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:43 +0000
Subject: [PATCH 32/43] fix: script integers were never converted to uint64_t

---
 src/ScriptInterpTCL.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..d71c5fa 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -274,7 +274,10 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  double d = 0;
+  /* A long holds the low bits of numbers up to UINT64_MAX. */
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK || d < 0) {
     return 0;
     //return "Type Error";
   }
-- 
2.43.0


From 1db7dcfcf7a7395a108bf85ae56c1b3590b95174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 33/43] fix: script integers beyond the range of long wrapped
 around

---
 src/ScriptInterpTCL.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index d71c5fa..8f5fce0 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -179,9 +179,19 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
   return tcl_to_c_cast<char*>::from(obj, si);
 }
 
+/* Tcl_GetLongFromObj() accepts and wraps numbers between LONG_MAX and ULONG_MAX
+ * (and their negatives): those changed their sign and do not fit. */
+static int getLongFromObj(Tcl_Obj* obj, long* v) {
+  double d = 0;
+  if (Tcl_GetLongFromObj(0, obj, v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK)
+    return TCL_ERROR;
+  return ((d < 0) == (*v < 0)) ? TCL_OK : TCL_ERROR;
+}
+
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLongFromObj(obj, &v) == TCL_OK) {
     if ((v < INT8_MIN || v > INT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -195,7 +205,7 @@ int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLongFromObj(obj, &v) == TCL_OK) {
     if ((v < 0 || v > UINT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -209,7 +219,7 @@ uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLongFromObj(obj, &v) == TCL_OK) {
     if ((v < INT16_MIN || v > INT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -223,7 +233,7 @@ int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLongFromObj(obj, &v) == TCL_OK) {
     if ((v < 0 || v > UINT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -237,7 +247,7 @@ uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLongFromObj(obj, &v) == TCL_OK) {
     if ((v < INT32_MIN || v > INT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -251,7 +261,7 @@ int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLongFromObj(obj, &v) == TCL_OK) {
     if ((v < 0 || v > UINT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -265,7 +275,7 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  if (getLongFromObj(obj, &v) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
-- 
2.43.0


From 0281552d63d69fe6969b218828498c8e7be0a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 34/43] fix: large unsigned integers became negative script
 values

---
 src/ScriptInterpTCL.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..f04526d 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -35,6 +35,7 @@
 #include <type_traits>
 #include <cstddef>
 #include <cstdint>
+#include <cinttypes>
 #include <limits.h>
 #include <sys/types.h>
 
@@ -393,7 +394,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -403,7 +404,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -413,7 +414,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
@@ -423,6 +424,9 @@ inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  if (value > INT64_MAX)
+    return c_to_tcl_cast<const String&>::from(String::printf("%" PRIu64,
+          value), interp);
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From a90cdad456a7eb8c8130a6c05142be5433d76de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:58 +0000
Subject: [PATCH 35/43] fix: calling a script command by a qualified or new
 name crashed

---
 src/ScriptInterpTCL.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 8f5fce0..fd37a6a 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -66,7 +66,14 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
   String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  /* Scripts may call it by another name: "::name", or after a rename. */
+  const auto handler = CmdHandlerData.find(cmdName);
+  if (handler == std::end(CmdHandlerData)) {
+    Tcl_SetObjResult(interp,
+        c_to_tcl_cast<const String&>::from("Unknown command.", interp));
+    return TCL_ERROR;
+  }
+  const ScriptCmdPtr ccd = handler->second;
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
-- 
2.43.0


From cb7902d75c8ca013d881be7e776504a570357ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 36/43] fix: writing a linked buffer read beyond the script
 value

---
 src/ScriptInterpTCL.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index f04526d..5e839d4 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -29,6 +29,8 @@
 #include "String.h"
 #include "ScriptInterp.h"
 
+#include <algorithm>
+#include <cstring>
 #include <unordered_map>
 #include <memory>
 #include "make_unique.h"
@@ -262,8 +264,9 @@ class ScriptInterpTCL : public ScriptInterp {
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
 
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
-              data->size);
+          const T newval = tcl_to_c_cast<T>::from(obj, nullptr);
+          memmove(data->ptr, newval,
+              std::min(data->size, std::strlen(newval) + 1));
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
-- 
2.43.0


From 5ef4db92fdab1d7604dc7500d7b85ea94f0031fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:09 +0000
Subject: [PATCH 37/43] fix: reading a linked variable cut its text at a NUL

---
 src/ScriptInterpTCL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index fd37a6a..ac80acf 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -120,8 +120,8 @@ const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
 const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
     char *name1, char *name2, int flags) {
   if (value) {
-    Tcl_SetVar2(interp,name1,name2,
-        tcl_to_c_cast<const char*>::from(value, nullptr), flags);
+    Tcl_IncrRefCount(value);
+    Tcl_SetVar2Ex(interp, name1, name2, value, flags);
     Tcl_DecrRefCount(value);
   }
   return nullptr;
-- 
2.43.0


From 399155760c72c14c78a91e81e52376aee74a0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:13 +0000
Subject: [PATCH 38/43] fix: linking a variable name again left the earlier
 link in place

---
 src/ScriptInterpTCL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index ac80acf..8f2cdb0 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -104,6 +104,8 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
 
 void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
     Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+  // Drop an earlier link of that name, it would still be traced.
+  unlinkVar(varName);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-- 
2.43.0


From 1bc5aa5dcf3478c3ec9a76b1c8fda8e55066f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:01 +0000
Subject: [PATCH 39/43] fix: HashTable assignment from a list did not compile

---
 src/HashTable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..750fb20 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -116,9 +116,7 @@ class HashTable {
      * @param list An initializer_list
      */
     HashTable& operator=(std::initializer_list<value_type> list) & {
-      for (const auto& item : list) {
-        (*this)[item.key()] = item.value();
-      }
+      map = list;
       return *this;
     }
 
-- 
2.43.0


From bb4d07af95293fd18d93c9b1547d3d2c2a7eaef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:26 +0000
Subject: [PATCH 40/43] fix: resize with a value constructed elements over
 living ones

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 08fbc1a..4ab3540 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -650,14 +650,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        // The whole buffer already holds constructed elements
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From a4a048f7b390a4f91601db69b92455ea380fbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:46 +0000
Subject: [PATCH 41/43] fix: shift() of an rvalue array kept its cached hash

---
 src/Array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Array.h b/src/Array.h
index 1934e3e..3450747 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -119,6 +119,7 @@ class Array : public ReferenceCountedArray<T> {
       assert(!this->isEmpty());
       assert(!this->isShared());
       pointer item{this->Buf(0)};
+      this->my_hash = 0;
       return this->isShared() ? *item : std::move(*item);
     }
 
-- 
2.43.0


From 81ca437077101b38ceb23c2fea863292075d26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:11 +0000
Subject: [PATCH 42/43] fix: arguments of a script callback were substituted by
 the interpreter

---
 src/ScriptInterpTCL.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 5e839d4..7f16e41 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -129,8 +129,13 @@ class ScriptCallbackerTCL : public ScriptCallbacker {
       ScriptCallbacker(_si, _cmd) {};
     virtual ~ScriptCallbackerTCL() {};
     inline virtual String call(const Array<String>& params = Array<String>()) {
-      return si->eval(String::printf("%s %s", cmd.c_str(),
-            params.join(" ", true).c_str()));
+      /* The text of a list quotes its elements, they are not substituted. */
+      Tcl_Obj* list = c_to_tcl_cast<const Array<String>&>::from(params,
+          nullptr);
+      Tcl_IncrRefCount(list);
+      const String args(tcl_to_c_cast<String>::from(list, si));
+      Tcl_DecrRefCount(list);
+      return si->eval(cmd + " " + args);
     }
 
 };
-- 
2.43.0


From 8a77cdb8f966a9f64913a09f4e97a0a5f72c1c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:49 +0000
Subject: [PATCH 43/43] fix: concurrent destruction of Strings raced on a
 static counter

---
 src/String.cpp | 2 +-
 src/String.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 2aacbc4..9448e32 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -37,7 +37,7 @@
 
 BDLIB_NS_BEGIN
 
-unsigned char String::cleanse_ctr = 0;
+thread_local unsigned char String::cleanse_ctr = 0;
 
 /* Accessors */
 int String::compare(const String& str) const noexcept
diff --git a/src/String.h b/src/String.h
index e669e07..bbabaa8 100755
--- a/src/String.h
+++ b/src/String.h
@@ -65,7 +65,7 @@ typedef char String_Array_Type;
 class String : public ReferenceCountedArray<String_Array_Type> {
   private:
         typedef std::allocator<String_Array_Type> Allocator;
-        static unsigned char cleanse_ctr;
+        static thread_local unsigned char cleanse_ctr;
 
         /* Cleanse our buffer using OPENSSL_cleanse() */
         void cleanse() noexcept {
-- 
2.43.0

