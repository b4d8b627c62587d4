From a110e710a31f96944b4f6e5aa1e44d3516ff10bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 01/50] fix: copy of a Vector without storage left its data
 pointer uninitialised

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..f255fbc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -557,7 +557,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 8e39ddbe116f7e875d80e088572a5fb4024dbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 02/50] fix: Vector copy assignment kept the old size and moved
 destroyed elements

---
 include/efp/sequence.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index f255fbc..d100fce 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -574,19 +574,18 @@ namespace detail {
         // todo copy_and_swap
         VectorBase& operator=(const VectorBase& other) noexcept {
             if (this != &other) {
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.destroy(_data + i);
-                    AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
-                }
+                clear();
 
                 if (_capacity < other._size + 1) {
-                    resize(other._size);
+                    reserve(other._size + 1);
                 }
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 49854f68cdc134030485b13fa1314daa60bc9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 03/50] fix: resize of ArrVec and Vector neither constructed
 nor destroyed elements

---
 include/efp/sequence.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d100fce..7ad1aba 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,6 +360,14 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        for (size_t i = length; i < _size; ++i) {
+            (_data + i)->~Element();
+        }
+
+        for (size_t i = _size; i < length; ++i) {
+            new (_data + i) Element {};
+        }
+
         _size = length;
     }
 
@@ -710,6 +718,14 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
+            for (size_t i = new_size; i < _size; ++i) {
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
+            }
+
+            for (size_t i = _size; i < new_size; ++i) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i, Element {});
+            }
+
             _size = new_size;
         }
 
-- 
2.43.0


From decf021ae4d49590c089f96eedf549de74d69def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 04/50] fix: Vector push_back and emplace_back read a freed
 element when given one of their own

---
 include/efp/sequence.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 7ad1aba..a6cfeee 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -787,7 +787,16 @@ namespace detail {
 
         void push_back(const Element& value) {
             if (_size + 1 >= _capacity) {
+                // The argument may be an element of this vector
+                Element element(value);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(element)
+                );
+                ++_size;
+                return;
             }
 
             // _allocator.construct(_data + _size, value);
@@ -797,7 +806,16 @@ namespace detail {
 
         void push_back(Element&& value) {
             if (_size + 1 >= _capacity) {
+                // The argument may be an element of this vector
+                Element element(efp::move(value));
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(element)
+                );
+                ++_size;
+                return;
             }
 
             // _allocator.construct(_data + _size, efp::move(value));
@@ -808,7 +826,16 @@ namespace detail {
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
+                // The argument may be an element of this vector
+                Element element(efp::forward<Args>(args)...);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(element)
+                );
+                ++_size;
+                return;
             }
 
             // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
-- 
2.43.0


From 97f08cf9de30e1cb959ffecba616178d10fb3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 05/50] fix: Vector insert and erase assigned to dead elements
 and leaked live ones

---
 include/efp/sequence.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a6cfeee..0211266 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -861,16 +861,24 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // The argument may be an element of this vector
+            Element element(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
             for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i - 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i - 1);
             }
 
             // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
+            AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(element));
             ++_size;
         }
 
@@ -883,7 +891,12 @@ namespace detail {
             AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
 
             for (size_t i = index; i < _size - 1; ++i) {
-                _data[i] = efp::move(_data[i + 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i + 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i + 1);
             }
 
             --_size;
-- 
2.43.0


From 8bf9047f08397ee858723b30b8b563599ce6d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 06/50] fix: ArrVec insert read a destroyed element when given
 one of its own

---
 include/efp/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 0211266..da75daa 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -401,12 +401,15 @@ public:
             );
         }
 
+        // The argument may be an element of this container
+        Element element(value);
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(element));
 
         ++_size;
     }
-- 
2.43.0


From 480fdd9625f93f28b21c1cd7fa7c0bf636809ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 07/50] fix: conversion between ArrVec capacities copied
 elements that do not exist

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index da75daa..b023450 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -306,8 +306,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From be9131043ec4d8c49be4b88db21bcec8b2a7ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 08/50] fix: moving from an ArrVec never destroyed the
 moved-from elements

---
 include/efp/sequence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index b023450..ba7abff 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -276,6 +276,7 @@ public:
         other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
+            (other._data + i)->~Element();
         }
     }
 
@@ -290,6 +291,7 @@ public:
             _size = other._size;
             for (size_t i = 0; i < _size; ++i) {
                 new (_data + i) Element {efp::move(other._data[i])};
+                (other._data + i)->~Element();
             }
 
             // Reset the source object
-- 
2.43.0


From 8030c617e84d8015528eb87f8b4b5e2ef5ede555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 09/50] fix: VectorView made from another view left its
 capacity uninitialised

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ba7abff..badf1ee 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1358,12 +1358,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
-- 
2.43.0


From 1cf96ce278d8ec759fefa3b0edae359ab239b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 10/50] fix: copies and moves of a Vcq took the wrong elements
 once the queue had wrapped

---
 include/efp/cyclic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..c5d8b29 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -183,8 +183,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[j]);
         }
 
         _size = other._size;
@@ -206,8 +206,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[j]);
         }
 
         _size = other._size;
@@ -222,8 +222,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -245,8 +245,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From 998a779d9f77d006eec2efa70fa884a52a1b7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 11/50] fix: self-assignment of Vcb and Vcq read destroyed
 elements

---
 include/efp/cyclic.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index c5d8b29..e99ec92 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -47,7 +51,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -193,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -232,6 +244,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From b6e655542f041b8557f44dcf72588a5d4eb37fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 12/50] fix: iterating an empty Vcq visited dead elements

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index e99ec92..5d23fc9 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -349,11 +349,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From 7b8218546444fc9d756a08b082cf94c700fb5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 13/50] fix: Vcq push_back read a destroyed element when given
 its own oldest element

---
 include/efp/cyclic.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 5d23fc9..c7afdb1 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -290,13 +290,16 @@ class Vcq {
     }
 
     void push_back(const A& value) {
+        // The argument may be the oldest element of this queue
+        A element {value};
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A {element};
+        new (_write + ct_capacity) A {efp::move(element)};
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
-- 
2.43.0


From ebdbf752186f182cf449b7cc69ca2d0ec953fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:29 +0000
Subject: [PATCH 14/50] fix: Enum with more than 128 alternatives did not
 compile

---
 include/efp/enum.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..0b4edd0 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -8,7 +8,8 @@ namespace efp {
 namespace detail {
 
     // Use bit operation and recursion
-    constexpr uint8_t power_2_ceiling(uint8_t n, uint8_t power = 2) {
+    // Wider than the result, since 256 itself has to be representable
+    constexpr uint8_t power_2_ceiling(uint16_t n, uint16_t power = 2) {
         return (power >= n) ? power - 1 : power_2_ceiling(n, power << 1);
     }
 
-- 
2.43.0


From 6596eb405a0b847c87484e8c82243989e2ac2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:31 +0000
Subject: [PATCH 15/50] fix: moving out of a const Enum or Maybe did not
 compile

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 0b4edd0..2a206c4 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -359,7 +359,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<Alt*>(&_storage));
+            return efp::move(*reinterpret_cast<const Alt*>(&_storage));
         }
 
         template<typename Alt>
@@ -377,7 +377,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<PackAt<i, A, As...>*>(&_storage));
+            return efp::move(*reinterpret_cast<const PackAt<i, A, As...>*>(&_storage));
         }
 
         template<uint8_t i>
-- 
2.43.0


From b1a2987dcf01bd12c3972908b29769f6dfcbd78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 16/50] fix: append concatenated in the compiler's order of
 argument evaluation

---
 include/efp/prelude.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..8c38c73 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,9 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Only the elements of a braced list are evaluated in order
+    const Unit done[] {detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...};
+    (void)done;
 
     return res;
 }
-- 
2.43.0


From 337171bb10c5a928e9412eb412398aaeee5510f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 17/50] fix: take_while and drop_while did not compile

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8c38c73..37c6428 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -877,8 +877,8 @@ auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
 template<typename As>
 using TakeWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
@@ -897,8 +897,8 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
 template<typename As>
 using DropWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
-- 
2.43.0


From 00c7394093d19fc0bbe1c2284a831775c596cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 18/50] fix: slice with bounds beyond the end gave a view past
 the sequence

---
 include/efp/prelude.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 37c6428..b5aa001 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -864,12 +864,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From d9cc788bbd7829d2c7bce82962ebe464369da752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 19/50] fix: cartesian_for_each_mut passed a const copy of the
 elements of all but the last sequence

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index b5aa001..0dec92e 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -427,7 +427,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From a37d26a292c1a72ce51216f2e741e4fb29c1e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 20/50] fix: a composed function kept references to temporary
 functions

---
 include/efp/prelude.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 0dec92e..f3a15bd 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -26,7 +26,8 @@ struct Composed {};
 
 template<typename F>
 struct Composed<F> {
-    const F& f;
+    // Functions can not be stored, anything else may be a temporary
+    Conditional<IsFunction<F>::value, const F&, const F> f;
 
     Composed(const F& f) : f(f) {}
 
@@ -38,7 +39,7 @@ struct Composed<F> {
 
 template<typename F, typename... Fs>
 struct Composed<F, Fs...> {
-    const F& f;
+    Conditional<IsFunction<F>::value, const F&, const F> f;
     const Composed<Fs...> fs;
 
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
-- 
2.43.0


From b93ad8f53471cdbbd716e66117d78340b31e2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 21/50] fix: max_elem of negative floating point numbers was
 the smallest positive number

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..3b08601 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,7 +113,7 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
 }
 
 template<typename As>
-- 
2.43.0


From 22e9583eb696ea01da98992f328b31746954ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:37 +0000
Subject: [PATCH 22/50] fix: _sum and _product accumulated in int and truncated
 large sizes

---
 include/efp/meta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..65811ee 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -810,13 +810,13 @@ constexpr A _minimum(const A (&as)[n]) {
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, A {0}, as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, A {1}, as);
 }
 
 // All
-- 
2.43.0


From 5e0a257de74a801adb990a4ccbc42567725f0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 23/50] fix: String(n, c) had no room for the terminator and
 mismatched allocation functions

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..2e5f36c 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,8 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 45e8b0944593644fc48b1c1f6e64e4d4f70ba88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 24/50] fix: String insert left no room for the terminator

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 2e5f36c..9528c44 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -160,7 +160,8 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
+        // Always reserve one extra space for the null character
+        Base::reserve(Base::_size + len + 1);
 
         for (size_t i = Base::_size; i > pos; --i) {
             Base::_data[i + len - 1] = Base::_data[i - 1];
-- 
2.43.0


From e6c65d1aee8f57a7981122822d1c2a0b0e7b7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 25/50] fix: c_str of a String without storage wrote through a
 null pointer

---
 include/efp/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 9528c44..fa81030 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -247,6 +247,11 @@ public:
     }
 
     const Char* c_str() const {
+        if (Base::_data == nullptr) {
+            static const Char empty[1] = {};
+            return empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From c86d4692176f0eeeb9725e71892055e42b883eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 26/50] fix: String compare read past the end of a shorter
 argument and ignored lengths

---
 include/efp/string.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index fa81030..d9b2e56 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -231,7 +231,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -243,7 +243,14 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const size_t common_len = len < other.size() ? len : other.size();
+        const int res = Traits::compare(Base::_data + pos, other.data(), common_len);
+
+        if (res != 0 || len == other.size()) {
+            return res;
+        }
+
+        return len < other.size() ? -1 : 1;
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 3f2c8759b6dd6d5893fe41cd138c473638a95caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 27/50] fix: StringView made from text or a String had capacity
 0

---
 include/efp/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index d9b2e56..145bb0c 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -304,12 +304,14 @@ public:
 
     VectorView(const Char* c_str) {
         Base::_size = Traits::length(c_str);
+        Base::_capacity = Base::_size;
         Base::_data = c_str;
     }
 
     // todo basic_string_view(const efp::BasicString<Char>& s) noexcept
     VectorView(const Vector<Char>& s) noexcept {
         Base::_size = s.size();
+        Base::_capacity = s.size();
         Base::_data = s.data();
     }
 
-- 
2.43.0


From e19cad11dce1294028c301cede1fa65d2df49006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 28/50] fix: appending a String to itself never ended

---
 include/efp/string.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 145bb0c..1b7969a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -119,7 +119,10 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        // other may be this string itself
+        const size_t len = other.size();
+
+        for (size_t i = 0; i < len; ++i) {
             Base::push_back(other[i]);
         }
 
-- 
2.43.0


From 31663ba362fc5e0dc2213163a344510e05d6af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:23 +0000
Subject: [PATCH 29/50] fix: String could not be constructed from a range of
 iterators

---
 include/efp/string.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 1b7969a..602cf17 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -61,22 +61,23 @@ public:
 
     // Not using iterator
     template<typename InputIt>
-    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
+    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) {
+        Base::_allocator = alloc;
+
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
+            ++Base::_size;
         }
-        Base::capacity_ = Base::size_ + 1;
+        Base::_capacity = Base::_size + 1;
 
         // Allocate memory for the elements
         // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
 
         // Second pass: Copy-construct elements from the range
         size_t i = 0;
         for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
         }
     }
 
-- 
2.43.0


From c92862f19d170db99a59c33603a158221a670213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:23 +0000
Subject: [PATCH 30/50] fix: an empty String or StringView without storage was
 not equal to ""

---
 include/efp/string.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 602cf17..687538a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -87,12 +87,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
@@ -325,12 +321,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
-- 
2.43.0


From 034aab956397f5182a2e2d820b0408b6990f51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:52 +0000
Subject: [PATCH 31/50] fix: NonBlockingQ::is_empty read the queue without
 holding its mutex

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..2205c71 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 715fa5848ae25ff70dcf0d6d2a199509e0729ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 32/50] fix: a moved File lost its mode

---
 include/efp/io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..fc98a57 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,6 +38,7 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
-- 
2.43.0


From d97031e2841e36b58e8cc96b5e8f35ed5de6770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 33/50] fix: move assignment of File leaked the open file and
 kept the old mode

---
 include/efp/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index fc98a57..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -44,7 +44,11 @@ public:
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From 040066ce8bf46fb6ad70ccd03803909a1451a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 34/50] fix: File closed its stream a second time after a
 failed close

---
 include/efp/io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..7840cc8 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -150,9 +150,11 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
+        if (_file) {
+            // The stream is gone even if fclose fails
+            FILE* file = _file;
             _file = nullptr;
-            return true;
+            return std::fclose(file) != EOF;
         }
 
         return false;
-- 
2.43.0


From cd5f7fff7901780b4abcfcc2d7a2eb4349fd6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 35/50] fix: flush, seek and tell of a closed File used a null
 stream

---
 include/efp/io.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 7840cc8..3508a0f 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -138,15 +138,15 @@ public:
     }
 
     int flush() {
-        return std::fflush(_file);
+        return _file ? std::fflush(_file) : EOF;
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
     int tell() {
-        return std::ftell(_file);
+        return _file ? std::ftell(_file) : -1;
     }
 
     bool close() {
-- 
2.43.0


From 55ed593f11ab3d19c66d5116b5ac5d379c427ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 36/50] fix: File::write stopped at the first NUL of a String
 in text mode

---
 include/efp/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 3508a0f..72e798c 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -133,7 +133,7 @@ public:
             size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
             return written == data.size();
         } else {
-            return std::fputs(data.c_str(), _file) != EOF;
+            return write(data.data(), data.size());
         }
     }
 
-- 
2.43.0


From 23abdfe6d34dd0cfbc76e4a263e838dff52bf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 37/50] fix: File::tell truncated offsets to int

---
 include/efp/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 72e798c..7121141 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -145,7 +145,7 @@ public:
         return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
-    int tell() {
+    long tell() {
         return _file ? std::ftell(_file) : -1;
     }
 
-- 
2.43.0


From 8049d16cb25467f931200f086b1bbff71d34d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:47 +0000
Subject: [PATCH 38/50] fix: sort left runs of a vector of more than 32
 elements unmerged

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From 66ba44d3451ea05ff9ab2d1f5c0cf36189fdc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 39/50] fix: comparing two Maybe values did not compile

---
 include/efp/maybe.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..e10d401 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -7,7 +7,15 @@
 
 namespace efp {
 
-struct Nothing {};
+struct Nothing {
+    constexpr bool operator==(const Nothing&) const noexcept {
+        return true;
+    }
+
+    constexpr bool operator!=(const Nothing&) const noexcept {
+        return false;
+    }
+};
 
 constexpr Nothing nothing;
 
-- 
2.43.0


From c0cbe60a560a60c117593d612f993de2651642e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 40/50] fix: linear_regression_with_index overflowed int for
 more than 1290 elements

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..7ab8874 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * (static_cast<double>(n) * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From 69e13eab6c48ebdaff4a939e8a518ca80ced5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 41/50] fix: linear_regression_with_index and detrend did not
 compile for float

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 7ab8874..739629d 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -157,7 +157,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
 
-    return tuple(beta_1, beta_2);
+    return tuple(static_cast<R>(beta_1), static_cast<R>(beta_2));
 }
 
 template<typename R, typename As>
-- 
2.43.0


From 8017bd17ff0e0ffd7c4c1784739aab59b5e30dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:20 +0000
Subject: [PATCH 42/50] fix: is_approx converted a floating-point argument to
 an integer type of the same size

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 3b08601..4ca1752 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -17,7 +17,7 @@ constexpr A abs(const A& a) {
 
 template<typename A, typename B>
 constexpr A is_approx(const A& lhs, const B& rhs) {
-    using MorePrecise = Conditional<(sizeof(A) > sizeof(B)), A, B>;
+    using MorePrecise = Common<A, B>;
 
     return abs(static_cast<MorePrecise>(lhs) - static_cast<MorePrecise>(rhs))
         <= NumericLimits<MorePrecise>::epsilon();
-- 
2.43.0


From 31165cfa399ea0c5ca2191c503434fcf61fc23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:32 +0000
Subject: [PATCH 43/50] fix: _maximum ignored negative floating-point values

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 65811ee..95f3108 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -798,7 +798,7 @@ constexpr bool _any(const bool (&bs)[n]) {
 // _maximum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _maximum(const A (&as)[n]) {
-    return _foldl(max<A>, NumericLimits<A>::min(), as);
+    return _foldl(max<A>, NumericLimits<A>::lowest(), as);
 }
 
 // _minimum :: [A] -> A
-- 
2.43.0


From 104cbf34ba017eb9a26a47cbb9ff5e2131de7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:32 +0000
Subject: [PATCH 44/50] fix: IsInvocableR was always false before C++17

---
 include/efp/meta.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 95f3108..e4718ac 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -418,8 +418,7 @@ private:
     // A helper to try invoking the function and check the return type
     template<typename U>
     static auto test(int)
-        -> decltype(std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-                        type());
+        -> typename std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::type;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From 9b44932870660d750f0315d934ec26648e819a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:32 +0000
Subject: [PATCH 45/50] fix: IsDefaultConstructible was always false

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index e4718ac..99f5d70 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -762,7 +762,7 @@ template<typename A, typename = void>
 struct IsDefaultConstructible: False {};
 
 template<typename A>
-struct IsDefaultConstructible<A, decltype(A())>: True {};
+struct IsDefaultConstructible<A, Void<decltype(A())>>: True {};
 
 // InitializerList
 
-- 
2.43.0


From 0b470da8c6f8c093731c12ffc73862e22d2b79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:46 +0000
Subject: [PATCH 46/50] fix: copy and move elements by their copy and move
 constructors, not by an initializer-list constructor

---
 include/efp/cyclic.hpp   | 12 ++++++------
 include/efp/enum.hpp     |  4 ++--
 include/efp/sequence.hpp | 36 ++++++++++++++++++------------------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index c7afdb1..8668b66 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -83,8 +83,8 @@ class Vcb {
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A {value};
-        new (_data + ct_size) A {value};
+        new (_data) A(value);
+        new (_data + ct_size) A(value);
 
         ++_data;
         _data -= ct_size * (_data == _buffer + ct_capacity);
@@ -291,15 +291,15 @@ class Vcq {
 
     void push_back(const A& value) {
         // The argument may be the oldest element of this queue
-        A element {value};
+        A element(value);
 
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {element};
-        new (_write + ct_capacity) A {efp::move(element)};
+        new (_write) A(element);
+        new (_write + ct_capacity) A(efp::move(element));
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
@@ -315,7 +315,7 @@ class Vcq {
     // ! Undefined if empty
 
     A pop_front() {
-        A value {efp::move(*_read)};
+        A value(efp::move(*_read));
 
         _read->~A();
         (_read + ct_capacity)->~A();
diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 2a206c4..1789e5d 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -417,7 +417,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, const EnumBase& other) {
-                new (self->_storage) Alt {*reinterpret_cast<const Alt*>(&other._storage)};
+                new (self->_storage) Alt(*reinterpret_cast<const Alt*>(&other._storage));
             }
         };
 
@@ -426,7 +426,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, EnumBase&& other) {
-                new (self->_storage) Alt {efp::move(*reinterpret_cast<Alt*>(&other._storage))};
+                new (self->_storage) Alt(efp::move(*reinterpret_cast<Alt*>(&other._storage)));
             }
         };
 
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index badf1ee..fd7bc5d 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -59,7 +59,7 @@ public:
 
     Array(const Array& other) {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -67,7 +67,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                   // Destroy each element
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -75,7 +75,7 @@ public:
 
     Array(Array&& other) noexcept {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+            new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
         }
     }
 
@@ -83,7 +83,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                              // Destroy each element
-                new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+                new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
             }
         }
         return *this;
@@ -102,7 +102,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -174,13 +174,13 @@ public:
 private:
     template<typename Head, typename... Tail>
     inline void _construct_elements(size_t& index, const Head& head, const Tail&... tail) {
-        new (_data + index++) Element {head};
+        new (_data + index++) Element(head);
         _construct_elements(index, tail...);
     }
 
     template<typename Last>
     inline void _construct_elements(size_t& index, const Last& last) {
-        new (_data + index) Element {last};
+        new (_data + index) Element(last);
     }
 
     RawStorage<A, ct_size> _data;
@@ -253,7 +253,7 @@ public:
 
     ArrVec(const ArrVec& other) : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -266,7 +266,7 @@ public:
             _size = other._size;
 
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -275,7 +275,7 @@ public:
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
         other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};
+            new (_data + i) Element(efp::move(other._data[i]));
             (other._data + i)->~Element();
         }
     }
@@ -290,7 +290,7 @@ public:
             // Move data from the source object
             _size = other._size;
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {efp::move(other._data[i])};
+                new (_data + i) Element(efp::move(other._data[i]));
                 (other._data + i)->~Element();
             }
 
@@ -310,7 +310,7 @@ public:
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
     ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {as[i]};
+            new (_data + i) Element(as[i]);
         }
     }
 
@@ -323,7 +323,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -384,7 +384,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {value};
+            new (_data + _size++) Element(value);
         }
     }
 
@@ -392,7 +392,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {efp::move(value)};
+            new (_data + _size++) Element(efp::move(value));
         }
     }
 
@@ -439,7 +439,7 @@ public:
         (_data + index)->~Element();
 
         for (size_t i = index; i < _size - 1; ++i) {
-            new (_data + i) Element {efp::move(_data[i + 1])};
+            new (_data + i) Element(efp::move(_data[i + 1]));
             (_data + i + 1)->~Element();
         }
         --_size;
@@ -476,13 +476,13 @@ public:
 private:
     template<typename Head, typename... Tail>
     void _construct_elements(size_t& index, const Head& head, const Tail&... tail) {
-        new (_data + index++) Element {head};
+        new (_data + index++) Element(head);
         _construct_elements(index, tail...);
     }
 
     template<typename Last>
     void _construct_elements(size_t& index, const Last& last) {
-        new (_data + index++) Element {last};
+        new (_data + index++) Element(last);
     }
 
     // Element _data[ct_capacity];
-- 
2.43.0


From b26678d02e42e99a6490016669aa89d9a0500a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:41 +0000
Subject: [PATCH 47/50] fix: copy elements from a const source, so that a
 forwarding constructor is not chosen

---
 include/efp/cyclic.hpp   | 7 ++++---
 include/efp/sequence.hpp | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 8668b66..40ea00d 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -83,8 +83,9 @@ class Vcb {
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A(value);
-        new (_data + ct_size) A(value);
+        const A& element = value;
+        new (_data) A(element);
+        new (_data + ct_size) A(element);
 
         ++_data;
         _data -= ct_size * (_data == _buffer + ct_capacity);
@@ -298,7 +299,7 @@ class Vcq {
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A(element);
+        new (_write) A(static_cast<const A&>(element));
         new (_write + ct_capacity) A(efp::move(element));
 
         ++_write;
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index fd7bc5d..74069f6 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -579,7 +579,7 @@ namespace detail {
 
                 for (size_t i = 0; i < _size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
-                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
+                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other[i]);
                 }
             }
         }
@@ -595,7 +595,7 @@ namespace detail {
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
-                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
+                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other[i]);
                 }
 
                 _size = other._size;
-- 
2.43.0


From d07e4f8dc0545e4db4d8f29c69f037dbd63c1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 48/50] fix: append and insert of a text that is part of the
 string itself

---
 include/efp/string.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 687538a..f33cdab 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -127,13 +127,8 @@ public:
     }
 
     Vector& append(const Char* c_str) {
-        const size_t len = Traits::length(c_str);
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::push_back(c_str[i]);
-        }
-
-        return *this;
+        // c_str may point into this string
+        return *this += Vector(c_str);
     }
 
     Vector& append(size_t n, Char c) {
@@ -159,7 +154,9 @@ public:
             throw RuntimeError("Index out of range");
         }
 
-        const size_t len = Traits::length(c_str);
+        // c_str may point into this string
+        const Vector text(c_str);
+        const size_t len = text.size();
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + len + 1);
 
@@ -168,7 +165,7 @@ public:
         }
 
         for (size_t i = 0; i < len; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = text[i];
         }
 
         Base::_size += len;
@@ -181,6 +178,8 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        // c_str may point into this string
+        const Vector text(c_str, n);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -189,7 +188,7 @@ public:
         }
 
         for (size_t i = 0; i < n; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = text[i];
         }
 
         Base::_size += n;
-- 
2.43.0


From fa7941793ffc45a765c39e129bf4d382b3f53998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 49/50] fix: release the spinlock of DoubleBuffer when copying
 an element throws

---
 include/efp/concurrency.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 2205c71..2140ed9 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -214,9 +214,9 @@ public:
     }
 
     void enqueue(const A& a) {
-        _spinlock.lock();
+        // push_back may throw if copying an element does
+        std::lock_guard<Spinlock> lock(_spinlock);
         _write_buffer->push_back(a);
-        _spinlock.unlock();
     }
 
     void swap_buffer() {
-- 
2.43.0


From cb3db5fae950464e4d303d3dfb8337093097b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 50/50] fix: data() of a mutable std::basic_string compiles
 before C++17

---
 include/efp/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 74069f6..b6e317e 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1620,7 +1620,7 @@ constexpr auto data(const std::basic_string<A>& as) -> const A* {
 
 template<typename A>
 constexpr auto data(std::basic_string<A>& as) -> A* {
-    return as.data();
+    return &as[0];  // data() of a mutable string is const before C++17
 }
 
 };  // namespace efp
-- 
2.43.0

