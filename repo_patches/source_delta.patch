From 007ef851959964eee33c00043c7d654f22107c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 01/30] fix: CircularBuffer lost or repeated blocks at exact
 fits and near the end of the memory

A block that exactly filled the gap before the unread data made the buffer look
empty; the wrap rules of push and pop disagreed for the last bytes of the memory
(blocks delivered again or skipped) and the wrap marker could be written past the
end.
---
 gmlc/containers/CircularBuffer.hpp | 49 +++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..fe7afcb 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,6 +29,9 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
+            if (full_) {
+                return false;
+            }
             if (next_write >= next_read) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
@@ -47,7 +50,7 @@ namespace containers {
         // Return true if push was successful
         bool push(const unsigned char* data, int blockSize)
         {
-            if (blockSize <= 0 || data == nullptr) {
+            if (blockSize <= 0 || data == nullptr || full_) {
                 return false;
             }
             if (next_write >= next_read) {
@@ -58,20 +61,23 @@ namespace containers {
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
                     // loop around if there isn't really space for another block
-                    // of at least 4 bytes and the next_read>origin
-                    if (((capacity_ - (next_write - origin)) < 8) &&
-                        (next_read > origin)) {
+                    // of at least 1 byte and the next_read>origin
+                    if (isUnusableTail(next_write) && (next_read > origin)) {
                         next_write = origin;
                     }
                     return true;
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    // pop skips an unusable tail without needing a marker
+                    if (!isUnusableTail(next_write)) {
+                        int loc = -1;
+                        memcpy(next_write, &loc, sizeof(int));
+                    }
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    full_ = (next_write == next_read);
                     return true;
                 }
             } else if (
@@ -80,13 +86,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                full_ = (next_write == next_read);
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -100,19 +107,24 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
             memcpy(&size, next_read, sizeof(int));
             if (size < 0) {
                 next_read = origin;
+                full_ = false;
                 memcpy(&size, next_read, sizeof(int));
             }
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
-                if ((capacity_ - (next_read - origin)) < 8) {
+                full_ = false;
+                if (isUnusableTail(next_read)) {
+                    if (next_write == next_read) {
+                        next_write = origin;
+                    }
                     next_read = origin;
                 }
                 return size;
@@ -120,17 +132,29 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (next_write == next_read) && !full_; }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            full_ = false;
+        }
 
       private:
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        /// true if next_write caught up with next_read from behind
+        bool full_{false};
 
       private:
+        /** check if there is not enough room from pos to the end of the memory
+         * for even the smallest block (size + 1 byte)*/
+        bool isUnusableTail(const unsigned char* pos) const
+        {
+            return (capacity_ - (pos - origin)) < 5;
+        }
         friend class CircularBuffer;
     };
     /** class implementing a circular buffer with raw memory
@@ -160,6 +184,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.full_ = false;
         }
         CircularBuffer(const CircularBuffer& cb) :
             data{new unsigned char[cb.actualSize]}, actualSize{cb.actualSize},
@@ -194,6 +219,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.full_ = false;
             cb.data = nullptr;
             cb.actualSize = 0;
             cb.actualCapacity = 0;
@@ -242,6 +268,7 @@ namespace containers {
                     buffer.next_write = buffer.origin + write_offset;
                     buffer.next_read = buffer.origin + newsize - readDiff;
                     buffer.capacity_ = newsize;
+                    buffer.full_ = false;
                 }
             } else {  // smaller size
                 int read_offset =
-- 
2.43.0


From 81d375518ec61755ba1af6279a376ba7b8d6a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 02/30] fix: CircularBuffer copy of an empty buffer left a
 dangling pointer and zero sized memory leaked

---
 gmlc/containers/CircularBuffer.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index fe7afcb..00084f7 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -167,12 +167,7 @@ namespace containers {
             actualCapacity{size}, buffer(data, size)
         {
         }
-        ~CircularBuffer()
-        {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
-        }
+        ~CircularBuffer() { delete[] data; }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
             actualCapacity(cb.actualCapacity), buffer(std::move(cb.buffer))
@@ -199,6 +194,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
@@ -342,13 +338,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 9ce116c29e3a323fb8d73f1ddb44b6391732658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 03/30] fix: StackBuffer resize with data marked all of the new
 space as used

---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..0cca7cf 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -229,6 +229,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
+                int dataOffset = static_cast<int>(stack.next - stack.origin);
                 memmove(
                     data + newOffset,
                     data + indexOffset,
@@ -236,7 +237,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -257,7 +258,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 6ea57c95e1010c783e5be0fa097f76236187bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 04/30] fix: StackBuffer kept its capacity after being moved
 from and leaked zero sized memory

---
 gmlc/containers/StackBuffer.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 0cca7cf..ff6302e 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
@@ -316,13 +317,10 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From d7f0686f83ba763cc09ff232b78e0103dc0de002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 05/30] fix: StableBlockVector and StableBlockDeque end() read
 past a full block table

---
 gmlc/containers/StableBlockDeque.hpp  | 16 +++++++++-------
 gmlc/containers/StableBlockVector.hpp | 10 ++++++----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..6106e84 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,7 +50,8 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
+            // one extra slot so an end iterator can always look at its slot
+            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64}) + 1]),
             dataSlotsAvailable(
                 std::max(static_cast<int>(startSize >> N) + 2, 64))
         {
@@ -112,8 +113,9 @@ and deallocate methods)*/
 
         StableBlockDeque(const StableBlockDeque& sbd) :
             dataptr(new X*[std::max(
-                static_cast<size_t>(sbd.dataSlotsAvailable),
-                size_t{64})]),
+                               static_cast<size_t>(sbd.dataSlotsAvailable),
+                               size_t{64}) +
+                           1]),
             dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
         {
             if (sbd.dataptr != nullptr) {
@@ -476,7 +478,7 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
@@ -495,7 +497,7 @@ and deallocate methods)*/
                         dataSlotBack = dataSlotFront + diff;
                     } else {
                         auto mem =
-                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2 + 1];
                         std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                         delete[] dataptr;
                         dataptr = mem;
@@ -511,7 +513,7 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
@@ -531,7 +533,7 @@ and deallocate methods)*/
                         dataSlotFront = (dataSlotsAvailable - dataSlotBack) / 2;
                     } else {
                         auto mem =
-                            new X*[static_cast<std::size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<std::size_t>(dataSlotsAvailable) * 2 + 1];
                         std::copy(
                             dataptr,
                             dataptr + dataSlotBack + 1,
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..73cc50a 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -53,7 +53,8 @@ no erase or insert
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
+            // one extra slot so an end iterator can always look at its slot
+            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64}) + 1]),
             dataSlotsAvailable(
                 std::max(static_cast<int>(startSize >> N) + 1, 64)),
             dataSlotIndex(static_cast<int>(startSize >> N)),
@@ -82,7 +83,8 @@ no erase or insert
         StableBlockVector(const StableBlockVector& sbv)
         {
             if (sbv.dataptr != nullptr) {
-                dataptr = new X*[sbv.dataSlotsAvailable];
+                dataptr =
+                    new X*[static_cast<size_t>(sbv.dataSlotsAvailable) + 1];
                 dataSlotsAvailable = sbv.dataSlotsAvailable;
                 dataSlotIndex = -1;
                 assign(sbv.begin(), sbv.end());
@@ -379,12 +381,12 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1];
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
                 } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
-                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2 + 1];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                     delete[] dataptr;
                     dataptr = mem;
-- 
2.43.0


From be35d1c890883259501e5abc724d0ed8015333ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 06/30] fix: StableBlockVector copy of an emptied vector and
 moved-from state were corrupt

---
 gmlc/containers/StableBlockVector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 73cc50a..9aebedf 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -82,7 +82,7 @@ no erase or insert
 
         StableBlockVector(const StableBlockVector& sbv)
         {
-            if (sbv.dataptr != nullptr) {
+            if (sbv.csize > 0) {
                 dataptr =
                     new X*[static_cast<size_t>(sbv.dataSlotsAvailable) + 1];
                 dataSlotsAvailable = sbv.dataSlotsAvailable;
@@ -101,9 +101,10 @@ no erase or insert
             sbv.freeblocks = nullptr;
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
+            sbv.freeIndex = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
             sbv.csize = 0;
         }
 
@@ -127,7 +128,11 @@ no erase or insert
             sbv.freeblocks = nullptr;
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
+            sbv.freeIndex = 0;
             sbv.dataptr = nullptr;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.csize = 0;
 
             return *this;
         }
-- 
2.43.0


From 289e74e34af4c18dcf03bfd2dd8c56ce2fc5fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 07/30] fix: StableBlockDeque empty construction, clear of a
 single block and moved-from state were corrupt

---
 gmlc/containers/StableBlockDeque.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 6106e84..24eb8ae 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -59,7 +59,8 @@ and deallocate methods)*/
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -129,7 +130,8 @@ and deallocate methods)*/
                 Allocator a;
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             }
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
@@ -143,7 +145,11 @@ and deallocate methods)*/
             sbd.freeblocks = nullptr;
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
+            sbd.freeIndex = 0;
             sbd.dataptr = nullptr;
+            sbd.dataSlotFront = 0;
+            sbd.dataSlotBack = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
         }
@@ -170,7 +176,11 @@ and deallocate methods)*/
             sbd.freeblocks = nullptr;
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
+            sbd.freeIndex = 0;
             sbd.dataptr = nullptr;
+            sbd.dataSlotFront = 0;
+            sbd.dataSlotBack = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
             return *this;
@@ -323,7 +333,9 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            const int lastStart =
+                (dataSlotFront == dataSlotBack) ? (fsize + 1) : 0;
+            for (int jj = bsize - 1; jj >= lastStart;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
@@ -516,7 +528,7 @@ and deallocate methods)*/
                     dataptr = new X*[64 + 1];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = blockSize / 2;
                     bsize = fsize + 1;
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
-- 
2.43.0


From 5fd1e87abf75b93e90952b6968abd3fde94ef181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 08/30] fix: BlockIterator difference_type and movement against
 the named direction

---
 gmlc/containers/BlockIterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..42c5dc4 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -25,7 +25,7 @@ namespace containers {
       public:
         using iterator_category = std::bidirectional_iterator_tag;
         using value_type = X;
-        using difference_type = X;
+        using difference_type = std::ptrdiff_t;
         using pointer = const typename std::remove_const<X>::type*;
         using reference = const typename std::remove_const<X>::type&;
         using constref = const typename std::remove_const<X>::type;
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -101,6 +102,7 @@ namespace containers {
         {
             ptr -= movement;
             offset -= static_cast<int>(movement);
+            check();
             checkNeg();
             return (*this);
         }
-- 
2.43.0


From 1bdeff2c4b83aad38831016dbb8c7baade46b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 09/30] fix: block containers counted an element whose
 constructor threw

---
 gmlc/containers/StableBlockDeque.hpp  | 18 ++++++++++++------
 gmlc/containers/StableBlockVector.hpp |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 24eb8ae..7c0fff9 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -192,21 +192,24 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -229,21 +232,24 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 9aebedf..fefe993 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -143,8 +143,9 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
@@ -152,14 +153,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
-- 
2.43.0


From 1f2f0f8b613d1e615960fd9913e11135085ec6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 10/30] fix: removal from mapped vectors left or erased the
 wrong search terms

Removing an element with several search terms erased only one of them, and
removing an element without one erased the default constructed term of another
element.
---
 gmlc/containers/DualMappedPointerVector.hpp | 60 ++++-----------------
 gmlc/containers/MappedPointerVector.hpp     | 18 ++-----
 gmlc/containers/MappedVector.hpp            | 19 ++-----
 gmlc/containers/StringMappedVector.hpp      | 19 ++-----
 4 files changed, 25 insertions(+), 91 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..3c6b8af 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,29 +251,27 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
+            std::vector<searchType1> ind1;
+            std::vector<searchType2> ind2;
             for (auto& el2 : lookup1) {
                 if (el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind1 = el2.first;
+                    ind1.push_back(el2.first);
                 }
             }
             for (auto& el2 : lookup2) {
                 if (el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind2 = el2.first;
+                    ind2.push_back(el2.first);
                 }
             }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
+            for (auto& term : ind1) {
+                lookup1.erase(term);
             }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
+            for (auto& term : ind2) {
+                lookup2.erase(term);
             }
         }
 
@@ -283,26 +281,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +290,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..53be5e3 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,17 +137,16 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
+        std::vector<searchType> ind;
         for (auto& el2 : lookup) {
             if (el2.second > index) {
                 el2.second -= 1;
             } else if (el2.second == index) {
-                ind = el2.first;
+                ind.push_back(el2.first);
             }
         }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+        for (auto& term : ind) {
+            lookup.erase(term);
         }
     }
     /** remove an element based on the lookup index*/
@@ -157,14 +156,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..634eefd 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,16 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
+            std::vector<searchType> ind;
             for (auto& el2 : lookup) {
                 if (erased && el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind = el2.first;
+                    ind.push_back(el2.first);
                 }
             }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+            for (auto& term : ind) {
+                lookup.erase(term);
             }
         }
 
@@ -155,15 +154,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..81bfa63 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,16 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
+            std::vector<std::string_view> ind;
             for (auto& el2 : lookup) {
                 if (erased && el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind = el2.first;
+                    ind.push_back(el2.first);
                 }
             }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+            for (auto& term : ind) {
+                lookup.erase(term);
             }
         }
 
@@ -144,15 +143,7 @@ with limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 69446a88ea6b13cd68bbfd7a09728aa5407fc1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 11/30] fix: copies of string mapped vectors looked up names
 owned by the original

---
 gmlc/containers/DualStringMappedVector.hpp | 32 ++++++++++++++++++++++
 gmlc/containers/StringMappedVector.hpp     | 30 ++++++++++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..9bb224f 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,31 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        /** copy constructor, the lookup refers to the names so it needs to be
+         * rebuilt for the new object*/
+        DualStringMappedVector(const DualStringMappedVector& other) :
+            dataStorage(other.dataStorage), lookup2(other.lookup2)
+        {
+            copyNames(other);
+        }
+        DualStringMappedVector(DualStringMappedVector&& other) = default;
+        ~DualStringMappedVector() = default;
+        /** copy assignment*/
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            if (this != &other) {
+                lookup1.clear();
+                names.clear();
+                dataStorage = other.dataStorage;
+                lookup2 = other.lookup2;
+                copyNames(other);
+            }
+            return *this;
+        }
+        DualStringMappedVector&
+            operator=(DualStringMappedVector&& other) = default;
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
@@ -412,6 +437,13 @@ or by numerical index
         }
 
       private:
+        void copyNames(const DualStringMappedVector& other)
+        {
+            for (auto& term : other.lookup1) {
+                names.emplace_back(term.first);
+                lookup1.emplace(names.back(), term.second);
+            }
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 81bfa63..4ebdd1d 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,29 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        /** copy constructor, the lookup refers to the names so it needs to be
+         * rebuilt for the new object*/
+        StringMappedVector(const StringMappedVector& other) :
+            dataStorage(other.dataStorage)
+        {
+            copyNames(other);
+        }
+        StringMappedVector(StringMappedVector&& other) = default;
+        ~StringMappedVector() = default;
+        /** copy assignment*/
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            if (this != &other) {
+                lookup.clear();
+                names.clear();
+                dataStorage = other.dataStorage;
+                copyNames(other);
+            }
+            return *this;
+        }
+        StringMappedVector& operator=(StringMappedVector&& other) = default;
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
@@ -192,6 +215,13 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        void copyNames(const StringMappedVector& other)
+        {
+            for (auto& term : other.lookup) {
+                names.emplace_back(term.first);
+                lookup.emplace(names.back(), term.second);
+            }
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From 90bfee649e50348c4f7b567a0746bdff932788fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 12/30] fix: unstable string mapped vectors could not remove,
 DualMappedPointerVector::at did not compile

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 gmlc/containers/DualStringMappedVector.hpp  | 5 +++++
 gmlc/containers/StringMappedVector.hpp      | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 3c6b8af..3d225d8 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 9bb224f..86a6846 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -444,6 +444,11 @@ or by numerical index
                 lookup1.emplace(names.back(), term.second);
             }
         }
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 4ebdd1d..08cbf9e 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -222,6 +222,11 @@ with limited to no removal since removal is a rather expensive operation
                 lookup.emplace(names.back(), term.second);
             }
         }
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From ab4642721d34842eaad20a83469e3a1d3c88fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 13/30] fix: queues kept a wrong empty flag after being moved
 from or pushing an empty vector

---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 gmlc/containers/SimpleQueue.hpp           | 4 +++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..6c0d819 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..1328b0a 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..4561ed5 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
@@ -152,7 +154,7 @@ atomic flag indicating the queue is empty
                 if (pullElements.empty()) {
                     pullElements.insert(
                         pullElements.end(), val.rbegin(), val.rend());
-                    queueEmptyFlag.store(false);
+                    queueEmptyFlag.store(val.empty());
                     return;
                 }
                 // reengage the push lock so we can push next
-- 
2.43.0


From f8dedb6a70301f4fccbc519b86b52668564310eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 14/30] fix: BlockingQueue lost wakeups after a waiting pop
 took the last element

---
 gmlc/containers/BlockingQueue.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 1328b0a..8df0a32 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -222,6 +222,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -229,6 +230,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -250,6 +252,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -257,6 +260,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -289,6 +293,7 @@ contention the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -296,6 +301,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From b0a023de197900df0239d73def8b8fa5e6d07d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 15/30] fix: BlockingPriorityQueue lost wakeups and empty()
 after the last priority element was taken

---
 gmlc/containers/BlockingPriorityQueue.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 6c0d819..8001844 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -270,24 +270,28 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -309,12 +313,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -322,12 +328,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -360,6 +368,7 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
@@ -367,6 +376,7 @@ the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -374,11 +384,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -409,7 +421,7 @@ any meaning depending on the number of consumers
                     // after the swap call;
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
-                } else {
+                } else if (priorityQueue.empty()) {
                     queueEmptyFlag = true;
                 }
             }
@@ -423,6 +435,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
-- 
2.43.0


From 0469535a1361f7c4776fa58f2cf0f3180162703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 16/30] fix: default constructed WorkBlock always threw

---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..d297492 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -126,7 +126,9 @@ that can be executed, functionoid, or something that implements operator()
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -201,7 +203,9 @@ that can be executed
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From 849e5c26774a315faa96ed6e383b6fe5cb0843c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 17/30] fix: WorkQueue could miss the notification for new work
 until the next poll

---
 gmlc/containers/WorkQueue.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index d297492..4d7bb15 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -372,6 +372,9 @@ value)
                         break;
                 }
                 if (static_cast<int>(ccount) <= numWorkers) {
+                    // a worker that saw the queues empty before the push is
+                    // waiting once the lock is available
+                    std::lock_guard<std::mutex> lv(queueLock);
                     queueCondition.notify_one();
                 }
             } else {
@@ -399,6 +402,7 @@ value)
                         workToDoLow.pushVector(newWork);
                         break;
                 }
+                std::lock_guard<std::mutex> lv(queueLock);
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
@@ -478,8 +482,10 @@ value)
                     if (halt.load()) {
                         return;
                     }
-                    queueCondition.wait_for(
-                        lv, std::chrono::milliseconds(5000));
+                    if (isEmpty()) {
+                        queueCondition.wait_for(
+                            lv, std::chrono::milliseconds(5000));
+                    }
                     if (halt) {
                         return;
                     }
-- 
2.43.0


From 3c69b65df918dbba8704ce543128ed2693c02bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 18/30] fix: WorkQueue skipped the notification on a stale
 count of pending blocks

---
 gmlc/containers/WorkQueue.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 4d7bb15..37ef2dc 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -354,29 +354,23 @@ value)
                 return;
             }
             if (numWorkers > 0) {
-                size_t ccount;
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        ccount = workToDoHigh.size();
                         workToDoHigh.push(std::move(newWork));
                         break;
                     case WorkPriority::medium:
-                        ccount = workToDoMed.size();
                         workToDoMed.push(std::move(newWork));
                         break;
                     case WorkPriority::low:
                     default:
-                        ccount = workToDoLow.size();
                         workToDoLow.push(std::move(newWork));
                         break;
                 }
-                if (static_cast<int>(ccount) <= numWorkers) {
-                    // a worker that saw the queues empty before the push is
-                    // waiting once the lock is available
-                    std::lock_guard<std::mutex> lv(queueLock);
-                    queueCondition.notify_one();
-                }
+                // a worker that saw the queues empty before the push is
+                // waiting once the lock is available
+                std::lock_guard<std::mutex> lv(queueLock);
+                queueCondition.notify_one();
             } else {
                 newWork->execute();
             }
-- 
2.43.0


From 2e3d2b3ff8221b842a3b800f9b281b4f33f8bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 19/30] fix: take elements of the blocking queues by value
 before the slot is given up

auto deduces a proxy for std::vector<bool>, which was read after the
storage had been handed to the producers.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 8 ++++----
 gmlc/containers/BlockingQueue.hpp         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 8001844..aa08e5f 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -366,7 +366,7 @@ the two locks will reduce contention in most cases.
                 callOnWaitFunction();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 if (!priorityQueue.empty()) {
-                    auto actval = std::move(priorityQueue.front());
+                    T actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
                     checkPullAndSwap();
                     return actval;
@@ -374,7 +374,7 @@ the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -382,13 +382,13 @@ the two locks will reduce contention in most cases.
                 condition.wait(pullLock);
                 // need to check again to handle spurious wake-up
                 if (!priorityQueue.empty()) {
-                    auto actval = std::move(priorityQueue.front());
+                    T actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
                     checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 8df0a32..b551afc 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -220,7 +220,7 @@ contention the two locks will reduce contention in most cases.
                     m_pullLock);  // get the lock then wait
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -228,7 +228,7 @@ contention the two locks will reduce contention in most cases.
                 condition.wait(pullLock);  // now wait
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -291,7 +291,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -299,7 +299,7 @@ contention the two locks will reduce contention in most cases.
                 condition.wait(pullLock);
                 // need to check again to handle spurious wake-up
                 if (!pullElements.empty()) {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
-- 
2.43.0


From 1101aa3e6a9f5d231f1ab9538cb1e1c15da2664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 20/30] fix: a push on a blocking queue that throws must not
 mark the queue as filled

The empty flag was cleared before the insertion.  If that threw, empty()
stayed false and the next push did not notify waiting consumers.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 46 +++++++----------------
 gmlc/containers/BlockingQueue.hpp         | 16 ++++----
 2 files changed, 22 insertions(+), 40 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index aa08e5f..5f89d7c 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -119,14 +119,12 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                         // pullLock.unlock ();
@@ -134,11 +132,13 @@ the two locks will reduce contention in most cases.
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    // only after the insertion, which may throw
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.push_back(std::forward<Z>(val));
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -155,21 +155,13 @@ the two locks will reduce contention in most cases.
         template<class Z>
         void pushPriority(Z&& val)  // forwarding reference
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+            priorityQueue.push(std::forward<Z>(val));
+            // only after the insertion, which may throw
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.push(std::forward<Z>(val));
                 // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.push(std::forward<Z>(val));
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
 
@@ -180,27 +172,25 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;  // need to set the flag again after
-                                             // we get the lock
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
                         pushLock.lock();
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
-
+                    // only after the insertion, which may throw
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.emplace_back(std::forward<Args>(args)...);
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -217,21 +207,13 @@ the two locks will reduce contention in most cases.
         template<class... Args>
         void emplacePriority(Args&&... args)
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+            priorityQueue.emplace(std::forward<Args>(args)...);
+            // only after the insertion, which may throw
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.emplace(std::forward<Args>(args)...);
                 // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
         /** try to peek at an object without popping it from the stack
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index b551afc..b808671 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -120,26 +120,26 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                     } else {
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    // only after the insertion, which may throw
+                    queueEmptyFlag = false;
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.push_back(std::forward<Z>(val));
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -157,14 +157,12 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
@@ -172,12 +170,14 @@ contention the two locks will reduce contention in most cases.
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
 
+                    // only after the insertion, which may throw
+                    queueEmptyFlag = false;
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.emplace_back(std::forward<Args>(args)...);
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
-- 
2.43.0


From 2d004239dad373ee37f4dd7306320b61d351708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 21/30] fix: a load of the airlock that throws passes its
 notification on

---
 gmlc/containers/AirLock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/AirLock.hpp b/gmlc/containers/AirLock.hpp
index 7cba1fe..4f012eb 100644
--- a/gmlc/containers/AirLock.hpp
+++ b/gmlc/containers/AirLock.hpp
@@ -67,7 +67,14 @@ class AirLock {
             while (loaded.load(std::memory_order_acquire)) {
                 condition.wait(lock);
             }
-            data = std::forward<Z>(val);
+            try {
+                data = std::forward<Z>(val);
+            }
+            catch (...) {
+                // still not loaded: pass the notification on to the next loader
+                condition.notify_one();
+                throw;
+            }
             loaded.store(true, std::memory_order_release);
         }
     }
-- 
2.43.0


From 3653101ca2418d493434224fad66548dc7df5e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 22/30] fix: a failed pushVector must not damage the elements
 already in the queue

A range insertion that throws while it reallocates leaves the existing
elements moved-from.
---
 gmlc/containers/SimpleQueue.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 4561ed5..451b07e 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -162,7 +162,20 @@ atomic flag indicating the queue is empty
                 pushLock.lock();
                 // LCOV_EXCL_STOP
             }
-            pushElements.insert(pushElements.end(), val.begin(), val.end());
+            // one at a time: a copy that throws in a range insertion may leave
+            // the elements that are already there in a moved-from state
+            const auto previousSize = pushElements.size();
+            try {
+                for (const auto& element : val) {
+                    pushElements.push_back(element);
+                }
+            }
+            catch (...) {
+                while (pushElements.size() > previousSize) {
+                    pushElements.pop_back();
+                }
+                throw;
+            }
         }
 
         /** emplace an element onto the queue
-- 
2.43.0


From 26eff3427f5a6658933f51ae2af48f49edc79a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:39 +0000
Subject: [PATCH 23/30] fix: copy elements of the block containers without list
 initialisation

X{val} prefers an initializer_list constructor where X has one: an element of
type std::vector<std::any> (or a json type) was wrapped instead of copied.
---
 gmlc/containers/StableBlockDeque.hpp  | 16 ++++++++--------
 gmlc/containers/StableBlockVector.hpp |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7c0fff9..f0953ed 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -90,23 +90,23 @@ and deallocate methods)*/
                 if (dataSlotBack > dataSlotFront) {
                     for (int jj = fsize + 1; jj < static_cast<int>(blockSize);
                          ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
+                        new (&dataptr[dataSlotFront][jj]) X(init);
                     }
                 } else {
                     for (int jj = fsize + 1; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
+                        new (&dataptr[dataSlotFront][jj]) X(init);
                     }
                 }
                 for (int ii = dataSlotFront + 1; ii <= dataSlotBack - 1; ++ii) {
                     dataptr[ii] = a.allocate(blockSize);
                     for (int jj = 0; jj < static_cast<int>(blockSize); ++jj) {
-                        new (&dataptr[ii][jj]) X{init};
+                        new (&dataptr[ii][jj]) X(init);
                     }
                 }
                 if (dataSlotBack > dataSlotFront) {
                     dataptr[dataSlotBack] = a.allocate(blockSize);
                     for (int jj = 0; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotBack][jj]) X{init};
+                        new (&dataptr[dataSlotBack][jj]) X(init);
                     }
                 }
             }
@@ -201,14 +201,14 @@ and deallocate methods)*/
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X(val);
             ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
@@ -241,14 +241,14 @@ and deallocate methods)*/
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X(val);
             --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X(std::move(val));
             --fsize;
             ++csize;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index fefe993..d6cf6c0 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -69,11 +69,11 @@ no erase or insert
                     if (ii < dataSlotIndex) {
                         for (int jj = 0; jj < static_cast<int>(blockSize);
                              ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
+                            new (&dataptr[ii][jj]) X(init);
                         }
                     } else {
                         for (int jj = 0; jj < bsize; ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
+                            new (&dataptr[ii][jj]) X(init);
                         }
                     }
                 }
@@ -153,7 +153,7 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X(val);
             ++bsize;
             ++csize;
         }
@@ -161,7 +161,7 @@ no erase or insert
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
-- 
2.43.0


From 7ae857a2b70b2d6728492369ccb0d191688d864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 24/30] fix: a copy assignment of a buffer that runs out of
 memory leaves the target as it was

The target took over the source's pointers before allocating, so a failed
allocation left it reading and writing the source's memory.
---
 gmlc/containers/CircularBuffer.hpp | 3 ++-
 gmlc/containers/StackBuffer.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 00084f7..2b0bdf9 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -223,8 +223,9 @@ namespace containers {
         }
         CircularBuffer& operator=(const CircularBuffer& cb)
         {
-            buffer = cb.buffer;
+            // allocate first so that a failure leaves this buffer as it was
             resizeMemory(cb.actualSize, false);
+            buffer = cb.buffer;
             std::memcpy(data, cb.data, cb.actualSize);
 
             auto read_offset = buffer.next_read - buffer.origin;
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index ff6302e..12b98d6 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -202,8 +202,9 @@ blocks of raw data
         }
         StackBuffer& operator=(const StackBuffer& sq)
         {
-            stack = sq.stack;
+            // allocate first so that a failure leaves this buffer as it was
             resizeMemory(sq.statedSize, false);
+            stack = sq.stack;
             std::memcpy(data, sq.data, sq.statedSize);
 
             auto offset = stack.next - stack.origin;
-- 
2.43.0


From 79915d759e9f5ec3fd36bf6d8b5292d3c7ba800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 25/30] fix: a failed first allocation must not corrupt the
 block containers

The table was installed before its first block was allocated; if that
failed the destructor used a slot outside of, or never set in, the table.
---
 gmlc/containers/StableBlockDeque.hpp  | 12 ++++++++----
 gmlc/containers/StableBlockVector.hpp | 12 +++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index f0953ed..13bca3e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -496,12 +496,14 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64 + 1];
+                    // a failed allocation must leave the deque as it was
+                    std::unique_ptr<X*[]> table(new X*[64 + 1]);
+                    table[30] = getNewBlock();
+                    dataptr = table.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
                     bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
                 if (dataSlotBack >= dataSlotsAvailable - 1) {
@@ -531,12 +533,14 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64 + 1];
+                    // a failed allocation must leave the deque as it was
+                    std::unique_ptr<X*[]> table(new X*[64 + 1]);
+                    table[30] = getNewBlock();
+                    dataptr = table.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2;
                     bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
                 if (dataSlotFront == 0) {
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index d6cf6c0..a690eb7 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -389,10 +389,16 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64 + 1];
+                    // a failed allocation must leave the vector as it was
+                    std::unique_ptr<X*[]> table(new X*[64 + 1]);
+                    table[0] = getNewBlock();
+                    dataptr = table.release();
                     dataSlotsAvailable = 64;
-                    dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                    dataSlotIndex = 0;
+                    bsize = 0;
+                    return;
+                }
+                if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2 + 1];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
-- 
2.43.0


From 501f8439817272778a947126b32865f5572a17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 26/30] fix: constructors of the block containers that fail
 must not leak

They delegate to the default constructor now, so the destructor releases
the blocks and elements made so far.
---
 gmlc/containers/StableBlockDeque.hpp  | 87 +++------------------------
 gmlc/containers/StableBlockVector.hpp | 38 ++----------
 2 files changed, 13 insertions(+), 112 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 13bca3e..5e08c70 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -49,90 +49,17 @@ and deallocate methods)*/
 
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
-            csize(startSize),
-            // one extra slot so an end iterator can always look at its slot
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64}) + 1]),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+            // once delegated to, the destructor runs if an element fails
+            StableBlockDeque()
         {
-            Allocator a;
-            if (startSize == 0) {
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                fsize = blockSize / 2;
-                bsize = fsize + 1;
-            } else {
-                int blocks = static_cast<int>((startSize >> N));
-                if (blocks > 0) {
-                    blocks += 1;
-                } else if (startSize > blockSize / 2 - 2) {
-                    blocks = 1;
-                }
-
-                if (blocks == 0) {
-                    dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - static_cast<int>(startSize / 2) - 1;
-                    bsize = fsize + static_cast<int>(startSize) + 1;
-                } else if (blocks == 1) {
-                    dataSlotFront = 30;
-                    dataSlotBack = 31;
-                    fsize = blockSize - static_cast<int>(startSize / 2) - 1;
-                    bsize = static_cast<int>(startSize - (startSize / 2));
-                } else {
-                    dataSlotFront = (dataSlotsAvailable - blocks) / 2;
-                    dataSlotBack = dataSlotFront + blocks;
-                    auto med = startSize - (startSize >> N) * blockSize;
-                    fsize = blockSize - static_cast<int>(med / 2) - 1;
-                    bsize = static_cast<int>(med - (med / 2));
-                }
-
-                dataptr[dataSlotFront] = a.allocate(blockSize);
-                if (dataSlotBack > dataSlotFront) {
-                    for (int jj = fsize + 1; jj < static_cast<int>(blockSize);
-                         ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X(init);
-                    }
-                } else {
-                    for (int jj = fsize + 1; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X(init);
-                    }
-                }
-                for (int ii = dataSlotFront + 1; ii <= dataSlotBack - 1; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    for (int jj = 0; jj < static_cast<int>(blockSize); ++jj) {
-                        new (&dataptr[ii][jj]) X(init);
-                    }
-                }
-                if (dataSlotBack > dataSlotFront) {
-                    dataptr[dataSlotBack] = a.allocate(blockSize);
-                    for (int jj = 0; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotBack][jj]) X(init);
-                    }
-                }
+            while (csize < startSize) {
+                push_back(init);
             }
         }
 
-        StableBlockDeque(const StableBlockDeque& sbd) :
-            dataptr(new X*[std::max(
-                               static_cast<size_t>(sbd.dataSlotsAvailable),
-                               size_t{64}) +
-                           1]),
-            dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
-        {
-            if (sbd.dataptr != nullptr) {
-                dataSlotFront = sbd.dataSlotFront;
-                dataSlotBack = dataSlotFront;
-                fsize = sbd.fsize;
-                bsize = sbd.fsize + 1;
-                dataptr[dataSlotFront] = getNewBlock();
-                assign(sbd.begin(), sbd.end());
-            } else {
-                Allocator a;
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                fsize = blockSize / 2;
-                bsize = fsize + 1;
-            }
+        StableBlockDeque(const StableBlockDeque& sbd) : StableBlockDeque()
+        {
+            assign(sbd.begin(), sbd.end());
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
             csize(sbd.csize), dataptr(sbd.dataptr),
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index a690eb7..7ba741b 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -52,43 +52,17 @@ no erase or insert
             size_t startSize,
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
-            csize(startSize),
-            // one extra slot so an end iterator can always look at its slot
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64}) + 1]),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
-            dataSlotIndex(static_cast<int>(startSize >> N)),
-            bsize(static_cast<int>(startSize & cntmask))
+            // once delegated to, the destructor runs if an element fails
+            StableBlockVector()
         {
-            Allocator a;
-            if (startSize == 0) {
-                dataptr[0] = a.allocate(blockSize);
-            } else {
-                for (int ii = 0; ii <= dataSlotIndex; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    if (ii < dataSlotIndex) {
-                        for (int jj = 0; jj < static_cast<int>(blockSize);
-                             ++jj) {
-                            new (&dataptr[ii][jj]) X(init);
-                        }
-                    } else {
-                        for (int jj = 0; jj < bsize; ++jj) {
-                            new (&dataptr[ii][jj]) X(init);
-                        }
-                    }
-                }
+            while (csize < startSize) {
+                push_back(init);
             }
         }
 
-        StableBlockVector(const StableBlockVector& sbv)
+        StableBlockVector(const StableBlockVector& sbv) : StableBlockVector()
         {
-            if (sbv.csize > 0) {
-                dataptr =
-                    new X*[static_cast<size_t>(sbv.dataSlotsAvailable) + 1];
-                dataSlotsAvailable = sbv.dataSlotsAvailable;
-                dataSlotIndex = -1;
-                assign(sbv.begin(), sbv.end());
-            }
+            assign(sbv.begin(), sbv.end());
         }
 
         StableBlockVector(StableBlockVector&& sbv) noexcept :
-- 
2.43.0


From 17b4f149f4cffb7b34a92a5eece659bd70533088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 27/30] fix: removing elements from the block containers never
 fails

Recording a free block could run out of memory and leave the container
inconsistent; the block is released instead.
---
 gmlc/containers/StableBlockDeque.hpp  | 25 ++++++++++++++-----------
 gmlc/containers/StableBlockVector.hpp | 25 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 5e08c70..5f8e907 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -499,20 +500,22 @@ and deallocate methods)*/
             }
         }
 
-        void moveBlocktoAvailable(X* ptr)
+        void moveBlocktoAvailable(X* ptr) noexcept
         {
             if (freeIndex >= freeSlotsAvailable) {
-                if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
-                    freeSlotsAvailable = 64;
-                } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
-                    std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
-                    delete[] freeblocks;
-                    freeblocks = mem;
-                    freeSlotsAvailable *= 2;
+                const int slots =
+                    (freeSlotsAvailable == 0) ? 64 : freeSlotsAvailable * 2;
+                auto mem = new (std::nothrow) X*[static_cast<size_t>(slots)];
+                if (mem == nullptr) {
+                    // removing elements must not fail, so do without the block
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
                 }
+                std::copy(freeblocks, freeblocks + freeIndex, mem);
+                delete[] freeblocks;
+                freeblocks = mem;
+                freeSlotsAvailable = slots;
             }
             freeblocks[freeIndex++] = ptr;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 7ba741b..982c42c 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 
@@ -385,20 +386,22 @@ no erase or insert
             }
         }
 
-        void moveBlocktoAvailable(X* ptr)
+        void moveBlocktoAvailable(X* ptr) noexcept
         {
             if (freeIndex >= freeSlotsAvailable) {
-                if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
-                    freeSlotsAvailable = 64;
-                } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
-                    std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
-                    delete[] freeblocks;
-                    freeblocks = mem;
-                    freeSlotsAvailable *= 2;
+                const int slots =
+                    (freeSlotsAvailable == 0) ? 64 : freeSlotsAvailable * 2;
+                auto mem = new (std::nothrow) X*[static_cast<size_t>(slots)];
+                if (mem == nullptr) {
+                    // removing elements must not fail, so do without the block
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
                 }
+                std::copy(freeblocks, freeblocks + freeIndex, mem);
+                delete[] freeblocks;
+                freeblocks = mem;
+                freeSlotsAvailable = slots;
             }
             freeblocks[freeIndex++] = ptr;
         }
-- 
2.43.0


From eecf769b4a5c3fdde3c9fc3c30ab600aa9163b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:18 +0000
Subject: [PATCH 28/30] fix: removing from the mapped vectors needs no memory

The terms to erase were collected after the element was gone; running out
of memory there left terms that refer to other or no elements.
---
 gmlc/containers/DualMappedPointerVector.hpp | 35 +++++++++---------
 gmlc/containers/DualMappedVector.hpp        | 39 ++++++++-------------
 gmlc/containers/DualStringMappedVector.hpp  | 39 ++++++++-------------
 gmlc/containers/MappedPointerVector.hpp     | 18 +++++-----
 gmlc/containers/MappedVector.hpp            | 18 +++++-----
 gmlc/containers/StringMappedVector.hpp      | 18 +++++-----
 6 files changed, 74 insertions(+), 93 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 3d225d8..d68124e 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,27 +251,26 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            std::vector<searchType1> ind1;
-            std::vector<searchType2> ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1.push_back(el2.first);
+            // erase in place: removing an element must not need memory
+            for (auto el = lookup1.begin(); el != lookup1.end();) {
+                if (el->second == index) {
+                    el = lookup1.erase(el);
+                    continue;
                 }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2.push_back(el2.first);
+                if (el->second > index) {
+                    el->second -= 1;
                 }
+                ++el;
             }
-            for (auto& term : ind1) {
-                lookup1.erase(term);
-            }
-            for (auto& term : ind2) {
-                lookup2.erase(term);
+            for (auto el = lookup2.begin(); el != lookup2.end();) {
+                if (el->second == index) {
+                    el = lookup2.erase(el);
+                    continue;
+                }
+                if (el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
             }
         }
 
diff --git a/gmlc/containers/DualMappedVector.hpp b/gmlc/containers/DualMappedVector.hpp
index 4e12cf6..e6e5cf9 100644
--- a/gmlc/containers/DualMappedVector.hpp
+++ b/gmlc/containers/DualMappedVector.hpp
@@ -304,35 +304,26 @@ or by numerical index
             }
             auto erased = localErase(dataStorage, index);
 
-            std::vector<searchType1> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
+            // erase in place: removing an element must not need memory
+            for (auto el = lookup1.begin(); el != lookup1.end();) {
+                if (el->second == index) {
+                    el = lookup1.erase(el);
+                    continue;
                 }
-            }
-            std::vector<searchType2> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
+                if (erased && el->second > index) {
+                    el->second -= 1;
                 }
+                ++el;
             }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
+            for (auto el = lookup2.begin(); el != lookup2.end();) {
+                if (el->second == index) {
+                    el = lookup2.erase(el);
+                    continue;
                 }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
+                if (erased && el->second > index) {
+                    el->second -= 1;
                 }
+                ++el;
             }
         }
 
diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 86a6846..c2f2482 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -336,35 +336,26 @@ or by numerical index
             }
             auto erased = localErase(dataStorage, index);
 
-            StableBlockVector<std::string_view, BLOCK_ORDER> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
+            // erase in place: removing an element must not need memory
+            for (auto el = lookup1.begin(); el != lookup1.end();) {
+                if (el->second == index) {
+                    el = lookup1.erase(el);
+                    continue;
                 }
-            }
-            StableBlockVector<searchType2, BLOCK_ORDER> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
+                if (erased && el->second > index) {
+                    el->second -= 1;
                 }
+                ++el;
             }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
+            for (auto el = lookup2.begin(); el != lookup2.end();) {
+                if (el->second == index) {
+                    el = lookup2.erase(el);
+                    continue;
                 }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
+                if (erased && el->second > index) {
+                    el->second -= 1;
                 }
+                ++el;
             }
         }
 
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index 53be5e3..c4b26a5 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,16 +137,16 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        std::vector<searchType> ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind.push_back(el2.first);
+        // erase in place: removing an element must not need memory
+        for (auto el = lookup.begin(); el != lookup.end();) {
+            if (el->second == index) {
+                el = lookup.erase(el);
+                continue;
             }
-        }
-        for (auto& term : ind) {
-            lookup.erase(term);
+            if (el->second > index) {
+                el->second -= 1;
+            }
+            ++el;
         }
     }
     /** remove an element based on the lookup index*/
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 634eefd..a014ba7 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,16 +135,16 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::vector<searchType> ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind.push_back(el2.first);
+            // erase in place: removing an element must not need memory
+            for (auto el = lookup.begin(); el != lookup.end();) {
+                if (el->second == index) {
+                    el = lookup.erase(el);
+                    continue;
                 }
-            }
-            for (auto& term : ind) {
-                lookup.erase(term);
+                if (erased && el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
             }
         }
 
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 08cbf9e..c71eae2 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -147,16 +147,16 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::vector<std::string_view> ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind.push_back(el2.first);
+            // erase in place: removing an element must not need memory
+            for (auto el = lookup.begin(); el != lookup.end();) {
+                if (el->second == index) {
+                    el = lookup.erase(el);
+                    continue;
                 }
-            }
-            for (auto& term : ind) {
-                lookup.erase(term);
+                if (erased && el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
             }
         }
 
-- 
2.43.0


From 93a2acd507ef6b9cb03b80490d52a2a9d079bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:22 +0000
Subject: [PATCH 29/30] fix: StableBlockVector push_back and sized constructor
 are not noexcept, they may need memory

---
 gmlc/containers/StableBlockVector.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 982c42c..038a2f3 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -49,10 +49,7 @@ no erase or insert
         StableBlockVector() noexcept {}
 
         /** construct with a specified size*/
-        explicit StableBlockVector(
-            size_t startSize,
-            const X& init =
-                X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
+        explicit StableBlockVector(size_t startSize, const X& init = X{}) :
             // once delegated to, the destructor runs if an element fails
             StableBlockVector()
         {
@@ -124,16 +121,14 @@ no erase or insert
             ++csize;
         }
 
-        void push_back(const X& val) noexcept(
-            std::is_nothrow_copy_constructible<X>::value)
+        void push_back(const X& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X(val);
             ++bsize;
             ++csize;
         }
-        void push_back(X&& val) noexcept(
-            std::is_nothrow_move_constructible<X>::value)
+        void push_back(X&& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X(std::move(val));
-- 
2.43.0


From 94389719160fff38f5ad11108178f33d8088b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:02 +0000
Subject: [PATCH 30/30] fix: a timed pop of a blocking queue does not restart
 its timeout when it wakes up without an element

---
 gmlc/containers/BlockingPriorityQueue.hpp | 8 +++++++-
 gmlc/containers/BlockingQueue.hpp         | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 5f89d7c..4ae085b 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <mutex>
 #include <queue>
@@ -288,6 +289,8 @@ the two locks will reduce contention in most cases.
         template<typename TIME>
         std::optional<T> pop(TIME timeout)
         {
+            // a wakeup without an element must not restart the timeout
+            const auto start = std::chrono::steady_clock::now();
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
@@ -305,7 +308,10 @@ the two locks will reduce contention in most cases.
                     checkPullAndSwap();
                     break;
                 }
-                auto res = condition.wait_for(pullLock, timeout);  // now wait
+                auto res = condition.wait_for(
+                    pullLock,
+                    timeout -
+                        (std::chrono::steady_clock::now() - start));  // now wait
 
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index b808671..3293b18 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -11,6 +11,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <mutex>
 #include <type_traits>
@@ -244,6 +245,8 @@ contention the two locks will reduce contention in most cases.
         template<typename TIME>
         std::optional<T> pop(TIME timeout)
         {
+            // a wakeup without an element must not restart the timeout
+            const auto start = std::chrono::steady_clock::now();
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
@@ -255,7 +258,10 @@ contention the two locks will reduce contention in most cases.
                     checkPullAndSwap();
                     break;
                 }
-                auto res = condition.wait_for(pullLock, timeout);  // now wait
+                auto res = condition.wait_for(
+                    pullLock,
+                    timeout -
+                        (std::chrono::steady_clock::now() - start));  // now wait
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
-- 
2.43.0

