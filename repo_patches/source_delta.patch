From 9fbaf925a368b9986e960196085748934eac4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 01/31] fix: StableBlockVector end() read past the block table
 when every slot was in use

---
 gmlc/containers/StableBlockVector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..84b5a1d 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -53,9 +53,9 @@ no erase or insert
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
+                std::max(static_cast<int>(startSize >> N) + 2, 64)),
             dataSlotIndex(static_cast<int>(startSize >> N)),
             bsize(static_cast<int>(startSize & cntmask))
         {
@@ -382,7 +382,8 @@ no erase or insert
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                } else if (dataSlotIndex >= dataSlotsAvailable - 2) {
+                    // keep a slot past the last block for the end iterator
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
-- 
2.43.0


From 746c80a24299ce90339cfda8a3bb99e80ae086dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 02/31] fix: StableBlockVector copy of an empty allocated
 vector left slot index -1 and corrupted memory on clear

---
 gmlc/containers/StableBlockVector.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 84b5a1d..d73ef65 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -81,12 +81,7 @@ no erase or insert
 
         StableBlockVector(const StableBlockVector& sbv)
         {
-            if (sbv.dataptr != nullptr) {
-                dataptr = new X*[sbv.dataSlotsAvailable];
-                dataSlotsAvailable = sbv.dataSlotsAvailable;
-                dataSlotIndex = -1;
-                assign(sbv.begin(), sbv.end());
-            }
+            assign(sbv.begin(), sbv.end());
         }
 
         StableBlockVector(StableBlockVector&& sbv) noexcept :
-- 
2.43.0


From e2e6db96cacb3f3908d5dbc0ceb20dd6188e4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 03/31] fix: moved-from StableBlockVector was not reset to an
 empty usable state

---
 gmlc/containers/StableBlockVector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index d73ef65..f4f4cdc 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -95,8 +95,9 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.freeIndex = 0;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
             sbv.csize = 0;
         }
 
@@ -121,6 +122,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
+            sbv.freeIndex = 0;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.csize = 0;
 
             return *this;
         }
-- 
2.43.0


From 8c56832e4d014ac178358f2c594c2a4232eadb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 04/31] fix: StableBlockDeque end() read past the block table
 when the last slot was in use

---
 gmlc/containers/StableBlockDeque.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..55d65ff 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,9 +50,9 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 3, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+                std::max(static_cast<int>(startSize >> N) + 3, 64))
         {
             Allocator a;
             if (startSize == 0) {
@@ -484,7 +484,8 @@ and deallocate methods)*/
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
-                if (dataSlotBack >= dataSlotsAvailable - 1) {
+                // keep a slot past the last block for the end iterator
+                if (dataSlotBack >= dataSlotsAvailable - 2) {
                     if (dataSlotFront > 5) {  // shift the pointers
                         std::copy(
                             dataptr + dataSlotFront,
-- 
2.43.0


From c670bb17c2810127bc16fea57e7002bd588233e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 05/31] fix: empty StableBlockDeque from size or copy
 constructor had overlapping front and back positions

---
 gmlc/containers/StableBlockDeque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 55d65ff..99e753f 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -58,7 +58,8 @@ and deallocate methods)*/
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = static_cast<int>(blockSize / 2) - 1;
+                bsize = fsize + 1;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -127,7 +128,8 @@ and deallocate methods)*/
                 Allocator a;
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = static_cast<int>(blockSize / 2) - 1;
+                bsize = fsize + 1;
             }
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
-- 
2.43.0


From 941fcb16eaa1ef3ee45d0936cadb0e840ac93046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 06/31] fix: StableBlockDeque clear() destroyed unconstructed
 elements when all elements were in one block

---
 gmlc/containers/StableBlockDeque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 99e753f..7c565dd 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -323,7 +323,8 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            const int lastStop = (dataSlotBack == dataSlotFront) ? fsize : -1;
+            for (int jj = bsize - 1; jj > lastStop;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From 88c95927957eef4c4dddf2779e77f8683635a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 07/31] fix: moved-from StableBlockDeque was not reset to an
 empty usable state

---
 gmlc/containers/StableBlockDeque.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7c565dd..7bc60be 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -144,6 +144,10 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.freeIndex = 0;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
         }
@@ -171,6 +175,10 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.freeIndex = 0;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
             return *this;
-- 
2.43.0


From bc62f42cf33f086fceeabd864c8152c8aa5c47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 08/31] fix: StableBlockDeque sized constructor left no table
 slot for the end iterator of a full last block

---
 gmlc/containers/StableBlockDeque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7bc60be..0aea9e7 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,9 +50,9 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 3, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 4, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 3, 64))
+                std::max(static_cast<int>(startSize >> N) + 4, 64))
         {
             Allocator a;
             if (startSize == 0) {
-- 
2.43.0


From d14306201f2026d63235722bac02499862f526b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 09/31] fix: first push_front on a StableBlockDeque with one
 element per block wrote before the block

---
 gmlc/containers/StableBlockDeque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 0aea9e7..6a7da92 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -526,7 +526,7 @@ and deallocate methods)*/
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = blockSize / 2;
                     bsize = fsize + 1;
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
-- 
2.43.0


From 0bfa825e2a4e2ac6e386724ca448215c7963c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 10/31] fix: SimpleQueue pushVector of no elements marked an
 empty queue as non-empty

---
 gmlc/containers/SimpleQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..36150d2 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -143,6 +143,9 @@ atomic flag indicating the queue is empty
         */
         void pushVector(const std::vector<X>& val)  // universal reference
         {
+            if (val.empty()) {
+                return;  // nothing to add, the queue must not look non-empty
+            }
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-- 
2.43.0


From b85a04edc50145de484b9969a39d257740035c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 11/31] fix: moved-from SimpleQueue still reported elements

---
 gmlc/containers/SimpleQueue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 36150d2..8a76614 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 030a833c514bde473daf8f6606451a40a5912a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 12/31] fix: BlockingQueue waiting pops left the empty flag
 stale, so a later push did not notify

---
 gmlc/containers/BlockingQueue.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..3ddb216 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -220,6 +220,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -227,6 +228,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -248,6 +250,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -255,6 +258,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -287,6 +291,7 @@ contention the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -294,6 +299,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From fb4d513c2ea05df5e6681f162ae9d11a2b065ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 13/31] fix: moved-from BlockingQueue still reported elements

---
 gmlc/containers/BlockingQueue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 3ddb216..8df0a32 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 4b6ac411d0e812ea4cb3d09d9b005b7171858b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 14/31] fix: BlockingPriorityQueue takes left the empty flag
 stale, so a later push did not notify

---
 gmlc/containers/BlockingPriorityQueue.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..ac71690 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -268,24 +268,28 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -307,12 +311,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -320,12 +326,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -358,6 +366,7 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
@@ -365,6 +374,7 @@ the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -372,11 +382,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -407,7 +419,7 @@ any meaning depending on the number of consumers
                     // after the swap call;
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
-                } else {
+                } else if (priorityQueue.empty()) {
                     queueEmptyFlag = true;
                 }
             }
@@ -421,6 +433,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
-- 
2.43.0


From d57eb711512f0ebd164e8acdcf6606772328fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 15/31] fix: moved-from BlockingPriorityQueue still reported
 elements

---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index ac71690..8001844 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 8aeae71869210219e4fda822fd86614f4c5473f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 16/31] fix: BlockingPriorityQueue try_peek missed an element
 still on the push side

---
 gmlc/containers/BlockingPriorityQueue.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 8001844..3cb3e56 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -246,7 +246,12 @@ the two locks will reduce contention in most cases.
                 return priorityQueue.front();
             }
             if (pullElements.empty()) {
-                return std::nullopt;
+                // a pushed element may not have been moved over yet
+                std::lock_guard<MUTEX> pushLock(m_pushLock);
+                if (pushElements.empty()) {
+                    return std::nullopt;
+                }
+                return pushElements.front();
             }
 
             auto t = pullElements.back();
-- 
2.43.0


From 2be3a6e5b8a5d08a9312c99e5ffba5d787608672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 17/31] fix: resizing a StackBuffer with data marked all of its
 space as used

---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..0cca7cf 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -229,6 +229,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
+                int dataOffset = static_cast<int>(stack.next - stack.origin);
                 memmove(
                     data + newOffset,
                     data + indexOffset,
@@ -236,7 +237,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -257,7 +258,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 92ca63b89c75ad5524cca47eee18a0cf2c745090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 18/31] fix: move-assigned-from StackBuffer kept its capacity
 without memory

---
 gmlc/containers/StackBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 0cca7cf..6ec1d8d 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
-- 
2.43.0


From 3769b723d6c04d81992fa4681d3f9c228a72393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 19/31] fix: StackBuffer of size 0 leaked its block when it
 grew

---
 gmlc/containers/StackBuffer.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 6ec1d8d..ff6302e 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -317,13 +317,10 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 5967d842706ff6914b535ccc73492d99a9bf8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 20/31] fix: CircularBuffer filled exactly up to the read
 position looked empty and lost its data

---
 gmlc/containers/CircularBuffer.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..0ae69f6 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,6 +29,9 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
+            if (isFull) {
+                return false;
+            }
             if (next_write >= next_read) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
@@ -50,6 +53,9 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
+            if (isFull) {
+                return false;
+            }
             if (next_write >= next_read) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
@@ -72,6 +78,7 @@ namespace containers {
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    isFull = (next_write == next_read);
                     return true;
                 }
             } else if (
@@ -80,13 +87,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                isFull = (next_write == next_read);
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -100,18 +108,20 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
             memcpy(&size, next_read, sizeof(int));
             if (size < 0) {
                 next_read = origin;
+                isFull = false;
                 memcpy(&size, next_read, sizeof(int));
             }
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
+                isFull = false;
                 if ((capacity_ - (next_read - origin)) < 8) {
                     next_read = origin;
                 }
@@ -120,15 +130,20 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (next_write == next_read) && !isFull; }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            isFull = false;
+        }
 
       private:
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        bool isFull{false};  //!< next_write==next_read with data stored
 
       private:
         friend class CircularBuffer;
@@ -160,6 +175,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.isFull = false;
         }
         CircularBuffer(const CircularBuffer& cb) :
             data{new unsigned char[cb.actualSize]}, actualSize{cb.actualSize},
@@ -194,6 +210,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.isFull = false;
             cb.data = nullptr;
             cb.actualSize = 0;
             cb.actualCapacity = 0;
@@ -242,6 +259,7 @@ namespace containers {
                     buffer.next_write = buffer.origin + write_offset;
                     buffer.next_read = buffer.origin + newsize - readDiff;
                     buffer.capacity_ = newsize;
+                    buffer.isFull = false;
                 }
             } else {  // smaller size
                 int read_offset =
-- 
2.43.0


From ce0b1488196eb1081c35d3792b2704fa355012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 21/31] fix: CircularBuffer reader skipped a small block stored
 in the last bytes

---
 gmlc/containers/CircularBuffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 0ae69f6..be43a8e 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -63,9 +63,9 @@ namespace containers {
                     // *(reinterpret_cast<int *>(next_write)) = blockSize;
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
-                    // loop around if there isn't really space for another block
-                    // of at least 4 bytes and the next_read>origin
-                    if (((capacity_ - (next_write - origin)) < 8) &&
+                    // loop around if there isn't space for another block of at
+                    // least 1 byte and the next_read>origin
+                    if (((capacity_ - (next_write - origin)) < 5) &&
                         (next_read > origin)) {
                         next_write = origin;
                     }
@@ -122,7 +122,7 @@ namespace containers {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
                 isFull = false;
-                if ((capacity_ - (next_read - origin)) < 8) {
+                if ((capacity_ - (next_read - origin)) < 5) {
                     next_read = origin;
                 }
                 return size;
-- 
2.43.0


From 5c5777b8dfe9dadc906400006b738c51c0575684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 22/31] fix: CircularBuffer wrote its wrap marker past the end
 of the memory

---
 gmlc/containers/CircularBuffer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index be43a8e..f102425 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -73,8 +73,11 @@ namespace containers {
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    // the reader wraps by itself if no block fits at the end
+                    if ((capacity_ - (next_write - origin)) >= 5) {
+                        int loc = -1;
+                        memcpy(next_write, &loc, sizeof(int));
+                    }
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
-- 
2.43.0


From 881c390c51a1250cd05e077aadd338afbd9fb4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 23/31] fix: CircularBuffer emptied near its end read back
 stale data

---
 gmlc/containers/CircularBuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index f102425..75d60c4 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -126,6 +126,9 @@ namespace containers {
                 next_read += static_cast<size_t>(size) + sizeof(int);
                 isFull = false;
                 if ((capacity_ - (next_read - origin)) < 5) {
+                    if (next_write == next_read) {
+                        next_write = origin;
+                    }
                     next_read = origin;
                 }
                 return size;
-- 
2.43.0


From 5112f99d12c2ff5dd4c9716b2b8bf6c2382daef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 24/31] fix: CircularBuffer of size 0 leaked and a copy of an
 empty one kept a freed block

---
 gmlc/containers/CircularBuffer.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 75d60c4..b93e841 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -164,12 +164,7 @@ namespace containers {
             actualCapacity{size}, buffer(data, size)
         {
         }
-        ~CircularBuffer()
-        {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
-        }
+        ~CircularBuffer() { delete[] data; }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
             actualCapacity(cb.actualCapacity), buffer(std::move(cb.buffer))
@@ -196,6 +191,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
@@ -339,13 +335,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 177d3fc75190358236dbaaa359e821781747ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 25/31] fix: removing an element from a mapped vector dropped
 only one of its search terms

removeIndex() erased a single term (and, with a default constructed search
value, possibly the term of another element); remove() by key left the other
terms of the element bound to the next element.
---
 gmlc/containers/DualMappedPointerVector.hpp | 58 ++++-----------------
 gmlc/containers/MappedPointerVector.hpp     | 17 ++----
 gmlc/containers/MappedVector.hpp            | 18 ++-----
 gmlc/containers/StringMappedVector.hpp      | 18 ++-----
 4 files changed, 25 insertions(+), 86 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..257e8e0 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,29 +251,27 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
+            std::vector<searchType1> ind1;
+            std::vector<searchType2> ind2;
             for (auto& el2 : lookup1) {
                 if (el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind1 = el2.first;
+                    ind1.push_back(el2.first);
                 }
             }
             for (auto& el2 : lookup2) {
                 if (el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind2 = el2.first;
+                    ind2.push_back(el2.first);
                 }
             }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
+            for (const auto& term : ind1) {
+                lookup1.erase(term);
             }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
+            for (const auto& term : ind2) {
+                lookup2.erase(term);
             }
         }
 
@@ -284,25 +282,7 @@ namespace containers {
                 return;
             }
             auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(index);
         }
 
         void remove(const searchType2& search)
@@ -312,25 +292,7 @@ namespace containers {
                 return;
             }
             auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(index);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..85ba0b8 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,17 +137,16 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
+        std::vector<searchType> ind;
         for (auto& el2 : lookup) {
             if (el2.second > index) {
                 el2.second -= 1;
             } else if (el2.second == index) {
-                ind = el2.first;
+                ind.push_back(el2.first);
             }
         }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+        for (const auto& term : ind) {
+            lookup.erase(term);
         }
     }
     /** remove an element based on the lookup index*/
@@ -158,13 +157,7 @@ class MappedPointerVector {
             return;
         }
         auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(index);
     }
 
     /** apply a function to all the values
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..8b14714 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,16 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
+            std::vector<searchType> ind;
             for (auto& el2 : lookup) {
                 if (erased && el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind = el2.first;
+                    ind.push_back(el2.first);
                 }
             }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+            for (const auto& term : ind) {
+                lookup.erase(term);
             }
         }
 
@@ -156,14 +155,7 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(index);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..1bcd5e8 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,16 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
+            std::vector<std::string_view> ind;
             for (auto& el2 : lookup) {
                 if (erased && el2.second > index) {
                     el2.second -= 1;
                 } else if (el2.second == index) {
-                    ind = el2.first;
+                    ind.push_back(el2.first);
                 }
             }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+            for (const auto& term : ind) {
+                lookup.erase(term);
             }
         }
 
@@ -145,14 +144,7 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(index);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 8c8ecdb8f1e9d6ffe60890ae0539c18bfecbdbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 26/31] fix: the keys of a copied string mapped vector pointed
 into the source object

---
 gmlc/containers/DualStringMappedVector.hpp | 23 ++++++++++++++++++++++
 gmlc/containers/StringMappedVector.hpp     | 23 ++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..1224edc 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,29 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        /** copy constructor, the lookup terms refer to the names of the new
+         * object*/
+        DualStringMappedVector(const DualStringMappedVector& other) :
+            dataStorage(other.dataStorage), lookup2(other.lookup2)
+        {
+            for (const auto& term : other.lookup1) {
+                names.emplace_back(term.first);
+                lookup1.emplace(names.back(), term.second);
+            }
+        }
+        DualStringMappedVector(DualStringMappedVector&& other) = default;
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            if (this != &other) {
+                DualStringMappedVector copy(other);
+                *this = std::move(copy);
+            }
+            return *this;
+        }
+        DualStringMappedVector& operator=(DualStringMappedVector&& other) = default;
+        ~DualStringMappedVector() = default;
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 1bcd5e8..9f03c2d 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,29 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        /** copy constructor, the lookup terms refer to the names of the new
+         * object*/
+        StringMappedVector(const StringMappedVector& other) :
+            dataStorage(other.dataStorage)
+        {
+            for (const auto& term : other.lookup) {
+                names.emplace_back(term.first);
+                lookup.emplace(names.back(), term.second);
+            }
+        }
+        StringMappedVector(StringMappedVector&& other) = default;
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            if (this != &other) {
+                StringMappedVector copy(other);
+                *this = std::move(copy);
+            }
+            return *this;
+        }
+        StringMappedVector& operator=(StringMappedVector&& other) = default;
+        ~StringMappedVector() = default;
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From a18331efb874b424b941d5123075b79882f8b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 27/31] fix: DualMappedPointerVector::at did not compile

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 257e8e0..0b223b6 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From e0717a3d00e1becc87b180b739d3d0801a326716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:29 +0000
Subject: [PATCH 28/31] fix: WorkBlock without a task could not be created

---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..d297492 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -126,7 +126,9 @@ that can be executed, functionoid, or something that implements operator()
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -201,7 +203,9 @@ that can be executed
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From 0f591ec5e29182193f6eb810350feed4302afa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:29 +0000
Subject: [PATCH 29/31] fix: WorkQueue queued or executed null blocks of a
 vector

---
 gmlc/containers/WorkQueue.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index d297492..c421af1 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -386,23 +386,31 @@ value)
             WorkPriority priority = WorkPriority::medium)
         {
             if (numWorkers > 0) {
+                std::vector<std::shared_ptr<BasicWorkBlock>> validWork;
+                for (auto& wb : newWork) {
+                    if (wb) {
+                        validWork.push_back(wb);
+                    }
+                }
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        workToDoHigh.pushVector(newWork);
+                        workToDoHigh.pushVector(validWork);
                         break;
                     case WorkPriority::medium:
-                        workToDoMed.pushVector(newWork);
+                        workToDoMed.pushVector(validWork);
                         break;
                     case WorkPriority::low:
                     default:
-                        workToDoLow.pushVector(newWork);
+                        workToDoLow.pushVector(validWork);
                         break;
                 }
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if (wb) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From 6a91a26ce04f32fa6907011549603bba671133ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:29 +0000
Subject: [PATCH 30/31] fix: WorkQueue medium counter could overflow and starve
 low priority work

---
 gmlc/containers/WorkQueue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index c421af1..05a7d53 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -24,6 +24,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include "SimpleQueue.hpp"
 
 #include <future>
+#include <limits>
 #include <memory>
 #include <thread>
 #include <utility>
@@ -465,7 +466,9 @@ value)
             }
             wbb = workToDoMed.pop();
             if (wbb) {
-                ++MedCounter;
+                if (MedCounter < std::numeric_limits<int>::max()) {
+                    ++MedCounter;
+                }
                 return *wbb;
             }
             wbb = workToDoLow.pop();
-- 
2.43.0


From bffcc1bf1b4d4f39baa77a3d1c2acff6e522ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:04 +0000
Subject: [PATCH 31/31] fix: BlockIterator jumps by a negative distance did not
 change the block

---
 gmlc/containers/BlockIterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..6011d2e 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();  // the movement can be negative
             return (*this);
         }
         BlockIterator& operator++()
@@ -102,6 +103,7 @@ namespace containers {
             ptr -= movement;
             offset -= static_cast<int>(movement);
             checkNeg();
+            check();  // the movement can be negative
             return (*this);
         }
         BlockIterator& operator--()
-- 
2.43.0

