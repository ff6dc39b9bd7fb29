From 71c0aa2bdd0670e74eac1a8db40f8bb572f98782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 01/56] fix: discard duplicate messages carrying an empty value

A redelivered update with an empty value was counted a second time, so a block
could be released before all of its messages had arrived.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..b48b4db 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -126,7 +126,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 858ea789a164bbd9af6d9e835a0e943822684cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 02/56] fix: keep unmatched updates that set a key to an empty
 value

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index b48b4db..daa0c72 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -348,7 +348,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
         }
       }
       if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
-      if len(update.Value) > 0 { mp.pendingBatches[hash].Values[prefix] = update.Value }
+      if len(update.Value) > 0 || (!update.Delete && update.Count == 0 && update.Subbatch == (types.Hash{})) { mp.pendingBatches[hash].Values[prefix] = update.Value }
       if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }
       if update.Count != 0 {
         mp.pendingBatches[hash].prefixes[prefix] = update.Count
-- 
2.43.0


From fde6c9a3c8029123b60e2ecf3ced10b7e1d2a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 03/56] fix: match message keys against every announced prefix

Prefixes are announced by the producer as the text its schema matched. The
consumer only looked for prefixes that end at a path separator and are relative,
so blocks using any other prefix never completed, and a key starting with a
separator made it loop forever.
---
 delivery/consumer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index daa0c72..1992015 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -2,7 +2,6 @@ package delivery
 
 import (
   "math/big"
-  "path"
   "strings"
   "github.com/hashicorp/golang-lru"
   "github.com/openrelayxyz/cardinal-types"
@@ -155,8 +154,8 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
-    k := strings.TrimPrefix(d, "/") + "/"
+  for i := len(p) - 1; i > 0; i-- {
+    k := p[:i]
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
       return true
-- 
2.43.0


From 14aa810d7c317eff3d15343a6305519ea8881f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 04/56] fix: connect all waiting descendants when a side branch
 block arrives

When a block that does not justify a reorg arrives after several of its
children, only the heaviest child was evaluated. The others were never marked
as connected, so a later block building on them was ignored however heavy its
chain became.
---
 delivery/ordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..cc3b365 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -211,6 +211,9 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       if pb, ok := omp.pending[child]; ok {
         omp.HandlePendingBatch(pb, true)
       }
+      // The other descendants that arrived earlier are connected now as well,
+      // blocks that build on them must be considered for reorgs.
+      omp.finishPendingChildren(pb.Hash)
       omp.queue(pb)
       return
     }
-- 
2.43.0


From 6d29dedefa0c3dbc74ca74eaf321af619e674792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 05/56] fix: allow reorgs that fork at the block the consumer
 started from

If the starting block itself is not redelivered, it is not available as a
pending batch, and every reorg forking at it failed for want of a common
ancestor.
---
 delivery/ordering.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index cc3b365..afdc8b7 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -354,8 +354,18 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       return reverted, newBlocks, nil
     }
     reverted = append([]*PendingBatch{oldHead}, reverted...)
-    oldHead, _ = omp.pending[oldHead.ParentHash]
+    ancestorHash := oldHead.ParentHash
+    oldHead, _ = omp.pending[ancestorHash]
     if oldHead == nil {
+      // The block we started from may never have been delivered, but it can
+      // still be the common ancestor.
+      for newHead != nil && newHead.ParentHash != ancestorHash && newHead.Number > reverted[0].Number {
+        newHead, _ = omp.pending[newHead.ParentHash]
+        if newHead != nil { newBlocks = append([]*PendingBatch{newHead}, newBlocks...) }
+      }
+      if newHead != nil && newHead.ParentHash == ancestorHash {
+        return reverted, newBlocks, nil
+      }
       return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
     }
   }
-- 
2.43.0


From 11e549956cef2a14810442be42e07f7fba6dd7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 06/56] fix: do not panic when the waiting children of a block
 weigh nothing

A child with a weight of zero, or one that had been evicted, never won the
search for the heaviest child, and the zero hash was returned as if found.
---
 delivery/ordering.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index afdc8b7..608738c 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -300,16 +300,17 @@ func (omp *OrderedMessageProcessor) getPendingChild(hash types.Hash) (types.Hash
   if !ok {
     return types.Hash{}, ok
   }
-  max := new(big.Int)
+  max := big.NewInt(-1) // The weight of a child may be zero
   var maxChild types.Hash
   for child := range children {
+    if _, ok := omp.pending[child]; !ok { continue } // The child has been evicted
     td := omp.getPendingChainDifficulty(child)
     if max.Cmp(td) < 0 {
       max = td
       maxChild = child
     }
   }
-  return maxChild, true
+  return maxChild, max.Sign() >= 0
 }
 
 // getPendingChainDifficulty returns the weight of the heaviest chain
-- 
2.43.0


From 33d41fe82961ad63345f9c59761a7bf75857fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 07/56] fix: do not register the batches of a block that is
 refused

When AddBlock failed, batches it had already looked at stayed registered: they
could be sent for a block that was never announced, and a batch announced by an
earlier block was redirected to the refused one.
---
 delivery/producer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 270a22d..34d1a89 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -102,6 +102,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
     }
   }
   //Create batch messages
+  pendingBatches := make(map[types.Hash]*batchInfo)
   for k, h := range batches {
     if h == (types.Hash{}) {
       return nil, ErrInvalidBatch
@@ -118,12 +119,16 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    p.pendingBatches[h] = bi
+    pendingBatches[h] = bi
   }
   for k, c := range counts {
     if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
     b.Updates[k] = BatchRecord{Count: c}
   }
+  // Only register the batches once the block has been accepted
+  for h, bi := range pendingBatches {
+    p.pendingBatches[h] = bi
+  }
   topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
       key: BatchType.GetKey(hash.Bytes()),
       value: b.EncodeAvro(),
-- 
2.43.0


From 40b3634eccbaca7a8ce02b1ee53a6b13ec4c49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 08/56] fix: keep a block whose branch does not connect yet to
 the start block

---
 delivery/ordering.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 608738c..74571b7 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -367,6 +367,7 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       if newHead != nil && newHead.ParentHash == ancestorHash {
         return reverted, newBlocks, nil
       }
+      omp.queue(newBlocks[len(newBlocks) - 1])
       return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
     }
   }
-- 
2.43.0


From 57b148d73714133494f86ae99bce86442b7f6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 09/56] fix: do not finish waiting blocks that are heavier than
 the chain

---
 delivery/ordering.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 74571b7..cfa265d 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -212,8 +212,11 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
         omp.HandlePendingBatch(pb, true)
       }
       // The other descendants that arrived earlier are connected now as well,
-      // blocks that build on them must be considered for reorgs.
-      omp.finishPendingChildren(pb.Hash)
+      // blocks that build on them must be considered for reorgs. (If they are
+      // heavier the branch still misses an ancestor.)
+      if omp.getPendingChainDifficulty(pb.Hash).Cmp(omp.lastWeight) <= 0 {
+        omp.finishPendingChildren(pb.Hash)
+      }
       omp.queue(pb)
       return
     }
-- 
2.43.0


From 535f854d7437655a73a02462727fa6694c598c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 10/56] fix: keep blocks and reorg notifications in order

---
 delivery/consumer.go |  5 +++++
 delivery/ordering.go | 52 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 1992015..3d6eeeb 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -38,6 +38,7 @@ type PendingBatch struct {
   waitCh chan struct{}
   time time.Time
   failedReconstructPanic bool
+  reorgCount int64 // The number of reorg notifications sent before this batch
 }
 
 func (pb *PendingBatch) Resumption() string {
@@ -197,6 +198,7 @@ type MessageProcessor struct {
   resumption      map[string]int64
   evictCh         chan int64
   failedReconstructPanic bool
+  reorgCount      int64
 }
 
 // NewMessageProcessor instantiates a MessageProcessor. lastEmittedNum should
@@ -260,6 +262,7 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 		Number: pb.Number,
 		WaitCh: pb.waitCh,
 	})
+	pb.reorgCount = mp.reorgCount
 	mp.feed.Send(pb)
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
@@ -294,6 +297,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     mp.lastEmittedNum = int64(num)
+    mp.reorgCount++
     mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
     return nil
   }
@@ -391,6 +395,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     mp.pendingBatches[hash].ApplyMessage(m)
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
+    b.reorgCount = mp.reorgCount
     mp.feed.Send(b)
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
diff --git a/delivery/ordering.go b/delivery/ordering.go
index cfa265d..a014249 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -34,6 +34,7 @@ type OrderedMessageProcessor struct {
   whitelist      map[uint64]types.Hash
   blacklist      map[types.Hash]struct{}
   initEmpty      bool
+  reorgCount     int64
 }
 
 
@@ -63,22 +64,53 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
   reorgCh := make(chan map[int64]types.Hash, 100)
   sub := omp.mp.Subscribe(ch)
   reorgSub := omp.mp.SubscribeReorgs(reorgCh)
+  handleBatch := func(pb *PendingBatch) {
+    lastBlock := cfg.LastEmittedNum
+    if batch, ok := omp.pending[omp.lastHash]; ok {
+      lastBlock = batch.Number
+    }
+    pendingGauge.Update(int64(len(omp.pending)))
+    queuedGauge.Update(int64(len(omp.queued)))
+    log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
+    omp.HandlePendingBatch(pb, false)
+  }
+  handleReorg := func(reorg map[int64]types.Hash) {
+    omp.reorgCount++
+    for num, hash := range reorg {
+      omp.HandleReorg(num, hash)
+      break // There should never be more than 1 kv pair in this map
+    }
+  }
   go func() {
     for {
       select {
       case pb := <-ch:
-        lastBlock := cfg.LastEmittedNum
-        if batch, ok := omp.pending[omp.lastHash]; ok {
-          lastBlock = batch.Number
+        for omp.reorgCount < pb.reorgCount {
+          // The reorg notification was sent before this batch
+          handleReorg(<-reorgCh)
         }
-        pendingGauge.Update(int64(len(omp.pending)))
-        queuedGauge.Update(int64(len(omp.queued)))
-        log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
-        omp.HandlePendingBatch(pb, false)
+        handleBatch(pb)
       case reorg := <-reorgCh:
-        for num, hash := range reorg {
-          omp.HandleReorg(num, hash)
-          break // There should never be more than 1 kv pair in this map
+        // Batches that were sent before the reorg notification come first
+        var next *PendingBatch
+        for waiting := true; waiting && next == nil; {
+          select {
+          case pb := <-ch:
+            if pb.reorgCount > omp.reorgCount {
+              next = pb
+            } else {
+              handleBatch(pb)
+            }
+          default:
+            waiting = false
+          }
+        }
+        handleReorg(reorg)
+        if next != nil {
+          for omp.reorgCount < next.reorgCount {
+            handleReorg(<-reorgCh)
+          }
+          handleBatch(next)
         }
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
-- 
2.43.0


From 4bde9f966e92e6e075350f4037c37cbd55d91b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 11/56] fix: emit a block that is sent again after a reorg
 notification

---
 delivery/ordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index a014249..37d1019 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -207,7 +207,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
     return
   }
   omp.pending[pb.Hash] = pb
-  if omp.finished.Contains(pb.Hash) && !reorg {
+  if omp.finished.Contains(pb.Hash) && !reorg && pb.ParentHash != omp.lastHash {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
     // should ignore them.
-- 
2.43.0


From aaa6d3e8c2fe19c7fdfdda530a2d78c9a0182193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 12/56] fix: resume before messages that arrived ahead of their
 batch

---
 delivery/consumer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 3d6eeeb..9069d60 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -285,8 +285,12 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
       break EVICTLOOP
     }
   }
-  mp.updateResumption(m.Source(), m.Offset())
   hash := types.BytesToHash(m.Key()[1:33])
+  if !mp.awaitsBatch(hash, MessageType(m.Key()[0])) {
+    // Messages that arrive ahead of their batch must be delivered again when
+    // resuming from an earlier batch.
+    mp.updateResumption(m.Source(), m.Offset())
+  }
   if MessageType(m.Key()[0]) == ReorgType {
     var err error
     mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
@@ -405,6 +409,15 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
 }
 
 
+// awaitsBatch indicates whether a message has to be held until the batch it
+// belongs to arrives.
+func (mp *MessageProcessor) awaitsBatch(hash types.Hash, mt MessageType) bool {
+  if mt == BatchType || mt == ReorgType || mp.completed.Contains(hash) { return false }
+  if _, ok := mp.oldBlocks[hash]; ok { return false }
+  _, ok := mp.pendingBatches[hash]
+  return !ok
+}
+
 func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
   if _, ok := mp.pendingMessages[hash]; !ok { mp.pendingMessages[hash] = make(map[string]ResumptionMessage) }
   mp.pendingMessages[hash][string(m.Key())] = m
-- 
2.43.0


From 32127997b588d1ca812ebee88fb121ab48fde604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 13/56] fix: report a block as applied when it was announced
 more than once

---
 waiter/waiter.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/waiter/waiter.go b/waiter/waiter.go
index c5dc47f..db27cc9 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -5,6 +5,7 @@ import (
     "github.com/openrelayxyz/cardinal-streams/v2/delivery"
     "github.com/openrelayxyz/cardinal-types"
     "github.com/openrelayxyz/cardinal-types/metrics"
+    "reflect"
     "sync"
     "runtime"
 )
@@ -42,8 +43,15 @@ type Waiter interface {
     Stop()
 }
 
+// hashChannels are the wait channels of a block. If a block is announced more
+// than once, processing any of its copies counts.
+type hashChannels struct {
+    channels []chan struct{}
+    added chan struct{} // Closed when another channel gets added
+}
+
 type ompWaiter struct {
-    hashes map[types.Hash]chan struct{}
+    hashes map[types.Hash]*hashChannels
     numbers map[int64]chan struct{}
     lock sync.RWMutex
     sub types.Subscription
@@ -53,7 +61,7 @@ type ompWaiter struct {
 func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
     ch := make(chan *delivery.Waiter, 1024)
     w := &ompWaiter{
-        hashes: make(map[types.Hash]chan struct{}),
+        hashes: make(map[types.Hash]*hashChannels),
         numbers: make(map[int64]chan struct{}),
         sub: omp.Subscribe(ch),
         ch: ch,
@@ -62,7 +70,13 @@ func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
         var nchLock sync.Mutex
         for pw := range ch {
             w.lock.Lock()
-            w.hashes[pw.Hash] = pw.WaitCh
+            if hc, ok := w.hashes[pw.Hash]; ok {
+                hc.channels = append(hc.channels, pw.WaitCh)
+                close(hc.added)
+                hc.added = make(chan struct{})
+            } else {
+                w.hashes[pw.Hash] = &hashChannels{channels: []chan struct{}{pw.WaitCh}, added: make(chan struct{})}
+            }
             if _, ok := w.numbers[pw.Number]; !ok {
                 w.numbers[pw.Number] = make(chan struct{})
             }
@@ -119,16 +133,27 @@ func (w *ompWaiter) WaitForHash(h types.Hash, timeout time.Duration) {
 func (w *ompWaiter) WaitForHashResult(h types.Hash, timeout time.Duration) WaitResult {
     runtime.Gosched() // Give other processes a chance to populate w.hashes
     w.lock.RLock()
-    ch, ok := w.hashes[h]
+    hc, ok := w.hashes[h]
     w.lock.RUnlock()
     if !ok {
         return NotFound
     }
-    select {
-    case <-ch:
-        return Success
-    case <-time.After(timeout):
-        return Timeout
+    timer := reflect.ValueOf(time.After(timeout))
+    for {
+        w.lock.RLock()
+        cases := []reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: timer}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(hc.added)}}
+        for _, ch := range hc.channels {
+            cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)})
+        }
+        w.lock.RUnlock()
+        switch i, _, _ := reflect.Select(cases); i {
+        case 0:
+            return Timeout
+        case 1:
+            // The block was announced again
+        default:
+            return Success
+        }
     }
 }
 
-- 
2.43.0


From 314bb5c0274f877e03f3eff589c69a18dca72bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 14/56] fix: let several subscribers mark the same block as
 done

---
 delivery/consumer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 9069d60..fae2c96 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -11,6 +11,7 @@ import (
   log "github.com/inconshreveable/log15"
   "regexp"
   "fmt"
+  "sync"
   "time"
 )
 
@@ -36,6 +37,7 @@ type PendingBatch struct {
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
   waitCh chan struct{}
+  waitLock sync.Mutex
   time time.Time
   failedReconstructPanic bool
   reorgCount int64 // The number of reorg notifications sent before this batch
@@ -74,9 +76,11 @@ func (pb *PendingBatch) Ready() bool {
 
 // Done should be called on a pending batch after it has been applied.
 func (pb *PendingBatch) Done() {
+  pb.waitLock.Lock() // Each subscriber may call Done
   waitch := pb.waitCh
+  pb.waitCh = nil
+  pb.waitLock.Unlock()
   if waitch != nil {
-    pb.waitCh = nil
     close(waitch)
   }
   deltaTimerMinor.UpdateSince(pb.time)
@@ -253,14 +257,17 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	pb.waitLock.Lock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
+	waitCh := pb.waitCh
+	pb.waitLock.Unlock()
 	mp.waitFeed.Send(&Waiter{
 		Hash: pb.Hash,
 		Parent: pb.ParentHash,
 		Number: pb.Number,
-		WaitCh: pb.waitCh,
+		WaitCh: waitCh,
 	})
 	pb.reorgCount = mp.reorgCount
 	mp.feed.Send(pb)
-- 
2.43.0


From 841300eff967db835d1407183853cdc6b7b98192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 15/56] fix: resume before messages of later blocks that
 precede those of a block

---
 delivery/consumer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index fae2c96..7e57b7f 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -46,6 +46,8 @@ type PendingBatch struct {
 func (pb *PendingBatch) Resumption() string {
   result := make([]string, 0, len(pb.resumption))
   for k, v := range pb.resumption {
+    // Messages of later batches may precede the messages of this batch
+    if d, ok := pb.resumptionDefaults[k]; ok && d < v { v = d }
     result = append(result, fmt.Sprintf("%v=%v", k, v))
   }
   for k, v := range pb.resumptionDefaults {
@@ -293,7 +295,12 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
   }
   hash := types.BytesToHash(m.Key()[1:33])
-  if !mp.awaitsBatch(hash, MessageType(m.Key()[0])) {
+  if _, ok := mp.resumption[m.Source()]; !ok {
+    mp.updateResumption(m.Source(), m.Offset())
+    for _, pb := range mp.pendingBatches {
+      pb.resumptionDefaults[m.Source()] = m.Offset()
+    }
+  } else if !mp.awaitsBatch(hash, MessageType(m.Key()[0])) {
     // Messages that arrive ahead of their batch must be delivered again when
     // resuming from an earlier batch.
     mp.updateResumption(m.Source(), m.Offset())
-- 
2.43.0


From 621366bbb9fdfd96019f0cea624bcfddb6479d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 16/56] fix: begin consuming partitions only after all of them
 are set up

A partition consumer that caught up before the next one was added ended the
drumline, so that the next one waited for it forever.
---
 transports/kafka.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..cbac3ed 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -544,6 +544,10 @@ func (kc *KafkaConsumer) Start() error {
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
   heartbeats := make(chan types.Hash)
+  // The partition consumers wait for each other and must not begin until all
+  // of them have been set up.
+  started := make(chan struct{})
+  defer close(started)
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -578,10 +582,11 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
+      kc.shutdownWg.Add(1)
+      dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
-        kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
-        dl.AddScale(i, startOffset)
+        <-started
         var once sync.Once
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
-- 
2.43.0


From 91bf2a1c531ed979d7317a62ab8ea3e249a262ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 17/56] fix: do not wait for messages of partitions that have
 none

---
 transports/kafka.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index cbac3ed..3a59086 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -582,13 +582,31 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
+      // A partition without messages from the start offset on has nothing to
+      // catch up with, the others must not wait for it.
+      idle := startOffset == sarama.OffsetNewest
+      if newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest); err == nil {
+        oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+        idle = idle || startOffset >= newest || (err == nil && oldest >= newest)
+      }
       kc.shutdownWg.Add(1)
       dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
         defer kc.shutdownWg.Done()
         <-started
         var once sync.Once
-        warm := false
+        ready := func() {
+          once.Do(func() {
+            log.Debug("Partition ready", "topic", topic, "partition", partid)
+            dl.Done(i)
+            readyWg.Done()
+          })
+        }
+        warm := idle
+        if idle {
+          warmupWg.Done()
+          ready()
+        }
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
         lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
         for input := range pc.Messages() {
@@ -608,11 +626,7 @@ func (kc *KafkaConsumer) Start() error {
             if pc.HighWaterMarkOffset() - input.Offset <= 1 {
               // Once we're caught up with the high watermark, let the ready
               // channel know
-              once.Do(func() {
-                log.Debug("Partition ready", "topic", input.Topic, "partition", input.Partition)
-                dl.Done(i)
-                readyWg.Done()
-              })
+              ready()
             }
           }
           messages <- input
-- 
2.43.0


From 1372f67249afde33a71d7d88e2db601ad80349e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 18/56] fix: release everyone who waits for a consumer to be
 ready

---
 transports/kafka.go | 57 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3a59086..f1c4c50 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -619,7 +619,9 @@ func (kc *KafkaConsumer) Start() error {
             warmupWg.Wait()
             warm = true
           }
-          if kc.ready != nil {
+          select {
+          case <-kc.ready:
+          default:
             if !kc.isReorg {
               dl.Step(i)
             }
@@ -635,31 +637,38 @@ func (kc *KafkaConsumer) Start() error {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-  var readych chan time.Time
+  caughtUp := make(chan struct{}) // Closed when the partitions have been at the high water mark
+  settled := make(chan struct{}) // Closed when no messages came for a second after that
   readyWaiter := func() <-chan time.Time  {
-    // If readych isn't ready to receive, use it as the sender, eliminating any
-    // possibility that this case will trigger, and avoiding the creation of
-    // any timer objects that will have to get cleaned up when we don't need
-    // them.
-    if readych == nil { return readych }
-    // Only if the readych is ready to receive should this return a timer, as
-    // the timer will have to be created, run its course, and get cleaned up,
-    // which adds overhead
-    return time.After(time.Second)
+    // Unless we are waiting for messages to settle, use a nil channel,
+    // eliminating any possibility that this case will trigger, and avoiding
+    // the creation of any timer objects that will have to get cleaned up when
+    // we don't need them.
+    select {
+    case <-settled:
+      return nil
+    default:
+    }
+    select {
+    case <-caughtUp:
+      // Only now should this return a timer, as the timer will have to be
+      // created, run its course, and get cleaned up, which adds overhead
+      return time.After(time.Second)
+    default:
+      return nil
+    }
   }
   go func(wg, reorgWg *sync.WaitGroup) {
     // Wait until all partition consumers are up to the high water mark and alert the ready channel
     wg.Wait()
     log.Debug("Partitions ready")
-    readych = make(chan time.Time)
-    <-readych
+    close(caughtUp)
+    <-settled
     log.Debug("Ready")
-    readych = nil
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
-    kc.ready <- struct{}{}
+    close(kc.ready)
     log.Debug("Ready sent")
-    kc.ready = nil
     dl.Close()
     delivery.Ready()
   }(&readyWg, &reorgWg)
@@ -722,17 +731,14 @@ func (kc *KafkaConsumer) Start() error {
         // messages because the drumline has gotten streteched too far apart in
         // the course of normal operation, and it should be reset.
         log.Debug("Drumline reset")
-      case v := <- readyWaiter():
-        // readyWaiter() will wait 1 second if readych is ready to receive ,
-        // which will trigger a message to get sent on kc.ready. This
+      case <- readyWaiter():
+        // readyWaiter() will wait 1 second if the partitions are caught up,
+        // which will trigger kc.ready to get closed. This
         // should only trigger when we are totally caught up processing all the
         // messages currently available from Kafka. Before we reach the high
         // watermark and after this has triggered once, readyWaiter() will be a
         // nil channel with no significant resource consumption.
-        select {
-        case readych <- v:
-        default:
-        }
+        close(settled)
       case <-kc.quit:
         go func() {
           for _, c := range partitionConsumers {
@@ -761,10 +767,7 @@ func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
 }
 
 func (kc *KafkaConsumer) Ready() <-chan struct{} {
-  if kc.ready != nil { return kc.ready }
-  r := make(chan struct{}, 1)
-  r <- struct{}{}
-  return r
+  return kc.ready
 }
 func (kc *KafkaConsumer) Subscribe(ch interface{}) types.Subscription {
   return kc.omp.Subscribe(ch)
-- 
2.43.0


From b4dd3f0171076c41a5f0e01d4db9d9a63788714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 19/56] fix: roll back to the first message when a token is
 closer to it than the rollback

---
 transports/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index f1c4c50..8105438 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -557,7 +557,10 @@ func (kc *KafkaConsumer) Start() error {
       k := fmt.Sprintf("%v:%v", topic, partid)
       offset, ok := kc.resumption[k]
       var startOffset int64
-      if !ok || offset < kc.rollback{
+      if ok && offset >= 0 && offset < kc.rollback {
+        // Rolling back would take us beyond the first message.
+        startOffset = sarama.OffsetOldest
+      } else if !ok || offset < kc.rollback{
         if kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
           // An empty hash indicates an intention to start tracking the feed
           // now, so we should not add historical messages.
-- 
2.43.0


From 41495bb0347b173e78de6726198ecd86bde942da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 20/56] fix: do not wait for a partition that was closed before
 its first message

---
 transports/kafka.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 8105438..af947f1 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -636,6 +636,8 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
+        // The partition was closed, the others must not wait for it any longer
+        if !warm { warmupWg.Done() }
       }(pc, startOffset, partid, len(partitionConsumers), topic)
       partitionConsumers = append(partitionConsumers, pc)
     }
-- 
2.43.0


From fdb3256ca716c82e9d4ab74427e0e590f93011eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 21/56] fix: let a consumer be closed twice or before it was
 started

---
 transports/kafka.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index af947f1..56f1f4b 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -459,6 +459,7 @@ func (kp *KafkaProducer) PurgeReplayCache() {
 type KafkaConsumer struct{
   omp          *delivery.OrderedMessageProcessor
   quit         chan struct{}
+  closeOnce    sync.Once
   ready        chan struct{}
   brokerURL    string
   defaultTopic string
@@ -681,6 +682,7 @@ func (kc *KafkaConsumer) Start() error {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    quit := kc.quit
     for {
       select {
       case input, ok := <-messages:
@@ -744,7 +746,8 @@ func (kc *KafkaConsumer) Start() error {
         // watermark and after this has triggered once, readyWaiter() will be a
         // nil channel with no significant resource consumption.
         close(settled)
-      case <-kc.quit:
+      case <-quit:
+        quit = nil
         go func() {
           for _, c := range partitionConsumers {
             c.Close()
@@ -781,7 +784,7 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
   return kc.omp.SubscribeReorg(ch)
 }
 func (kc *KafkaConsumer) Close() {
-  kc.quit <- struct{}{}
+  kc.closeOnce.Do(func() { close(kc.quit) })
   kc.shutdownWg.Wait()
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
-- 
2.43.0


From ad7ae3d10cc70f33f6dd9bf639c2451a305b5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 22/56] fix: stop the partitions that were started when a
 consumer fails to start

---
 transports/kafka.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 56f1f4b..7ed00a7 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -547,8 +547,19 @@ func (kc *KafkaConsumer) Start() error {
   heartbeats := make(chan types.Hash)
   // The partition consumers wait for each other and must not begin until all
   // of them have been set up.
-  started := make(chan struct{})
-  defer close(started)
+  started, aborted := make(chan struct{}), make(chan struct{})
+  complete := false
+  defer func() {
+    if complete {
+      close(started)
+      return
+    }
+    close(aborted)
+    for _, c := range partitionConsumers {
+      c.Close()
+    }
+    if len(partitionConsumers) > 0 { dl.Close() }
+  }()
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -597,7 +608,11 @@ func (kc *KafkaConsumer) Start() error {
       dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
         defer kc.shutdownWg.Done()
-        <-started
+        select {
+        case <-started:
+        case <-aborted:
+          return
+        }
         var once sync.Once
         ready := func() {
           once.Do(func() {
@@ -768,6 +783,7 @@ func (kc *KafkaConsumer) Start() error {
       }
     }
   }()
+  complete = true
   return nil
 }
 func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
-- 
2.43.0


From 401ded725414e3fdae3d3b1c5bdf21ca4c0ce4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 23/56] fix: do not wait for messages of a topic whose messages
 have been removed

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 7ed00a7..cb62711 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -263,7 +263,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       if err != nil {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
-      } else if offset == 0 {
+      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); offset == 0 || (err == nil && oldest >= offset) {
+        // There are no messages to wait for
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
       }
-- 
2.43.0


From 29cf4c48b6ad92b5719a6a4c212af56dc6165e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 24/56] fix: announce a block after everything else has been
 emitted

---
 transports/kafka.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index cb62711..f70077c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -332,10 +332,18 @@ func (kp *KafkaProducer) SetHealth(b bool) {
 
 func (kp *KafkaProducer) emitBundle(bundle map[string][]delivery.Message) error {
   for topic, msgs := range bundle {
-    if kp.reorgTopic != "" { topic = kp.reorgTopic }
-    for _, msg := range msgs {
-      if err := kp.emit(topic, msg); err != nil { return err }
-    }
+    if topic == kp.defaultTopic { continue }
+    if err := kp.emitMessages(topic, msgs); err != nil { return err }
+  }
+  // The announcement of the block comes last. Once it has been sent the block
+  // would not be sent again if emitting the other messages failed.
+  return kp.emitMessages(kp.defaultTopic, bundle[kp.defaultTopic])
+}
+
+func (kp *KafkaProducer) emitMessages(topic string, msgs []delivery.Message) error {
+  if kp.reorgTopic != "" { topic = kp.reorgTopic }
+  for _, msg := range msgs {
+    if err := kp.emit(topic, msg); err != nil { return err }
   }
   return nil
 }
-- 
2.43.0


From ba70cd7b273fe2c76bb6861b1da1bd0378e378dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 25/56] fix: stop consuming empty partitions after looking for
 the latest block

---
 transports/kafka.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index f70077c..64b99cf 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -415,6 +415,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
   brokerList, config := ParseKafkaURL(kp.brokerURL)
   client, err := sarama.NewClient(brokerList, config)
   if err != nil { return 0, err }
+  defer client.Close()
   consumer, err := sarama.NewConsumerFromClient(client)
   if err != nil { return 0, err }
   partitions, err := consumer.Partitions(kp.defaultTopic)
@@ -453,6 +454,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
         }
       case <-time.NewTimer(time.Second).C:
         log.Info("No messages available on partition", "topic", kp.defaultTopic, "partition", partid)
+        pc.AsyncClose()
         break PARTITION_LOOP
       }
     }
-- 
2.43.0


From f0fb2a4048acdaaf03b141e0ce818f72735a0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 26/56] fix: send blocks that are added while a websocket
 stream goes live

---
 transports/websockets.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..e7b8260 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -232,8 +232,9 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 	sub = &nullSubscription{}
 	var initwg sync.WaitGroup
 	initwg.Add(1)
-	go func() {
-		for block := range initBlocks {
+	// sendBlocks writes blocks provided by the resumer to the subscription
+	sendBlocks := func(blocks <-chan *delivery.PendingBatch) {
+		for block := range blocks {
 			values := make(map[string]hexutil.Bytes)
 			deletes := make([]string, 0, len(block.Deletes))
 			for k, v := range block.Values {
@@ -264,9 +265,22 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 					Deletes: deletes,
 				},
 			}
+			number, hash = hexutil.Uint64(uint64(block.Number)), block.Hash
 		}
+	}
+	go func() {
+		sendBlocks(initBlocks)
 		if ctx.Err() == nil {
 			sub = s.feed.Subscribe(subch)
+			// Blocks that were added after the resumer provided its last block,
+			// but before we were subscribed, were not sent on either way.
+			missed, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
+			for err != nil && ctx.Err() == nil {
+				log.Warn("Error resuming stream", "number", number, "hash", hash, "err", err)
+				time.Sleep(time.Second)
+				missed, err = s.resumer.BlocksFrom(ctx, uint64(number), hash)
+			}
+			if err == nil { sendBlocks(missed) }
 			subch <- &resultMessage{
 				Type: "ready",
 			}
@@ -438,6 +452,7 @@ func (c *websocketConsumer) Start() error {
 					}
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
+						delete(batches, pb.Hash) // In case the block was also sent in parts
 						c.omp.ProcessCompleteBatch(pb)
 						c.lastNum = hexutil.Uint64(pb.Number)
 						c.lastHash = pb.Hash
-- 
2.43.0


From b8febf0318ead42483afbce7c2efb90fd7174179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 27/56] fix: close websocket connections that fail

---
 transports/websockets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index e7b8260..2e4219e 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -395,6 +395,7 @@ func (c *websocketConsumer) Start() error {
 				_, message, err := c.conn.ReadMessage()
 				if err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
+					c.conn.Close()
 					break
 				}
 				if len(message) == 0 {
-- 
2.43.0


From 1cc9a892f52aa3288503d7b4cd5d951893e3fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 28/56] fix: retry when a websocket subscription is refused

---
 transports/websockets.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 2e4219e..e896340 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -372,19 +372,27 @@ func (c *websocketConsumer) Start() error {
 				}
 				if string(response.ID) == string(call.ID) {
 					idstring, ok := response.Result.(string)
-					if ok {
-						encodedid, err := hexutil.DecodeUint64(idstring)
-						if err != nil {
-							log.Warn("Invalid subscription id", "id", idstring, "err", err)
-							continue
-						}
-						x := hexutil.Uint64(encodedid)
-						subid = &x
+					if !ok {
+						log.Warn("Subscription refused. Resetting connection.", "result", response.Result, "err", response.Error)
+						time.Sleep(time.Second)
+						break
+					}
+					encodedid, err := hexutil.DecodeUint64(idstring)
+					if err != nil {
+						log.Warn("Invalid subscription id. Resetting connection.", "id", idstring, "err", err)
+						time.Sleep(time.Second)
+						break
 					}
+					x := hexutil.Uint64(encodedid)
+					subid = &x
 				} else {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
 			}
+			if subid == nil {
+				c.conn.Close()
+				continue
+			}
 			log.Info("Subscription established", "id", subid)
 			var notification rpc.SubscriptionResponseRaw
 			select {
-- 
2.43.0


From ae40f7544d7f82a36bf02a84fe8ea3e18e8f387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 29/56] fix: keep messages that precede the confirmation of a
 websocket subscription

---
 transports/websockets.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index e896340..963d423 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -357,6 +357,7 @@ func (c *websocketConsumer) Start() error {
 			callData, _ := json.Marshal(call)
 			c.conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
+			var early [][]byte
 			for subid == nil {
 				_, message, err := c.conn.ReadMessage()
 				if err != nil {
@@ -385,6 +386,9 @@ func (c *websocketConsumer) Start() error {
 					}
 					x := hexutil.Uint64(encodedid)
 					subid = &x
+				} else if len(response.ID) == 0 {
+					// Messages may arrive before the subscription is confirmed
+					early = append(early, message)
 				} else {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
@@ -400,8 +404,10 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
-				if err != nil {
+				var message []byte
+				if len(early) > 0 {
+					message, early = early[0], early[1:]
+				} else if _, message, err = c.conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					c.conn.Close()
 					break
-- 
2.43.0


From 05a8d84017c6067e90e51819a7db75933486ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 30/56] fix: resume a websocket stream before blocks that are
 missing parts

---
 transports/websockets.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index 963d423..b2cdad4 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -410,6 +410,12 @@ func (c *websocketConsumer) Start() error {
 				} else if _, message, err = c.conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					c.conn.Close()
+					// Blocks that are still missing parts must be sent again
+					for _, pb := range batches {
+						if pb.Number > 0 && hexutil.Uint64(pb.Number - 1) < c.lastNum {
+							c.lastNum, c.lastHash = hexutil.Uint64(pb.Number - 1), pb.ParentHash
+						}
+					}
 					break
 				}
 				if len(message) == 0 {
-- 
2.43.0


From c4f818ce462d55476dc441c14c679d2bfaa345c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 31/56] fix: keep the order of blocks when a websocket stream
 goes live

---
 transports/websockets.go | 97 +++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 56 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index b2cdad4..3257c1a 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -16,7 +16,6 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
-	"sync"
 	"time"
 )
 
@@ -33,7 +32,6 @@ type websocketProducer struct {
 	feed types.Feed
 	resumer StreamsResumption
 	expectedBatches map[types.Hash]types.Hash
-	closemu sync.RWMutex
 }
 
 func (*websocketProducer) ProducerCount(time.Duration) uint {
@@ -121,7 +119,6 @@ func (p *websocketProducer) Service() interface{} {
 	return &websocketStreamsService{
 		feed: &p.feed,
 		resumer: p.resumer,
-		closemu: &p.closemu,
 	}
 }
 
@@ -137,7 +134,6 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 	for k := range deletes {
 		deleteData = append(deleteData, k)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "batch",
 		Batch: &TransportBatch{
@@ -150,7 +146,6 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 			Deletes: deleteData,
 		},
 	})
-	p.closemu.RUnlock()
 	for _, v := range batches {
 		p.expectedBatches[v] = hash
 	}
@@ -163,7 +158,6 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 	for k, v := range updates {
 		updateData[k] = hexutil.Bytes(v)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "subbatch",
 		SubBatch: &transportSubbatch{
@@ -173,12 +167,10 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 			Deletes: deletes,
 		},
 	})
-	p.closemu.RUnlock()
 	delete(p.expectedBatches, batchid)
 	return nil
 }
 func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error) {
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "reorg",
 		Batch: &TransportBatch{
@@ -186,7 +178,6 @@ func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error)
 			Number: hexutil.Uint64(number),
 		},
 	})
-	p.closemu.RUnlock()
 	return func() {}, nil
 }
 func (*websocketProducer) PurgeReplayCache() {}
@@ -194,7 +185,6 @@ func (*websocketProducer) PurgeReplayCache() {}
 type websocketStreamsService struct {
 	feed *types.Feed
 	resumer StreamsResumption
-	closemu *sync.RWMutex
 }
 
 func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexutil.Uint64) (*resultMessage, error) {
@@ -228,12 +218,17 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 		return nil, err
 	}
 	subch := make(chan *resultMessage, 1000)
-	var sub types.Subscription
-	sub = &nullSubscription{}
-	var initwg sync.WaitGroup
-	initwg.Add(1)
+	// send reports whether the message was sent before the context finished
+	send := func(msg *resultMessage) bool {
+		select {
+		case subch <- msg:
+			return true
+		case <-ctx.Done():
+			return false
+		}
+	}
 	// sendBlocks writes blocks provided by the resumer to the subscription
-	sendBlocks := func(blocks <-chan *delivery.PendingBatch) {
+	sendBlocks := func(blocks <-chan *delivery.PendingBatch) bool {
 		for block := range blocks {
 			values := make(map[string]hexutil.Bytes)
 			deletes := make([]string, 0, len(block.Deletes))
@@ -243,17 +238,15 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 			for k, _ := range block.Deletes {
 				deletes = append(deletes, k)
 			}
-            for len(subch) > 10 {
-                // If subch is getting backed up, wait before continuing to avoid high memory usage
-                // We need the buffer to be larger for when we transition to the active feed, because
-                // one blocking subscribe can delay the whole feed, but during initialization it's
-                // more likely that consumers won't be able to keep up with the stream than when
-                // blocks are received as they're validated.
-                if ctx.Err() != nil { break }
-                time.Sleep(10 * time.Millisecond)
-            }
-
-			subch <- &resultMessage{
+			for len(subch) > 10 && ctx.Err() == nil {
+				// If subch is getting backed up, wait before continuing to avoid high memory usage
+				// We need the buffer to be larger for when we transition to the active feed, because
+				// one blocking subscribe can delay the whole feed, but during initialization it's
+				// more likely that consumers won't be able to keep up with the stream than when
+				// blocks are received as they're validated.
+				time.Sleep(10 * time.Millisecond)
+			}
+			if !send(&resultMessage{
 				Type: "batch",
 				Batch: &TransportBatch{
 					Number: hexutil.Uint64(uint64(block.Number)),
@@ -264,44 +257,36 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 					Values: values,
 					Deletes: deletes,
 				},
-			}
+			}) { return false }
 			number, hash = hexutil.Uint64(uint64(block.Number)), block.Hash
 		}
+		return ctx.Err() == nil
 	}
 	go func() {
-		sendBlocks(initBlocks)
-		if ctx.Err() == nil {
-			sub = s.feed.Subscribe(subch)
-			// Blocks that were added after the resumer provided its last block,
-			// but before we were subscribed, were not sent on either way.
-			missed, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
-			for err != nil && ctx.Err() == nil {
-				log.Warn("Error resuming stream", "number", number, "hash", hash, "err", err)
-				time.Sleep(time.Second)
-				missed, err = s.resumer.BlocksFrom(ctx, uint64(number), hash)
-			}
-			if err == nil { sendBlocks(missed) }
-			subch <- &resultMessage{
-				Type: "ready",
-			}
+		defer close(subch)
+		if !sendBlocks(initBlocks) { return }
+		live := make(chan *resultMessage, 1000)
+		sub := s.feed.Subscribe(live)
+		defer sub.Unsubscribe()
+		// Blocks that were added after the resumer provided its last block, but
+		// before we were subscribed, were not sent on either way. Get them before
+		// going on with live blocks, so that the order of blocks is kept.
+		missed, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
+		for err != nil {
+			log.Warn("Error resuming stream", "number", number, "hash", hash, "err", err)
+			time.Sleep(time.Second)
+			if ctx.Err() != nil { return }
+			missed, err = s.resumer.BlocksFrom(ctx, uint64(number), hash)
 		}
-		initwg.Done()
-	}()
-	go func() {
+		if !sendBlocks(missed) { return }
+		if !send(&resultMessage{Type: "ready"}) { return }
 		for {
 			select {
-			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
+			case msg := <-live:
+				if !send(msg) { return }
 			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
+				return
+			case <-ctx.Done():
 				return
 			}
 		}
-- 
2.43.0


From 2198713de46bf74baee2f832e4f49850653752d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 32/56] fix: let a websocket consumer be closed before it is
 connected

---
 transports/websockets.go | 60 ++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 3257c1a..1b4bb2c 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -16,6 +16,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -301,16 +302,17 @@ type websocketConsumer struct {
 	chainUpdates types.Feed
 	pendingBatches types.Feed
 	reorgs types.Feed
+	connLock sync.Mutex // Guards conn and closing of quit
 	conn *websocket.Conn
 	ready chan struct{}
-	quit bool
+	quit chan struct{}
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
-	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
+	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), quit: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
 }
 
 func (*websocketConsumer) ProducerCount(time.Duration) uint {
@@ -318,18 +320,18 @@ func (*websocketConsumer) ProducerCount(time.Duration) uint {
 }
 
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for !c.closed() {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
 				time.Sleep(time.Second)
 				continue
 			}
+			if !c.setConn(conn) { return }
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
@@ -340,11 +342,11 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
+			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
 			var early [][]byte
 			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Warn("Read error. Resetting Connection.", "err", err)
 					time.Sleep(time.Second)
@@ -379,7 +381,7 @@ func (c *websocketConsumer) Start() error {
 				}
 			}
 			if subid == nil {
-				c.conn.Close()
+				conn.Close()
 				continue
 			}
 			log.Info("Subscription established", "id", subid)
@@ -392,9 +394,9 @@ func (c *websocketConsumer) Start() error {
 				var message []byte
 				if len(early) > 0 {
 					message, early = early[0], early[1:]
-				} else if _, message, err = c.conn.ReadMessage(); err != nil {
+				} else if _, message, err = conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
-					c.conn.Close()
+					conn.Close()
 					// Blocks that are still missing parts must be sent again
 					for _, pb := range batches {
 						if pb.Number > 0 && hexutil.Uint64(pb.Number - 1) < c.lastNum {
@@ -488,9 +490,36 @@ func (c *websocketConsumer) Start() error {
 			}
 		}
 	}()
-	<-connected
-	return nil
+	select {
+	case <-connected:
+		return nil
+	case <-c.quit:
+		return fmt.Errorf("consumer closed")
+	}
+}
+
+func (c *websocketConsumer) closed() bool {
+	select {
+	case <-c.quit:
+		return true
+	default:
+		return false
+	}
 }
+
+// setConn registers a connection to be closed with the consumer. If the
+// consumer has been closed already it closes the connection and returns false.
+func (c *websocketConsumer) setConn(conn *websocket.Conn) bool {
+	c.connLock.Lock()
+	defer c.connLock.Unlock()
+	if c.closed() {
+		conn.Close()
+		return false
+	}
+	c.conn = conn
+	return true
+}
+
 func (c *websocketConsumer) Subscribe(ch interface{}) types.Subscription {
 	return c.omp.Subscribe(ch)
 }
@@ -498,8 +527,11 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 	return c.omp.SubscribeReorg(ch)
 }
 func (c *websocketConsumer) Close() {
-	c.quit = true
-	c.conn.Close()
+	c.connLock.Lock()
+	defer c.connLock.Unlock()
+	if c.closed() { return }
+	close(c.quit)
+	if c.conn != nil { c.conn.Close() }
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From 2abea1889488a48d327e6ddf498825be4dc036ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 33/56] fix: apply websocket reorg notices in order with blocks

---
 delivery/consumer.go     | 26 ++++++++++++++++----------
 delivery/ordering.go     |  6 ++++++
 transports/websockets.go |  4 +++-
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 7e57b7f..f980a87 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -278,6 +278,21 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	delete(mp.pendingBatches, pb.Hash)
 }
 
+// ProcessReorg makes the specified block the one that subsequent blocks build
+// on. Subscribers are notified in order with completed blocks.
+func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+  var err error
+  mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
+  if err != nil {
+    return err
+  }
+  mp.oldBlocks = make(map[types.Hash]struct{})
+  mp.lastEmittedNum = num
+  mp.reorgCount++
+  mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+  return nil
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   EVICTLOOP:
@@ -306,18 +321,9 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     mp.updateResumption(m.Source(), m.Offset())
   }
   if MessageType(m.Key()[0]) == ReorgType {
-    var err error
-    mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
-    if err != nil {
-      return err
-    }
-    mp.oldBlocks = make(map[types.Hash]struct{})
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    mp.lastEmittedNum = int64(num)
-    mp.reorgCount++
-    mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
-    return nil
+    return mp.ProcessReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 37d1019..fc448b1 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -189,6 +189,12 @@ func (omp *OrderedMessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	omp.mp.ProcessCompleteBatch(pb)
 }
 
+// ProcessReorg handles a reorg notification in order with the batches passed to
+// ProcessMessage and ProcessCompleteBatch.
+func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+  return omp.mp.ProcessReorg(num, hash)
+}
+
 func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
   return omp.reorgFeed.Subscribe(ch)
 }
diff --git a/transports/websockets.go b/transports/websockets.go
index 1b4bb2c..cc179af 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -427,7 +427,9 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					if err := c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash); err != nil {
+						log.Error("Error processing reorg", "num", item.Batch.Number, "hash", item.Batch.Hash, "err", err)
+					}
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From b0bec7ce28e9d3412eca05038d001d241fbb7002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 34/56] fix: ignore malformed websocket messages

---
 transports/websockets.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index cc179af..92be8a0 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -46,6 +46,20 @@ type resultMessage struct {
 	SubBatch *transportSubbatch `json:"subbatch,omitempty"`
 }
 
+// valid reports whether the content required by the type of the message is
+// present.
+func (m *resultMessage) valid() bool {
+	switch m.Type {
+	case "batch":
+		return m.Batch != nil && m.Batch.Weight != nil
+	case "reorg":
+		return m.Batch != nil
+	case "subbatch":
+		return m.SubBatch != nil
+	}
+	return true
+}
+
 type TransportBatch struct {
 	Number hexutil.Uint64 `json:"number"`
 	Weight *hexutil.Big `json:"weight"`
@@ -385,7 +399,6 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			log.Info("Subscription established", "id", subid)
-			var notification rpc.SubscriptionResponseRaw
 			select {
 			case connected <- struct{}{}:
 			default:
@@ -409,7 +422,11 @@ func (c *websocketConsumer) Start() error {
 					// Probably a ping message
 					continue
 				}
-				json.Unmarshal(message, &notification)
+				var notification rpc.SubscriptionResponseRaw
+				if err := json.Unmarshal(message, &notification); err != nil {
+					log.Warn("Invalid message on channel", "message", string(message), "err", err)
+					continue
+				}
 				if notification.Method != "cardinal_subscribe" {
 					log.Warn("Unexpected message on channel", "message", string(message))
 					continue
@@ -419,7 +436,10 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				var item resultMessage
-				json.Unmarshal(notification.Params.Result, &item)
+				if err := json.Unmarshal(notification.Params.Result, &item); err != nil || !item.valid() {
+					log.Error("Invalid notification", "message", string(message), "err", err)
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From 6494df6610729b2f4456a0c7c0afdf62cecee6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 35/56] fix: release everyone who waits for a consumer of
 several brokers to be ready

---
 transports/null.go     | 4 ++--
 transports/resolver.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transports/null.go b/transports/null.go
index 28f3d36..7d56289 100644
--- a/transports/null.go
+++ b/transports/null.go
@@ -22,8 +22,8 @@ func (*nullConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscr
 func (*nullConsumer) Close() {}
 
 func (*nullConsumer) Ready() <-chan struct{} {
-  ch := make(chan struct{}, 1)
-  ch <- struct{}{}
+  ch := make(chan struct{})
+  close(ch)
   return ch
 }
 func (*nullConsumer) WhyNotReady(hash types.Hash) string {
diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..faa8a7a 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -197,7 +197,7 @@ func (mc *muxConsumer) Ready() <-chan struct{} {
       }
     }
     reflect.Select(channels)
-    ch <- struct{}{}
+    close(ch) // Everyone who waits for it is told
   }()
   return ch
 }
-- 
2.43.0


From da077a52751ab8bea7943291937924c89e457e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 36/56] fix: start the brokers of a consumer independently of
 each other

---
 transports/resolver.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index faa8a7a..318243d 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -150,18 +150,24 @@ func (mc *muxConsumer) ProducerCount(d time.Duration) uint {
 }
 
 func (mc *muxConsumer) Start() error {
-  var consumerErrs int
+  // Starting may wait for a broker to become available, which must not keep us
+  // from using the others.
+  errs := make(chan error, len(mc.consumers))
   for _, c := range mc.consumers {
-    err := c.Start() 
-    if err != nil { 
-      consumerErrs += 1
-      log.Error("Error received from call to consumer.start()", "consumer", c)
-    }
+    go func(c Consumer) {
+      err := c.Start()
+      if err != nil {
+        log.Error("Error received from call to consumer.start()", "consumer", c, "err", err)
+      }
+      errs <- err
+    }(c)
   }
-  if consumerErrs == len(mc.consumers) {
-    return fmt.Errorf("All consumers returned an error")
+  for range mc.consumers {
+    if err := <-errs; err == nil {
+      return nil
+    }
   }
-  return nil
+  return fmt.Errorf("All consumers returned an error")
 }
 func (mc *muxConsumer) Subscribe(ch interface{}) types.Subscription {
   return mc.omp.Subscribe(ch)
-- 
2.43.0


From cb55bd7518b42cae88ba2246274b6fb491846170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 37/56] fix: guard the tracker of producers against concurrent
 use

---
 transports/kafka.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 64b99cf..ad7547a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -28,15 +28,26 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  lock  sync.Mutex
+  pings map[types.Hash]time.Time
+}
+
+func newPingTracker() *pingTracker {
+  return &pingTracker{pings: make(map[types.Hash]time.Time)}
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  pt.pings[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
   var count uint
-  for _, v := range pt {
+  for _, v := range pt.pings {
     if time.Since(v) < d {
       count++
     }
@@ -221,7 +232,7 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
-  pt           pingTracker
+  pt           *pingTracker
   healthy      bool
 }
 
@@ -245,7 +256,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
+  pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -481,7 +492,7 @@ type KafkaConsumer struct{
   shutdownWg   sync.WaitGroup
   isReorg      bool
   startHash    types.Hash
-  pt           pingTracker
+  pt           *pingTracker
   waiter       waiter.Waiter
 }
 
@@ -511,7 +522,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
+    pt: newPingTracker(),
   }, nil
 }
 
-- 
2.43.0


From 1129e10e49e546164188c5126a21008de4774580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 38/56] fix: guard the health of a producer

---
 transports/kafka.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index ad7547a..48cf08b 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -234,6 +234,7 @@ type KafkaProducer struct{
   skipBatches  *lru.Cache
   pt           *pingTracker
   healthy      bool
+  healthLock   sync.RWMutex
 }
 
 func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string) (Producer, error) {
@@ -319,7 +320,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       select {
       case t := <-ticker.C:
         b, _ := t.MarshalBinary()
-        if kp.healthy {
+        if kp.isHealthy() {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
       case h := <-hashCh:
@@ -338,9 +339,17 @@ func (kp *KafkaProducer) ProducerCount(d time.Duration) uint {
 }
 
 func (kp *KafkaProducer) SetHealth(b bool) {
+  kp.healthLock.Lock()
+  defer kp.healthLock.Unlock()
   kp.healthy = b
 }
 
+func (kp *KafkaProducer) isHealthy() bool {
+  kp.healthLock.RLock()
+  defer kp.healthLock.RUnlock()
+  return kp.healthy
+}
+
 func (kp *KafkaProducer) emitBundle(bundle map[string][]delivery.Message) error {
   for topic, msgs := range bundle {
     if topic == kp.defaultTopic { continue }
-- 
2.43.0


From 14128d92306e0b200711522ff5408872791dbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 39/56] fix: create the waiter of a consumer once

---
 transports/kafka.go      |  5 ++---
 transports/resolver.go   | 10 +++++-----
 transports/websockets.go |  5 ++---
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 48cf08b..2929a87 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -503,6 +503,7 @@ type KafkaConsumer struct{
   startHash    types.Hash
   pt           *pingTracker
   waiter       waiter.Waiter
+  waiterOnce   sync.Once
 }
 
 func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, lastHash types.Hash) (Consumer, error) {
@@ -839,8 +840,6 @@ func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
 }
 
 func (kc *KafkaConsumer) Waiter() waiter.Waiter {
-  if kc.waiter == nil {
-    kc.waiter = waiter.NewOmpWaiter(kc.omp)
-  }
+  kc.waiterOnce.Do(func() { kc.waiter = waiter.NewOmpWaiter(kc.omp) })
   return kc.waiter
 }
\ No newline at end of file
diff --git a/transports/resolver.go b/transports/resolver.go
index 318243d..56c25da 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -7,6 +7,7 @@ import (
   "regexp"
   "time"
   "strings"
+  "sync"
   "reflect"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-streams/v2/delivery"
@@ -124,20 +125,19 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  waiterOnce sync.Once
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
-  if mc.waiter == nil {
+  mc.waiterOnce.Do(func() {
+    mc.waiter = nullWaiter{}
     for _, c := range mc.consumers {
       if w := c.Waiter(); w != (nullWaiter{}) {
         mc.waiter = w
         break
       }
     }
-    if mc.waiter == nil {
-      mc.waiter = nullWaiter{}
-    }
-  }
+  })
   return mc.waiter
 }
 
diff --git a/transports/websockets.go b/transports/websockets.go
index 92be8a0..01170cf 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -323,6 +323,7 @@ type websocketConsumer struct {
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
+	waiterOnce sync.Once
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
@@ -563,8 +564,6 @@ func (c *websocketConsumer) WhyNotReady(types.Hash) string {
 }
 
 func (c *websocketConsumer) Waiter() waiter.Waiter {
-    if c.waiter == nil {
-      c.waiter = waiter.NewOmpWaiter(c.omp)
-    }
+    c.waiterOnce.Do(func() { c.waiter = waiter.NewOmpWaiter(c.omp) })
     return c.waiter
   }
\ No newline at end of file
-- 
2.43.0


From 8a9018bb5e0a75fcd8cc353382cfcf8d8d95751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 40/56] fix: guard the state of the message processor

---
 delivery/consumer.go | 66 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index f980a87..4967b55 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -191,6 +191,8 @@ type prefixBatch struct {
 // to ensure blocks are emitted in something resembling a sensible order and
 // that reorgs are handled.
 type MessageProcessor struct {
+  processing      sync.Mutex // Serializes messages, held while subscribers are notified
+  lock            sync.Mutex // Guards the state, released while subscribers are notified
   lastEmittedNum  int64
   reorgThreshold  int64
   pendingBatches  map[types.Hash]*PendingBatch
@@ -258,21 +260,35 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
   }
 }
 
+// unlocked calls f, which notifies subscribers, without holding the lock, so
+// that they can ask for the state of the processor.
+func (mp *MessageProcessor) unlocked(f func()) {
+  mp.lock.Unlock()
+  defer mp.lock.Lock()
+  f()
+}
+
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	mp.processing.Lock()
+	defer mp.processing.Unlock()
+	mp.lock.Lock()
+	defer mp.lock.Unlock()
 	pb.waitLock.Lock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
 	waitCh := pb.waitCh
 	pb.waitLock.Unlock()
-	mp.waitFeed.Send(&Waiter{
-		Hash: pb.Hash,
-		Parent: pb.ParentHash,
-		Number: pb.Number,
-		WaitCh: waitCh,
+	mp.unlocked(func() {
+		mp.waitFeed.Send(&Waiter{
+			Hash: pb.Hash,
+			Parent: pb.ParentHash,
+			Number: pb.Number,
+			WaitCh: waitCh,
+		})
 	})
 	pb.reorgCount = mp.reorgCount
-	mp.feed.Send(pb)
+	mp.unlocked(func() { mp.feed.Send(pb) })
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
 	delete(mp.pendingBatches, pb.Hash)
@@ -281,6 +297,14 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 // ProcessReorg makes the specified block the one that subsequent blocks build
 // on. Subscribers are notified in order with completed blocks.
 func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
+  mp.processing.Lock()
+  defer mp.processing.Unlock()
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processReorg(num, hash)
+}
+
+func (mp *MessageProcessor) processReorg(num int64, hash types.Hash) error {
   var err error
   mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
   if err != nil {
@@ -289,12 +313,20 @@ func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) error {
   mp.oldBlocks = make(map[types.Hash]struct{})
   mp.lastEmittedNum = num
   mp.reorgCount++
-  mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+  mp.unlocked(func() { mp.reorgFeed.Send(map[int64]types.Hash{num: hash}) })
   return nil
 }
 
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  mp.processing.Lock()
+  defer mp.processing.Unlock()
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processMessage(m)
+}
+
+func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
@@ -323,7 +355,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   if MessageType(m.Key()[0]) == ReorgType {
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    return mp.ProcessReorg(int64(num), hash)
+    return mp.processReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
@@ -341,11 +373,13 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     //   return nil
     // }
     waitCh := make(chan struct{})
-    mp.waitFeed.Send(&Waiter{
-      Hash: b.Hash,
-      Parent: b.ParentHash,
-      Number: b.Number,
-      WaitCh: waitCh,
+    mp.unlocked(func() {
+      mp.waitFeed.Send(&Waiter{
+        Hash: b.Hash,
+        Parent: b.ParentHash,
+        Number: b.Number,
+        WaitCh: waitCh,
+      })
     })
     mp.pendingBatches[hash] = &PendingBatch{
       Number: b.Number,
@@ -387,7 +421,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.processMessage(msg); err != nil { return err }
       }
       delete (mp.pendingMessages, hash)
     }
@@ -420,7 +454,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
     b.reorgCount = mp.reorgCount
-    mp.feed.Send(b)
+    mp.unlocked(func() { mp.feed.Send(b) })
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
@@ -444,6 +478,8 @@ func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
 }
 
 func (mp *MessageProcessor) WhyNotReady(hash types.Hash) string {
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
   if pb, ok := mp.pendingBatches[hash]; ok {
     return pb.whyNotReady()
   } else {
-- 
2.43.0


From a751fbd25bbbcc642dfcac7732e088d535e974f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 41/56] fix: guard the pending blocks of the ordered message
 processor

---
 delivery/ordering.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index fc448b1..0e82482 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -7,6 +7,7 @@ import (
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
   log "github.com/inconshreveable/log15"
+  "sync"
   "time"
 )
 
@@ -26,6 +27,7 @@ type OrderedMessageProcessor struct {
   lastWeight     *big.Int
   reorgThreshold int64
   pending        map[types.Hash]*PendingBatch
+  pendingLock    sync.RWMutex // Guards changes of pending against WhyNotReady
   queued         map[types.Hash]map[types.Hash]struct{}
   finished       *lru.Cache
   quit           chan struct{}
@@ -133,9 +135,15 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
   return omp, err
 }
 
+func (omp *OrderedMessageProcessor) deletePending(hash types.Hash) {
+  omp.pendingLock.Lock()
+  defer omp.pendingLock.Unlock()
+  delete(omp.pending, hash)
+}
+
 func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
-    delete(omp.pending, pb.Hash)
+    omp.deletePending(pb.Hash)
     omp.mp.evictOlderThan(pb.Number)
     omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
     if children, ok := omp.queued[pb.Hash]; ok {
@@ -212,7 +220,9 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
     omp.blacklist[pb.Hash] = struct{}{}
     return
   }
+  omp.pendingLock.Lock()
   omp.pending[pb.Hash] = pb
+  omp.pendingLock.Unlock()
   if omp.finished.Contains(pb.Hash) && !reorg && pb.ParentHash != omp.lastHash {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
@@ -267,7 +277,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // evicted
       if latestBlock := omp.pending[omp.lastHash]; latestBlock != nil && latestBlock.Number - pb.Number > omp.reorgThreshold {
         log.Info("OMP: Discarding old block", "current", latestBlock.Number, "received", pb.Number)
-        delete(omp.pending, pb.Hash)
+        omp.deletePending(pb.Hash)
         return
       }
       omp.finished.Add(pb.Hash, struct{}{})
@@ -429,6 +439,9 @@ func (omp *OrderedMessageProcessor) Close() {
 
 func (omp *OrderedMessageProcessor) WhyNotReady(hash types.Hash) string {
   if omp.finished.Contains(hash) { return "done, not evicted" }
-  if _, ok := omp.pending[hash]; ok { return "pending parent" }
+  omp.pendingLock.RLock()
+  _, ok := omp.pending[hash]
+  omp.pendingLock.RUnlock()
+  if ok { return "pending parent" }
   return omp.mp.WhyNotReady(hash)
 }
-- 
2.43.0


From d2f896ed9f9ccc6a8bb8c59daf85786350c6df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 42/56] fix: name the missing sub-batch message in WhyNotReady

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4967b55..79a02e3 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -99,7 +99,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From cdbe27664dfe08a98120778776a7c9fbd6737bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 43/56] fix: reject malformed messages instead of panicking

---
 delivery/consumer.go | 18 ++++++++++++++++--
 delivery/errors.go   |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 79a02e3..219a3e8 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -110,6 +110,10 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
   switch MessageType(m.Key()[0]) {
   case SubBatchMsgType:
     // SubBatchMsgType.$hash.$BatchId.$Index
+    if len(m.Key()) < 66 {
+      log.Error("Key of sub-batch message is too short", "key", m.Key())
+      return true
+    }
     batchid := types.BytesToHash(m.Key()[33:65])
     var idx int
     if err := avro.Unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
@@ -120,6 +124,10 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
       pb.pendingMessages[string(m.Key())] = m
       return false
     }
+    if idx < 0 || idx >= len(pb.batches[batchid]) {
+      log.Error("Sub-batch does not have a message of this index", "key", m.Key(), "count", len(pb.batches[batchid]))
+      return true
+    }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
     if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
@@ -341,6 +349,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
       break EVICTLOOP
     }
   }
+  if len(m.Key()) < 33 { return ErrMalformedMessage }
   hash := types.BytesToHash(m.Key()[1:33])
   if _, ok := mp.resumption[m.Source()]; !ok {
     mp.updateResumption(m.Source(), m.Offset())
@@ -362,6 +371,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
 
   switch MessageType(m.Key()[0]) {
   case BatchType:
+    if len(m.Key()) != 33 { return ErrMalformedMessage }
     b := &Batch{}
     if err := avro.Unmarshal(batchSchema, m.Value(), b); err != nil { return err }
     b.Hash = hash
@@ -421,7 +431,9 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.processMessage(msg); err != nil { return err }
+        if err := mp.processMessage(msg); err != nil {
+          log.Error("Error processing queued message", "err", err, "key", msg.Key(), "source", msg.Source())
+        }
       }
       delete (mp.pendingMessages, hash)
     }
@@ -429,15 +441,17 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     messagesGauge.Update(int64(len(mp.pendingMessages)))
     log.Debug("New pending batch", "number", b.Number, "pending", len(mp.pendingBatches), "messages", len(mp.pendingMessages), "source", m.Source())
   case SubBatchHeaderType:
+    if len(m.Key()) != 65 { return ErrMalformedMessage }
     if _, ok := mp.pendingBatches[hash] ; !ok {
       mp.queueMessage(hash, m)
       return nil
     }
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
-    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     var counter int
     if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if counter < 0 { return ErrMalformedMessage }
+    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
     mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())
     for k, msg := range mp.pendingBatches[hash].pendingMessages {
diff --git a/delivery/errors.go b/delivery/errors.go
index 8aff2ca..74171df 100644
--- a/delivery/errors.go
+++ b/delivery/errors.go
@@ -7,6 +7,7 @@ import (
 var (
   ErrPrefixMissing = fmt.Errorf("prefix missing")
   ErrPrefixOverlap = fmt.Errorf("producers must not have overlapping prefixes")
+  ErrMalformedMessage = fmt.Errorf("malformed message")
   ErrUnknownBatch = fmt.Errorf("unknown batch")
   ErrInvalidBatch = fmt.Errorf("invalid batch")
   ErrPrefixConflict = fmt.Errorf("deletes, updates, and batches cannot have prefix conflicts")
-- 
2.43.0


From 43b6c6b2f74d9d575aaf8d7012c25166e0c498cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 44/56] fix: ignore malformed announcements in the Kafka
 producer

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 2929a87..098ca82 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -301,7 +301,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
           case delivery.BatchType:
-            hashCh <- types.BytesToHash(input.Key[1:33])
+            if len(input.Key) != 33 { continue PARTITION_LOOP } // Not the announcement of a block
+            hashCh <- types.BytesToHash(input.Key[1:])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
               heartbeats <- types.BytesToHash(input.Key[1:])
-- 
2.43.0


From a99b4b779a090b7a579d128e142e0d4c55d33bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 45/56] fix: let a batch be sent again if it could not be
 emitted

---
 transports/kafka.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 098ca82..ef18a3e 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -232,6 +232,7 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
+  failedBatches *lru.Cache // Messages of batches that could not be emitted
   pt           *pingTracker
   healthy      bool
   healthLock   sync.RWMutex
@@ -314,7 +315,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
-  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
+  failedBatches, _ := lru.New(1024)
+  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, failedBatches: failedBatches, pt: pt, healthy: true}
   go func() {
     ticker := time.NewTicker(30 * time.Second)
     for {
@@ -395,11 +397,21 @@ func (kp *KafkaProducer) AddBlock(number int64, hash, parentHash types.Hash, wei
 }
 func (kp *KafkaProducer) SendBatch(batchid types.Hash, delete []string, update map[string][]byte) error {
   msgs, err := kp.dp.SendBatch(batchid, delete, update)
-  if err == delivery.ErrUnknownBatch && kp.skipBatches.Contains(batchid) {
-    return nil
+  if err == delivery.ErrUnknownBatch {
+    if failed, ok := kp.failedBatches.Get(batchid); ok {
+      // The batch was accepted before, but could not be emitted
+      msgs, err = failed.(map[string][]delivery.Message), nil
+    } else if kp.skipBatches.Contains(batchid) {
+      return nil
+    }
   }
   if err != nil { return err }
-  return kp.emitBundle(msgs)
+  if err := kp.emitBundle(msgs); err != nil {
+    kp.failedBatches.Add(batchid, msgs)
+    return err
+  }
+  kp.failedBatches.Remove(batchid)
+  return nil
 }
 func (kp *KafkaProducer) Reorg(number int64, hash types.Hash) (func(), error) {
   // msg := kp.dp.Reorg(number, hash)
-- 
2.43.0


From 0afc65a275f48f118140c8e830fb6a1c9f29c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 46/56] fix: accept cardinal:// prefixed URLs for Kafka
 consumers

---
 transports/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 56c25da..683173a 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -59,7 +59,7 @@ func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
   switch protocol := strings.Split(strings.TrimPrefix(brokerURL, "cardinal://"), "://"); protocol[0] {
   case "kafka":
-    return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, lastHash)
+    return kafkaConsumerWithOMP(omp, strings.TrimPrefix(brokerURL, "cardinal://"), defaultTopic, topics, resumption, rollback, lastHash)
   case "ws", "wss":
     prefixes := make([]string, len(trackedPrefixes))
     for i, p := range trackedPrefixes {
@@ -78,7 +78,7 @@ func ResumptionForTimestamp(brokerParams []BrokerParams, timestamp int64) ([]byt
   for _, bp := range brokerParams {
     switch protocol := strings.Split(strings.TrimPrefix(bp.URL, "cardinal://"), "://"); protocol[0] {
     case "kafka":
-      res, err := kafkaResumptionForTimestamp(bp.URL, bp.Topics, timestamp)
+      res, err := kafkaResumptionForTimestamp(strings.TrimPrefix(bp.URL, "cardinal://"), bp.Topics, timestamp)
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From e85a91250ed049a2badfdd46b3523f46bc21267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 47/56] fix: do not step a partition that left the drumline

---
 transports/kafka.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index ef18a3e..d9138d7 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -659,9 +659,13 @@ func (kc *KafkaConsumer) Start() error {
           return
         }
         var once sync.Once
+        // The drumline may still be about to drop this partition when Done
+        // returns. A step that fills up its buffer then would block forever.
+        stepping := !kc.isReorg
         ready := func() {
           once.Do(func() {
             log.Debug("Partition ready", "topic", topic, "partition", partid)
+            stepping = false
             dl.Done(i)
             readyWg.Done()
           })
@@ -686,7 +690,7 @@ func (kc *KafkaConsumer) Start() error {
           select {
           case <-kc.ready:
           default:
-            if !kc.isReorg {
+            if stepping {
               dl.Step(i)
             }
             if pc.HighWaterMarkOffset() - input.Offset <= 1 {
-- 
2.43.0


From 01d9ef7ef72786fdbf0de05e565821c29cbda163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 48/56] fix: carry reorg notices for block numbers that do not
 fit 32 bits

---
 delivery/consumer.go | 6 +++---
 delivery/producer.go | 4 ++--
 delivery/types.go    | 8 ++++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 219a3e8..503b95b 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -362,9 +362,9 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     mp.updateResumption(m.Source(), m.Offset())
   }
   if MessageType(m.Key()[0]) == ReorgType {
-    var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    return mp.processReorg(int64(num), hash)
+    var num int64
+    if err := avro.Unmarshal(longSchema, m.Value(), &num); err != nil { return err }
+    return mp.processReorg(num, hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
diff --git a/delivery/producer.go b/delivery/producer.go
index 34d1a89..e0bb069 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -176,10 +176,10 @@ func (p *Producer) SendBatch(batchid types.Hash, deletes []string, update map[st
 // hash should correspond to the common ancestor between the two reorged
 // chains.
 func (p *Producer) Reorg(number int64, hash types.Hash) Message {
-  return &message{key: ReorgType.GetKey(hash.Bytes()), value: AvroInt(int(number))}
+  return &message{key: ReorgType.GetKey(hash.Bytes()), value: avroLong(number)}
 }
 // ReorgDone should be called at the end of a large reorg, to indicate to the
 // consumer that all messages for the reorg are available
 func (p *Producer) ReorgDone(number int64, hash types.Hash) Message {
-  return &message{key: ReorgCompleteType.GetKey(hash.Bytes()), value: AvroInt(int(number))}
+  return &message{key: ReorgCompleteType.GetKey(hash.Bytes()), value: avroLong(number)}
 }
diff --git a/delivery/types.go b/delivery/types.go
index ed11458..fa019fa 100644
--- a/delivery/types.go
+++ b/delivery/types.go
@@ -89,6 +89,7 @@ var (
     ]
   }`)
   intSchema = avro.MustParse("int")
+  longSchema = avro.MustParse("long")
 )
 
 
@@ -120,6 +121,13 @@ func AvroInt(b int) []byte {
   return data
 }
 
+func avroLong(b int64) []byte {
+  data, err := avro.Marshal(longSchema, b)
+  // This shouldn't occcur unless there's a mismatch between the Batch type and the avro schema, which should get caught in testing
+  if err != nil { panic(err.Error()) }
+  return data
+}
+
 type Message interface {
   Key() []byte
   Value() []byte
-- 
2.43.0


From 4c5edc970ef5f58517da569ff2323f69cacf0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 49/56] fix: refuse malformed Kafka URLs instead of
 dereferencing nil

---
 transports/kafka.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index d9138d7..45c35e7 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -77,9 +77,15 @@ func (m *KafkaResumptionMessage) Time() time.Time {
 }
 
 func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
-  parsedURL, _ := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
   config := sarama.NewConfig()
   config.Version = sarama.V2_5_0_0
+  parsedURL, err := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
+  if err != nil {
+    // Without brokers nobody can connect. The error may contain credentials,
+    // so it is not logged.
+    log.Error("Malformed broker URL")
+    return nil, config
+  }
 
   if parsedURL.Query().Get("tls") == "1" {
     config.Net.TLS.Enable = true
-- 
2.43.0


From b314175c96a46351885813b6d83ebf8d83d6e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 50/56] fix: accept a topic that another producer created at
 the same time

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 45c35e7..a8a64c2 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -220,7 +220,8 @@ func CreateTopicIfDoesNotExist(brokerAddr, topic string, numPartitions int32, co
       log.Error("Error creating topic", "error", err, "response", r)
       return err
     }
-    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError {
+    // Another producer may have created the topic in the meantime
+    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError && err.Err != sarama.ErrTopicAlreadyExists {
       log.Error("topic error", "err", err)
       return err
     }
-- 
2.43.0


From a9f9b3cc74cdc4ac62c37c241ccae1dc043eee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:23 +0000
Subject: [PATCH 51/56] fix: report failing requests when starting a Kafka
 consumer

---
 transports/kafka.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index a8a64c2..b986f52 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -643,19 +643,25 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset - kc.rollback
       }
       pc, err := consumer.ConsumePartition(topic, partid, startOffset)
-      if err != nil {
+      if err == sarama.ErrOffsetOutOfRange {
         pc, err = consumer.ConsumePartition(topic, partid, offset)
-        if err != nil { return err }
         startOffset = offset
       }
+      if err != nil { return err }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
       // A partition without messages from the start offset on has nothing to
       // catch up with, the others must not wait for it.
-      idle := startOffset == sarama.OffsetNewest
-      if newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest); err == nil {
-        oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
-        idle = idle || startOffset >= newest || (err == nil && oldest >= newest)
+      newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
+      if err != nil {
+        pc.Close()
+        return err
+      }
+      oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+      if err != nil {
+        pc.Close()
+        return err
       }
+      idle := startOffset == sarama.OffsetNewest || startOffset >= newest || oldest >= newest
       kc.shutdownWg.Add(1)
       dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
-- 
2.43.0


From 1acc828653dd6bf019d80db3a1b39e1236837612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 52/56] fix: do not wait for messages of a partition whose
 oldest offset is unknown

---
 transports/kafka.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index b986f52..f1585c5 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -283,8 +283,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       if err != nil {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
-      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); offset == 0 || (err == nil && oldest >= offset) {
-        // There are no messages to wait for
+      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); offset == 0 || err != nil || oldest >= offset {
+        // There are no messages to wait for, as far as is known
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
       }
-- 
2.43.0


From ddc37a15397df469f70fefe3a3f5925e98f4d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 53/56] fix: close connections to Kafka that are no longer used

---
 transports/kafka.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index f1585c5..b3a2f5c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -267,11 +267,19 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
-  if err != nil { return nil, err }
+  if err != nil {
+    producer.AsyncClose()
+    return nil, err
+  }
+  abort := func(err error) (Producer, error) {
+    producer.AsyncClose()
+    client.Close()
+    return nil, err
+  }
   consumer, err := sarama.NewConsumerFromClient(client)
-  if err != nil { return nil, err }
+  if err != nil { return abort(err) }
   partitions, err := consumer.Partitions(defaultTopic)
-  if err != nil { return nil, err }
+  if err != nil { return abort(err) }
   hashCh := make(chan types.Hash)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
@@ -511,6 +519,7 @@ type KafkaConsumer struct{
   omp          *delivery.OrderedMessageProcessor
   quit         chan struct{}
   closeOnce    sync.Once
+  releaseOnce  sync.Once
   ready        chan struct{}
   brokerURL    string
   defaultTopic string
@@ -565,6 +574,7 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     log.Error("error connecting to brokers", "brokers", brokers)
     return nil, err
   }
+  defer client.Close()
   resumption := []string{}
   for _, topic := range topics {
     parts, err := client.Partitions(topic)
@@ -864,6 +874,9 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
 func (kc *KafkaConsumer) Close() {
   kc.closeOnce.Do(func() { close(kc.quit) })
   kc.shutdownWg.Wait()
+  kc.releaseOnce.Do(func() {
+    if !kc.isReorg { kc.client.Close() } // Otherwise the client belongs to another consumer
+  })
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
-- 
2.43.0


From b0a351c80b4e59661eeb926e9daa4a569c5cee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 54/56] fix: end what a consumer started when it is closed

---
 transports/kafka.go      | 30 +++++++++++++++++++++++-------
 transports/resolver.go   | 34 +++++++++++++++++++++++++++++-----
 transports/websockets.go |  8 ++++++++
 3 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index b3a2f5c..997567f 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -520,6 +520,7 @@ type KafkaConsumer struct{
   quit         chan struct{}
   closeOnce    sync.Once
   releaseOnce  sync.Once
+  ownOmp       bool
   ready        chan struct{}
   brokerURL    string
   defaultTopic string
@@ -595,7 +596,8 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
 func NewKafkaConsumer(brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, cfg *delivery.ConsumerConfig) (Consumer, error) {
   omp, err := delivery.NewOrderedMessageProcessor(cfg)
   if err != nil { return nil, err }
-  return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastHash)
+  c, err := kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastHash)
+  return withProcessor(c, err, omp)
 }
 
 func (kc *KafkaConsumer) Start() error {
@@ -726,6 +728,8 @@ func (kc *KafkaConsumer) Start() error {
         }
         // The partition was closed, the others must not wait for it any longer
         if !warm { warmupWg.Done() }
+        <-kc.quit
+        ready()
       }(pc, startOffset, partid, len(partitionConsumers), topic)
       partitionConsumers = append(partitionConsumers, pc)
     }
@@ -756,7 +760,13 @@ func (kc *KafkaConsumer) Start() error {
     wg.Wait()
     log.Debug("Partitions ready")
     close(caughtUp)
-    <-settled
+    select {
+    case <-settled:
+    case <-kc.quit:
+      // Closed before it was ready
+      dl.Close()
+      return
+    }
     log.Debug("Ready")
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
@@ -769,6 +779,8 @@ func (kc *KafkaConsumer) Start() error {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    defer hbTicker.Stop()
+    defer close(heartbeats)
     quit := kc.quit
     for {
       select {
@@ -848,11 +860,8 @@ func (kc *KafkaConsumer) Start() error {
     }
   }()
   go func() {
-    for {
-      select {
-      case h := <-heartbeats:
-        kc.pt.update(h)
-      }
+    for h := range heartbeats {
+      kc.pt.update(h)
     }
   }()
   complete = true
@@ -876,8 +885,15 @@ func (kc *KafkaConsumer) Close() {
   kc.shutdownWg.Wait()
   kc.releaseOnce.Do(func() {
     if !kc.isReorg { kc.client.Close() } // Otherwise the client belongs to another consumer
+    if kc.ownOmp { kc.omp.Close() }
   })
 }
+
+// ownProcessor makes the consumer close its message processor, which it does
+// not share with other consumers.
+func (kc *KafkaConsumer) ownProcessor() {
+  kc.ownOmp = true
+}
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
 }
diff --git a/transports/resolver.go b/transports/resolver.go
index 683173a..e452a4b 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -53,7 +53,19 @@ func ResolveMuxProducer(brokerParams []ProducerBrokerParams, resumer StreamsResu
 func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, cfg *delivery.ConsumerConfig) (Consumer, error) {
   omp, err := delivery.NewOrderedMessageProcessor(cfg)
   if err != nil { return nil, err }
-  return resolveConsumer(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
+  c, err := resolveConsumer(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
+  return withProcessor(c, err, omp)
+}
+
+// withProcessor makes a consumer close the message processor that was created
+// for it. A processor that got no consumer is closed.
+func withProcessor(c Consumer, err error, omp *delivery.OrderedMessageProcessor) (Consumer, error) {
+  if owner, ok := c.(interface{ ownProcessor() }); err == nil && ok {
+    owner.ownProcessor()
+  } else {
+    omp.Close()
+  }
+  return c, err
 }
 
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
@@ -98,10 +110,14 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
   mc := &muxConsumer{
     omp: omp,
     consumers: []Consumer{},
+    quit: make(chan struct{}),
   }
   for _, bp := range brokerParams {
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
-    if err != nil { return nil, err }
+    if err != nil {
+      mc.Close()
+      return nil, err
+    }
     mc.consumers = append(mc.consumers, c)
   }
   return mc, nil
@@ -126,6 +142,8 @@ type muxConsumer struct {
   consumers []Consumer
   waiter    waiter.Waiter
   waiterOnce sync.Once
+  quit      chan struct{}
+  closeOnce sync.Once
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
@@ -179,6 +197,10 @@ func (mc *muxConsumer) Close() {
   for _, c := range mc.consumers {
     c.Close()
   }
+  mc.closeOnce.Do(func() {
+    close(mc.quit)
+    mc.omp.Close()
+  })
 }
 
 func (mc *muxConsumer) Ready() <-chan struct{} {
@@ -195,15 +217,17 @@ func (mc *muxConsumer) Ready() <-chan struct{} {
   // return ch
 
   go func() {
-    channels := make([]reflect.SelectCase, len(mc.consumers))
+    channels := make([]reflect.SelectCase, len(mc.consumers), len(mc.consumers) + 1)
     for i, c := range mc.consumers {
       channels[i] = reflect.SelectCase{
         Dir: reflect.SelectRecv,
         Chan: reflect.ValueOf(c.Ready()),
       }
     }
-    reflect.Select(channels)
-    close(ch) // Everyone who waits for it is told
+    channels = append(channels, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(mc.quit)})
+    if i, _, _ := reflect.Select(channels); i < len(mc.consumers) {
+      close(ch) // Everyone who waits for it is told
+    }
   }()
   return ch
 }
diff --git a/transports/websockets.go b/transports/websockets.go
index 01170cf..9670f4a 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -320,6 +320,7 @@ type websocketConsumer struct {
 	conn *websocket.Conn
 	ready chan struct{}
 	quit chan struct{}
+	ownOmp bool
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
@@ -555,6 +556,13 @@ func (c *websocketConsumer) Close() {
 	if c.closed() { return }
 	close(c.quit)
 	if c.conn != nil { c.conn.Close() }
+	if c.ownOmp { c.omp.Close() }
+}
+
+// ownProcessor makes the consumer close its message processor, which it does
+// not share with other consumers.
+func (c *websocketConsumer) ownProcessor() {
+	c.ownOmp = true
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From 9a01e89acc94439bb80701fad8f601975c2e3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:22 +0000
Subject: [PATCH 55/56] fix: release blocks whose ancestors never arrive

---
 delivery/ordering.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 0e82482..d0e94ee 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -317,6 +317,7 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
     omp.lastWeight = pb.Weight
     omp.finished.Add(pb.Hash, struct{}{})
   }
+  omp.releaseUnconnected()
   log.Debug("Emitting chain update", "new", len(new), "old", len(old))
   if len(new) > 0 {
     heightGauge.Update(new[len(new) - 1].Number)
@@ -329,6 +330,18 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
   omp.updateFeed.Send(&ChainUpdate{added: new, removed: old})
 }
 
+// releaseUnconnected lets go of blocks whose ancestors never arrived. They are
+// not among the finished blocks, so they would never be evicted.
+func (omp *OrderedMessageProcessor) releaseUnconnected() {
+  head, ok := omp.pending[omp.lastHash]
+  if !ok { return }
+  for hash, pb := range omp.pending {
+    if head.Number - pb.Number > 2 * omp.reorgThreshold && !omp.finished.Contains(hash) {
+      omp.evict(hash)
+    }
+  }
+}
+
 func (omp *OrderedMessageProcessor) finishSiblings(pb *PendingBatch) {
   pendingSiblings, ok := omp.queued[pb.ParentHash]
   if !ok { return }
-- 
2.43.0


From 928be72d3d1ccfccb5a6bbfdf259b6edc6f6101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 56/56] fix: roll back to the first message when it is newer
 than the rollback reaches

---
 transports/kafka.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 997567f..73f8e8c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -656,8 +656,15 @@ func (kc *KafkaConsumer) Start() error {
       }
       pc, err := consumer.ConsumePartition(topic, partid, startOffset)
       if err == sarama.ErrOffsetOutOfRange {
-        pc, err = consumer.ConsumePartition(topic, partid, offset)
-        startOffset = offset
+        oldest, oerr := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+        if oerr != nil { return oerr }
+        if startOffset < oldest && oldest < offset {
+          // Rolling back would take us beyond the first message.
+          startOffset = sarama.OffsetOldest
+        } else {
+          startOffset = offset
+        }
+        pc, err = consumer.ConsumePartition(topic, partid, startOffset)
       }
       if err != nil { return err }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-- 
2.43.0

