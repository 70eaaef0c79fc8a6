From 7bac3e4d019d85245e5dde47224abad862dd7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 01/50] fix: LexoInt64Codec encodings sort in integer order,
 including MinInt64

---
 streams/codec.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..1b47184 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -18,7 +18,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"math"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -101,14 +100,17 @@ type lexoInt64Codec struct{}
 
 const LexInt64Size = int(unsafe.Sizeof(uint64(1))) + 1
 
+// flips the sign bit so that non-positive integers sort in order when compared as unsigned big endian bytes
+const lexInt64Bias = uint64(1) << 63
+
 // Encodes the provided value. Will never induce an error unless there is an OOM condition, so it should be safe to ignore.
 func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i)^lexInt64Bias)
 	}
 	buf.Write(b[:])
 	return nil
@@ -120,11 +122,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := binary.BigEndian.Uint64(b[1:])
 	if sign == 1 {
-		return val, nil
+		return int64(val), nil
 	}
-	return val - math.MaxInt64, nil
+	return int64(val ^ lexInt64Bias), nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From e5b56c9ecd8ed83b33c9915fe0d521a67f937b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 02/50] fix: integer codecs return an error for short input
 instead of reading past it

---
 streams/codec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/codec.go b/streams/codec.go
index 1b47184..b077b4c 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -75,6 +75,9 @@ func (intCodec[T]) Encode(b *bytes.Buffer, i T) error {
 }
 
 func (intCodec[T]) Decode(b []byte) (T, error) {
+	if len(b) < intByteSize {
+		return 0, fmt.Errorf("invalid integer []byte length. Expected %d, actual: %d", intByteSize, len(b))
+	}
 	return readIntegerFromByteArray[T](b), nil
 }
 
-- 
2.43.0


From 4ee558fa8b5cb22e9a82d2b2723684606193b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 03/50] fix: JsonCodec decodes top level numbers without
 reporting io.EOF

---
 streams/codec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streams/codec.go b/streams/codec.go
index b077b4c..20f8b2c 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -151,6 +152,10 @@ func (JsonCodec[T]) Decode(b []byte) (T, error) {
 
 	var t T
 	iter.ReadVal(&t)
+	if iter.Error == io.EOF {
+		// the iterator reports io.EOF when a number is the last thing in the input
+		return t, nil
+	}
 	return t, iter.Error
 }
 
-- 
2.43.0


From 70b3b93930050c5de8a53232d65508fc38b92439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 04/50] fix: SimpleStore applies changes which were decoded
 successfully

---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From 6cb670ce347cbc4385fc6b98ffa029d8f8985db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 05/50] fix: MinMaxHeap keeps its order after Max, Update,
 Remove and Push

---
 streams/stores/min_max_heap.go | 41 +++++++++++++++-------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..93bc33e 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,13 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,10 +103,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
+	setMax(pq)
 	return pq.pop()
 }
 
@@ -128,6 +116,7 @@ func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
 }
 
 func (pq *MinMaxHeap[T]) push(item *PrioritizedItem[T]) {
+	item.index = len(pq.items)
 	pq.items = append(pq.items, item)
 }
 
@@ -263,9 +252,8 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element (according to Less) without moving it.
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -278,7 +266,14 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
+	return i
+}
 
+// setMax moves the maximum element (according to Less) to the end of the heap, from where it can be popped.
+// The complexity is O(log n) where n = h.Len().
+func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+	n := h.Len()
+	i := maxIndex(h)
 	h.swap(i, n-1)
 	down(h, i, n-1)
 }
@@ -310,9 +305,8 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		up(h, i)
+		down(h, i, n)
 	}
 	return h.pop()
 }
@@ -323,7 +317,8 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	// the element may violate the order in respect to its parent, in which case it trades places with it
+	// and the former parent may need to sink
+	up(h, i)
+	down(h, i, h.Len())
 }
-- 
2.43.0


From fc23e1b98f557e1cebdabc48cb60c5687eed8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 06/50] fix: async queue finds an item whose blocking enqueue
 finished after the queue ran empty The worker of that key polled forever and
 the item was never processed.

---
 streams/async_item_queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..e2ac964 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// an item may have been added via enqueueChannel() since the last dequeue()
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From 54e40ddf6e42c5daff489580beb4bf9a01a4d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 07/50] fix: Schedule does not report Complete for items it
 will never process

---
 streams/async_scheduler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..528a02e 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -230,7 +230,8 @@ func (ap *AsyncJobScheduler[S, K, V]) newQueue() interface{} {
 // Schedules the value for processing in order by key. The finalizer will be invoked once processing is complete.
 func (ap *AsyncJobScheduler[S, K, V]) Schedule(ec *EventContext[S], key K, value V) ExecutionState {
 	if ap.isClosed() {
-		return Complete
+		// the item will not be processed, so it must not be reported as Complete
+		return Incomplete
 	}
 	ap.scheduleItem(asyncJobContainer[S, K, V]{
 		eventContext: ec,
-- 
2.43.0


From 5839a8355df7d516445032b61ee3f6bf491badc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 08/50] fix: all Schedule calls waiting for a free key are
 released on shutdown

---
 streams/async_scheduler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index 528a02e..b5355c3 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -350,7 +350,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
-- 
2.43.0


From d74dbd86b675de2d947d89d4cf427f502d404cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 09/50] fix: SetMaxConcurrentKeys never loses or blocks keys
 Shrinking and growing again replaced the worker channel by a smaller one,
 losing or blocking active keys, a value of zero stopped all scheduling, and
 the channel was read without the lock it is replaced under.

---
 streams/async_scheduler.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index b5355c3..36a702b 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -111,6 +111,7 @@ type AsyncJobScheduler[S StateStore, K comparable, V any] struct {
 	workerMap         map[K]*worker[S, K, V]
 	workerChannel     chan *worker[S, K, V] // functions as a blocking queue
 	workerQueueDepth  int64
+	concurrency       int
 	maxConcurrentKeys int
 	mux               sync.Mutex
 	updateRWLock      sync.RWMutex
@@ -195,6 +196,7 @@ func NewAsyncJobScheduler[S StateStore, K comparable, V any](
 		workerFreeSignal:  make(chan struct{}, 1),
 		workerMap:         make(map[K]*worker[S, K, V], maxConcurrentKeys),
 		workerChannel:     make(chan *worker[S, K, V], maxConcurrentKeys+1),
+		concurrency:       config.Concurrency,
 		maxConcurrentKeys: maxConcurrentKeys,
 	}
 
@@ -281,8 +283,12 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 
 func (ap *AsyncJobScheduler[S, K, V]) work() {
 	for {
+		// SetMaxConcurrentKeys() may replace the channel. If so, it closes the previous one and we'll get back here
+		ap.updateRWLock.RLock()
+		workerChannel := ap.workerChannel
+		ap.updateRWLock.RUnlock()
 		select {
-		case wq := <-ap.workerChannel:
+		case wq := <-workerChannel:
 			if wq != nil {
 				wq.process()
 				ap.releaseWorker(wq)
@@ -313,17 +319,16 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
 	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
-
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
-	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
+	ap.maxConcurrentKeys = SchedulerConfig{Concurrency: ap.concurrency, MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	ap.ensureWorkerChannelCapacity(ap.maxConcurrentKeys + 1)
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(capacity int) {
+	// never shrink, there may be more active workers than the current value of maxConcurrentKeys
+	if capacity > cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
@@ -331,11 +336,11 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 
 			In short, this channel needs to be able to fold at least s.maxConcurrentKeys at any given time
 		*/
-		wc := make(chan *worker[S, K, V], newSize+1)
+		wc := make(chan *worker[S, K, V], capacity)
 		// transfer any pending workers to the new channel
 		oldChan := ap.workerChannel
 	pending:
-		for i := 0; i < newSize; i++ {
+		for {
 			select {
 			case w := <-oldChan:
 				wc <- w
-- 
2.43.0


From 03adb2e54ce3e0e0f71b23dd0c0991bd75a96268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 10/50] fix: AsyncBatcher delivers callbacks of a key in order,
 also for events without items Callbacks of events without items ran after all
 others of the same batch, and the key of such events stayed assigned to an
 executor forever. Callbacks no longer depend on the executor leaving the
 order of its slice alone.

---
 streams/async_batcher.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..35cdba3 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -122,30 +122,29 @@ const (
 )
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
+	entries    []*BatchItem[K, V] // items and placeholders in the order in which they were added
 	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.entries = append(b.entries, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
+	for i, item := range b.entries {
 		delete(assignments, item.key)
-		b.items[i] = nil
+		b.entries[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i := range b.items {
+		b.items[i] = nil
 	}
+	b.entries = b.entries[0:0]
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.entries) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -270,18 +269,21 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 
 func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
 	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	// callbacks are delivered in the order in which events were added, including those of events without items
+	ab.completeBatchItems(executor.entries)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0


From dd9c54b22c5bc75b27fd4c9884bef5fb6f696dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 11/50] fix: complete events for empty produce batches and
 batches without a callback

---
 streams/producer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..f3ae862 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -162,6 +165,12 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 }
 
 func (p *BatchProducer[S]) produceBatch(b *produceBatcher[S]) {
+	if len(b.records) == 0 {
+		// there is no record result to wait for, the EventContext must be completed nonetheless.
+		// we are likely on the goroutine which consumes async completions, so do not block it
+		go b.ctx.AsyncJobComplete(b.executeCallback)
+		return
+	}
 	for _, record := range b.records {
 		if len(record.kRecord.Topic) == 0 {
 			record = record.WithTopic(p.destination.DefaultTopic)
-- 
2.43.0


From 630194e5729bb61f55a2223e101e15cfc2960a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 12/50] fix: do not require the incremental balancer when
 partitions are assigned

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..23207c8 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -217,7 +217,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
-- 
2.43.0


From 81081372b3d7e33e2eeceb99c1ea08bc4312bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 13/50] fix: call OnPartitionAssigned before a partition can be
 activated

---
 streams/source_consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 23207c8..778f759 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -188,6 +188,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 }
 
 func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []int32) {
+	// notify observers before any worker is started, as a worker activates it's partition concurrently
+	sc.source.onPartitionsAssigned(partitions)
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
@@ -220,8 +222,6 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	if sc.incrBalancer != nil {
 		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
 	}
-	// notify observers
-	sc.source.onPartitionsAssigned(partitions)
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-- 
2.43.0


From 827b109fb475fc7d378585dcf717a8ce2168e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 14/50] fix: cancel the bootstrapping of a state store safely,
 and never reuse a forgotten store

---
 streams/source_consumer.go      |  7 ++-
 streams/state_store_consumer.go | 82 +++++++++++++++++++++++++++------
 2 files changed, 74 insertions(+), 15 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 778f759..40f25fc 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -149,7 +149,10 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			start := time.Now()
 			log.Debugf("prepping %+v", tp)
 
-			ssp.sync()
+			if !ssp.sync() {
+				log.Debugf("prepping cancelled for %+v", tp)
+				return
+			}
 			processed := ssp.processed()
 			duration := time.Since(start)
 
@@ -180,6 +183,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 	if _, ok := sc.prepping[tp.Partition]; ok {
 		sc.stateStoreConsumer.cancelPartition(tp.Partition)
 		delete(sc.prepping, tp.Partition)
+		// the store may not be reused, otherwise it would be populated twice if we are told to prepare again
+		sc.partitionedStore.revoke(tp.Partition)
 	} else {
 		// what to do? probably nothing, but if we have a double assignment, we could have problems
 		// need to investigate this race condition further
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..fdd5bb5 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -49,6 +49,9 @@ type StateStore interface {
 
 type stateStorePartition[T StateStore] struct {
 	buffer         chan []*kgo.Record
+	killed         chan struct{} // closed when the current preparation should not receive any more records
+	populated      chan struct{} // closed once the store of the current preparation is not used any more
+	bufferLock     sync.Mutex
 	client         *kgo.Client
 	waiters        map[string]chan struct{}
 	topicPartition TopicPartition
@@ -60,7 +63,16 @@ type stateStorePartition[T StateStore] struct {
 }
 
 func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+	ssp.bufferLock.Lock()
+	buffer, killed := ssp.buffer, ssp.killed
+	ssp.bufferLock.Unlock()
+	if buffer == nil {
+		return
+	}
+	select {
+	case buffer <- ftp.FetchPartition.Records:
+	case <-killed:
+	}
 }
 
 func (ssp *stateStorePartition[T]) pause() {
@@ -74,8 +86,10 @@ func (ssp *stateStorePartition[T]) pause() {
 }
 
 func (ssp *stateStorePartition[T]) kill() {
+	ssp.bufferLock.Lock()
+	defer ssp.bufferLock.Unlock()
 	if ssp.buffer != nil {
-		close(ssp.buffer)
+		close(ssp.killed)
 		ssp.buffer = nil
 	}
 }
@@ -85,6 +99,16 @@ func (ssp *stateStorePartition[T]) cancel() {
 	ssp.kill()
 }
 
+// returns once the StateStore of the cancelled preparation will not receive any more changes
+func (ssp *stateStorePartition[T]) waitUntilPopulated() {
+	ssp.bufferLock.Lock()
+	populated := ssp.populated
+	ssp.bufferLock.Unlock()
+	if populated != nil {
+		<-populated
+	}
+}
+
 func (ssp *stateStorePartition[T]) addWaiter() (c chan struct{}, mark []byte) {
 	ssp.waiterLock.Lock()
 	defer ssp.waiterLock.Unlock()
@@ -105,10 +129,25 @@ func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (chan struct
 	return nil, false
 }
 
-func (ssp *stateStorePartition[T]) sync() {
+// returns false if the preparation was cancelled
+func (ssp *stateStorePartition[T]) sync() bool {
+	ssp.bufferLock.Lock()
+	killed := ssp.killed
+	ssp.bufferLock.Unlock()
 	c, mark := ssp.addWaiter()
 	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	<-c
+	select {
+	case <-c:
+		return true
+	case <-killed:
+	}
+	select {
+	case <-c:
+		return true
+	default:
+		ssp.removeWaiterForMark(mark)
+		return false
+	}
 }
 
 func (ssp *stateStorePartition[T]) processed() uint64 {
@@ -128,19 +167,26 @@ func (ssp *stateStorePartition[T]) setState(state partitionState) {
 }
 
 func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
-	ssp.setState(intitialState)
-	ssp.count = 0
-	ssp.byteCount = 0
-	ssp.buffer = make(chan []*kgo.Record, 1024)
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
 		topic: {partition: startEpochOffset},
 	})
+	atomic.StoreUint64(&ssp.count, 0)
+	atomic.StoreUint64(&ssp.byteCount, 0)
+	ssp.kill()
+	ssp.bufferLock.Lock()
+	buffer, killed, populated := make(chan []*kgo.Record, 1024), make(chan struct{}), make(chan struct{})
+	ssp.buffer, ssp.killed, ssp.populated = buffer, killed, populated
+	ssp.bufferLock.Unlock()
+	ssp.setState(intitialState)
 	ssp.client.ResumeFetchPartitions(map[string][]int32{
 		topic: {partition},
 	})
-	go ssp.populate(store)
+	go func() {
+		defer close(populated)
+		ssp.populate(store, buffer, killed)
+	}()
 }
 
 func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool) {
@@ -156,16 +202,24 @@ func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool
 	case ready:
 		log.Debugf("transitioning from ready to paused for %+v", ssp.topicPartition)
 		complete = true
-		ssp.cancel()
 	}
 	close(waiter)
+	if complete {
+		ssp.cancel()
+	}
 	return
 }
 
-func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
+func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T], buffer chan []*kgo.Record, killed chan struct{}) {
 	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
+	for {
+		select {
+		case records := <-buffer:
+			if !ssp.handleRecordsAndContinue(records, store) {
+				log.Debugf("closed populator for %+v", ssp.topicPartition)
+				return
+			}
+		case <-killed:
 			log.Debugf("closed populator for %+v", ssp.topicPartition)
 			return
 		}
@@ -232,7 +286,6 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 			waiters:        make(map[string]chan struct{}, 2),
 			client:         client,
 			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
 			highWatermark:  -1,
 		}
 	}
@@ -279,6 +332,7 @@ func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
 	defer ssc.mux.Unlock()
 	ssp := ssc.partitions[p]
 	ssp.cancel()
+	ssp.waitUntilPopulated()
 }
 
 func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
-- 
2.43.0


From fea7bb8ce8c3fc2b740c5641231b9951d9d6ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 15/50] fix: finish accepted events and stop the partition
 worker before a partition is given up

---
 streams/commit_log.go       | 31 +++++++++-----
 streams/partition_worker.go | 80 +++++++++++++++++++++++++++----------
 streams/source_consumer.go  | 33 +++++++++++++--
 3 files changed, 108 insertions(+), 36 deletions(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 631dd70..732a7ec 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -16,6 +16,7 @@ package streams
 
 import (
 	"bytes"
+	"context"
 	"sync"
 	"unsafe"
 
@@ -24,7 +25,7 @@ import (
 )
 
 type eosCommitLog struct {
-	pendingSyncs  map[string]*sync.WaitGroup
+	pendingSyncs  map[string]chan struct{}
 	watermarks    map[int32]int64
 	mux           sync.Mutex
 	syncMux       sync.Mutex
@@ -61,7 +62,7 @@ func topicPartitionFromBytes(b []byte) (tp TopicPartition) {
 func newEosCommitLog(runStatus sak.RunStatus, source *Source, numPartitions int) *eosCommitLog {
 	cl := &eosCommitLog{
 		watermarks:    make(map[int32]int64),
-		pendingSyncs:  make(map[string]*sync.WaitGroup),
+		pendingSyncs:  make(map[string]chan struct{}),
 		numPartitions: int32(numPartitions),
 		topic:         source.CommitLogTopicNameForGroupId(),
 	}
@@ -98,9 +99,9 @@ func (cl *eosCommitLog) Revoked() {}
 
 func (cl *eosCommitLog) closeSyncRequest(mark string) {
 	cl.syncMux.Lock()
-	if wg, ok := cl.pendingSyncs[mark]; ok {
+	if c, ok := cl.pendingSyncs[mark]; ok {
 		delete(cl.pendingSyncs, mark)
-		wg.Done()
+		close(c)
 	}
 	cl.syncMux.Unlock()
 }
@@ -111,27 +112,35 @@ func (cl *eosCommitLog) syncAll() {
 		tp := ntp(i, cl.topic)
 		wg.Add(1)
 		go func() {
-			cl.syncCommitLogPartition(tp)
+			cl.syncCommitLogPartition(context.Background(), tp)
 			wg.Done()
 		}()
 	}
 	wg.Wait()
 }
 
-func (cl *eosCommitLog) lastProcessed(tp TopicPartition) int64 {
-	cl.syncCommitLogPartition(ntp(cl.commitRecordPartition(tp), cl.topic))
+func (cl *eosCommitLog) lastProcessed(ctx context.Context, tp TopicPartition) int64 {
+	cl.syncCommitLogPartition(ctx, ntp(cl.commitRecordPartition(tp), cl.topic))
 	return cl.Watermark(tp)
 }
 
-func (cl *eosCommitLog) syncCommitLogPartition(tp TopicPartition) {
+// returns once everything which was committed to the commit log partition is received, `ctx` is done or the commit log is stopped
+func (cl *eosCommitLog) syncCommitLogPartition(ctx context.Context, tp TopicPartition) {
 	cl.syncMux.Lock()
 	mark := uuid.NewString()
-	markWaiter := &sync.WaitGroup{}
-	markWaiter.Add(1)
+	markWaiter := make(chan struct{})
 	cl.pendingSyncs[mark] = markWaiter
 	cl.syncMux.Unlock()
 	sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
-	markWaiter.Wait()
+	select {
+	case <-markWaiter:
+		return
+	case <-ctx.Done():
+	case <-cl.changeLog.runStatus.Done():
+	}
+	cl.syncMux.Lock()
+	delete(cl.pendingSyncs, mark)
+	cl.syncMux.Unlock()
 }
 
 func (cl *eosCommitLog) Watermark(tp TopicPartition) int64 {
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..9d51be5 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -52,10 +52,14 @@ func (aj AsyncJob[T]) Finalize() ExecutionState {
 
 type asyncCompleter[T any] struct {
 	asyncJobs chan AsyncJob[T]
+	stopped   chan struct{}
 }
 
 func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
-	ac.asyncJobs <- j
+	select {
+	case ac.asyncJobs <- j:
+	case <-ac.stopped: // the partition worker is gone, nobody is interested in the result
+	}
 }
 
 type partitionWorker[T StateStore] struct {
@@ -90,6 +94,7 @@ func newPartitionWorker[T StateStore](
 
 	recordsInputSize := sak.Max(eosConfig.MaxBatchSize/10, 100)
 	asyncSize := recordsInputSize * 4
+	stopped := make(chan struct{})
 	pw := &partitionWorker[T]{
 		eventSource:    eventSource,
 		topicPartition: topicPartition,
@@ -97,10 +102,11 @@ func newPartitionWorker[T StateStore](
 		eosProducer:    eosProducer,
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
-		stopped:        make(chan struct{}),
+		stopped:        stopped,
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
+			stopped:   stopped,
 		},
 		partitionInput:         make(chan []*kgo.Record, 4),
 		eventInput:             make(chan *EventContext[T], recordsInputSize),
@@ -123,7 +129,10 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+	}
 }
 
 func (pw *partitionWorker[T]) revoke() {
@@ -149,12 +158,10 @@ func (pw *partitionWorker[T]) pushRecords() {
 			pw.scheduleInterjection(ij)
 		case <-pw.runStatus.Done():
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
-			pw.stopSignal <- struct{}{}
-			<-pw.stopped
-			close(pw.partitionInput)
-			close(pw.eventInput)
-			close(pw.asyncCompleter.asyncJobs)
-			log.Debugf("Closed worker for %+v", pw.topicPartition)
+			select {
+			case pw.stopSignal <- struct{}{}:
+			case <-pw.stopped:
+			}
 			return
 		}
 	}
@@ -167,11 +174,11 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 
 	pw.revocationWaiter.Add(len(records)) // optimistically do one add call
 	for _, record := range records {
-		if record != nil && record.Offset >= pw.highestOffset {
+		if record != nil && record.Offset >= atomic.LoadInt64(&pw.highestOffset) {
 			ec := newEventContext(pw.runStatus.Ctx(), record, pw.changeLog.changeLogData(), pw)
-			pw.maxPending <- struct{}{}
-			pw.eosProducer.addEventContext(ec)
-			pw.eventInput <- ec
+			if !pw.submit(ec, pw.eventInput) {
+				return
+			}
 		} else {
 			pw.revocationWaiter.Done() // in the rare occasion this is a stale evetn, decrement the revocation waiter
 		}
@@ -198,13 +205,29 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	}
 	pw.revocationWaiter.Add(1)
 	ec := newInterjectionContext(pw.runStatus.Ctx(), inter, pw.topicPartition, pw.changeLog.changeLogData(), pw)
-	pw.maxPending <- struct{}{}
+	pw.submit(ec, pw.interjectionEventInput)
+}
+
+// requests a producer for the EventContext and hands it to the worker. Returns false if the worker has been stopped.
+func (pw *partitionWorker[T]) submit(ec *EventContext[T], input chan *EventContext[T]) bool {
+	select {
+	case pw.maxPending <- struct{}{}:
+	case <-pw.stopped:
+		return false
+	}
 	pw.eosProducer.addEventContext(ec)
-	pw.interjectionEventInput <- ec
+	select {
+	case input <- ec:
+		return true
+	case <-pw.stopped:
+		return false
+	}
 }
 
 func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
 	elapsed := sincer{time.Now()}
+	defer log.Debugf("Closed worker for %+v", pw.topicPartition)
+	defer close(pw.stopped)
 	// the partition is not ready to receive events as it is still bootstrapping the state store.
 	// in the case where this partition was assigned due to a failure on another consumer, this could be a lengthy process
 	// if we continue to consume events for this partition, we will fill it's input buffer
@@ -214,12 +237,17 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	})
 	// don't start consuming until this function returns
 	// this function will block until all changelogs for this partition are populated
-	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
-	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
+	lastProcessed := commitLog.lastProcessed(pw.runStatus.Ctx(), pw.topicPartition)
+	atomic.StoreInt64(&pw.highestOffset, lastProcessed)
+	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, lastProcessed, elapsed)
 	waiter()
 	pw.eventSource.consumer.Client().ResumeFetchPartitions(map[string][]int32{
 		pw.topicPartition.Topic: {pw.topicPartition.Partition},
 	})
+	if pw.isRevoked() {
+		// revoked while bootstrapping
+		return
+	}
 	// resume partition if it was paused
 	go pw.pushRecords()
 	atomic.StoreInt64(&pw.ready, 1)
@@ -229,6 +257,11 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 		ij.init(pw.topicPartition, pw.interjectionInput)
 		ij.tick()
 	}
+	cancelInterjections := func() {
+		for _, ij := range ijPtrs {
+			ij.cancel()
+		}
+	}
 	pw.eventSource.source.onPartitionActivated(pw.topicPartition.Partition)
 	for {
 		select {
@@ -239,12 +272,13 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
 		case <-pw.stopSignal:
-			for _, ij := range ijPtrs {
-				ij.cancel()
-			}
+			cancelInterjections()
 			go pw.waitForRevocation()
 		case <-pw.revokedSignal:
-			pw.stopped <- struct{}{}
+			return
+		case <-pw.eventSource.runStatus.Done():
+			// an immediate stop, do not wait for pending events, they will not be committed
+			cancelInterjections()
 			return
 		}
 	}
@@ -296,6 +330,8 @@ func (pw *partitionWorker[T]) assignProducer(ec *EventContext[T]) {
 			return
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
+		case <-pw.eventSource.runStatus.Done():
+			return
 		}
 	}
 }
@@ -308,7 +344,7 @@ func (pw *partitionWorker[T]) forwardToEventSource(ec *EventContext[T]) {
 		return
 	}
 	offset := ec.Offset()
-	pw.highestOffset = offset + 1
+	atomic.StoreInt64(&pw.highestOffset, offset+1)
 	record, _ := ec.Input()
 	if pw.eventSource.handleEvent(ec, record) == Complete {
 		ec.complete()
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 40f25fc..96b46ef 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -24,6 +24,9 @@ import (
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
+// the time a handler is given to return if the consumer is stopped immediately
+const immediateStopGracePeriod = 3 * time.Second
+
 // A thick wrapper around a kgo.Client. Handles interaction with IncrementalRebalancer, as well as providing mechanisms for interjecting into a stream.
 type eventSourceConsumer[T StateStore] struct {
 	client             *kgo.Client
@@ -230,24 +233,48 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
 	if sc.partitionedStore == nil {
 		return
 	}
-
+	revoked := make([]*partitionWorker[T], 0, len(partitions))
 	for _, p := range partitions {
 		sc.source.onPartitionWillRevoke(p)
+		sc.workerMux.Lock()
 		if worker, ok := sc.workers[p]; ok {
 			worker.revoke()
 			delete(sc.workers, p)
+			revoked = append(revoked, worker)
 		}
+		sc.workerMux.Unlock()
+	}
+	// the next owner may not start until we're finished with the events we have accepted
+	for _, worker := range revoked {
+		// no need to continue if the store is still being bootstrapped
+		sc.stateStoreConsumer.cancelPartition(worker.topicPartition.Partition)
+		sc.waitUntilStopped(worker)
+	}
+	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
 	sc.source.onPartitionsRevoked(partitions)
 }
 
+// Blocks until all events accepted by the worker are committed. If the consumer is being stopped immediately (or has failed),
+// nothing is committed any more and the worker will stop as soon as the handler it may be executing returns.
+func (sc *eventSourceConsumer[T]) waitUntilStopped(worker *partitionWorker[T]) {
+	select {
+	case <-worker.stopped:
+		return
+	case <-sc.ctx.Done():
+	}
+	select {
+	case <-worker.stopped:
+	case <-time.After(immediateStopGracePeriod):
+		log.Warnf("event handler is still executing for %+v", worker.topicPartition)
+	}
+}
+
 func (sc *eventSourceConsumer[T]) partitionsAssigned(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
 	for topic, partitions := range assignments {
 		log.Debugf("assigned topic: %s, partitions: %v", topic, assignments)
-- 
2.43.0


From 4ef61cb47c91076d4cffdbb8c93129c9eaa3b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 16/50] fix: never exceed MaxBatchSize when the number of
 produced records skips it

---
 streams/eos_producer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..3134e8e 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -175,7 +175,8 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	// produceCnt may skip the exact value
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From 4730aaf012f59828df34dc32c6d011cb04c25cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 17/50] fix: access the counters of a producer node atomically

---
 streams/eos_producer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 3134e8e..3a9d370 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -380,7 +380,7 @@ func (p *producerNode[T]) commit() error {
 		return err
 	}
 	action := kgo.TryCommit
-	if p.produceCnt == 0 {
+	if atomic.LoadInt64(&p.produceCnt) == 0 {
 		action = kgo.TryAbort
 	}
 	err = p.client.EndTransaction(p.txnContext, action)
@@ -408,7 +408,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
-	if p.metrics != nil && p.produceCnt > 0 {
+	if produceCnt := atomic.LoadInt64(&p.produceCnt); p.metrics != nil && produceCnt > 0 {
 		p.metrics <- Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
@@ -416,15 +416,15 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			StartTime:      p.firstEvent,
 			ExecuteTime:    executionTime,
 			EndTime:        time.Now(),
-			Count:          int(p.produceCnt),
-			Bytes:          int(p.byteCount),
+			Count:          int(produceCnt),
+			Bytes:          int(atomic.LoadInt64(&p.byteCount)),
 			PartitionCount: partitionCount,
 			Partition:      -1,
 		}
 	}
-	p.produceCnt = 0
+	atomic.StoreInt64(&p.produceCnt, 0)
 	p.eventContextCnt = 0
-	p.byteCount = 0
+	atomic.StoreInt64(&p.byteCount, 0)
 
 	pendingRecordPool.Release(p.recordsToProduce)
 	p.recordsToProduce = pendingRecordPool.Borrow()
@@ -494,7 +494,7 @@ func (p *producerNode[T]) flushRemaining() {
 
 func (p *producerNode[T]) ProduceRecord(ec *EventContext[T], record *Record, cb func(*Record, error)) {
 	p.produceLock.Lock()
-	p.produceCnt++
+	atomic.AddInt64(&p.produceCnt, 1)
 	// set the timestamp if not set
 	// we want to capture any time that this record spends in the recordsToProduce buffer
 	if record.kRecord.Timestamp.IsZero() {
-- 
2.43.0


From 173c1eab456a94ed9c21af50b27fee00ace32ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 18/50] fix: emitting metrics never blocks or panics

---
 streams/eos_producer.go    |  4 ++--
 streams/event_source.go    | 10 ++--------
 streams/metric.go          | 12 ++++++++++++
 streams/source_consumer.go | 22 ++++++++++------------
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 3a9d370..abcb2f5 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -409,7 +409,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
 	if produceCnt := atomic.LoadInt64(&p.produceCnt); p.metrics != nil && produceCnt > 0 {
-		p.metrics <- Metric{
+		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -420,7 +420,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(atomic.LoadInt64(&p.byteCount)),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	atomic.StoreInt64(&p.produceCnt, 0)
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..761004a 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -117,13 +117,7 @@ func (es *EventSource[T]) closeOnFail() {
 }
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
-	if es.metrics != nil {
-		select {
-		case es.metrics <- m:
-		default:
-			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
-		}
-	}
+	emitMetric(es.metrics, m)
 }
 
 func (es *EventSource[T]) emitMetrics() {
@@ -139,7 +133,7 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
+			// do not close the channel, transactions may still be committing
 			return
 		}
 	}
diff --git a/streams/metric.go b/streams/metric.go
index 60a927f..bd6f55f 100644
--- a/streams/metric.go
+++ b/streams/metric.go
@@ -43,3 +43,15 @@ func (m Metric) Linger() time.Duration {
 func (m Metric) ExecuteDuration() time.Duration {
 	return m.EndTime.Sub(m.ExecuteTime)
 }
+
+// Sends a Metric without ever blocking. Metrics are dropped if the channel is full.
+func emitMetric(metrics chan Metric, m Metric) {
+	if metrics == nil {
+		return
+	}
+	select {
+	case metrics <- m:
+	default:
+		log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
+	}
+}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 96b46ef..cc0c4b7 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -162,18 +162,16 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			log.Debugf("Prepped %+v, %d messages in %v (tps: %d)",
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
 			sc.incrBalancer.PartitionPrepared(tp)
-			if sc.metrics != nil {
-				sc.metrics <- Metric{
-					Operation:      PartitionPreppedOperation,
-					StartTime:      start,
-					EndTime:        time.Now(),
-					PartitionCount: 1,
-					Partition:      partition,
-					Count:          int(processed),
-					Bytes:          int(ssp.processedBytes()),
-					GroupId:        sc.source.GroupId(),
-				}
-			}
+			emitMetric(sc.metrics, Metric{
+				Operation:      PartitionPreppedOperation,
+				StartTime:      start,
+				EndTime:        time.Now(),
+				PartitionCount: 1,
+				Partition:      partition,
+				Count:          int(processed),
+				Bytes:          int(ssp.processedBytes()),
+				GroupId:        sc.source.GroupId(),
+			})
 		}()
 	}
 }
-- 
2.43.0


From ba173daf4d79f22115ceffa04abd4b8719ab0110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 19/50] fix: never commit a transaction with failed records
 unless told to continue, and keep running if told to

---
 streams/eos_producer.go  | 124 +++++++++++++++++++++++++++++++--------
 streams/event_context.go |   1 +
 2 files changed, 100 insertions(+), 25 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index abcb2f5..b991791 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -207,37 +207,72 @@ func (pp *eosProducerPool[T]) tryFlush() {
 
 func (pp *eosProducerPool[T]) commitLoop() {
 	for {
-		var err error
+		ok := true
 		select {
 		case p := <-pp.commitQueue:
-			err = pp.commit(p)
-		case err = <-pp.errorChannel:
+			ok = pp.commit(p)
+		case err := <-pp.errorChannel:
+			ok = pp.shouldContinue(err)
 		}
-		if err != nil {
-			if instructions := pp.source.eosErrorHandler()(err); instructions != Continue {
-				pp.source.fail(err)
-				switch instructions {
-				case FailConsumer:
-					return
-				case FatallyExit:
-					panic(err)
-				}
+		if !ok {
+			return
+		}
+	}
+}
+
+// Consults the TxnErrorHandler. Returns false if the consumer has failed and nothing may be committed any more.
+func (pp *eosProducerPool[T]) shouldContinue(err error) bool {
+	instructions := pp.source.eosErrorHandler()(err)
+	if instructions == Continue {
+		return true
+	}
+	pp.source.fail(err)
+	if instructions == FatallyExit {
+		panic(err)
+	}
+	return false
+}
+
+// consults the TxnErrorHandler for all produce errors which have not been handled yet
+func (pp *eosProducerPool[T]) handleProduceErrors() bool {
+	for {
+		select {
+		case err := <-pp.errorChannel:
+			if !pp.shouldContinue(err) {
+				return false
 			}
+		default:
+			return true
 		}
 	}
 }
 
-func (pp *eosProducerPool[T]) commit(p *producerNode[T]) error {
+func (pp *eosProducerPool[T]) commit(p *producerNode[T]) bool {
 	if pp.startTime.IsZero() {
 		pp.startTime = time.Now()
 	}
-	err := p.commit()
+	commitStart := time.Now()
+	err := p.finalize()
+	if err == nil {
+		// all records have been acknowledged or have failed
+		// do not commit if any of them failed, unless instructed to
+		if !pp.handleProduceErrors() {
+			return false
+		}
+		err = p.endTransaction()
+	}
 	if err != nil {
 		log.Errorf("txn commit error: %v", err)
-		return err
+		if !pp.shouldContinue(err) {
+			return false
+		}
+		// the transaction is lost, but its producer and partitions must remain usable
+		p.abandon()
+	} else {
+		p.clearState(commitStart)
 	}
 	pp.producerNodeQueue <- p
-	return err
+	return true
 }
 
 type eventContextDll[T any] struct {
@@ -352,13 +387,14 @@ func (p *producerNode[T]) finalizeEventContexts(first, last *EventContext[T]) er
 			crd := p.commitLog.commitRecord(ec.TopicPartition(), offset)
 			p.ProduceRecord(ec, crd, nil)
 		}
+		ec.finalized = true
 		ec.revocationWaiter.Done()
 	}
 	return nil
 }
 
-func (p *producerNode[T]) commit() error {
-	commitStart := time.Now()
+// Waits for all events of the transaction, and until all of its records are acknowledged or have failed
+func (p *producerNode[T]) finalize() error {
 	p.commitWaiter.Lock()
 	defer p.commitWaiter.Unlock()
 
@@ -377,24 +413,59 @@ func (p *producerNode[T]) commit() error {
 	err := p.client.Flush(p.txnContext)
 	if err != nil {
 		log.Errorf("eos producer error: %v", err)
-		return err
 	}
+	return err
+}
+
+func (p *producerNode[T]) endTransaction() error {
+	p.commitWaiter.Lock()
+	defer p.commitWaiter.Unlock()
 	action := kgo.TryCommit
 	if atomic.LoadInt64(&p.produceCnt) == 0 {
 		action = kgo.TryAbort
 	}
-	err = p.client.EndTransaction(p.txnContext, action)
+	err := p.client.EndTransaction(p.txnContext, action)
 	if err != nil {
 		log.Errorf("eos producer txn error: %v", err)
-		return err
 	}
-	p.clearState(commitStart)
-	return nil
+	return err
+}
+
+// Aborts a transaction which could not be committed, so that the producerNode can be reused
+func (p *producerNode[T]) abandon() {
+	p.commitWaiter.Lock()
+	defer p.commitWaiter.Unlock()
+	p.txnContextCancel()
+	ctx, cancel := context.WithTimeout(context.Background(), 29*time.Second)
+	defer cancel()
+	err := p.client.AbortBufferedRecords(ctx)
+	if err == nil {
+		err = p.client.EndTransaction(ctx, kgo.TryAbort)
+	}
+	if err != nil {
+		log.Errorf("could not abort txn: %v", err)
+	}
+	p.produceLock.Lock()
+	p.txnContext = nil
+	p.produceLock.Unlock()
+	for _, ecs := range p.currentPartitions {
+		for ec := ecs.tail; ec != nil; ec = ec.prev {
+			if !ec.finalized {
+				ec.finalized = true
+				ec.revocationWaiter.Done()
+			}
+		}
+		ecs.root.revocationWaiter.Done()
+	}
+	p.reset()
 }
 
 func (p *producerNode[T]) clearState(executionTime time.Time) {
+	p.commitWaiter.Lock()
+	defer p.commitWaiter.Unlock()
 	p.txnContextCancel()
 	p.txnContext = nil
+	partitionCount := len(p.currentPartitions)
 	for _, ecs := range p.currentPartitions {
 		ecs.root.revocationWaiter.Done()
 		if p.shouldMarkCommit {
@@ -406,8 +477,6 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 		}
 	}
 
-	partitionCount := len(p.currentPartitions)
-	p.relinquishOwnership()
 	if produceCnt := atomic.LoadInt64(&p.produceCnt); p.metrics != nil && produceCnt > 0 {
 		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
@@ -422,6 +491,11 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Partition:      -1,
 		})
 	}
+	p.reset()
+}
+
+func (p *producerNode[T]) reset() {
+	p.relinquishOwnership()
 	atomic.StoreInt64(&p.produceCnt, 0)
 	p.eventContextCnt = 0
 	atomic.StoreInt64(&p.byteCount, 0)
diff --git a/streams/event_context.go b/streams/event_context.go
index 5d912d8..74b5190 100644
--- a/streams/event_context.go
+++ b/streams/event_context.go
@@ -47,6 +47,7 @@ type EventContext[T any] struct {
 	done             chan struct{}
 	topicPartition   TopicPartition
 	interjection     *interjection[T]
+	finalized        bool // only accessed by the producerNode while committing
 }
 
 // A convenience function for creating unit tests for an EventContext from an incoming Kafka Record. All arguments other than `ctx`
-- 
2.43.0


From f9bb2f3064f5a1e2187d78f7789703beb2c9d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 20/50] fix: OnPartitionAssigned is called once when the first
 attempt to fetch offsets is interrupted

---
 streams/source_consumer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index cc0c4b7..354a7f9 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -195,7 +195,7 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 
 func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []int32) {
 	// notify observers before any worker is started, as a worker activates it's partition concurrently
-	sc.source.onPartitionsAssigned(partitions)
+	sc.source.onPartitionsAssigned(sc.notYetAssigned(partitions))
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
@@ -230,6 +230,19 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	}
 }
 
+// The client assigns a partition again if a rebalance interrupts the first attempt to fetch it's offset.
+func (sc *eventSourceConsumer[T]) notYetAssigned(partitions []int32) []int32 {
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
+	res := make([]int32, 0, len(partitions))
+	for _, p := range partitions {
+		if _, ok := sc.workers[p]; !ok {
+			res = append(res, p)
+		}
+	}
+	return res
+}
+
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
 	if sc.partitionedStore == nil {
 		return
-- 
2.43.0


From e056507bdb81cc598ae52f2041e808702dd5eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 21/50] fix: Interject answers when the partition is revoked
 and does not block the consumer, asynchronous interjections recur

---
 streams/partition_worker.go |  4 ++++
 streams/source_consumer.go  | 28 +++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 9d51be5..3246ac7 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -293,6 +293,10 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.interjection != nil {
+			// schedule the next execution, an asynchronous interjection is not finished when the interjector returns
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 354a7f9..3cba38c 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -332,10 +332,11 @@ func (sc *eventSourceConsumer[T]) start() {
 
 // Inserts the interjection into the appropriate partition workers interjectionChannel. Returns immediately if the partiotns is not currently assigned.
 func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T]) <-chan error {
+	// do not hold the lock while the worker is busy, it is needed to revoke partitions and to receive events
 	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
-	c := make(chan error, 1)
 	w := sc.workers[partition]
+	sc.workerMux.Unlock()
+	c := make(chan error, 1)
 	if w == nil {
 		c <- ErrPartitionNotAssigned
 		return c
@@ -344,15 +345,36 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
+	executed := make(chan struct{})
+	ij := &interjection[T]{
 		isOneOff:       true,
 		topicPartition: w.topicPartition,
 		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
 			state := cmd(ec, t)
 			close(c)
+			close(executed)
 			return state
 		},
 	}
+	select {
+	case w.interjectionInput <- ij:
+	case <-w.runStatus.Done():
+		c <- ErrPartitionNotAssigned
+		return c
+	}
+	go func() {
+		select {
+		case <-executed:
+			return
+		case <-w.stopped:
+		}
+		// the partition has been revoked in the meantime
+		select {
+		case <-executed:
+		default:
+			c <- ErrPartitionNotAssigned
+		}
+	}()
 	return c
 }
 
-- 
2.43.0


From 76fbb07bb3898e956c5d03d48b370bf00a03b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 22/50] fix: stopping never commits after the group was left,
 and signals done to everybody who waits for it

---
 streams/eos_producer.go     | 113 ++++++++++++++++++++++++++++++++----
 streams/event_source.go     |  18 +++---
 streams/partition_worker.go |   4 +-
 streams/source_consumer.go  |  12 +++-
 4 files changed, 125 insertions(+), 22 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index b991791..120eea7 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -92,9 +92,12 @@ type eosProducerPool[T StateStore] struct {
 	startTime         time.Time
 	errorChannel      chan error
 	commitClient      *kgo.Client
+	runStatus         sak.RunStatus
+	stopped           chan struct{} // closed when nothing will be committed any more
+	endTxnMux         sync.Mutex
 }
 
-func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, cfg EosConfig, commitClient *kgo.Client, metrics chan Metric) *eosProducerPool[T] {
+func newEOSProducerPool[T StateStore](runStatus sak.RunStatus, source *Source, commitLog *eosCommitLog, cfg EosConfig, commitClient *kgo.Client, metrics chan Metric) *eosProducerPool[T] {
 	pp := &eosProducerPool[T]{
 		cfg:               cfg,
 		producerNodeQueue: make(chan *producerNode[T], cfg.PoolSize),
@@ -109,12 +112,14 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 			mux:    new(sync.Mutex),
 		},
 		flushTimer: time.NewTicker(noPendingDuration),
+		runStatus:  runStatus,
+		stopped:    make(chan struct{}),
 	}
 	var first *producerNode[T]
 	var prev *producerNode[T]
 	var last *producerNode[T]
 	for i := 0; i < cfg.PoolSize; i++ {
-		p := newProducerNode(i, source, commitLog, pp.partitionOwners, commitClient, metrics, pp.errorChannel)
+		p := newProducerNode(i, runStatus, source, commitLog, pp.partitionOwners, commitClient, metrics, pp.errorChannel)
 		pp.producerNodes = append(pp.producerNodes, p)
 		if first == nil {
 			first = p
@@ -132,9 +137,21 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 	return pp
 }
 
-// buffer the event context until a producer node is available
-func (pp *eosProducerPool[T]) addEventContext(ec *EventContext[T]) {
-	pp.buffer <- ec
+// buffer the event context until a producer node is available. Returns false if nothing will be committed any more
+func (pp *eosProducerPool[T]) addEventContext(ec *EventContext[T]) bool {
+	select {
+	case pp.buffer <- ec:
+		return true
+	case <-pp.stopped:
+		return false
+	}
+}
+
+// Prevents any further commit. A commit which has already been requested is finished on return.
+func (pp *eosProducerPool[T]) halt() {
+	pp.runStatus.Halt()
+	pp.endTxnMux.Lock()
+	defer pp.endTxnMux.Unlock()
 }
 
 func (pp *eosProducerPool[T]) maxPendingItems() int {
@@ -166,6 +183,8 @@ func (pp *eosProducerPool[T]) forwardExecutionContexts() {
 			pp.doForwardExecutionContexts(ec)
 		case <-pp.flushTimer.C:
 			pp.tryFlush()
+		case <-pp.stopped:
+			return
 		}
 	}
 }
@@ -183,15 +202,18 @@ func (pp *eosProducerPool[T]) tryFlush() {
 	if pp.shouldForceFlush() {
 		// the onDeck producer is full
 		// force a swap, blocking until successful
-		pp.commitQueue <- pp.onDeck
-		pp.onDeck = <-pp.producerNodeQueue
+		select {
+		case pp.commitQueue <- pp.onDeck:
+			pp.nextOnDeck()
+		case <-pp.stopped:
+		}
 	} else if pp.onDeck.eventContextCnt > 0 {
 		// the committing channel is full, reset the purge timer
 		// to push any lingering items.
 		select {
 		// try to swap so we can commit as fast as possible
 		case pp.commitQueue <- pp.onDeck:
-			pp.onDeck = <-pp.producerNodeQueue
+			pp.nextOnDeck()
 		default:
 			// we have pending items, try again in 5ms
 			// if new items come in during this interval, this timer may get reset
@@ -205,7 +227,15 @@ func (pp *eosProducerPool[T]) tryFlush() {
 
 }
 
+func (pp *eosProducerPool[T]) nextOnDeck() {
+	select {
+	case pp.onDeck = <-pp.producerNodeQueue:
+	case <-pp.stopped:
+	}
+}
+
 func (pp *eosProducerPool[T]) commitLoop() {
+	defer pp.close()
 	for {
 		ok := true
 		select {
@@ -213,6 +243,8 @@ func (pp *eosProducerPool[T]) commitLoop() {
 			ok = pp.commit(p)
 		case err := <-pp.errorChannel:
 			ok = pp.shouldContinue(err)
+		case <-pp.runStatus.Done():
+			ok = false
 		}
 		if !ok {
 			return
@@ -220,6 +252,15 @@ func (pp *eosProducerPool[T]) commitLoop() {
 	}
 }
 
+// releases the resources of all producers, open transactions are aborted
+func (pp *eosProducerPool[T]) close() {
+	close(pp.stopped)
+	pp.flushTimer.Stop()
+	for _, p := range pp.producerNodes {
+		go p.close()
+	}
+}
+
 // Consults the TxnErrorHandler. Returns false if the consumer has failed and nothing may be committed any more.
 func (pp *eosProducerPool[T]) shouldContinue(err error) bool {
 	instructions := pp.source.eosErrorHandler()(err)
@@ -259,7 +300,13 @@ func (pp *eosProducerPool[T]) commit(p *producerNode[T]) bool {
 		if !pp.handleProduceErrors() {
 			return false
 		}
-		err = p.endTransaction()
+		var halted bool
+		if halted, err = pp.endTransaction(p); halted {
+			return false
+		}
+	}
+	if err != nil && !pp.runStatus.Running() {
+		return false
 	}
 	if err != nil {
 		log.Errorf("txn commit error: %v", err)
@@ -275,11 +322,22 @@ func (pp *eosProducerPool[T]) commit(p *producerNode[T]) bool {
 	return true
 }
 
+// ends the transaction, unless the consumer has been stopped
+func (pp *eosProducerPool[T]) endTransaction(p *producerNode[T]) (halted bool, err error) {
+	pp.endTxnMux.Lock()
+	defer pp.endTxnMux.Unlock()
+	if !pp.runStatus.Running() {
+		return true, nil
+	}
+	return false, p.endTransaction()
+}
+
 type eventContextDll[T any] struct {
 	root, tail *EventContext[T]
 }
 
 type producerNode[T any] struct {
+	runStatus         sak.RunStatus
 	client            *kgo.Client
 	commitClient      *kgo.Client
 	txnContext        context.Context
@@ -298,6 +356,7 @@ type producerNode[T any] struct {
 	commitWaiter      sync.Mutex // this is a mutex masquerading as a WaitGroup
 	partitionLock     sync.RWMutex
 	produceLock       sync.Mutex
+	closed            bool // guarded by produceLock
 	firstEvent        time.Time
 	id                int
 	txnErrorHandler   TxnErrorHandler
@@ -305,7 +364,7 @@ type producerNode[T any] struct {
 	// errs                  []error
 }
 
-func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, metrics chan Metric, errorChannel chan error) *producerNode[T] {
+func newProducerNode[T StateStore](id int, runStatus sak.RunStatus, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, metrics chan Metric, errorChannel chan error) *producerNode[T] {
 	client := sak.Must(NewClient(
 		source.stateCluster(),
 		kgo.RecordPartitioner(NewOptionalPartitioner(kgo.StickyKeyPartitioner(nil))),
@@ -314,6 +373,7 @@ func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitL
 	))
 
 	return &producerNode[T]{
+		runStatus:         runStatus,
 		client:            client,
 		metrics:           metrics,
 		commitClient:      commitClient,
@@ -375,6 +435,8 @@ func (p *producerNode[T]) finalizeEventContexts(first, last *EventContext[T]) er
 	for ec := last; ec != nil; ec = ec.prev {
 		select {
 		case <-ec.done:
+		case <-p.runStatus.Done():
+			return p.runStatus.Err()
 		case <-p.txnContext.Done():
 			return fmt.Errorf("txn timeout exceeded. waiting for event context to finish: %+v", ec)
 		}
@@ -460,6 +522,30 @@ func (p *producerNode[T]) abandon() {
 	p.reset()
 }
 
+// Aborts the current transaction, if any. Records which are produced afterwards will fail.
+func (p *producerNode[T]) close() {
+	defer p.client.Close()
+	ctx, cancel := context.WithTimeout(context.Background(), 29*time.Second)
+	defer cancel()
+	p.produceLock.Lock()
+	p.closed = true
+	inTxn := p.txnContext != nil
+	if inTxn {
+		p.txnContextCancel()
+	}
+	p.produceLock.Unlock()
+	if !inTxn {
+		return
+	}
+	err := p.client.AbortBufferedRecords(ctx)
+	if err == nil {
+		err = p.client.EndTransaction(ctx, kgo.TryAbort)
+	}
+	if err != nil {
+		log.Errorf("could not abort txn: %v", err)
+	}
+}
+
 func (p *producerNode[T]) clearState(executionTime time.Time) {
 	p.commitWaiter.Lock()
 	defer p.commitWaiter.Unlock()
@@ -568,6 +654,13 @@ func (p *producerNode[T]) flushRemaining() {
 
 func (p *producerNode[T]) ProduceRecord(ec *EventContext[T], record *Record, cb func(*Record, error)) {
 	p.produceLock.Lock()
+	if p.closed {
+		p.produceLock.Unlock()
+		if cb != nil {
+			cb(record, kgo.ErrClientClosed)
+		}
+		return
+	}
 	atomic.AddInt64(&p.produceCnt, 1)
 	// set the timestamp if not set
 	// we want to capture any time that this record spends in the recordsToProduce buffer
diff --git a/streams/event_source.go b/streams/event_source.go
index 761004a..fc6d104 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -44,6 +44,7 @@ type EventSource[T StateStore] struct {
 	done              chan struct{}
 	metrics           chan Metric
 	stopOnce          sync.Once
+	doneOnce          sync.Once
 }
 
 /*
@@ -80,7 +81,7 @@ func NewEventSource[T StateStore](sourceConfig EventSourceConfig, stateStoreFact
 		stateStoreFactory: stateStoreFactory,
 		source:            source,
 		runStatus:         sak.NewRunStatus(context.Background()),
-		done:              make(chan struct{}, 1),
+		done:              make(chan struct{}),
 		metrics:           metrics,
 	}
 	es.consumer, err = newEventSourceConsumer(es, additionalClientOptions...)
@@ -258,10 +259,7 @@ func (es *EventSource[T]) Stop() {
 		go func() {
 			<-es.consumer.leave()
 			es.runStatus.Halt() // will close all sub processes (commitLog, stateStoreConsumer)
-			select {
-			case es.done <- struct{}{}:
-			default:
-			}
+			es.signalDone()
 		}()
 	})
 }
@@ -276,10 +274,12 @@ func (es *EventSource[T]) ForkRunStatus() sak.RunStatus {
 func (es *EventSource[T]) StopNow() {
 	es.runStatus.Halt()
 	es.consumer.stop()
-	select {
-	case es.done <- struct{}{}:
-	default:
-	}
+	es.signalDone()
+}
+
+// there may be any number of routines waiting on Done()
+func (es *EventSource[T]) signalDone() {
+	es.doneOnce.Do(func() { close(es.done) })
 }
 
 /*
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 3246ac7..f4f0cde 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -215,7 +215,9 @@ func (pw *partitionWorker[T]) submit(ec *EventContext[T], input chan *EventConte
 	case <-pw.stopped:
 		return false
 	}
-	pw.eosProducer.addEventContext(ec)
+	if !pw.eosProducer.addEventContext(ec) {
+		return false
+	}
 	select {
 	case input <- ec:
 		return true
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 3cba38c..a3e7edb 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -101,7 +101,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	}
 
 	eosConfig.validate()
-	sc.producerPool = newEOSProducerPool[T](source, cl, eosConfig, client, eventSource.metrics)
+	sc.producerPool = newEOSProducerPool[T](eventSource.ForkRunStatus(), source, cl, eosConfig, client, eventSource.metrics)
 
 	for _, gb := range groupBalancers {
 		if igr, ok := gb.(IncrementalGroupRebalancer); ok {
@@ -452,7 +452,11 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 		return c
 	}
 	go func() {
-		<-sc.incrBalancer.GracefullyLeaveGroup()
+		select {
+		case <-sc.incrBalancer.GracefullyLeaveGroup():
+		case <-sc.ctx.Done():
+			// StopNow() was called, there will be no further rebalance
+		}
 		sc.stop()
 		c <- struct{}{}
 	}()
@@ -461,6 +465,10 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 
 // Immediately stops the consumer, leaving the consumer group abruptly.
 func (sc *eventSourceConsumer[T]) stop() {
+	if sc.ctx.Err() != nil {
+		// nothing may be committed once our partitions can be assigned to another consumer
+		sc.producerPool.halt()
+	}
 	sc.client.Close()
 	log.Infof("left group: %v", sc.source.GroupId())
 }
-- 
2.43.0


From 04001005982e6ba3b8fe41ce91a74c9d604aa1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 23/50] fix: hold back assigned partitions until the
 EventSource is set up

---
 streams/event_source.go    |  5 +++-
 streams/source_consumer.go | 54 +++++++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index fc6d104..e14f02b 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -85,7 +85,10 @@ func NewEventSource[T StateStore](sourceConfig EventSourceConfig, stateStoreFact
 		metrics:           metrics,
 	}
 	es.consumer, err = newEventSourceConsumer(es, additionalClientOptions...)
-	return es, err
+	if err != nil {
+		return nil, err
+	}
+	return es, nil
 }
 
 // ConsumeEvents starts the underlying Kafka consumer. This call is non-blocking,
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index a3e7edb..6b891e4 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -30,6 +30,9 @@ const immediateStopGracePeriod = 3 * time.Second
 // A thick wrapper around a kgo.Client. Handles interaction with IncrementalRebalancer, as well as providing mechanisms for interjecting into a stream.
 type eventSourceConsumer[T StateStore] struct {
 	client             *kgo.Client
+	clientReady        chan struct{} // closed once client can be used
+	initialized        chan struct{} // closed once partitions can be assigned
+	initOnce           sync.Once
 	partitionedStore   *partitionedChangeLog[T]
 	stateStoreConsumer *stateStoreConsumer[T]
 	ctx                context.Context
@@ -55,6 +58,8 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	partitionedStore = newPartitionedChangeLog(eventSource.createChangeLogReceiver, source.StateStoreTopicName())
 
 	sc := &eventSourceConsumer[T]{
+		clientReady:      make(chan struct{}),
+		initialized:      make(chan struct{}),
 		partitionedStore: partitionedStore,
 		ctx:              eventSource.runStatus.Ctx(),
 		workers:          make(map[int32]*partitionWorker[T]),
@@ -70,6 +75,22 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		source.config.BalanceStrategies = balanceStrategies
 	}
 	groupBalancers := toGroupBalancers(sc, balanceStrategies)
+	for _, gb := range groupBalancers {
+		if igr, ok := gb.(IncrementalGroupRebalancer); ok {
+			sc.incrBalancer = igr
+			break
+		}
+	}
+
+	eosConfig := source.config.EosConfig
+	if eosConfig.IsZero() {
+		eosConfig = DefaultEosConfig
+		source.config.EosConfig = eosConfig
+	}
+	eosConfig.validate()
+
+	// everything that is needed to prepare a partition must be present, the client joins the group at once
+	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
 	balancerOpt := kgo.Balancers(groupBalancers...)
 	opts := []kgo.Opt{
 		balancerOpt,
@@ -93,27 +114,13 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	}
 	client, err := NewClient(
 		source.config.SourceCluster, opts...)
-
-	eosConfig := source.config.EosConfig
-	if eosConfig.IsZero() {
-		eosConfig = DefaultEosConfig
-		source.config.EosConfig = eosConfig
-	}
-
-	eosConfig.validate()
-	sc.producerPool = newEOSProducerPool[T](eventSource.ForkRunStatus(), source, cl, eosConfig, client, eventSource.metrics)
-
-	for _, gb := range groupBalancers {
-		if igr, ok := gb.(IncrementalGroupRebalancer); ok {
-			sc.incrBalancer = igr
-			break
-		}
-	}
-	sc.client = client
-	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
 	if err != nil {
+		eventSource.runStatus.Halt()
 		return nil, err
 	}
+	sc.client = client
+	close(sc.clientReady)
+	sc.producerPool = newEOSProducerPool[T](eventSource.ForkRunStatus(), source, cl, eosConfig, client, eventSource.metrics)
 	return sc, nil
 }
 
@@ -134,6 +141,7 @@ func (sc *eventSourceConsumer[T]) adjustOffsetsBeforeAssign(ctx context.Context,
 }
 
 func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
+	<-sc.clientReady
 	return sc.client
 }
 
@@ -286,7 +294,14 @@ func (sc *eventSourceConsumer[T]) waitUntilStopped(worker *partitionWorker[T]) {
 	}
 }
 
+// Partitions may be assigned before the EventSource is completely set up (event types, interjections), or even created.
+// Hold them back until it is going to consume.
+func (sc *eventSourceConsumer[T]) setInitialized() {
+	sc.initOnce.Do(func() { close(sc.initialized) })
+}
+
 func (sc *eventSourceConsumer[T]) partitionsAssigned(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
+	<-sc.initialized
 	for topic, partitions := range assignments {
 		log.Debugf("assigned topic: %s, partitions: %v", topic, assignments)
 		sc.assignPartitions(topic, partitions)
@@ -313,6 +328,7 @@ func (sc *eventSourceConsumer[T]) receive(p kgo.FetchTopicPartition) {
 // Starts the underlying kafka client and syncs the local commit log for the consumer group.
 // Once synced, polls for records and forwards them to partitionWorkers.
 func (sc *eventSourceConsumer[T]) start() {
+	sc.setInitialized()
 	go sc.commitLog.Start()
 	sc.commitLog.syncAll()
 	for {
@@ -445,6 +461,7 @@ func (sc *eventSourceConsumer[T]) currentProtocolIsIncremental() bool {
 // Signals the IncrementalReblancer to start the process of shutting down this consumer in an orderly fashion.
 func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 	log.Infof("leave signaled for group: %v", sc.source.GroupId())
+	sc.setInitialized()
 	c := make(chan struct{}, 1)
 	if sc.incrBalancer == nil || !sc.currentProtocolIsIncremental() {
 		sc.stop()
@@ -465,6 +482,7 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 
 // Immediately stops the consumer, leaving the consumer group abruptly.
 func (sc *eventSourceConsumer[T]) stop() {
+	sc.setInitialized()
 	if sc.ctx.Err() != nil {
 		// nothing may be committed once our partitions can be assigned to another consumer
 		sc.producerPool.halt()
-- 
2.43.0


From 249768ec7c0426a45038f2886aab47fecc5a5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 24/50] fix: topics are created as configured, and failures to
 create them are reported

CreateDestination created no topic, retried successful attempts and dereferenced a nil error; a topic which could
not be created was reported as success; the in-sync minimum could be zero; clients were never closed.
---
 streams/source.go |  3 ++-
 streams/topics.go | 59 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/streams/source.go b/streams/source.go
index 236c86b..a64d8cc 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -20,6 +20,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -220,7 +221,7 @@ func minInSyncConfig(source *Source) int {
 	if source.config.MinInSync >= int(factor) {
 		return source.config.ReplicationFactor - 1
 	}
-	return source.config.MinInSync
+	return sak.Max(source.config.MinInSync, 1)
 }
 
 func replicationFactorConfig(source *Source) int {
diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..f687656 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,15 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, topicRes := range res {
+		if topicRes.Err != nil {
+			return fmt.Errorf("could not create topic %s: %w", topicRes.Topic, topicRes.Err)
+		}
+	}
+	return nil
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
@@ -146,23 +155,29 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	adminClient := kadm.NewClient(client)
+	replicationFactor := sak.Max(destination.ReplicationFactor, 1)
+	minInSync := fmt.Sprintf("%d", sak.Max(destination.MinInSync, 1))
+	err = createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(replicationFactor), map[string]*string{
+		"min.insync.replicas": sak.Ptr(minInSync),
+	}, destination.DefaultTopic)
+	if errors.Is(err, kerr.TopicAlreadyExists) {
+		err = nil
+	}
 	return destination, err
 }
 
 func CreateDestination(destination Destination) (resolved Destination, err error) {
 	for retryCount := 0; retryCount < 15; retryCount++ {
 		resolved, err = createDestination(destination)
-		if isNetworkError(err) {
-			time.Sleep(time.Second)
+		if !isNetworkError(err) {
+			break
 		}
+		time.Sleep(time.Second)
 	}
 	return
 }
@@ -170,20 +185,18 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 func createSource(source *Source) (*Source, error) {
 	sourceTopicClient, err := NewClient(source.config.SourceCluster, kgo.RequestRetries(20), kgo.RetryTimeout(30*time.Second))
 	if err != nil {
-		return source, err
+		return nil, err
 	}
+	defer sourceTopicClient.Close()
 	eosClient, err := NewClient(source.stateCluster(), kgo.RequestRetries(20))
 	if err != nil {
-		return source, err
+		return nil, err
 	}
+	defer eosClient.Close()
 
 	sourceTopicAdminClient := kadm.NewClient(sourceTopicClient)
 	eosAdminClient := kadm.NewClient(eosClient)
-	source, err = resolveOrCreateTopics(source, sourceTopicAdminClient, eosAdminClient)
-
-	sourceTopicClient.Close()
-	eosClient.Close()
-	return source, err
+	return resolveOrCreateTopics(source, sourceTopicAdminClient, eosAdminClient)
 }
 
 func isNetworkError(err error) bool {
@@ -194,9 +207,8 @@ func isNetworkError(err error) bool {
 	if errors.As(err, &opError) {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
-	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
 	}
+	log.Errorf("non network error: %v", err)
 	return false
 }
 
@@ -217,7 +229,8 @@ func CreateSource(sourceConfig EventSourceConfig) (resolved *Source, err error)
 	source := newSource(sourceConfig)
 	for retryCount := 0; retryCount < 15; retryCount++ {
 		resolved, err = createSource(source)
-		if isNetworkError(err) {
+		// if a topic has been created by another member of the group in the meantime, resolve it
+		if isNetworkError(err) || errors.Is(err, kerr.TopicAlreadyExists) {
 			time.Sleep(time.Second)
 		} else {
 			break
@@ -289,18 +302,22 @@ func DeleteSource(sourceConfig EventSourceConfig) error {
 	if err != nil {
 		return err
 	}
+	defer sourceTopicClient.Close()
 	eosClient, err := NewClient(source.stateCluster())
 	if err != nil {
 		return err
 	}
+	defer eosClient.Close()
 
 	sourceTopicAdminClient := kadm.NewClient(sourceTopicClient)
 	eosAdminClient := kadm.NewClient(eosClient)
-	sourceTopicAdminClient.DeleteTopics(context.Background(), source.config.Topic)
-	eosAdminClient.DeleteTopics(context.Background(),
+	if _, err = sourceTopicAdminClient.DeleteTopics(context.Background(), source.config.Topic); err != nil {
+		return err
+	}
+	_, err = eosAdminClient.DeleteTopics(context.Background(),
 		source.CommitLogTopicNameForGroupId(),
 		source.StateStoreTopicName())
-	return nil
+	return err
 }
 
 func isMarkerRecord(record *kgo.Record) bool {
-- 
2.43.0


From 384b129a29d546b013c9ce353f4b73410f3b20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 25/50] fix: use the default deserialization error handler when
 none is configured

It was chosen when no TxnErrorHandler was configured, which ignored the configured handler, or called nil.
---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index a64d8cc..7558cab 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -149,7 +149,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
-- 
2.43.0


From 2ec2e36f37b41ba952abd02b938c4c004d53c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 26/50] fix: a record without a key has no key, whether it is
 recycled or not

---
 streams/record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..e8d14f7 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -236,7 +236,10 @@ func addRecordTypeHeader(recordType string, record *kgo.Record) {
 // used internally for producing.
 func (r *Record) toKafkaRecord() *kgo.Record {
 
-	r.kRecord.Key = r.keyBuffer.Bytes()
+	// a recycled buffer returns an empty, non-nil slice, which is a different key to Kafka, and to partitioners
+	if r.keyBuffer.Len() > 0 {
+		r.kRecord.Key = r.keyBuffer.Bytes()
+	}
 
 	// an empty buffer should be a deletion
 	// not sure if nil === empty for these purposes
-- 
2.43.0


From a2651ddbc22c65a9dfa20fa210acfe21505fdbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 27/50] fix: converting a record preserves its headers, topic,
 partition and type, and does not alter it

---
 streams/record.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/streams/record.go b/streams/record.go
index e8d14f7..fab691e 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -259,7 +259,14 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
-	record := new(kgo.Record)
+	record := &kgo.Record{
+		Topic:       r.kRecord.Topic,
+		Partition:   r.kRecord.Partition,
+		Offset:      r.kRecord.Offset,
+		LeaderEpoch: r.kRecord.LeaderEpoch,
+		Timestamp:   r.kRecord.Timestamp,
+		Headers:     append([]kgo.RecordHeader(nil), r.kRecord.Headers...),
+	}
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -267,16 +274,13 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
 // A convenience function for unit testing. This method should not need to be invoked in a production code.
 func (r *Record) AsIncomingRecord() IncomingRecord {
-	return IncomingRecord{
-		kRecord:    *r.ToKafkaRecord(),
-		recordType: r.recordType,
-	}
+	return newIncomingRecord(r.ToKafkaRecord())
 }
 
 func (r *Record) Error() error {
-- 
2.43.0


From 292816a69735f9f7fe53de4f5c550167790d7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 28/50] fix: track progress per topic and partition, and do not
 read past malformed commit log records

The commit log of a group may hold the progress of more than one topic.
---
 streams/commit_log.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 732a7ec..92cb324 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -17,6 +17,7 @@ package streams
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"sync"
 	"unsafe"
 
@@ -26,7 +27,7 @@ import (
 
 type eosCommitLog struct {
 	pendingSyncs  map[string]chan struct{}
-	watermarks    map[int32]int64
+	watermarks    map[TopicPartition]int64
 	mux           sync.Mutex
 	syncMux       sync.Mutex
 	numPartitions int32
@@ -61,7 +62,7 @@ func topicPartitionFromBytes(b []byte) (tp TopicPartition) {
 
 func newEosCommitLog(runStatus sak.RunStatus, source *Source, numPartitions int) *eosCommitLog {
 	cl := &eosCommitLog{
-		watermarks:    make(map[int32]int64),
+		watermarks:    make(map[TopicPartition]int64),
 		pendingSyncs:  make(map[string]chan struct{}),
 		numPartitions: int32(numPartitions),
 		topic:         source.CommitLogTopicNameForGroupId(),
@@ -86,10 +87,13 @@ func (cl *eosCommitLog) ReceiveChange(record IncomingRecord) error {
 	if record.isMarkerRecord() {
 		cl.closeSyncRequest(string(record.Value()))
 	} else {
+		if len(record.Key()) < intByteSize || len(record.Value()) < intByteSize {
+			return fmt.Errorf("malformed commit log record, key: %q, value: %q", record.Key(), record.Value())
+		}
 		tp := topicPartitionFromBytes(record.Key())
 		offset := readIntegerFromByteArray[int64](record.Value())
 		cl.mux.Lock()
-		cl.watermarks[tp.Partition] = offset
+		cl.watermarks[tp] = offset
 		cl.mux.Unlock()
 	}
 	return nil
@@ -146,7 +150,7 @@ func (cl *eosCommitLog) syncCommitLogPartition(ctx context.Context, tp TopicPart
 func (cl *eosCommitLog) Watermark(tp TopicPartition) int64 {
 	cl.mux.Lock()
 	defer cl.mux.Unlock()
-	if offset, ok := cl.watermarks[tp.Partition]; ok {
+	if offset, ok := cl.watermarks[tp]; ok {
 		return offset
 	}
 	return -1
-- 
2.43.0


From 6040b1293be1e93ae7ad3c5c1f609796394140db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 29/50] fix: a member releases every partition it is told to
 forget, and never prepares one it already owns

The goroutines all forgot the last partition of the list, a member with nothing assigned did not forget at all, and
preparing could start after the partition was forgotten or assigned.
---
 streams/incr_rebalancer.go | 51 +++++++++++++++++++++++++-------------
 streams/source_consumer.go |  6 +++++
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..8665b19 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -243,6 +243,7 @@ type incrementalRebalancer struct {
 	leaveTime          int64
 	preparing          TopicPartitionSet
 	ready              TopicPartitionSet
+	instructed         map[TopicPartition]<-chan struct{} // the last instruction given for a TopicPartition
 	instructionHandler IncrRebalanceInstructionHandler
 	statusLock         sync.Mutex
 }
@@ -287,6 +288,7 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 		instructionHandler: instructionHandler,
 		preparing:          NewTopicPartitionSet(),
 		ready:              NewTopicPartitionSet(),
+		instructed:         make(map[TopicPartition]<-chan struct{}),
 	}
 }
 
@@ -376,6 +378,20 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 		parsed[topic.Topic] = topic.Partitions
 	}
 
+	ir.statusLock.Lock()
+	forgotten := make([]<-chan struct{}, 0, len(instructions.Forget))
+	for _, tp := range instructions.Forget {
+		prepping := ir.preparing.Remove(tp)
+		prepped := ir.ready.Remove(tp)
+		if prepping || prepped {
+			forgotten = append(forgotten, ir.instruct(tp, ir.instructionHandler.ForgetPreparedTopicPartition))
+		}
+	}
+	ir.statusLock.Unlock()
+	for _, done := range forgotten {
+		<-done
+	}
+
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
 	if ir.memberStatus == InactiveMember {
@@ -398,33 +414,34 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 
 	for _, tp := range instructions.Prepare {
 		if ir.preparing.Insert(tp) {
-			go ir.instructionHandler.PrepareTopicPartition(tp)
+			ir.instruct(tp, ir.instructionHandler.PrepareTopicPartition)
 		}
 	}
-	if len((instructions.Forget)) > 0 {
+	if len(instructions.Forget) > 0 {
 		// if we were intructed to forget a partition, we will need to force a rebalance
 		// otherwise the group balancer could become stuck if we were in the middle of trasnferring a partition
-		wg := &sync.WaitGroup{}
-		wg.Add(len(instructions.Forget))
-		for _, tp := range instructions.Forget {
-			prepping := ir.preparing.Remove(tp)
-			prepped := ir.ready.Remove(tp)
-			if prepping || prepped {
-				go func() {
-					ir.instructionHandler.ForgetPreparedTopicPartition(tp)
-					wg.Done()
-				}()
-			} else {
-				wg.Done()
-			}
-		}
-		wg.Wait()
 		ir.client().ForceRebalance()
 	}
 
 	return parsed, err
 }
 
+// Passes the instruction on to the IncrRebalanceInstructionHandler. Does not block, but the instructions for a TopicPartition are executed in the
+// order they are given. The returned channel is closed once the instruction is executed. statusLock must be held.
+func (ir *incrementalRebalancer) instruct(tp TopicPartition, instruction func(TopicPartition)) <-chan struct{} {
+	previous := ir.instructed[tp]
+	done := make(chan struct{})
+	ir.instructed[tp] = done
+	go func() {
+		if previous != nil {
+			<-previous
+		}
+		instruction(tp)
+		close(done)
+	}()
+	return done
+}
+
 // Needed to fulfill the kgo.GroupBalancer interface. There should be non need to interact with this directly.
 func (ir *incrementalRebalancer) MemberBalancer(members []kmsg.JoinGroupResponseMember) (kgo.GroupMemberBalancer, map[string]struct{}, error) {
 	cb, err := kgo.NewConsumerBalancer(ir.balancerController, members)
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 6b891e4..ce1df7a 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -148,9 +148,15 @@ func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
 // Needed to fulfill the IncrRebalanceInstructionHandler interface defined by IncrementalGroupRebalancer.
 // Should NOT be invoked directly.
 func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
 	partition := tp.Partition
+	if _, ok := sc.workers[partition]; ok {
+		log.Debugf("%+v was assigned before it could be prepared", tp)
+		return
+	}
 	if _, ok := sc.prepping[partition]; !ok {
 		store := sc.partitionedStore.assign(partition)
 
-- 
2.43.0


From cf9da87dce6701b691e03b407222579273e35d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 30/50] fix: a member does not report partitions as ready which
 were forgotten or assigned before they were prepared

Such a partition stayed in receivership, which ended the incremental balancing of the group.
---
 streams/incr_rebalancer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 8665b19..6344ba0 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -297,9 +297,11 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 func (ir *incrementalRebalancer) PartitionPrepared(tp TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	ir.preparing.Remove(tp)
-	ir.ready.Insert(tp)
-	go ir.client().ForceRebalance()
+	// it may have been forgotten or assigned in the meantime
+	if ir.preparing.Remove(tp) {
+		ir.ready.Insert(tp)
+		go ir.client().ForceRebalance()
+	}
 }
 
 // PartitionPrepared must be called if the IncrRebalanceInstructionHandler was unable to prepare a partition it was previously instructed to do so.
-- 
2.43.0


From 2bae37630fcfd8819718ee886f73948f3260fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 31/50] fix: members which are about to close receive no
 partitions

---
 streams/group_state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..4943df8 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,7 +120,7 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
+		if incrMem.meta.Status != ActiveMember {
 			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		} else {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
-- 
2.43.0


From 5c45bbc48e750f82c86e3a5ddb5532b332416b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 32/50] fix: balance the topics of a group separately

Partitions were assigned to members which are not subscribed to their topic, and preparations for a partition of
one topic were mistaken for those of the same partition of another.
---
 streams/group_state.go     | 29 ++++++++++++++++++++++++++++-
 streams/incr_rebalancer.go |  1 +
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index 4943df8..22548f8 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -61,6 +61,26 @@ func withoutPartition(tps []TopicPartition, partition int32) []TopicPartition {
 	return newTps
 }
 
+// the partitions of other topics are balanced separately
+func ofTopic(tps []TopicPartition, topic string) []TopicPartition {
+	topicTps := make([]TopicPartition, 0, len(tps))
+	for _, tp := range tps {
+		if tp.Topic == topic {
+			topicTps = append(topicTps, tp)
+		}
+	}
+	return topicTps
+}
+
+func isSubscribed(meta *kmsg.ConsumerMemberMetadata, topic string) bool {
+	for _, t := range meta.Topics {
+		if t == topic {
+			return true
+		}
+	}
+	return false
+}
+
 type groupState struct {
 	inReceivership  *btree.BTreeG[int32]
 	inTransition    *btree.BTreeG[int32]
@@ -94,6 +114,9 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 	}
 
 	cb.EachMember(func(member *kmsg.JoinGroupResponseMember, meta *kmsg.ConsumerMemberMetadata) {
+		if !isSubscribed(meta, topic) {
+			return
+		}
 		incrMem := &incrGroupMember{
 			member:      member,
 			assignments: btree.NewOrderedG[int32](16),
@@ -164,7 +187,11 @@ func (gs groupState) initReceivership(incrMem *incrGroupMember, member *kmsg.Joi
 		// will populate the correct member status if supplied
 		if err := json.Unmarshal(meta.UserData, &incrMem.meta); err != nil {
 			log.Errorf("%v", err)
-		} else if incrMem.meta.Status == ActiveMember {
+			return
+		}
+		incrMem.meta.Preparing = ofTopic(incrMem.meta.Preparing, gs.topic)
+		incrMem.meta.Ready = ofTopic(incrMem.meta.Ready, gs.topic)
+		if incrMem.meta.Status == ActiveMember {
 			// only put Ready/Preparing in receivership if the member is active
 			// they member may have left mid cycle
 			for _, tp := range incrMem.meta.Preparing {
diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 6344ba0..50b101b 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -159,6 +159,7 @@ func (ib incrementalBalanceController) Balance(cb *kgo.ConsumerBalancer, topicDa
 		for memId, incrMem := range gs.members {
 			if instructions, ok := instructionsByMemberId[memId]; ok {
 				instructions.Prepare = append(instructions.Prepare, incrMem.instructions.Prepare...)
+				instructions.Forget = append(instructions.Forget, incrMem.instructions.Forget...)
 			} else {
 				instructions := new(IncrGroupMemberInstructions)
 				*instructions = incrMem.instructions
-- 
2.43.0


From 84fd7f827b827f9dad03b8c85f61e3f2288a13b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 33/50] fix: completing asynchronous jobs does not block while
 an event handler waits for a free worker

---
 streams/partition_worker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index f4f0cde..098ddeb 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -93,7 +93,8 @@ func newPartitionWorker[T StateStore](
 	eosConfig := eventSource.source.config.EosConfig
 
 	recordsInputSize := sak.Max(eosConfig.MaxBatchSize/10, 100)
-	asyncSize := recordsInputSize * 4
+	// must be able to hold a job for every pending event, an event handler may be waiting for those who complete jobs
+	asyncSize := sak.Max(recordsInputSize*4, eosProducer.maxPendingItems())
 	stopped := make(chan struct{})
 	pw := &partitionWorker[T]{
 		eventSource:    eventSource,
-- 
2.43.0


From 75fa9b4d7048cb7f503f591d2f53006b3d469759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 34/50] fix: continue to balance after unassigned partitions
 were distributed

No moves are scheduled in such a round, and nobody asked for another one. The group stayed imbalanced, and a member
leaving gracefully at that moment never left.
---
 streams/incr_rebalancer.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 50b101b..ad6e7a1 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -325,16 +325,13 @@ func (ir *incrementalRebalancer) PartitionPreparationFailed(tp TopicPartition) {
 func (ir *incrementalRebalancer) PartitionsAssigned(tps ...TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	rebalance := false
 	for _, tp := range tps {
-		if ir.preparing.Remove(tp) {
-			rebalance = true
-		}
-		if ir.ready.Remove(tp) {
-			rebalance = true
-		}
+		ir.preparing.Remove(tp)
+		ir.ready.Remove(tp)
 	}
-	if rebalance {
+	// while partitions are assigned, no others are scheduled to be moved, so there may be more to balance,
+	// or another member may be waiting to leave
+	if len(tps) > 0 {
 		go ir.client().ForceRebalance()
 	}
 }
-- 
2.43.0


From eed737ddec30bc8d68f7072164c5641d41a5d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 35/50] fix: execute events and interjections of a partition in
 the order of their transactions

---
 streams/partition_worker.go | 62 +++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 098ddeb..b54ea49 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -63,23 +63,22 @@ func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
 }
 
 type partitionWorker[T StateStore] struct {
-	eosProducer            *eosProducerPool[T]
-	partitionInput         chan []*kgo.Record
-	maxPending             chan struct{}
-	interjectionInput      chan *interjection[T]
-	eventInput             chan *EventContext[T]
-	interjectionEventInput chan *EventContext[T]
-	asyncCompleter         asyncCompleter[T]
-	stopSignal             chan struct{}
-	revokedSignal          chan struct{}
-	stopped                chan struct{}
-	changeLog              changeLogPartition[T]
-	eventSource            *EventSource[T]
-	runStatus              sak.RunStatus
-	ready                  int64
-	highestOffset          int64
-	topicPartition         TopicPartition
-	revocationWaiter       sync.WaitGroup
+	eosProducer       *eosProducerPool[T]
+	partitionInput    chan []*kgo.Record
+	maxPending        chan struct{}
+	interjectionInput chan *interjection[T]
+	eventInput        chan *EventContext[T]
+	asyncCompleter    asyncCompleter[T]
+	stopSignal        chan struct{}
+	revokedSignal     chan struct{}
+	stopped           chan struct{}
+	changeLog         changeLogPartition[T]
+	eventSource       *EventSource[T]
+	runStatus         sak.RunStatus
+	ready             int64
+	highestOffset     int64
+	topicPartition    TopicPartition
+	revocationWaiter  sync.WaitGroup
 }
 
 func newPartitionWorker[T StateStore](
@@ -109,12 +108,11 @@ func newPartitionWorker[T StateStore](
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
 			stopped:   stopped,
 		},
-		partitionInput:         make(chan []*kgo.Record, 4),
-		eventInput:             make(chan *EventContext[T], recordsInputSize),
-		interjectionInput:      make(chan *interjection[T], 1),
-		interjectionEventInput: make(chan *EventContext[T], 1),
-		runStatus:              eventSource.runStatus.Fork(),
-		highestOffset:          -1,
+		partitionInput:    make(chan []*kgo.Record, 4),
+		eventInput:        make(chan *EventContext[T], recordsInputSize),
+		interjectionInput: make(chan *interjection[T], 1),
+		runStatus:         eventSource.runStatus.Fork(),
+		highestOffset:     -1,
 	}
 
 	go pw.work(pw.eventSource.interjections, waiter, commitLog)
@@ -177,7 +175,7 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 	for _, record := range records {
 		if record != nil && record.Offset >= atomic.LoadInt64(&pw.highestOffset) {
 			ec := newEventContext(pw.runStatus.Ctx(), record, pw.changeLog.changeLogData(), pw)
-			if !pw.submit(ec, pw.eventInput) {
+			if !pw.submit(ec) {
 				return
 			}
 		} else {
@@ -206,11 +204,13 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	}
 	pw.revocationWaiter.Add(1)
 	ec := newInterjectionContext(pw.runStatus.Ctx(), inter, pw.topicPartition, pw.changeLog.changeLogData(), pw)
-	pw.submit(ec, pw.interjectionEventInput)
+	pw.submit(ec)
 }
 
 // requests a producer for the EventContext and hands it to the worker. Returns false if the worker has been stopped.
-func (pw *partitionWorker[T]) submit(ec *EventContext[T], input chan *EventContext[T]) bool {
+// Events and interjections are executed in the order in which they are given to producers. Otherwise the worker could wait for the producer of
+// an interjection while the transaction of a previous event can not finish, and changes would be recorded in another order than they are made.
+func (pw *partitionWorker[T]) submit(ec *EventContext[T]) bool {
 	select {
 	case pw.maxPending <- struct{}{}:
 	case <-pw.stopped:
@@ -220,7 +220,7 @@ func (pw *partitionWorker[T]) submit(ec *EventContext[T], input chan *EventConte
 		return false
 	}
 	select {
-	case input <- ec:
+	case pw.eventInput <- ec:
 		return true
 	case <-pw.stopped:
 		return false
@@ -269,9 +269,11 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	for {
 		select {
 		case ec := <-pw.eventInput:
-			pw.handleEvent(ec)
-		case ec := <-pw.interjectionEventInput:
-			pw.handleInterjection(ec)
+			if ec.IsInterjection() {
+				pw.handleInterjection(ec)
+			} else {
+				pw.handleEvent(ec)
+			}
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
 		case <-pw.stopSignal:
-- 
2.43.0


From 1f7be5f689c1b08cdab3a976335e114965c1f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 36/50] fix: stopping again does not interrupt leaving the
 group

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ce1df7a..459c888 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -33,6 +33,7 @@ type eventSourceConsumer[T StateStore] struct {
 	clientReady        chan struct{} // closed once client can be used
 	initialized        chan struct{} // closed once partitions can be assigned
 	initOnce           sync.Once
+	closeOnce          sync.Once
 	partitionedStore   *partitionedChangeLog[T]
 	stateStoreConsumer *stateStoreConsumer[T]
 	ctx                context.Context
@@ -493,6 +494,7 @@ func (sc *eventSourceConsumer[T]) stop() {
 		// nothing may be committed once our partitions can be assigned to another consumer
 		sc.producerPool.halt()
 	}
-	sc.client.Close()
+	// closing the client again, while it is leaving the group, would interrupt it
+	sc.closeOnce.Do(sc.client.Close)
 	log.Infof("left group: %v", sc.source.GroupId())
 }
-- 
2.43.0


From 882d9763dadd8a8511fb85c6f7f5069cdd6f98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 37/50] fix: repeated assignments do not force another
 rebalance

Each rebalance may interrupt the client while it fetches the offsets of the assigned partitions, the assignment is then
repeated. If latencies are long this went on forever.
---
 streams/source_consumer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 459c888..e578a3c 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -210,7 +210,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 
 func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []int32) {
 	// notify observers before any worker is started, as a worker activates it's partition concurrently
-	sc.source.onPartitionsAssigned(sc.notYetAssigned(partitions))
+	added := sc.notYetAssigned(partitions)
+	sc.source.onPartitionsAssigned(added)
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
@@ -240,8 +241,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	if sc.incrBalancer != nil {
-		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	// this asks for a rebalance, which would interrupt the client again if it repeats an assignment
+	if sc.incrBalancer != nil && len(added) > 0 {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, added...)...)
 	}
 }
 
-- 
2.43.0


From a4afcb6e18b52312ac7ad43a56d526d7ec839885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 38/50] fix: do not pause a partition of the change log which
 is about to be prepared

Records which were fetched before the preparation began paused the partition again, it was never bootstrapped.
---
 streams/state_store_consumer.go | 42 ++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index fdd5bb5..aedc379 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -59,6 +59,7 @@ type stateStorePartition[T StateStore] struct {
 	count          uint64
 	byteCount      uint64
 	waiterLock     sync.Mutex
+	pauseLock      sync.Mutex // guards transitions from and to paused, the client must be paused or resumed accordingly
 	highWatermark  int64
 }
 
@@ -76,13 +77,36 @@ func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
 }
 
 func (ssp *stateStorePartition[T]) pause() {
+	ssp.pauseLock.Lock()
+	defer ssp.pauseLock.Unlock()
 	ssp.setState(paused)
-	topic := ssp.topicPartition.Topic
-	partition := ssp.topicPartition.Partition
-	ssp.client.PauseFetchPartitions(map[string][]int32{
-		topic: {partition},
+	ssp.pauseFetch()
+}
+
+// returns false if the partition is being prepared
+func (ssp *stateStorePartition[T]) remainPaused() bool {
+	ssp.pauseLock.Lock()
+	defer ssp.pauseLock.Unlock()
+	if ssp.partitionState() != paused {
+		return false
+	}
+	ssp.pauseFetch()
+	return true
+}
+
+func (ssp *stateStorePartition[T]) resume(state partitionState) {
+	ssp.pauseLock.Lock()
+	defer ssp.pauseLock.Unlock()
+	ssp.setState(state)
+	ssp.client.ResumeFetchPartitions(map[string][]int32{
+		ssp.topicPartition.Topic: {ssp.topicPartition.Partition},
 	})
+}
 
+func (ssp *stateStorePartition[T]) pauseFetch() {
+	ssp.client.PauseFetchPartitions(map[string][]int32{
+		ssp.topicPartition.Topic: {ssp.topicPartition.Partition},
+	})
 }
 
 func (ssp *stateStorePartition[T]) kill() {
@@ -179,10 +203,7 @@ func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store chan
 	buffer, killed, populated := make(chan []*kgo.Record, 1024), make(chan struct{}), make(chan struct{})
 	ssp.buffer, ssp.killed, ssp.populated = buffer, killed, populated
 	ssp.bufferLock.Unlock()
-	ssp.setState(intitialState)
-	ssp.client.ResumeFetchPartitions(map[string][]int32{
-		topic: {partition},
-	})
+	ssp.resume(intitialState)
 	go func() {
 		defer close(populated)
 		ssp.populate(store, buffer, killed)
@@ -315,9 +336,8 @@ func (ssc *stateStoreConsumer[T]) consume() {
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
 			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
+			// a preparation may begin at any time
+			if !ssp.remainPaused() {
 				ssp.add(partitionFetch)
 			}
 		})
-- 
2.43.0


From 1c0c1485abc5bbb5bd1fd65c531c27d9ab38e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 39/50] fix: give up partitions if the membership of the group
 is lost

The client invalidates the assignment if it is expelled from the group, or can not reach it, but the workers went on with
their partitions, and were used again, with a stale state, when the partitions were assigned anew.
---
 streams/source_consumer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index e578a3c..db3896e 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -99,6 +99,8 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		kgo.ConsumeTopics(source.config.Topic),
 		kgo.OnPartitionsAssigned(sc.partitionsAssigned),
 		kgo.OnPartitionsRevoked(sc.partitionsRevoked),
+		// the client gives up all partitions if it is expelled from the group, it will join again and start over
+		kgo.OnPartitionsLost(sc.partitionsRevoked),
 		kgo.SessionTimeout(6 * time.Second),
 		kgo.FetchMaxWait(time.Second),
 		kgo.AdjustFetchOffsetsFn(sc.adjustOffsetsBeforeAssign)}
-- 
2.43.0


From aff6364d2559f5aace9782941b2b97276440aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 40/50] fix: send markers again if they could not be sent

---
 streams/commit_log.go           | 21 ++++++++++++++++-----
 streams/state_store_consumer.go | 12 +++++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 92cb324..f63c054 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -19,6 +19,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"time"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -135,16 +136,26 @@ func (cl *eosCommitLog) syncCommitLogPartition(ctx context.Context, tp TopicPart
 	markWaiter := make(chan struct{})
 	cl.pendingSyncs[mark] = markWaiter
 	cl.syncMux.Unlock()
-	sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+	defer func() {
+		cl.syncMux.Lock()
+		delete(cl.pendingSyncs, mark)
+		cl.syncMux.Unlock()
+	}()
+	for sendMarkerMessage(cl.changeLog.client, tp, []byte(mark)) != nil {
+		// nobody else sends it
+		select {
+		case <-ctx.Done():
+			return
+		case <-cl.changeLog.runStatus.Done():
+			return
+		case <-time.After(markerRetryInterval):
+		}
+	}
 	select {
 	case <-markWaiter:
-		return
 	case <-ctx.Done():
 	case <-cl.changeLog.runStatus.Done():
 	}
-	cl.syncMux.Lock()
-	delete(cl.pendingSyncs, mark)
-	cl.syncMux.Unlock()
 }
 
 func (cl *eosCommitLog) Watermark(tp TopicPartition) int64 {
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index aedc379..44bcbb1 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -159,7 +159,15 @@ func (ssp *stateStorePartition[T]) sync() bool {
 	killed := ssp.killed
 	ssp.bufferLock.Unlock()
 	c, mark := ssp.addWaiter()
-	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
+	for sendMarkerMessage(ssp.client, ssp.topicPartition, mark) != nil {
+		// nobody else sends it
+		select {
+		case <-killed:
+			ssp.removeWaiterForMark(mark)
+			return false
+		case <-time.After(markerRetryInterval):
+		}
+	}
 	select {
 	case <-c:
 		return true
@@ -379,6 +387,8 @@ func (ssc *stateStoreConsumer[T]) stop() {
 	}
 }
 
+const markerRetryInterval = 100 * time.Millisecond
+
 func sendMarkerMessage(producer *kgo.Client, tp TopicPartition, mark []byte) error {
 	record := kgo.KeySliceRecord(markerKey, mark)
 	record.Topic = tp.Topic
-- 
2.43.0


From 49d8cd7477907b7a5199124d5c329c80f209f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 41/50] fix: hand polled records to the worker they were
 fetched for

---
 streams/source_consumer.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index db3896e..fa5163c 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -103,6 +103,8 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		kgo.OnPartitionsLost(sc.partitionsRevoked),
 		kgo.SessionTimeout(6 * time.Second),
 		kgo.FetchMaxWait(time.Second),
+		// partitions do not change hands until the workers of the records we have polled are known
+		kgo.BlockRebalanceOnPoll(),
 		kgo.AdjustFetchOffsetsFn(sc.adjustOffsetsBeforeAssign)}
 
 	if len(additionalClientOptions) > 0 {
@@ -326,14 +328,25 @@ func (sc *eventSourceConsumer[T]) partitionsRevoked(ctx context.Context, _ *kgo.
 	}
 }
 
-func (sc *eventSourceConsumer[T]) receive(p kgo.FetchTopicPartition) {
+type delivery[T StateStore] struct {
+	worker  *partitionWorker[T]
+	records []*kgo.Record
+}
+
+// Determines which worker has to receive the polled records, then lets the client rebalance again.
+// As we may be blocked by a busy worker, a partition could be revoked and assigned to us again before we get to it's records.
+// These have to go to the worker they were fetched for, the new one starts at the last committed offset.
+func (sc *eventSourceConsumer[T]) deliveries(f kgo.Fetches) []delivery[T] {
+	defer sc.client.AllowRebalance()
 	sc.workerMux.Lock()
-	worker, ok := sc.workers[p.Partition]
-	sc.workerMux.Unlock()
-	if !ok || len(p.Records) == 0 {
-		return
-	}
-	worker.add(p.Records)
+	defer sc.workerMux.Unlock()
+	var res []delivery[T]
+	f.EachPartition(func(p kgo.FetchTopicPartition) {
+		if worker, ok := sc.workers[p.Partition]; ok && len(p.Records) > 0 {
+			res = append(res, delivery[T]{worker, p.Records})
+		}
+	})
+	return res
 }
 
 // Starts the underlying kafka client and syncs the local commit log for the consumer group.
@@ -344,6 +357,7 @@ func (sc *eventSourceConsumer[T]) start() {
 	sc.commitLog.syncAll()
 	for {
 		ctx, f := pollConsumer(sc.client)
+		deliveries := sc.deliveries(f)
 		if f.IsClientClosed() {
 			log.Infof("client closed for group: %v", sc.source.GroupId())
 			return
@@ -353,7 +367,9 @@ func (sc *eventSourceConsumer[T]) start() {
 				log.Errorf("%v", err)
 			}
 		}
-		f.EachPartition(sc.receive)
+		for _, d := range deliveries {
+			d.worker.add(d.records)
+		}
 	}
 }
 
-- 
2.43.0


From 8d3b136a104c85e78c94096f6c7d9ef067a81245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 42/50] fix: report topics which could not be deleted

DeleteSource returned no error although the cluster refused to delete a topic.
---
 streams/topics.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index f687656..8098cf0 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -311,13 +311,26 @@ func DeleteSource(sourceConfig EventSourceConfig) error {
 
 	sourceTopicAdminClient := kadm.NewClient(sourceTopicClient)
 	eosAdminClient := kadm.NewClient(eosClient)
-	if _, err = sourceTopicAdminClient.DeleteTopics(context.Background(), source.config.Topic); err != nil {
+	if err = deleteTopics(sourceTopicAdminClient, source.config.Topic); err != nil {
 		return err
 	}
-	_, err = eosAdminClient.DeleteTopics(context.Background(),
+	return deleteTopics(eosAdminClient,
 		source.CommitLogTopicNameForGroupId(),
 		source.StateStoreTopicName())
-	return err
+}
+
+// deletes all topics, those which do not exist are ignored
+func deleteTopics(adminClient *kadm.Client, topic ...string) error {
+	res, err := adminClient.DeleteTopics(context.Background(), topic...)
+	if err != nil {
+		return err
+	}
+	for _, topicRes := range res {
+		if topicRes.Err != nil && !errors.Is(topicRes.Err, kerr.UnknownTopicOrPartition) {
+			return fmt.Errorf("could not delete topic %s: %w", topicRes.Topic, topicRes.Err)
+		}
+	}
+	return nil
 }
 
 func isMarkerRecord(record *kgo.Record) bool {
-- 
2.43.0


From 579b63a8e907560b95cceadf38f6421d3e6d19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 43/50] fix: a decode error which is not to be ignored fails
 the consumer

A DeserializationErrorHandler which answers FailConsumer or FatallyExit only left
the event incomplete: the partition stalled until its transaction timed out. Now
the consumer stops and leaves the group (or exits), as documented and as it does
for a TxnErrorHandler. The failure of several workers must not block them.
---
 streams/event_source.go | 19 ++++++++++---------
 streams/source.go       | 20 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index e14f02b..45b1f50 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -367,7 +367,7 @@ func (es *EventSource[T]) handleEvent(ctx *EventContext[T], record IncomingRecor
 // Registers eventType with a transformer (usuall a codec.Codec) with the supplied EventProcessor.
 // Must not be called after `EventSource.ConsumeEvents()`
 func RegisterEventType[T StateStore, V any](es *EventSource[T], transformer IncomingRecordDecoder[V], eventProcessor EventProcessor[T, V], eventType string) {
-	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler())
+	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source)
 	if es.rootProcessor == nil {
 		es.rootProcessor, es.tailProcessor = ep, ep
 	} else {
@@ -398,16 +398,17 @@ type eventProcessorWrapper[T any] struct {
 }
 
 type eventProcessorExecutor[T any, V any] struct {
-	process                    EventProcessor[T, V]
-	decode                     IncomingRecordDecoder[V]
-	handleDeserializationError DeserializationErrorHandler
+	process EventProcessor[T, V]
+	decode  IncomingRecordDecoder[V]
+	source  *Source
 }
 
 func (epe *eventProcessorExecutor[T, V]) Exec(ec *EventContext[T], record IncomingRecord) ExecutionState {
 	if event, err := epe.decode(record); err == nil {
 		return epe.process(ec, event)
 	} else {
-		if epe.handleDeserializationError(ec, record.RecordType(), err) == Continue {
+		// an event which is not to be ignored is never committed by this consumer
+		if epe.source.shouldContinueDeserialization(ec, record.RecordType(), err) {
 			return Complete
 		}
 		return Incomplete
@@ -415,13 +416,13 @@ func (epe *eventProcessorExecutor[T, V]) Exec(ec *EventContext[T], record Incomi
 }
 
 func newEventProcessorWrapper[T any, V any](eventType string, decoder IncomingRecordDecoder[V],
-	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler) *eventProcessorWrapper[T] {
+	eventProcessor EventProcessor[T, V], source *Source) *eventProcessorWrapper[T] {
 	return &eventProcessorWrapper[T]{
 		eventType: eventType,
 		eventExecutor: &eventProcessorExecutor[T, V]{
-			process:                    eventProcessor,
-			decode:                     decoder,
-			handleDeserializationError: deserializationErrorHandler,
+			process: eventProcessor,
+			decode:  decoder,
+			source:  source,
 		},
 	}
 }
diff --git a/streams/source.go b/streams/source.go
index 7558cab..a0c45fe 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -109,7 +109,7 @@ type Source struct {
 }
 
 func newSource(config EventSourceConfig) *Source {
-	return &Source{state: uint64(Healthy), config: config, failure: make(chan error)}
+	return &Source{state: uint64(Healthy), config: config, failure: make(chan error, 1)}
 }
 
 // A convenience method for creating a [Destination] form your Source. Can be used for creating a [Producer] or [BatchProducer] which publishes to your [EventSource].
@@ -155,6 +155,19 @@ func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
 	return s.config.DeserializationErrorHandler
 }
 
+// Consults the DeserializationErrorHandler. Returns false if the consumer has failed, the event must not be committed.
+func (s *Source) shouldContinueDeserialization(ec ErrorContext, eventType string, err error) bool {
+	instructions := s.deserializationErrorHandler()(ec, eventType, err)
+	if instructions == Continue {
+		return true
+	}
+	s.fail(err)
+	if instructions == FatallyExit {
+		panic(err)
+	}
+	return false
+}
+
 func (s *Source) executeHandler(handler SourcePartitionEventHandler, partitions []int32) {
 	if handler != nil {
 		for _, p := range partitions {
@@ -169,7 +182,10 @@ func (s *Source) State() EventSourceState {
 
 func (s *Source) fail(err error) {
 	atomic.StoreUint64(&s.state, uint64(Unhealthy))
-	s.failure <- err
+	select {
+	case s.failure <- err:
+	default: // has failed already
+	}
 }
 
 func (s *Source) Topic() string {
-- 
2.43.0


From 1a333ba2f5036fbcd9fdea0a3c2bf61d86e697ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 44/50] fix: provide the retrieved IAM credentials, and an
 error if there is no provider

---
 msk/cluster.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..007196b 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -167,8 +167,11 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
+	if c.awsConfig.Credentials == nil {
+		return auth, fmt.Errorf("no credentials provider configured for cluster: %s", c.clusterName)
+	}
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From 025e64f4addd3dba5cf2666951cf763477e3b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 45/50] fix: resolve the MSK cluster by its exact name, on any
 page of the listing

---
 msk/cluster.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 007196b..f335d61 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -219,21 +219,29 @@ func (c *MskCluster) getBootstrapBrokers() (brokers []string, err error) {
 }
 
 func (c *MskCluster) getClusterArn() (arn string, err error) {
-	var res *kafka.ListClustersOutput
-	if res, err = c.client.ListClusters(context.TODO(), &kafka.ListClustersInput{
+	// ClusterNameFilter is a prefix, and results may be spread across multiple pages
+	input := &kafka.ListClustersInput{
 		ClusterNameFilter: aws.String(c.clusterName),
-	}); err != nil {
-		return
-	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
 	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
-		return
+	for {
+		var res *kafka.ListClustersOutput
+		if res, err = c.client.ListClusters(context.TODO(), input); err != nil {
+			return
+		}
+		for _, ci := range res.ClusterInfoList {
+			if aws.ToString(ci.ClusterName) != c.clusterName {
+				continue
+			}
+			if ci.ClusterArn == nil {
+				err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+				return
+			}
+			return *ci.ClusterArn, nil
+		}
+		if len(aws.ToString(res.NextToken)) == 0 {
+			err = fmt.Errorf("cluster not found: %s", c.clusterName)
+			return
+		}
+		input.NextToken = res.NextToken
 	}
-	arn = *ci.ClusterArn
-	return
 }
-- 
2.43.0


From 00b8bba8fd24dfeb295c97cc0c78b0052427a041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 46/50] fix: do not reset the pending records of a transaction
 while a late event produces

---
 streams/eos_producer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 120eea7..0e05aba 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -586,8 +586,11 @@ func (p *producerNode[T]) reset() {
 	p.eventContextCnt = 0
 	atomic.StoreInt64(&p.byteCount, 0)
 
+	// the events of an abandoned transaction may still be producing
+	p.produceLock.Lock()
 	pendingRecordPool.Release(p.recordsToProduce)
 	p.recordsToProduce = pendingRecordPool.Borrow()
+	p.produceLock.Unlock()
 }
 
 /*
-- 
2.43.0


From 166781f1bd6c2b178c03d6baf3151f1b2e10d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 47/50] fix: do not let the events of a revoked partition queue
 for a producer

---
 streams/partition_worker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index b54ea49..b6251e7 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -173,7 +173,8 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 
 	pw.revocationWaiter.Add(len(records)) // optimistically do one add call
 	for _, record := range records {
-		if record != nil && record.Offset >= atomic.LoadInt64(&pw.highestOffset) {
+		// if we're revoked in the meantime, the remaining events will not be executed. do not let them queue for a producer
+		if record != nil && record.Offset >= atomic.LoadInt64(&pw.highestOffset) && !pw.isRevoked() {
 			ec := newEventContext(pw.runStatus.Ctx(), record, pw.changeLog.changeLogData(), pw)
 			if !pw.submit(ec) {
 				return
-- 
2.43.0


From 3088fcba8b3f6d80e3df5fc8cbd4d18da362a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 48/50] fix: do not rebalance endlessly if a client also
 supports eager strategies

Such a client gives up all of its partitions in every rebalance, and forced the next one as soon as they were assigned again.
---
 streams/balancer_options.go |  9 +++++++++
 streams/incr_rebalancer.go  | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/streams/balancer_options.go b/streams/balancer_options.go
index bbae12e..3f7c611 100644
--- a/streams/balancer_options.go
+++ b/streams/balancer_options.go
@@ -20,6 +20,7 @@ type BalanceStrategy int
 
 func toGroupBalancers(instructionHandler IncrRebalanceInstructionHandler, rs []BalanceStrategy) []kgo.GroupBalancer {
 	balancers := []kgo.GroupBalancer{}
+	cooperative := true
 	for _, balancer := range rs {
 		switch balancer {
 		case RangeBalanceStrategy:
@@ -32,6 +33,14 @@ func toGroupBalancers(instructionHandler IncrRebalanceInstructionHandler, rs []B
 			balancers = append(balancers, IncrementalRebalancer(instructionHandler))
 		}
 	}
+	for _, balancer := range balancers {
+		cooperative = cooperative && balancer.IsCooperative()
+	}
+	for _, balancer := range balancers {
+		if ir, ok := balancer.(*incrementalRebalancer); ok {
+			ir.eager = !cooperative
+		}
+	}
 	return balancers
 }
 
diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index ad6e7a1..979049a 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -246,6 +246,7 @@ type incrementalRebalancer struct {
 	ready              TopicPartitionSet
 	instructed         map[TopicPartition]<-chan struct{} // the last instruction given for a TopicPartition
 	instructionHandler IncrRebalanceInstructionHandler
+	eager              bool // the client supports eager protocols as well, and gives up all of it's partitions in every rebalance
 	statusLock         sync.Mutex
 }
 
@@ -325,13 +326,18 @@ func (ir *incrementalRebalancer) PartitionPreparationFailed(tp TopicPartition) {
 func (ir *incrementalRebalancer) PartitionsAssigned(tps ...TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
+	// while partitions are assigned, no others are scheduled to be moved, so there may be more to balance,
+	// or another member may be waiting to leave. An eager client is assigned all of it's partitions again and again.
+	rebalance := !ir.eager && len(tps) > 0
 	for _, tp := range tps {
-		ir.preparing.Remove(tp)
-		ir.ready.Remove(tp)
+		if ir.preparing.Remove(tp) {
+			rebalance = true
+		}
+		if ir.ready.Remove(tp) {
+			rebalance = true
+		}
 	}
-	// while partitions are assigned, no others are scheduled to be moved, so there may be more to balance,
-	// or another member may be waiting to leave
-	if len(tps) > 0 {
+	if rebalance {
 		go ir.client().ForceRebalance()
 	}
 }
-- 
2.43.0


From e8076ea3c3fbc63bd73b8f9ea926290b5ff4bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 49/50] fix: do not consume partitions revoked while their
 offsets were determined

An eager client invalidates its partitions as soon as the group rebalances, which may be before their starting offsets are known.
---
 streams/source_consumer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index fa5163c..a00de31 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -142,9 +142,23 @@ func (sc *eventSourceConsumer[T]) adjustOffsetsBeforeAssign(ctx context.Context,
 			}
 		}
 	}
+	sc.removeRevoked(assignments)
 	return assignments, nil
 }
 
+// A client with an eager balancer may have given up it's partitions while their offsets were determined, but would fetch them nonetheless.
+func (sc *eventSourceConsumer[T]) removeRevoked(assignments map[string]map[int32]kgo.Offset) {
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
+	for _, partitionAssignments := range assignments {
+		for p := range partitionAssignments {
+			if _, ok := sc.workers[p]; !ok {
+				delete(partitionAssignments, p)
+			}
+		}
+	}
+}
+
 func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
 	<-sc.clientReady
 	return sc.client
-- 
2.43.0


From e3346fbeaaa95d551f749c4730666184205250c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 50/50] fix: leave as soon as the group does not use the
 incremental protocol any more

A member leaving incrementally waited forever if the group changed its protocol in the meantime.
---
 streams/source_consumer.go | 53 +++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index a00de31..2d37aae 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -27,6 +27,9 @@ import (
 // the time a handler is given to return if the consumer is stopped immediately
 const immediateStopGracePeriod = 3 * time.Second
 
+// How often a consumer, which waits for it's partitions to be reassigned, checks that the group still works incrementally.
+const protocolCheckInterval = 5 * time.Second
+
 // A thick wrapper around a kgo.Client. Handles interaction with IncrementalRebalancer, as well as providing mechanisms for interjecting into a stream.
 type eventSourceConsumer[T StateStore] struct {
 	client             *kgo.Client
@@ -481,22 +484,56 @@ func (sc *eventSourceConsumer[T]) currentProtocolIsIncremental() bool {
 	if len(sc.source.BalanceStrategies()) <= 1 {
 		return true
 	}
+	protocol, err := sc.currentProtocol(context.Background())
+	if err != nil {
+		log.Errorf("could not confirm group protocol: %v", err)
+	}
+	return protocol == IncrementalCoopProtocol
+}
+
+// Returns the active protocol of the consumer group, if it is known.
+func (sc *eventSourceConsumer[T]) currentProtocol(ctx context.Context) (string, error) {
 	// we're going to attempt to retrieve the current protocol
 	// this is somehat unrealiable as if the group state is in PreparingRebalance mode,
 	// the protocol returned will be empty
 	adminClient := kadm.NewClient(sc.Client())
-	groups, err := adminClient.DescribeGroups(context.Background(), sc.source.GroupId())
-	if err != nil || len(groups) == 0 {
-		log.Errorf("could not confirm group protocol: %v", err)
-		return false
+	groups, err := adminClient.DescribeGroups(ctx, sc.source.GroupId())
+	if err != nil {
+		return "", err
 	}
 	log.Debugf("consumerGroup protocol response: %+v", groups)
 	group := groups[sc.source.GroupId()]
 	if len(group.Protocol) == 0 {
 		log.Warnf("could not retrieve group rebalance protocol, group state: %v", group.State)
 	}
-	return group.Protocol == IncrementalCoopProtocol
+	return group.Protocol, nil
+}
 
+// Blocks until all partitions have been reassigned, or the group does not use the incremental protocol any more.
+// All members have to support it, and others may have joined in the meantime.
+func (sc *eventSourceConsumer[T]) leaveIncrementally() {
+	left := sc.incrBalancer.GracefullyLeaveGroup()
+	var protocolCheck <-chan time.Time
+	if len(sc.source.BalanceStrategies()) > 1 {
+		ticker := time.NewTicker(protocolCheckInterval)
+		defer ticker.Stop()
+		protocolCheck = ticker.C
+	}
+	for {
+		select {
+		case <-left:
+			return
+		case <-sc.ctx.Done():
+			// StopNow() was called, there will be no further rebalance
+			return
+		case <-protocolCheck:
+			protocol, err := sc.currentProtocol(sc.ctx)
+			if err == nil && len(protocol) > 0 && protocol != IncrementalCoopProtocol {
+				log.Infof("group: %v does not use the incremental protocol any more", sc.source.GroupId())
+				return
+			}
+		}
+	}
 }
 
 // Signals the IncrementalReblancer to start the process of shutting down this consumer in an orderly fashion.
@@ -510,11 +547,7 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 		return c
 	}
 	go func() {
-		select {
-		case <-sc.incrBalancer.GracefullyLeaveGroup():
-		case <-sc.ctx.Done():
-			// StopNow() was called, there will be no further rebalance
-		}
+		sc.leaveIncrementally()
 		sc.stop()
 		c <- struct{}{}
 	}()
-- 
2.43.0

