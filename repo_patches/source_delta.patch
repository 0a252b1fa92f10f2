From 8546c3bf05c386c602f622bf0cc4ef0dc22a551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:05 +0000
Subject: [PATCH 01/22] fix: delete all messages and the queue key when a queue
 is deleted

---
 pkg/queue/badger_priority_queue.go | 31 +++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dfec73c..6349fbe 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -217,24 +217,41 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return ErrQueueNotFound
 	}
 
-	err := bpq.db.Update(func(txn *badger.Txn) error {
+	var keys [][]byte
+
+	err := bpq.db.View(func(txn *badger.Txn) error {
 		opts := badger.DefaultIteratorOptions
-		opts.PrefetchValues = true
+		opts.PrefetchValues = false
 		it := txn.NewIterator(opts)
 		defer it.Close()
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
-			item := it.Item()
-			return txn.Delete(item.Key())
+			keys = append(keys, it.Item().KeyCopy(nil))
 		}
 
-		err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
-		if err != nil {
+		return nil
+	})
+	if err != nil {
+		return err
+	}
+
+	// A queue can hold more messages than fit into a single transaction, so they
+	// are deleted in batches. The queue itself goes last.
+	wb := bpq.db.NewWriteBatch()
+	defer wb.Cancel()
+
+	for _, key := range keys {
+		if err := wb.Delete(key); err != nil {
 			return err
 		}
+	}
+	if err := wb.Flush(); err != nil {
+		return err
+	}
 
-		return nil
+	err = bpq.db.Update(func(txn *badger.Txn) error {
+		return txn.Delete(bpq.GetQueueKey(bpq.config.Name))
 	})
 	if err != nil {
 		return err
-- 
2.43.0


From b7488848671fa346e94a825736ad2e4e919fbd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:05 +0000
Subject: [PATCH 02/22] fix: do not load or delete messages of queues whose
 name extends this one with a colon

---
 pkg/queue/badger_priority_queue.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 6349fbe..53dd697 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -189,6 +189,12 @@ func (bpq *BadgerPriorityQueue) GetMessagesKey(id uint64) []byte {
 	return addPrefix(bpq.getMessagesPrefix(), uint64ToBytes(id))
 }
 
+// isOwnMessageKey tells the messages of this queue from those of queues whose
+// name starts with the name of this one followed by a colon.
+func (bpq *BadgerPriorityQueue) isOwnMessageKey(key []byte) bool {
+	return len(key) == len(bpq.getMessagesPrefix())+8
+}
+
 func (bpq *BadgerPriorityQueue) Create(queueType, queueName string) error {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
@@ -227,6 +233,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
+			if !bpq.isOwnMessageKey(it.Item().Key()) {
+				continue
+			}
 			keys = append(keys, it.Item().KeyCopy(nil))
 		}
 
@@ -296,6 +305,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 				item := it.Item()
+				if !bpq.isOwnMessageKey(item.Key()) {
+					continue
+				}
 				err := item.Value(func(val []byte) error {
 					msg, err := MessageFromBytes(val)
 					if err != nil {
-- 
2.43.0


From 9a25c7f953b8610211059d07bfb77b9b03f038a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:05 +0000
Subject: [PATCH 03/22] fix: redeliver unacknowledged messages in order of
 their deadline

---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 53dd697..6586023 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -82,7 +82,7 @@ func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *Promethe
 	bpq := &BadgerPriorityQueue{
 		db:                db,
 		cfg:               cfg,
-		ackQueue:          NewDelayedPriorityQueue(false),
+		ackQueue:          NewDelayedPriorityQueue(true),
 		PrometheusMetrics: metrics,
 		stats:             NewQueueStats(cfg.Queue.QueueStats.WindowSide),
 	}
-- 
2.43.0


From 9c0c63ad6982a1735b37d014459b82de4b8898d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:06 +0000
Subject: [PATCH 04/22] fix: changing the priority of an unacknowledged message
 must not change its ack deadline

---
 pkg/queue/badger_priority_queue.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 6586023..d926f94 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -486,21 +486,14 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 		if err != nil {
 			return err
 		}
-		err = txn.Set(bpq.GetMessagesKey(queueItem.ID), data)
-
-		if err != nil {
-			return err
-		}
-
-		queueItem.UpdatePriority(newPriority)
-
-		return nil
+		return txn.Set(bpq.GetMessagesKey(queueItem.ID), data)
 	})
 	if err != nil {
 		return err
 	}
 
-	// Update in-memory heap
+	// Update in-memory heap. The priority of an item that waits for an
+	// acknowledgement is its deadline, which must not change.
 	bpq.pq.UpdatePriority(group, id, newPriority)
 	return nil
 }
-- 
2.43.0


From 3d7776f300decb7d2c21f1a983aaf6a2ee48882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:09 +0000
Subject: [PATCH 05/22] fix: a new group must not be served ahead of groups
 that are still waiting for their turn

---
 pkg/queue/fair_priority_queue.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 3144fa0..5a30ba0 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -43,6 +43,21 @@ func (l *LinkedList) Append(node *LinkedListNode) {
 	l.total++
 }
 
+// InsertBefore inserts a node right before the mark, which must be in the list
+func (l *LinkedList) InsertBefore(node, mark *LinkedListNode) {
+	node.prev = mark.prev
+	node.next = mark
+
+	if mark.prev != nil {
+		mark.prev.next = node
+	} else {
+		l.head = node
+	}
+	mark.prev = node
+
+	l.total++
+}
+
 func (l *LinkedList) Remove(node *LinkedListNode) {
 	if node.prev != nil {
 		node.prev.next = node.next
@@ -92,7 +107,13 @@ func (fq *FairPriorityQueue) Enqueue(group string, item *Item) {
 		// Add group to round robin if not exists
 		node := NewLinkedListNode(group, NewPriorityQueue(true))
 		fq.queues[group] = node
-		fq.roundRobin.Append(node)
+		if fq.currentNone == nil || fq.currentNone == fq.roundRobin.head {
+			fq.roundRobin.Append(node)
+		} else {
+			// The round is under way: the new group is served after all the groups
+			// that are waiting for their turn, including those before the current one
+			fq.roundRobin.InsertBefore(node, fq.currentNone)
+		}
 	}
 	heap.Push(fq.queues[group].Queue(), item)
 	fq.totalMessages++
-- 
2.43.0


From a727c286c11ea7047973d94149d57a39c4c9cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:09 +0000
Subject: [PATCH 06/22] fix: DeleteRange must not reuse the iterator's key
 buffer in a transaction

---
 pkg/badger-store/badger_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1f867a6..ff3b738 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -224,7 +224,8 @@ func (b *BadgerStore) DeleteRange(min, max uint64) error {
 
 		for it.Seek(minKey); it.ValidForPrefix(dbLogs); it.Next() {
 			item := it.Item()
-			k := item.Key()
+			// the transaction keeps the key until it's committed
+			k := item.KeyCopy(nil)
 			lastKey = append([]byte{}, k...)
 
 			if bytesToUint64(k[len(dbLogs):]) > max {
-- 
2.43.0


From 3d6dfd916abccfce10b97315adb9084e2f3d5b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:38 +0000
Subject: [PATCH 07/22] fix: redelivery of expired messages must not interleave
 with other operations on the queue

---
 pkg/queue/badger_priority_queue.go | 66 +++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index d926f94..af17b3a 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -107,6 +107,9 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 }
 
 func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return &QueueInfo{
 		Name:    bpq.config.Name,
 		Type:    bpq.config.Type,
@@ -142,29 +145,39 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
-			for {
-				item := bpq.ackQueue.Dequeue()
-				if item == nil {
-					break
-				}
+			bpq.redeliverExpired()
+		case <-bpq.ackQueueMonitoringChan:
+			return
+		}
+	}
+}
 
-				message, err := bpq.GetByID(item.ID)
-				if err != nil {
-					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
-					continue
-				}
+// redeliverExpired puts the messages whose acknowledgement timeout has expired
+// back into the queue. Moving a message between the queues takes several steps,
+// so no other operation may run in between.
+func (bpq *BadgerPriorityQueue) redeliverExpired() {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
 
-				queueItem := &Item{
-					ID:       message.ID,
-					Priority: message.Priority,
-				}
+	for {
+		item := bpq.ackQueue.Dequeue()
+		if item == nil {
+			break
+		}
 
-				bpq.pq.Enqueue(message.Group, queueItem)
-				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
-			}
-		case <-bpq.ackQueueMonitoringChan:
-			return
+		message, err := bpq.GetByID(item.ID)
+		if err != nil {
+			log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+			continue
+		}
+
+		queueItem := &Item{
+			ID:       message.ID,
+			Priority: message.Priority,
 		}
+
+		bpq.pq.Enqueue(message.Group, queueItem)
+		log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 	}
 }
 
@@ -333,6 +346,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 }
 
 func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64, content string) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.config.Type != "fair" {
 		group = "default"
 	}
@@ -374,6 +390,9 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.pq.Len() == 0 {
 		return nil, ErrEmptyQueue
 	}
@@ -451,6 +470,9 @@ func (bpq *BadgerPriorityQueue) GetByID(id uint64) (*Message, error) {
 }
 
 func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	group := "default"
 
 	// Update BadgerDB
@@ -499,6 +521,9 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 }
 
 func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	queueItem := bpq.ackQueue.GetByID("default", id)
 
 	if queueItem == nil {
@@ -528,6 +553,9 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	item := bpq.ackQueue.GetByID("default", id)
 
 	if item == nil {
-- 
2.43.0


From f4217a9335e66e526e7e4edba594aeb2acab82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:05 +0000
Subject: [PATCH 08/22] fix: keep the queue size gauges up to date on
 redelivery and remove them with the queue

---
 pkg/queue/badger_priority_queue.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index af17b3a..4d7d8bd 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -152,6 +152,16 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	}
 }
 
+func (bpq *BadgerPriorityQueue) deletePrometheusQueueSizes() {
+	if bpq.cfg.Prometheus.Enabled {
+		labels := prometheus.Labels{"queue_name": bpq.config.Name}
+
+		bpq.PrometheusMetrics.messages.Delete(labels)
+		bpq.PrometheusMetrics.unackedMessages.Delete(labels)
+		bpq.PrometheusMetrics.readyMessages.Delete(labels)
+	}
+}
+
 // redeliverExpired puts the messages whose acknowledgement timeout has expired
 // back into the queue. Moving a message between the queues takes several steps,
 // so no other operation may run in between.
@@ -159,6 +169,8 @@ func (bpq *BadgerPriorityQueue) redeliverExpired() {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
 
+	redelivered := false
+
 	for {
 		item := bpq.ackQueue.Dequeue()
 		if item == nil {
@@ -178,6 +190,11 @@ func (bpq *BadgerPriorityQueue) redeliverExpired() {
 
 		bpq.pq.Enqueue(message.Group, queueItem)
 		log.Debug().Msgf("Re-enqueued message: %d", message.ID)
+		redelivered = true
+	}
+
+	if redelivered {
+		bpq.updatePrometheusQueueSizes()
 	}
 }
 
@@ -283,7 +300,7 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 	bpq.stats.Stop()
 
-	bpq.updatePrometheusQueueSizes()
+	bpq.deletePrometheusQueueSizes()
 
 	return nil
 }
-- 
2.43.0


From 4adbf50c8bed54c624575f2db1e684cf0ac1446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:05 +0000
Subject: [PATCH 09/22] fix: a stats window of less than one second must not
 crash the server

---
 pkg/queue/queue_stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index fa32e8b..f0a37d4 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -28,6 +28,10 @@ type queueStats struct {
 }
 
 func NewQueueStats(windowSize int) *queueStats {
+	if windowSize < 1 {
+		windowSize = 1
+	}
+
 	stats := &queueStats{
 		enqueueHistory: make([]uint64, windowSize),
 		dequeueHistory: make([]uint64, windowSize),
-- 
2.43.0


From f626287ee0a3c4f5a751683e81f70a236d504007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:51 +0000
Subject: [PATCH 10/22] fix: queue rates must not be read while the stats
 window is moving

---
 pkg/queue/queue_stats.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index f0a37d4..803db3f 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -1,6 +1,7 @@
 package queue
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -24,6 +25,9 @@ type queueStats struct {
 	nackHistory    []uint64
 	windowSize     int
 
+	// mu protects the history while the window moves
+	mu sync.Mutex
+
 	quit chan struct{}
 }
 
@@ -79,6 +83,9 @@ func (rc *queueStats) IncrementNack() {
 }
 
 func (rc *queueStats) UpdateWindow() {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
+
 	// Shift history to the left and store current counts
 	for i := 1; i < rc.windowSize; i++ {
 		rc.enqueueHistory[i-1] = rc.enqueueHistory[i]
@@ -93,6 +100,8 @@ func (rc *queueStats) UpdateWindow() {
 }
 
 func (rc *queueStats) GetRPS() *QueueStats {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
 
 	var totalEnqueue, totalDequeue, totalAck, totalNack uint64
 
-- 
2.43.0


From d35f1ba82e479f023bc2d80d2368f7ebef16adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:52 +0000
Subject: [PATCH 11/22] fix: a node must not take the address of another node
 whose name starts with its hostname for its own

---
 pkg/cluster/cluster.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 75561c9..e2c2b66 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -64,7 +64,8 @@ func (c *Cluster) Init() error {
 	for _, addr := range addrs {
 		log.Debug().Msgf("Discovered address: %s Current host: %s", addr, c.hostname)
 
-		if strings.HasPrefix(addr, c.hostname) {
+		// doq-1 must not take the address of doq-10 for its own
+		if strings.HasPrefix(addr, c.hostname+".") || strings.HasPrefix(addr, c.hostname+":") {
 			c.nodeID = addr
 		} else {
 			c.hosts = append(c.hosts, addr)
-- 
2.43.0


From a4639202f5ae8119ce9b662a7dd0352c53d23082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:54 +0000
Subject: [PATCH 12/22] fix: read the config file given by the --config flag

---
 pkg/config/config.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 34361b6..0365c20 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -106,14 +106,9 @@ func LoadConfig() (*Config, error) {
 }
 
 func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
-	if cfgFile != "" {
-		// Use config file from the flag
-		viper.SetConfigFile(cfgFile)
-	} else {
-		// Default config file
-		viper.AddConfigPath(".")
-		viper.SetConfigName("config")
-	}
+	// Default config file
+	viper.AddConfigPath(".")
+	viper.SetConfigName("config")
 
 	// Enable environment variable support
 	viper.AutomaticEnv()
@@ -126,7 +121,17 @@ func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Co
 	var rootCmd = &cobra.Command{
 		Use:   "doq",
 		Short: "DOQ is a distributed queue",
-		Run:   runFunc,
+		PreRunE: func(cmd *cobra.Command, args []string) error {
+			// The flags are known only by now
+			if cfgFile == "" {
+				return nil
+			}
+
+			// Use config file from the flag
+			viper.SetConfigFile(cfgFile)
+			return viper.ReadInConfig()
+		},
+		Run: runFunc,
 	}
 
 	// Command-line flags
-- 
2.43.0


From fd9f6ce843f5a4f3cc5e8a7e31e4c020e7801a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:55 +0000
Subject: [PATCH 13/22] fix: concurrent requests to a follower must not use a
 gRPC client that is not connected to the leader yet

---
 pkg/grpc/proxy.go | 74 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 24d9172..c6b704b 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -3,6 +3,7 @@ package grpc
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
@@ -13,6 +14,8 @@ type GRPCProxy struct {
 	client pb.DOQClient
 	leader string
 	port   int
+
+	mu sync.Mutex
 }
 
 func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
@@ -22,9 +25,21 @@ func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 	}
 }
 
-func (p *GRPCProxy) initClient(leader string) {
-	p.leader = leader
+// getClient returns a client connected to the leader
+func (p *GRPCProxy) getClient(leader string) (pb.DOQClient, error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.leader != leader {
+		if err := p.initClient(leader); err != nil {
+			return nil, err
+		}
+	}
 
+	return p.client, nil
+}
+
+func (p *GRPCProxy) initClient(leader string) error {
 	host := leader
 
 	if p.port != 0 {
@@ -33,72 +48,83 @@ func (p *GRPCProxy) initClient(leader string) {
 
 	conn, err := grpc.Dial(host, grpc.WithInsecure())
 	if err != nil {
-		log.Fatal().Msgf("Failed to connect: %v", err)
+		log.Error().Msgf("Failed to connect: %v", err)
+		return fmt.Errorf("failed to connect to the leader node %s", leader)
 	}
 	// defer conn.Close()
 
+	p.leader = leader
 	p.client = pb.NewDOQClient(conn)
+
+	return nil
 }
 
 func (p *GRPCProxy) CreateQueue(ctx context.Context, host string, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	log.Debug().Msgf("PROXY CreateQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.CreateQueue(ctx, req)
+	return client.CreateQueue(ctx, req)
 }
 
 func (p *GRPCProxy) DeleteQueue(ctx context.Context, host string, req *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
 	log.Debug().Msgf("PROXY DeleteQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.DeleteQueue(ctx, req)
+	return client.DeleteQueue(ctx, req)
 }
 
 func (p *GRPCProxy) Enqueue(ctx context.Context, host string, req *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
 	log.Debug().Msgf("PROXY Enqueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Enqueue(ctx, req)
+	return client.Enqueue(ctx, req)
 }
 
 func (p *GRPCProxy) Dequeue(ctx context.Context, host string, req *pb.DequeueRequest) (*pb.DequeueResponse, error) {
 	log.Debug().Msgf("PROXY Dequeue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Dequeue(ctx, req)
+	return client.Dequeue(ctx, req)
 }
 
 func (p *GRPCProxy) Ack(ctx context.Context, host string, req *pb.AckRequest) (*pb.AckResponse, error) {
 	log.Debug().Msgf("PROXY Ack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Ack(ctx, req)
+	return client.Ack(ctx, req)
 }
 
 func (p *GRPCProxy) Nack(ctx context.Context, host string, req *pb.NackRequest) (*pb.NackResponse, error) {
 	log.Debug().Msgf("PROXY Nack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Nack(ctx, req)
+	return client.Nack(ctx, req)
 }
 
 func (p *GRPCProxy) UpdatePriority(ctx context.Context, host string, req *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
 	log.Debug().Msgf("PROXY UpdatePriority: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.UpdatePriority(ctx, req)
+	return client.UpdatePriority(ctx, req)
 }
-- 
2.43.0


From 4f54f9e34a2f9ad84dce5e002f832230c2fad6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 14/22] fix: a follower that knows no leader must not forward
 requests to itself

---
 pkg/grpc/proxy.go |  9 +++++++++
 pkg/http/proxy.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index c6b704b..77e4e41 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -8,8 +8,12 @@ import (
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
+var ErrNoLeader = status.Error(codes.Unavailable, "there is no leader at the moment")
+
 type GRPCProxy struct {
 	client pb.DOQClient
 	leader string
@@ -27,6 +31,11 @@ func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 
 // getClient returns a client connected to the leader
 func (p *GRPCProxy) getClient(leader string) (pb.DOQClient, error) {
+	if leader == "" {
+		// without a host the follower would forward the request to itself
+		return nil, ErrNoLeader
+	}
+
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index d1053b5..fbd9abc 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -23,6 +23,12 @@ func NewProxy(client *http.Client, port string) *Proxy {
 	}
 }
 
+// errNoLeader is returned when there is no leader to forward a request to. Without
+// a host the follower would forward the request to itself.
+func errNoLeader() huma.StatusError {
+	return huma.Error503ServiceUnavailable("There is no leader at the moment")
+}
+
 func (p *Proxy) getHost(host string) string {
 	if p.port != "" {
 		return fmt.Sprintf("http://%s:%s", host, p.port)
@@ -34,6 +40,9 @@ func (p *Proxy) getHost(host string) string {
 func (p *Proxy) CreateQueue(
 	ctx context.Context, host string, body *CreateQueueInputBody,
 ) (*CreateQueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
 
 	bodyB, err := json.Marshal(body)
 	if err != nil {
@@ -74,6 +83,10 @@ func (p *Proxy) CreateQueue(
 func (p *Proxy) DeleteQueue(
 	ctx context.Context, host string, queueName string,
 ) (*DeleteQueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
+
 	req, err := http.NewRequest(
 		"DELETE",
 		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), queueName),
@@ -104,6 +117,10 @@ func (p *Proxy) DeleteQueue(
 }
 
 func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body *EnqueueInputBody) (*EnqueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
@@ -143,6 +160,10 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 func (p *Proxy) Dequeue(
 	ctx context.Context, host string, queueName string, ack bool,
 ) (*DequeueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
+
 	req, err := http.NewRequest(
 		"GET",
 		fmt.Sprintf(
@@ -183,6 +204,10 @@ func (p *Proxy) Ack(
 	queueName string,
 	id uint64,
 ) (*AckOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
+
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
@@ -221,6 +246,10 @@ func (p *Proxy) Nack(
 	queueName string,
 	id uint64,
 ) (*NackOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
+
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
@@ -260,6 +289,10 @@ func (p *Proxy) UpdatePriority(
 	id uint64,
 	body *UpdatePriorityInputBody,
 ) (*UpdatePriorityOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, errNoLeader()
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
-- 
2.43.0


From 334b8968a590de4f6c1787b7d7c65288de1c995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:42 +0000
Subject: [PATCH 15/22] fix: decode queue names in URLs

---
 pkg/http/messages.go | 20 +++++++++++++++-----
 pkg/http/proxy.go    | 13 +++++++------
 pkg/http/queues.go   |  4 ++--
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/pkg/http/messages.go b/pkg/http/messages.go
index 3513439..a8887cb 100644
--- a/pkg/http/messages.go
+++ b/pkg/http/messages.go
@@ -3,6 +3,7 @@ package http
 import (
 	"context"
 	"net/http"
+	"net/url"
 	"strconv"
 
 	"github.com/danielgtaylor/huma/v2"
@@ -18,8 +19,17 @@ type (
 	}
 )
 
+// unescapeQueueName decodes a queue name taken from the path of a request
+func unescapeQueueName(name string) string {
+	unescaped, err := url.PathUnescape(name)
+	if err != nil {
+		return name
+	}
+	return unescaped
+}
+
 func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 	group := input.Body.Group
 	priority := input.Body.Priority
 	content := input.Body.Content
@@ -58,7 +68,7 @@ func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOut
 }
 
 func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Dequeue(ctx, h.node.Leader(), queueName, input.Ack)
@@ -92,7 +102,7 @@ func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOut
 }
 
 func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Ack(ctx, h.node.Leader(), queueName, input.ID)
@@ -124,7 +134,7 @@ func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error)
 }
 
 func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Nack(ctx, h.node.Leader(), queueName, input.ID)
@@ -156,7 +166,7 @@ func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, erro
 }
 
 func (h *Handler) UpdatePriority(ctx context.Context, input *UpdatePriorityInput) (*UpdatePriorityOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 	priority := input.Body.Priority
 
 	if !h.node.IsLeader() {
diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index fbd9abc..0b7d52e 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/danielgtaylor/huma/v2"
 	"github.com/rs/zerolog/log"
@@ -89,7 +90,7 @@ func (p *Proxy) DeleteQueue(
 
 	req, err := http.NewRequest(
 		"DELETE",
-		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), queueName),
+		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), url.PathEscape(queueName)),
 		nil,
 	)
 	if err != nil {
@@ -128,7 +129,7 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/API/v1/queues/%s/messages", p.getHost(host), queueName),
+		fmt.Sprintf("%s/API/v1/queues/%s/messages", p.getHost(host), url.PathEscape(queueName)),
 		bytes.NewBuffer(bodyB),
 	)
 	if err != nil {
@@ -169,7 +170,7 @@ func (p *Proxy) Dequeue(
 		fmt.Sprintf(
 			"%s/API/v1/queues/%s/messages?ack=%s",
 			p.getHost(host),
-			queueName,
+			url.PathEscape(queueName),
 			fmt.Sprint(ack),
 		),
 		nil,
@@ -211,7 +212,7 @@ func (p *Proxy) Ack(
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
-			"%s/API/v1/queues/%s/messages/%d/ack", p.getHost(host), queueName, id,
+			"%s/API/v1/queues/%s/messages/%d/ack", p.getHost(host), url.PathEscape(queueName), id,
 		),
 		nil,
 	)
@@ -253,7 +254,7 @@ func (p *Proxy) Nack(
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
-			"%s/API/v1/queues/%s/messages/%d/nack", p.getHost(host), queueName, id,
+			"%s/API/v1/queues/%s/messages/%d/nack", p.getHost(host), url.PathEscape(queueName), id,
 		),
 		nil,
 	)
@@ -303,7 +304,7 @@ func (p *Proxy) UpdatePriority(
 		fmt.Sprintf(
 			"%s/API/v1/queues/%s/messages/%d/priority",
 			p.getHost(host),
-			queueName,
+			url.PathEscape(queueName),
 			id,
 		),
 		bytes.NewBuffer(bodyB),
diff --git a/pkg/http/queues.go b/pkg/http/queues.go
index ba9822b..7b22418 100644
--- a/pkg/http/queues.go
+++ b/pkg/http/queues.go
@@ -43,7 +43,7 @@ func (h *Handler) CreateQueue(ctx context.Context, input *CreateQueueInput) (*Cr
 }
 
 func (h *Handler) DeleteQueue(ctx context.Context, input *DeleteQueueInput) (*DeleteQueueOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.DeleteQueue(ctx, h.node.Leader(), queueName)
@@ -102,7 +102,7 @@ func (h *Handler) Queues(ctx context.Context, input *QueuesInput) (*QueuesOutput
 }
 
 func (h *Handler) QueueInfo(ctx context.Context, input *QueueInfoInput) (*QueueInfoOutput, error) {
-	queueName := input.QueueName
+	queueName := unescapeQueueName(input.QueueName)
 
 	queueInfo, err := h.node.GetQueueInfo(queueName)
 
-- 
2.43.0


From d3f83de035be0899cedf12c3bb477ab986491c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:07 +0000
Subject: [PATCH 16/22] fix: replaying a dequeue must not take a message that
 was not due yet

---
 pkg/queue/badger_priority_queue.go  |  7 ++++++-
 pkg/queue/delayed_priority_queue.go |  7 ++++++-
 pkg/queue/fair_priority_queue.go    |  6 ++++++
 pkg/queue/queue.go                  |  3 +++
 pkg/raft/fsm.go                     | 13 ++++++++++---
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 4d7d8bd..50505e6 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -407,6 +407,11 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	return bpq.DequeueAt(ack, time.Now())
+}
+
+// DequeueAt dequeues a message that is due at the given time
+func (bpq *BadgerPriorityQueue) DequeueAt(ack bool, now time.Time) (*Message, error) {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
 
@@ -414,7 +419,7 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 		return nil, ErrEmptyQueue
 	}
 
-	queueItem := bpq.pq.Dequeue()
+	queueItem := bpq.pq.DequeueAt(now)
 	if queueItem == nil {
 		return nil, ErrEmptyQueue
 	}
diff --git a/pkg/queue/delayed_priority_queue.go b/pkg/queue/delayed_priority_queue.go
index 659be46..63fcd95 100644
--- a/pkg/queue/delayed_priority_queue.go
+++ b/pkg/queue/delayed_priority_queue.go
@@ -25,6 +25,11 @@ func (pq *DelayedPriorityQueue) Enqueue(group string, item *Item) {
 }
 
 func (pq *DelayedPriorityQueue) Dequeue() *Item {
+	return pq.DequeueAt(time.Now())
+}
+
+// DequeueAt removes and returns the next message that is due at the given time
+func (pq *DelayedPriorityQueue) DequeueAt(now time.Time) *Item {
 	pq.mu.Lock()
 	defer pq.mu.Unlock()
 
@@ -34,7 +39,7 @@ func (pq *DelayedPriorityQueue) Dequeue() *Item {
 
 	queueItem := pq.queue.Peek().(*Item)
 
-	if int64(queueItem.Priority) > time.Now().UTC().Unix() {
+	if int64(queueItem.Priority) > now.UTC().Unix() {
 		// Delayed message handling
 		// If a priority is in the future, return nil
 		return nil
diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 5a30ba0..71c6d0c 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -3,6 +3,7 @@ package queue
 import (
 	"container/heap"
 	"sync"
+	"time"
 )
 
 type LinkedListNode struct {
@@ -155,6 +156,11 @@ func (fq *FairPriorityQueue) Dequeue() *Item {
 	return item
 }
 
+// DequeueAt is the same as Dequeue, the messages of a fair queue are not delayed
+func (fq *FairPriorityQueue) DequeueAt(now time.Time) *Item {
+	return fq.Dequeue()
+}
+
 func (fq *FairPriorityQueue) GetByID(group string, id uint64) *Item {
 	fq.mu.RLock()
 	defer fq.mu.RUnlock()
diff --git a/pkg/queue/queue.go b/pkg/queue/queue.go
index 9eb1900..d278d20 100644
--- a/pkg/queue/queue.go
+++ b/pkg/queue/queue.go
@@ -1,8 +1,11 @@
 package queue
 
+import "time"
+
 type Queue interface {
 	Enqueue(group string, item *Item)
 	Dequeue() *Item
+	DequeueAt(now time.Time) *Item
 	GetByID(group string, id uint64) *Item
 	DeleteByID(group string, id uint64) *Item
 	UpdatePriority(group string, id uint64, priority int64)
diff --git a/pkg/raft/fsm.go b/pkg/raft/fsm.go
index ca337fb..a90a140 100644
--- a/pkg/raft/fsm.go
+++ b/pkg/raft/fsm.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"time"
 
 	"github.com/hashicorp/raft"
 	"github.com/kgantsov/doq/pkg/config"
@@ -177,7 +178,7 @@ func (f *FSM) Apply(raftLog *raft.Log) interface{} {
 		if !ok {
 			return &FSMResponse{error: fmt.Errorf("Failed to decode payload: %v %v", c, c.Payload)}
 		}
-		return f.dequeueApply(payload)
+		return f.dequeueApply(payload, raftLog.AppendedAt)
 	case "ack":
 		payload, ok := c.Payload.(AckPayload)
 		if !ok {
@@ -243,7 +244,13 @@ func (f *FSM) enqueueApply(payload EnqueuePayload) *FSMResponse {
 	}
 }
 
-func (f *FSM) dequeueApply(payload DequeuePayload) *FSMResponse {
+func (f *FSM) dequeueApply(payload DequeuePayload, now time.Time) *FSMResponse {
+	// A message is due or not according to the time the leader got the command at.
+	// The log is applied again on restart, and by the other nodes, at another time.
+	if now.IsZero() {
+		now = time.Now()
+	}
+
 	q, err := f.queueManager.GetQueue(payload.QueueName)
 	if err != nil {
 		return &FSMResponse{
@@ -252,7 +259,7 @@ func (f *FSM) dequeueApply(payload DequeuePayload) *FSMResponse {
 		}
 	}
 
-	msg, err := q.Dequeue(payload.Ack)
+	msg, err := q.DequeueAt(payload.Ack, now)
 
 	log.Debug().Msgf("Node %s Dequeued a message: %+v %v", f.NodeID, msg, err)
 
-- 
2.43.0


From 265ba1954d4f21b5e3a6cef0ef2133a5c99ca0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:48 +0000
Subject: [PATCH 17/22] fix: an empty value in the stable store must not be
 reported as missing

---
 pkg/badger-store/badger_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index ff3b738..705ca29 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -288,7 +288,7 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 
 	val, err := item.ValueCopy(nil)
 
-	if val == nil || err != nil {
+	if err != nil {
 		return nil, ErrKeyNotFound
 	}
 	return append([]byte(nil), val...), nil
-- 
2.43.0


From 705557f86410f25d33e58d8184116b3693f7a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:54 +0000
Subject: [PATCH 18/22] fix: keep the known address when the lookup fails on
 becoming leader

---
 pkg/cluster/cluster.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index e2c2b66..140f06c 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -121,8 +121,9 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 		ip, err := c.serviceDiscovery.IP()
 		if err != nil {
 			log.Error().Msgf("Couldn't lookup the IP: %v\n", err)
+		} else {
+			c.ip = ip
 		}
-		c.ip = ip
 
 		log.Info().Msgf("Leader changed, updating EndpointSlice with IP: %s\n", c.ip)
 
-- 
2.43.0


From c834fd504e6861fb92a320be717104f07bf01a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 19/22] fix: take the cache sizes in MB as documented

---
 cmd/server/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 517b53e..9f2a3ad 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -97,11 +97,11 @@ func Run(cmd *cobra.Command, args []string) {
 		opts = opts.WithZSTDCompressionLevel(config.Storage.ZSTDCompressionLevel)
 	}
 	if config.Storage.BlockCacheSize > 0 {
-		opts = opts.WithBlockCacheSize(config.Storage.BlockCacheSize)
+		opts = opts.WithBlockCacheSize(config.Storage.BlockCacheSize << 20) // given in MB
 	}
 
 	if config.Storage.IndexCacheSize > 0 {
-		opts = opts.WithIndexCacheSize(config.Storage.IndexCacheSize)
+		opts = opts.WithIndexCacheSize(config.Storage.IndexCacheSize << 20) // given in MB
 	}
 	if config.Storage.BaseTableSize > 0 {
 		opts = opts.WithBaseTableSize(config.Storage.BaseTableSize)
-- 
2.43.0


From 1ee3aa6be422bd7e9e95617d7674f6b5861d95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 20/22] fix: point the service at a node that has become leader
 by bootstrapping the cluster

---
 cmd/server/main.go     | 6 ++++++
 pkg/cluster/cluster.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 9f2a3ad..feb0490 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -178,6 +178,12 @@ func Run(cmd *cobra.Command, args []string) {
 
 	node.InitIDGenerator()
 
+	// A node that bootstraps a cluster is its leader before anybody listens to leader
+	// changes. By now a node that has joined another cluster is not a leader any more.
+	if config.Cluster.ServiceName != "" && node.IsLeader() {
+		go cl.LeaderChanged(true)
+	}
+
 	if config.Grpc.Address != "" {
 		lis, err := net.Listen("tcp", config.Grpc.Address)
 		if err != nil {
diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 140f06c..e6230f2 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/rs/zerolog/log"
 	discoveryv1 "k8s.io/api/discovery/v1"
@@ -27,6 +28,9 @@ type Cluster struct {
 
 	clientset           kubernetes.Interface
 	inClusterConfigFunc func() (*rest.Config, error)
+
+	// mu lets only one leader change be handled at a time
+	mu sync.Mutex
 }
 
 func NewCluster(serviceDiscovery ServiceDiscovery, namespace, ServiceName, httpAddr string) *Cluster {
@@ -117,6 +121,9 @@ func (c *Cluster) Hosts() []string {
 }
 
 func (c *Cluster) LeaderChanged(isLeader bool) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	if isLeader {
 		ip, err := c.serviceDiscovery.IP()
 		if err != nil {
-- 
2.43.0


From 308d9e3f31b17e23c874c971522c52420d57e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:22 +0000
Subject: [PATCH 21/22] fix: store a batch of raft logs that does not fit into
 one transaction

A follower that has missed more than 15 % of the memtable size (9.6 MB by
default) of messages gets them in batches of up to 64 entries and refused
every batch with ErrTxnTooBig, so that it never caught up. Concurrent large
enqueues failed on the leader in the same way.

The batch goes on in a new transaction; a batch stored in part by a crash is
a prefix, which raft expects.
---
 pkg/badger-store/badger_store.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 705ca29..2cf76c2 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -188,7 +188,7 @@ func (b *BadgerStore) StoreLogs(logs []*raft.Log) error {
 	log.Debug().Msgf("Storing logs: %+v", logs)
 
 	txn := b.db.NewTransaction(true)
-	defer txn.Discard()
+	defer func() { txn.Discard() }()
 
 	for _, log := range logs {
 		key := uint64ToBytes(log.Index)
@@ -197,7 +197,16 @@ func (b *BadgerStore) StoreLogs(logs []*raft.Log) error {
 			return err
 		}
 
-		if err := txn.Set(addPrefix(dbLogs, key), val.Bytes()); err != nil {
+		err = txn.Set(addPrefix(dbLogs, key), val.Bytes())
+		if err == badger.ErrTxnTooBig {
+			// the batch doesn't fit into one transaction, go on in the next one
+			if err := txn.Commit(); err != nil {
+				return err
+			}
+			txn = b.db.NewTransaction(true)
+			err = txn.Set(addPrefix(dbLogs, key), val.Bytes())
+		}
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 301ad8f6a4775c91bafb2ae383630da9ccdc1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:24 +0000
Subject: [PATCH 22/22] fix: keep a message whose dequeue or acknowledgement
 could not be written

---
 pkg/queue/badger_priority_queue.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 50505e6..b818ce9 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -458,6 +458,10 @@ func (bpq *BadgerPriorityQueue) DequeueAt(ack bool, now time.Time) (*Message, er
 	})
 
 	if err != nil {
+		if msg != nil {
+			// the message couldn't be removed, so it stays in the queue
+			bpq.pq.Enqueue(msg.Group, queueItem)
+		}
 		return nil, err
 	}
 
@@ -553,18 +557,14 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 	}
 
 	err := bpq.db.Update(func(txn *badger.Txn) error {
-		err := txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		if err != nil {
-			return err
-		}
-		bpq.ackQueue.DeleteByID("default", queueItem.ID)
-
-		return nil
+		return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
 	})
 	if err != nil {
 		return err
 	}
 
+	bpq.ackQueue.DeleteByID("default", queueItem.ID)
+
 	bpq.stats.IncrementAck()
 	if bpq.cfg.Prometheus.Enabled {
 		bpq.PrometheusMetrics.ackTotal.With(prometheus.Labels{"queue_name": bpq.config.Name}).Inc()
-- 
2.43.0

