From d265d281ceaece0ac9abd8b9f5c5cd36c2934fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 01/40] fix: sendSignMessaged leaked and re-entered the node
 lock

An unknown party made it return with nodeLock read-locked, and the read lock was
taken again by getNodeFromPeerId while held, which deadlocks with a waiting writer.
---
 core/engine.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..c4e9d0c 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -356,7 +356,6 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 
 	// Converts pids => peerIds
 	peerIds := make([]peer.ID, 0, len(pIDs))
-	engine.nodeLock.RLock()
 	for _, pid := range pIDs {
 		if pid.Id == engine.myPid.Id {
 			// Don't send to ourself.
@@ -372,7 +371,6 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 
 		peerIds = append(peerIds, node.PeerId)
 	}
-	engine.nodeLock.RUnlock()
 
 	// Write to stream
 	for _, peerId := range peerIds {
-- 
2.43.0


From 108dae7a0752d2e124fb79e1ee42c562264b7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 02/40] fix: ProcessNewMessage took workLock twice for reading

A writer arriving between the two acquisitions deadlocks the engine.
---
 core/engine.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index c4e9d0c..0b536c7 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -194,7 +194,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
@@ -290,13 +290,6 @@ func (engine *defaultEngine) getNodeFromPeerId(peerId string) *Node {
 	return engine.nodes[peerId]
 }
 
-func (engine *defaultEngine) getWorker(workId string) worker.Worker {
-	engine.workLock.RLock()
-	defer engine.workLock.RUnlock()
-
-	return engine.workers[workId]
-}
-
 // Broadcast a message to everyone in a list.
 func (engine *defaultEngine) BroadcastMessage(pIDs []*tss.PartyID, tssMessage *common.TssMessage) {
 	if tssMessage.To == engine.myPid.Id {
-- 
2.43.0


From 50c68f4a5e4cfa85896ab4a6723bc7fd52418d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 03/40] fix: finishWorker iterated the worker table without its
 lock

---
 core/engine.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 0b536c7..3ea0603 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -250,14 +250,12 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
-
-	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
-	log.Verbosef(s)
+	engine.workLock.Unlock()
+	log.Verbose(s)
 
 	// Start next work
 	engine.startNextWork()
-- 
2.43.0


From 078ed108d4b58650aa43501be15f4f8f7f4fa684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 04/40] fix: OnAskMessage iterated the node table without its
 lock

---
 core/engine.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 3ea0603..62adbdb 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -231,10 +231,8 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
-	for _, node := range engine.nodes {
-		if node.PartyId.Id == tssMsg.From {
-			dest = node.PartyId
-		}
+	if node := engine.getNodeFromPeerId(tssMsg.From); node != nil {
+		dest = node.PartyId
 	}
 
 	if dest != nil {
-- 
2.43.0


From 106f4c952ebdeba6cfef704e1be9b9f9289fc4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 05/40] fix: a malformed ask message crashed the node

A missing request body was dereferenced, and an empty message key yielded no parts
and no error, so the sender part was read out of range.
---
 core/engine.go              | 4 ++++
 types/common/tss_message.go | 3 ---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 62adbdb..89ebca7 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -213,6 +213,10 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 }
 
 func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error {
+	if tssMsg.AskRequestMessage == nil {
+		return fmt.Errorf("ask message has no request, from = %s", tssMsg.From)
+	}
+
 	msgKey := tssMsg.AskRequestMessage.MsgKey
 	keys, err := commonTypes.ExtractMessageKey(msgKey)
 	if err != nil {
diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..99f61b4 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,9 +115,6 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
 	keys := strings.Split(msgKey, "__")
 	if len(keys) < 4 {
 		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
-- 
2.43.0


From 3c99b050d65dc34bd31fe80bea3be91751674d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 06/40] fix: popping cached messages leaked other senders'
 messages into each sender's list

The list of kept messages was shared by all senders, so messages were duplicated and
the per-sender bound was exceeded.
---
 core/cache/message_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..bbfba4d 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,12 +60,12 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
+		newList := make([]*commonTypes.TssMessage, 0)
 
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
-- 
2.43.0


From 6d95aaba00f352ed47182e4e251b55b5fa4f6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 07/40] fix: inserting into the middle of the request queue
 overwrote a queued work

The first append wrote into the array the rest of the queue still aliased.
---
 core/request_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..58eb90f 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -54,7 +54,7 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		first := q.queue[:position+1]
 		second := q.queue[position+1:]
 
-		q.queue = append(first, work)
+		q.queue = append(append([]*types.WorkRequest{}, first...), work)
 		q.queue = append(q.queue, second...)
 	}
 
-- 
2.43.0


From cb9aa64e7d8ef75699b29bef1a533ff0e90a3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 08/40] fix: GetAvailablePresigns returned with its lock held
 when another work consumed the set

---
 core/components/available_presign_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..895d8d1 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -142,6 +142,7 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 				delete(m.available, selectedPidstring)
 			}
 		} else {
+			m.lock.Unlock()
 			return []string{}, []*tss.PartyID{}
 		}
 	}
-- 
2.43.0


From c7b603293c138f276a5b8642cf10129c6b39707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 09/40] fix: pending keysign requests were unsynchronised and
 could miss or outlive their work

---
 core/heart.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..e08f12c 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -6,6 +6,7 @@ import (
 
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -52,6 +53,7 @@ type Heart struct {
 	aesKey     []byte
 
 	keysignRequests map[string]*htypes.KeysignRequest
+	keysignLock     sync.Mutex
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
@@ -187,21 +189,26 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	result.Request = h.takeKeysignRequest(request.WorkId)
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
+}
+
+// takeKeysignRequest removes and returns the pending client request of a work.
+func (h *Heart) takeKeysignRequest(workId string) *htypes.KeysignRequest {
+	h.keysignLock.Lock()
+	defer h.keysignLock.Unlock()
+
+	request := h.keysignRequests[workId]
+	delete(h.keysignRequests, workId)
 
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
+	return request
 }
 
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
-
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		result := htypes.KeygenResult{
@@ -213,7 +220,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  clientRequest,
+			Request:  h.takeKeysignRequest(request.WorkId),
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -371,9 +378,17 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := h.engine.AddRequest(workRequest)
-
+	// The work can end before AddRequest returns. Its client request has to be in the pending list
+	// by then.
+	h.keysignLock.Lock()
+	_, pending := h.keysignRequests[workRequest.WorkId]
 	h.keysignRequests[workRequest.WorkId] = req
+	h.keysignLock.Unlock()
+
+	err := h.engine.AddRequest(workRequest)
+	if err != nil && !pending {
+		h.takeKeysignRequest(workRequest.WorkId)
+	}
 
 	return err
 }
-- 
2.43.0


From ce6888d18fb317a6ff289806410df5211676bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 10/40] fix: the signature and the author of a network message
 were not checked

---
 core/engine.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index 89ebca7..9a6ff93 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -412,7 +412,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	// TODO: Check message signature here.
+	if err := engine.verifySignedMessage(signedMessage); err != nil {
+		log.Error("Message is not authentic, err = ", err)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
@@ -423,6 +427,30 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 	}
 }
 
+// verifySignedMessage checks that a message was produced by the party it claims to be from. This party
+// could be different from the peer who delivers the message.
+func (engine *defaultEngine) verifySignedMessage(signedMessage *common.SignedMessage) error {
+	if signedMessage.TssMessage.From != signedMessage.From {
+		return fmt.Errorf("message from %s is signed by %s", signedMessage.TssMessage.From, signedMessage.From)
+	}
+
+	author := engine.getNodeFromPeerId(signedMessage.From)
+	if author == nil {
+		return fmt.Errorf("cannot find node %s", signedMessage.From)
+	}
+
+	serialized, err := json.Marshal(signedMessage.TssMessage)
+	if err != nil {
+		return err
+	}
+
+	if !author.PubKey.VerifySignature(serialized, signedMessage.Signature) {
+		return fmt.Errorf("invalid signature from %s", signedMessage.From)
+	}
+
+	return nil
+}
+
 func (engine *defaultEngine) GetActiveWorkerCount() int {
 	engine.workLock.RLock()
 	defer engine.workLock.RUnlock()
-- 
2.43.0


From 0878f31d38e7e5f1bd29407df5746b53ca7fde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 11/40] fix: two starts could exceed the worker limit and
 replace a running worker

---
 core/engine.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 9a6ff93..83a4fd7 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -148,7 +148,7 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold workLock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +165,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +172,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -266,15 +262,20 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // startNextWork gets a request from the queue (if not empty) and execute it. If there is no
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
+	// Checking the worker limit and adding the new worker must happen in the same critical section.
 	engine.workLock.Lock()
+	defer engine.workLock.Unlock()
+
 	if len(engine.workers) >= MaxWorker {
 		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
 		return
 	}
 
 	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
+	for nextWork != nil && engine.workers[nextWork.WorkId] != nil {
+		log.Warn("Work is already running, workId = ", nextWork.WorkId)
+		nextWork = engine.requestQueue.Pop()
+	}
 
 	if nextWork == nil {
 		return
-- 
2.43.0


From 0e4883dc83de185d0ca1733bd1b43262198a3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 12/40] fix: no result was posted when this node is not
 selected for an eddsa signing

---
 core/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 83a4fd7..67581a9 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -462,10 +462,10 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From d3ab4f326cca9d0da71cd0df1295da9e1ba7dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 13/40] fix: keygen and keysign requests which cannot be served
 crashed or were silently dropped

---
 core/heart.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index e08f12c..218b3a8 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -316,6 +316,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEcKeygenRequest(keyType, workId, sorted, utils.GetThreshold(n), nil)
 	case libchain.KEY_TYPE_EDDSA:
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
+	default:
+		return fmt.Errorf("unsupported key type: %s", keyType)
 	}
 
 	return h.engine.AddRequest(request)
@@ -330,6 +332,10 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return ErrDheartNotReady
 	}
 
+	if len(req.KeysignMessages) == 0 {
+		return fmt.Errorf("there is no message to sign")
+	}
+
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
 	pids := make([]*tss.PartyID, n)
@@ -360,6 +366,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		if err != nil {
 			return err
 		}
+		if presignInput == nil {
+			return fmt.Errorf("there is no keygen data for key type %s", req.KeyType)
+		}
 		workRequest = types.NewEcSigningRequest(
 			workId,
 			pids,
@@ -371,11 +380,16 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
+		}
+		if keygenData == nil {
+			return fmt.Errorf("there is no keygen data for key type %s", req.KeyType)
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+	default:
+		return fmt.Errorf("unsupported key type: %s", req.KeyType)
 	}
 
 	// The work can end before AddRequest returns. Its client request has to be in the pending list
-- 
2.43.0


From 311b325d9b861321f11f3538bc1c5d46beb5ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 14/40] fix: SetSisuReady(false) marked the heart ready

---
 core/heart.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index 218b3a8..0451f9c 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -235,7 +235,15 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	if isReady && h.cm == nil {
+		log.Error("Private key has not been set, dheart cannot be ready")
+		return
+	}
+
+	h.ready.Store(isReady)
+	if !isReady {
+		return
+	}
 
 	// Sisu is ready, we are now ready to process messages from network.
 	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
-- 
2.43.0


From 227b681b260cd389f854b07f3a302f79151835e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 15/40] fix: malformed keys and ciphertexts panicked, and a
 failed start could not be retried

---
 core/heart.go   | 8 ++++++++
 store/store.go  | 5 +++++
 utils/crypto.go | 6 +++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index 0451f9c..1ad35d9 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -282,8 +282,14 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 
 	switch tendermintKeyType {
 	case "ed25519":
+		if len(decrypted) != ed25519.PrivKeySize {
+			return fmt.Errorf("Invalid ed25519 private key size: %d", len(decrypted))
+		}
 		h.privateKey = &ed25519.PrivKey{Key: decrypted}
 	case "secp256k1":
+		if len(decrypted) != secp256k1.PrivKeySize {
+			return fmt.Errorf("Invalid secp256k1 private key size: %d", len(decrypted))
+		}
 		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
 	default:
 		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
@@ -291,6 +297,8 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 
 	err = h.initConnectionManager()
 	if err != nil {
+		// Nothing has been started with this key. Allow the key to be set again.
+		h.privateKey = nil
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
 
diff --git a/store/store.go b/store/store.go
index 4a97b4a..ac3bf96 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, errors.New("encrypted value is too short")
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..abc6616 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,10 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("encrypted data is too short, len = %d", len(encrypted))
+	}
+
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
@@ -76,7 +80,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From c256c544574115535a67fa511e7017cd8828f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 16/40] fix: an invalid public key in a request or in the peer
 list panicked

---
 core/heart.go     | 11 +++++++++--
 core/node.go      | 15 ++++++++++-----
 server/tss_api.go | 14 ++++----------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 1ad35d9..080d50b 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -313,9 +313,12 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
-	h.valPubkeys = tPubKeys
-
 	nodes := NewNodes(tPubKeys)
+	if len(nodes) != n {
+		return fmt.Errorf("some public keys are invalid")
+	}
+
+	h.valPubkeys = tPubKeys
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
 	pids := make([]*tss.PartyID, n)
@@ -354,6 +357,10 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
+	if len(nodes) != n {
+		return fmt.Errorf("some public keys are invalid")
+	}
+
 	pids := make([]*tss.PartyID, n)
 	for i, node := range nodes {
 		pids[i] = node.PartyId
diff --git a/core/node.go b/core/node.go
index bad9ea0..c211541 100644
--- a/core/node.go
+++ b/core/node.go
@@ -47,13 +47,18 @@ func NewNode(pubKey ctypes.PubKey) *Node {
 }
 
 func NewNodes(tPubKeys []ctypes.PubKey) []*Node {
-	nodes := make([]*Node, len(tPubKeys))
-	pids := make([]*tss.PartyID, len(tPubKeys))
+	nodes := make([]*Node, 0, len(tPubKeys))
+	pids := make([]*tss.PartyID, 0, len(tPubKeys))
 
-	for i, pubKey := range tPubKeys {
+	for _, pubKey := range tPubKeys {
 		node := NewNode(pubKey)
-		nodes[i] = node
-		pids[i] = node.PartyId
+		if node == nil {
+			// The key is not valid. The error has been logged.
+			continue
+		}
+
+		nodes = append(nodes, node)
+		pids = append(pids, node.PartyId)
 	}
 
 	// Sort nodes by partyId
diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..81167fb 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
-- 
2.43.0


From b572e044d03270369c77c09ab6a42ab98bb15c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 17/40] fix: peers were saved without their values and loaded
 with a wrong key type

---
 db/database.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..c7319e0 100644
--- a/db/database.go
+++ b/db/database.go
@@ -532,7 +532,12 @@ func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0, len(peers)*3)
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -562,7 +567,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From c8500b4fd6950c5422b73cae2ddac4e214f900f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 18/40] fix: LoadPresign returned presigns in another order
 than requested and ignored missing ones

---
 db/database.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/db/database.go b/db/database.go
index c7319e0..8fcc5af 100644
--- a/db/database.go
+++ b/db/database.go
@@ -445,7 +445,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -459,11 +459,12 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	// 2. Scan every rows
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -474,7 +475,20 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
+	}
+
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. All nodes use the same index for the same presign id. Keep the order of the ids in the request.
+	results := make([]*ecsigning.SignatureData_OneRoundData, len(presignIds))
+	for i, presignId := range presignIds {
+		if loaded[presignId] == nil {
+			return nil, fmt.Errorf("cannot find presign %s", presignId)
+		}
+		results[i] = loaded[presignId]
 	}
 
 	return results, nil
-- 
2.43.0


From 07c0b39e7a8036e1f9815de4b82ba23afd4753a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 19/40] fix: failed migrations and interrupted result sets were
 taken for success

---
 db/database.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/db/database.go b/db/database.go
index 8fcc5af..2226284 100644
--- a/db/database.go
+++ b/db/database.go
@@ -129,9 +129,9 @@ func (d *SqlDatabase) Connect() error {
 		database, err = sql.Open("sqlite3", ":memory:")
 	} else {
 		database, err = sql.Open("mysql", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", username, password, host, d.config.Port, schema))
-		if err != nil {
-			return err
-		}
+	}
+	if err != nil {
+		return err
 	}
 
 	d.db = database
@@ -170,7 +170,9 @@ func (d *SqlDatabase) doSqlMigration() error {
 	}
 
 	m.Log = &dbLogger{}
-	m.Up()
+	if err := m.Up(); err != nil && err != migrate.ErrNoChange {
+		return err
+	}
 
 	return nil
 }
@@ -262,6 +264,9 @@ func (d *SqlDatabase) LoadPreparams() (*eckeygen.LocalPreParams, error) {
 	defer rows.Close()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return nil, ErrNotFound
 	}
 
@@ -310,6 +315,9 @@ func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData
 			return nil, err
 		}
 	} else {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
 	}
@@ -347,6 +355,9 @@ func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData
 			return nil, err
 		}
 	} else {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
 	}
@@ -426,6 +437,10 @@ func (d *SqlDatabase) GetAvailablePresignShortForm() ([]string, []string, error)
 		pids = append(pids, pid)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, nil, err
+	}
+
 	return presignIds, pids, nil
 }
 
@@ -522,6 +537,10 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 		results = append(results, status)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return results, nil
 }
 
@@ -586,5 +605,9 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peers = append(peers, peer)
 	}
 
+	if err := rows.Err(); err != nil {
+		log.Error("LoadPeers: cannot read all peers, err = ", err)
+	}
+
 	return peers
 }
-- 
2.43.0


From b18ee440baaa4fa6c2b8a7461ebe3e62561c1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 20/40] fix: message tables disagreed with tss-lib, a signing
 job could end before its last message

---
 core/message/tss_phase_messages.go | 38 +++++++++++++++++++++++++-----
 worker/job.go                      |  6 +++--
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..b95ad87 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -47,7 +47,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *ecsigning.SignRound1Message1, *ecsigning.SignRound1Message2:
 		return EcSigning1, nil
 	case *ecsigning.SignRound2Message:
-		return EcSigning1, nil
+		return EcSigning2, nil
 	case *ecsigning.SignRound3Message:
 		return EcSigning3, nil
 	case *ecsigning.SignRound4Message:
@@ -63,7 +63,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *edkeygen.KGRound1Message:
 		return EdKeygen1, nil
 	case *edkeygen.KGRound2Message1, *edkeygen.KGRound2Message2:
-		return EcKeygen2, nil
+		return EdKeygen2, nil
 	case *edsigning.SignRound1Message:
 		return EdSigning1, nil
 	case *edsigning.SignRound2Message:
@@ -76,16 +76,23 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	}
 }
 
-func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
+// GetMessageCountByWorkType returns the number of message types that a job produces. A signing job
+// with presign data only produces the last message and a signing job which has no message to sign
+// (i.e. a presign job) produces everything but the last message.
+func GetMessageCountByWorkType(jobType wtypes.WorkType, hasPresignData, isPresign bool) int {
 	switch jobType {
 	case wtypes.EcKeygen:
 		return 4
 	case wtypes.EcSigning:
-		if isPresign {
+		if hasPresignData {
 			return 1
 		}
 
-		return 7
+		if isPresign {
+			return 7
+		}
+
+		return 8
 	case wtypes.EdKeygen:
 		return 3
 	case wtypes.EdSigning:
@@ -117,6 +124,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -133,7 +154,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
diff --git a/worker/job.go b/worker/job.go
index b95e382..b107a61 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	isPresign      bool
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.isPresign = msg == nil
 
 	return job
 }
@@ -157,7 +159,7 @@ func NewEdSigningJob(
 
 	party := edsigning.NewLocalParty(new(big.Int).SetBytes(msg), params, signingInput, outCh, endCh)
 
-	job := baseJob(workId, index, party, wTypes.EdKeygen, callback, outCh, timeOut)
+	job := baseJob(workId, index, party, wTypes.EdSigning, callback, outCh, timeOut)
 	job.edEndSigningCh = endCh
 
 	return job
@@ -300,7 +302,7 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData, job.isPresign) {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From bd1a041e76e39a33e03ee66137df323eaa443cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 21/40] fix: messages buffered behind the current one were
 lost, oversized messages were sent

---
 p2p/helper.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..17b84d6 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,9 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Do not use a buffered reader here since it could take bytes of the next messages from the stream.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +29,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
@@ -37,6 +37,10 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 }
 
 func WriteStreamWithBuffer(msg []byte, stream network.Stream) error {
+	if len(msg) > MaxPayload {
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
+	}
+
 	length := uint32(len(msg))
 	lengthBytes := make([]byte, HeaderLength)
 	binary.LittleEndian.PutUint32(lengthBytes, length)
-- 
2.43.0


From 14082d4285c2c8a73fd942b9f38d348ac171cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 22/40] fix: streams of a connection were unsynchronised and a
 broken stream was used forever

---
 p2p/connection.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..344f9bc 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"time"
 
 	"github.com/libp2p/go-libp2p/core/host"
 	"github.com/libp2p/go-libp2p/core/network"
@@ -33,6 +34,9 @@ func NewConnection(pID peer.ID, addr maddr.Multiaddr, host *host.Host) *Connecti
 }
 
 func (con *Connection) ReleaseStream() {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	for _, stream := range con.streams {
 		if stream != nil {
 			stream.Reset()
@@ -40,6 +44,7 @@ func (con *Connection) ReleaseStream() {
 	}
 }
 
+// createStream creates a new stream to the peer. The caller must hold the lock.
 func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), TimeoutConnecting)
 	defer cancel()
@@ -55,6 +60,9 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	stream := con.streams[protocolId]
 	if stream == nil {
 		var err error
@@ -65,8 +73,16 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	con.lock.Lock()
-	defer con.lock.Unlock()
+	if err := stream.SetWriteDeadline(time.Now().Add(TimeoutWritePayload)); err != nil {
+		log.Warnf("Cannot set write deadline, err = %v", err)
+	}
+
+	err := WriteStreamWithBuffer(msg, stream)
+	if err != nil {
+		// The stream is broken or contains an incomplete message. Use another stream next time.
+		stream.Reset()
+		delete(con.streams, protocolId)
+	}
 
-	return WriteStreamWithBuffer(msg, stream)
+	return err
 }
-- 
2.43.0


From 33e480c89dd006ad84d4be25581dabdbf6b3c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 23/40] fix: a stream was abandoned when its first message came
 before the listener

---
 p2p/connection_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..223b8a1 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -175,13 +175,14 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 		if err != nil {
 			log.Warn(err)
 			// TODO: handle retry here.
+			stream.Reset()
 			return
 		}
 		if dataBuf != nil {
 			listener := cm.getListener(protocol)
 			if listener == nil {
 				// No listener. Ignore the message
-				return
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
-- 
2.43.0


From 371396488622cd47c83ce4dfb71f3002432155d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 24/40] fix: the connection table was unsynchronised, bad key
 types and peer addresses panicked

---
 p2p/connection_manager.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 223b8a1..5ff7e4c 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -55,6 +55,7 @@ type DefaultConnectionManager struct {
 	rendezvous       string
 	bootstrapPeers   []maddr.Multiaddr
 	connections      map[peer.ID]*Connection
+	connectionLock   sync.RWMutex
 	listenerLock     sync.RWMutex
 	protocolListener map[protocol.ID]P2PDataListener
 	ready            *atomic.Bool
@@ -71,7 +72,7 @@ func NewConnectionManager(config types.ConnectionsConfig) ConnectionManager {
 }
 
 func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) error {
-	log.Info("Starting connection manager. Config =", cm.connections)
+	log.Info("Starting connection manager. Config =", cm.config)
 	log.Info("keyType = ", keyType)
 
 	ctx := context.Background()
@@ -82,6 +83,8 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 		p2pPriKey, err = crypto.UnmarshalSecp256k1PrivateKey(privKeyBytes)
 	case "ed25519":
 		p2pPriKey, err = crypto.UnmarshalEd25519PrivateKey(privKeyBytes)
+	default:
+		err = fmt.Errorf("unsupported key type: %s", keyType)
 	}
 
 	if err != nil {
@@ -214,20 +217,28 @@ func (cm *DefaultConnectionManager) discover(ctx context.Context, host host.Host
 
 func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	// Creates connection objects.
+	peerInfos := make([]*peer.AddrInfo, 0, len(cm.bootstrapPeers))
+	cm.connectionLock.Lock()
 	for _, peerAddr := range cm.bootstrapPeers {
-		addrInfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
+		addrInfo, err := peer.AddrInfoFromP2pAddr(peerAddr)
+		if err != nil {
+			log.Error("Invalid peer address ", peerAddr, " err = ", err)
+			continue
+		}
+
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
 		cm.connections[addrInfo.ID] = conn
+		peerInfos = append(peerInfos, addrInfo)
 	}
+	cm.connectionLock.Unlock()
 
 	// Attempts to connect to every bootstrapped peers.
 	log.Info("Trying to create connections with peers...")
 	wg := &sync.WaitGroup{}
-	for _, peerAddr := range cm.bootstrapPeers {
-		peerinfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
+	for _, peerinfo := range peerInfos {
 		wg.Add(1)
 
-		go func() {
+		go func(peerinfo *peer.AddrInfo) {
 			defer wg.Done()
 
 			// Retry 50 times at max.
@@ -242,13 +253,15 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 			}
 
 			cm.ready.Store(true)
-		}()
+		}(peerinfo)
 	}
 	wg.Wait()
 }
 
 func (cm *DefaultConnectionManager) WriteToStream(pID peer.ID, protocolId protocol.ID, msg []byte) error {
+	cm.connectionLock.RLock()
 	conn := cm.connections[pID]
+	cm.connectionLock.RUnlock()
 	if conn == nil {
 		log.Error("Connection to pid not found, pid = ", pID)
 		return errors.New("pID not found")
-- 
2.43.0


From cf0e663489a7880277e8687e0e7bb34ad037c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 25/40] fix: worker read its executor and selection without its
 lock, empty update messages crashed it

---
 worker/default_worker.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index e6e0992..805cb0d 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -258,9 +258,14 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 	switch msg.Type {
 	case common.TssMessage_UPDATE_MESSAGES:
+		if len(msg.UpdateMessages) == 0 || msg.UpdateMessages[0] == nil {
+			return errors.New("update message is empty, from = " + msg.From)
+		}
+
 		w.lock.RLock()
 
-		if w.executor == nil {
+		executor := w.executor
+		if executor == nil {
 			// We have not started execution yet.
 			w.preExecutionCache.AddMessage(msg)
 			addToCache = true
@@ -269,8 +274,8 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 		w.lock.RUnlock()
 
-		if !addToCache && w.executor != nil {
-			err := w.executor.ProcessUpdateMessage(msg)
+		if !addToCache {
+			err := executor.ProcessUpdateMessage(msg)
 			if err != nil {
 				log.Errorf("Failed to process update message %s, %s, err = %s", w.workId,
 					msg.UpdateMessages[0].Round, err)
@@ -279,7 +284,8 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 	case common.TssMessage_AVAILABILITY_REQUEST, common.TssMessage_AVAILABILITY_RESPONSE, common.TssMessage_PRE_EXEC_OUTPUT:
 		w.lock.RLock()
-		if w.preworkSelection == nil {
+		preworkSelection := w.preworkSelection
+		if preworkSelection == nil {
 			// Add this to cache
 			log.Verbose("PreExecution is nil, adding this message to cache, msg type = ", msg.Type)
 			w.preExecutionCache.AddMessage(msg)
@@ -288,7 +294,7 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 		w.lock.RUnlock()
 
 		if !addToCache {
-			return w.preworkSelection.ProcessNewMessage(msg)
+			return preworkSelection.ProcessNewMessage(msg)
 		}
 
 	default:
-- 
2.43.0


From 2d668261aa82a487966de970009539250a5886a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 26/40] fix: a short list of update messages crashed the
 executor

---
 worker/worker_executor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..bd16e8b 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -346,8 +346,17 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(jobs) == 0 || len(tssMsg.UpdateMessages) != len(jobs) {
+		return fmt.Errorf("invalid number of update messages, expected %d, actual %d", len(jobs),
+			len(tssMsg.UpdateMessages))
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
+		if updateMessage == nil {
+			return errors.New("update message is nil")
+		}
+
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
 		if err != nil {
 			return fmt.Errorf("error when parsing wire message %w", err)
-- 
2.43.0


From f859f9e86324d6672c07f45568f679f44c35c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 27/40] fix: an executor without its inputs crashed instead of
 failing the work

---
 worker/default_worker.go  |  6 +++++-
 worker/worker_executor.go | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index 805cb0d..6733c23 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -218,7 +218,11 @@ func (w *DefaultWorker) getEdExecutor(selectedPids []*tss.PartyID) *WorkerExecut
 }
 
 func (w *DefaultWorker) runExecutor(executor *WorkerExecutor) {
-	executor.Init()
+	if err := executor.Init(); err != nil {
+		// The executor has reported the failure of this work.
+		log.Error("Cannot init executor, err = ", err)
+		return
+	}
 
 	cacheMsgs := w.preExecutionCache.PopAllMessages(w.workId, commonTypes.GetUpdateMessageType())
 	go executor.Run(cacheMsgs)
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index bd16e8b..0056bac 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -121,12 +121,25 @@ func NewWorkerExecutor(
 func (w *WorkerExecutor) Init() (err error) {
 	if w.workType == wTypes.EcKeygen {
 		if w.request.EcKeygenInput == nil {
-			err = w.loadPreparams()
+			if err = w.loadPreparams(); err != nil {
+				w.broadcastResult(ExecutionResult{
+					Success: false,
+				})
+				return err
+			}
 		} else {
 			w.ecKeygenInput = w.request.EcKeygenInput
 		}
 	}
 
+	if w.workType == wTypes.EcSigning && len(w.ecPresignOutput) != w.request.BatchSize {
+		w.broadcastResult(ExecutionResult{
+			Success: false,
+		})
+		return fmt.Errorf("invalid number of presigns, expected %d, actual %d", w.request.BatchSize,
+			len(w.ecPresignOutput))
+	}
+
 	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
 	go w.messageMonitor.Start()
 
@@ -167,8 +180,7 @@ func (w *WorkerExecutor) Init() (err error) {
 				Success: false,
 			})
 
-			log.Errorf("unknown work type %d", w.workType)
-			return
+			return fmt.Errorf("unknown work type %d", w.workType)
 		}
 	}
 
-- 
2.43.0


From 5c4dacfc444594167ace69dde5142d5b5bfbc386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 28/40] fix: a job could report a timeout after its success and
 change the result of its work

---
 worker/job.go             |  2 +-
 worker/worker_executor.go | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/worker/job.go b/worker/job.go
index b107a61..5ba4be3 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -221,7 +221,7 @@ func (job *Job) startListening() {
 	for {
 		select {
 		case <-time.After(endTime.Sub(time.Now())):
-			if !job.isDone() {
+			if !job.doneEndCh.Load() {
 				log.Warn("Job timeout waiting for end channel")
 				go job.callback.OnJobResult(job, JobResult{
 					Success: false,
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 0056bac..88ce04a 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -286,10 +286,14 @@ func (w *WorkerExecutor) OnJobResult(job *Job, result JobResult) {
 	}
 
 	w.finalOutputLock.Lock()
-	w.jobResults[job.index] = &result
+	if w.jobResults[job.index] == nil {
+		w.jobResults[job.index] = &result
+	}
+	jobResults := make([]*JobResult, len(w.jobResults))
+	copy(jobResults, w.jobResults)
 	count := 0
 	hasFailure := false
-	for _, result := range w.jobResults {
+	for _, result := range jobResults {
 		if result != nil {
 			count++
 			if !result.Success {
@@ -308,7 +312,7 @@ func (w *WorkerExecutor) OnJobResult(job *Job, result JobResult) {
 		} else {
 			w.broadcastResult(ExecutionResult{
 				Success:    true,
-				JobResults: w.jobResults,
+				JobResults: jobResults,
 			})
 		}
 	}
-- 
2.43.0


From 01f883dc4eda3187c1b1eecd298a4b27e9debaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 29/40] fix: selection accepted outputs from any party, crashed
 or blocked on unexpected messages

---
 worker/prework_selection.go | 48 ++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..508b4e7 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -128,7 +128,8 @@ func (s *PreworkSelection) Stop() {
 func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssMessage) {
 	// Update availability from cache first.
 	for _, tssMsg := range cachedMsgs {
-		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
+		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage != nil &&
+			tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
 			// update the availability.
 			for _, p := range s.allParties {
 				if p.Id == tssMsg.From {
@@ -303,7 +304,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.From == leader.Id && msg.PreExecOutputMessage != nil {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -369,7 +370,7 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 			if s.request.IsSigning() && len(msg.PresignIds) > 0 {
 				// Check if the leader is giving us a valid presign id set.
 				signingInput, err := s.db.LoadPresign(msg.PresignIds)
-				if err != nil || len(signingInput) == 0 {
+				if err != nil || len(signingInput) != len(msg.PresignIds) {
 					log.Error("Cannot load presign, err =", err, " len(signingInput) = ", len(signingInput))
 					s.broadcastResult(SelectionResult{
 						Success: false,
@@ -410,11 +411,17 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	if len(msg.PresignIds) != 0 && len(msg.PresignIds) != s.request.BatchSize {
+		return false
+	}
+
+	selected := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || selected[pid] {
 			return false
 		}
+		selected[pid] = true
 	}
 
 	return true
@@ -439,7 +446,19 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 	case common.TssMessage_PRE_EXEC_OUTPUT:
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		if tssMsg.From != s.leader.Id {
+			return fmt.Errorf("selection output is not from the leader, from = %s", tssMsg.From)
+		}
+
+		if tssMsg.PreExecOutputMessage == nil {
+			return errors.New("selection output is empty")
+		}
+
+		select {
+		case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+		default:
+			log.Warn("Selection output has already been received, workId = ", s.request.WorkId)
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -452,7 +471,10 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 	sender := utils.GetPartyIdFromString(tssMsg.From, s.allParties)
 
 	if sender != nil {
-		// TODO: Check that the sender is indeed the leader.
+		if sender.Id != s.leader.Id {
+			return fmt.Errorf("availability request is not from the leader, from = %s", tssMsg.From)
+		}
+
 		// We receive a message from a leader to check our availability. Reply "Yes".
 		log.Info("Member: Responding YES to leader's request")
 		responseMsg := common.NewAvailabilityResponseMessage(s.myPid.Id, tssMsg.From, s.request.WorkId,
@@ -468,8 +490,16 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	if tssMsg.AvailabilityResponseMessage == nil {
+		return errors.New("availability response is empty")
+	}
+
+	// Nobody reads this channel when the selection process finishes or when this node is not the leader.
+	select {
+	case s.memberResponseCh <- tssMsg:
+	default:
+		log.Verbose("Availability response is not needed, from = ", tssMsg.From)
+	}
+
 	return nil
 }
-- 
2.43.0


From 1932ff432eae4160435e501cb6d94fc9e04af23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 30/40] fix: members gave up waiting before the selection
 timeout of the leader

---
 core/config/timeout.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..742d09d 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,7 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From ede98004ad6495c881146fd843fd1466e7683887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 31/40] fix: evicting an old entry of the circular queue
 dropped a newer entry with the same key

---
 tools/circular_queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..b423def 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,10 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		oldest := q.queue[q.head%q.size]
+		if q.m[oldest.key] == oldest { // The key could have been added again
+			delete(q.m, oldest.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From e3ad868497432389180564f2a41e08725308bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 32/40] fix: the config template used fields which do not exist
 and always panicked

---
 core/config/toml.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/config/toml.go b/core/config/toml.go
index 755cfe0..f8543fc 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -25,12 +25,16 @@ port = {{ .Port }}
 	username = "{{ .Db.Username }}"
 	password = "{{ .Db.Password }}"
 	schema = "{{ .Db.Schema }}"
-	migration-path = "{{ .Db.MigrationPath }}"
 [connection]
   host = "0.0.0.0"
   port = 28300
   rendezvous = "rendezvous"
-  peers = {{ .Connection.BootstrapPeers }}
+{{- range .Connection.Peers }}
+[[connection.peers]]
+  address = "{{ .Address }}"
+  pubkey = "{{ .PubKey }}"
+  pubkey_type = "{{ .PubKeyType }}"
+{{- end }}
 `
 
 var configTemplate *template.Template
-- 
2.43.0


From 4969813ac638ee12aa2be1b3a7fdd6bb2a8e3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 33/40] fix: posting a result before Sisu is connected crashed
 the node

---
 client/client.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..e390629 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -28,6 +29,7 @@ type Client interface {
 // A client that connects to Sisu server
 type DefaultClient struct {
 	client *rpc.Client
+	lock   sync.RWMutex
 	url    string
 }
 
@@ -42,9 +44,12 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		client, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.lock.Lock()
+			c.client = client
+			c.lock.Unlock()
+
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -58,9 +63,22 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+// call makes a rpc call to the Sisu server.
+func (c *DefaultClient) call(result interface{}, method string, args ...interface{}) error {
+	c.lock.RLock()
+	client := c.client
+	c.lock.RUnlock()
+
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
+	return client.CallContext(context.Background(), result, method, args...)
+}
+
 func (c *DefaultClient) Ping(source string) error {
 	var result interface{}
-	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
+	err := c.call(&result, "tss_ping", source)
 	if err != nil {
 		log.Error("Cannot ping sisu, err = ", err)
 		return err
@@ -71,7 +89,7 @@ func (c *DefaultClient) Ping(source string) error {
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := c.call(&r, "tss_keygenResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -88,7 +106,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 	}
 
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_presignResult", result)
+	err := c.call(&r, "tss_presignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post presign result, err = ", err)
@@ -100,7 +118,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := c.call(&r, "tss_keysignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 306635b7ad73f864ceb57039c19dec84cfada277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 34/40] fix: single node api signed with missing keys and
 accepted unknown key types

---
 server/single_node_api.go | 51 +++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..6660cc9 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -2,7 +2,9 @@ package server
 
 import (
 	"crypto/ecdsa"
+	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -24,6 +26,7 @@ type SingleNodeApi struct {
 	keyMap map[string]interface{}
 	c      client.Client
 
+	lock      sync.RWMutex
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
 }
@@ -56,6 +59,10 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	if keyType != libchain.KEY_TYPE_ECDSA && keyType != libchain.KEY_TYPE_EDDSA {
+		return fmt.Errorf("unsupported key type: %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
@@ -64,13 +71,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
+			privateKey, err := crypto.GenerateKey()
 			if err != nil {
 				panic(err)
 			}
 
-			pubKey := api.ecPrivate.Public()
+			api.lock.Lock()
+			api.ecPrivate = privateKey
+			api.lock.Unlock()
+
+			pubKey := privateKey.Public()
 			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
 			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
 
@@ -80,8 +90,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 				PubKeyBytes: publicKeyBytes,
 			}
 		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+			privateKey, err := edwards.GeneratePrivateKey()
+			if err != nil {
+				panic(err)
+			}
+
+			api.lock.Lock()
+			api.edPrivate = privateKey
+			api.lock.Unlock()
+
+			pubKeyBytes := privateKey.PubKey().Serialize()
 
 			result = types.KeygenResult{
 				KeyType:     keyType,
@@ -103,15 +121,34 @@ func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.lock.RLock()
 	privateKey := api.ecPrivate
+	api.lock.RUnlock()
+
+	if privateKey == nil {
+		return nil, errors.New("ecdsa key has not been generated")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.lock.RLock()
+	privateKey := api.edPrivate
+	api.lock.RUnlock()
+
+	if privateKey == nil {
+		return nil, errors.New("eddsa key has not been generated")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
-- 
2.43.0


From eb812f616d0326e770ac13641ae2260f2dbef366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 35/40] fix: do not start a presign work without keygen data

---
 core/heart.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/heart.go b/core/heart.go
index 080d50b..de19f48 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -468,10 +468,12 @@ func (h *Heart) doPresign(blockHeight int64) {
 
 	if err != nil {
 		log.Error("Cannot get presign input, err = ", err)
+		return
 	}
 
 	if presignInput == nil {
 		log.Info("Cannot find presign input. Presign cannot be executed until keygen has finished running.")
+		return
 	}
 
 	activeWorkerCount := h.engine.GetActiveWorkerCount()
-- 
2.43.0


From ff41335af175927472808aeec45cde1943cbe15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 36/40] fix: reject a signing request without public keys

A request without parties reached the engine, whose leader selection indexes the empty list.
---
 core/heart.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/heart.go b/core/heart.go
index de19f48..ee4f4b0 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -356,6 +356,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	}
 
 	n := len(tPubKeys)
+	if n == 0 {
+		return fmt.Errorf("the list of public keys is empty")
+	}
 	nodes := NewNodes(tPubKeys)
 	if len(nodes) != n {
 		return fmt.Errorf("some public keys are invalid")
-- 
2.43.0


From bb45f26022df024239a7b83a0f3fdbf5e0a2056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 37/40] fix: a failed start leaves no connection manager behind

---
 core/heart.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/heart.go b/core/heart.go
index ee4f4b0..5cde2bc 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -299,6 +299,7 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 	if err != nil {
 		// Nothing has been started with this key. Allow the key to be set again.
 		h.privateKey = nil
+		h.cm = nil
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
 
-- 
2.43.0


From 0729224a8833675464e863b20692bfccdc46ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 38/40] fix: a message without bytes to sign is refused

---
 core/heart.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/heart.go b/core/heart.go
index 5cde2bc..656bafa 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -379,6 +379,10 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	for i, msg := range req.KeysignMessages {
 		log.Verbosef("There is a new work for chain %s with hash %s", msg.OutChain, msg.OutHash)
 
+		if len(msg.BytesToSign) == 0 {
+			return fmt.Errorf("message %s has no bytes to sign", msg.Id)
+		}
+
 		workId = workId + msg.Id
 		workId = utils.KeccakHash32(workId)
 		signMessages[i] = msg.BytesToSign
-- 
2.43.0


From f76fd99de35c87aa914a4248c26ba6c90ddfbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 39/40] fix: a signing whose EdDSA signatures do not verify is
 a failure

---
 core/engine_eddsa.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..6665dbb 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sisu-network/lib/log"
 	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
 	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
+	"github.com/sisu-network/tss-lib/tss"
 )
 
 func (engine *defaultEngine) onEdKeygenFinished(request *wtypes.WorkRequest, output *edkeygen.LocalPartySaveData) {
@@ -37,9 +38,13 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 
 	myKeygen := request.EdSigningInput
 	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+	for i := range data {
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From 2ef27349aea0c7ccc828214258d4f5308e4f9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 40/40] fix: an update message without content crashed the node

A list of updates holding null was taken for a message with content, so its kind was read from nothing while the message was kept for others.
---
 types/common/tss_message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 99f61b4..7080bb7 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -95,7 +95,7 @@ func (msg *TssMessage) IsBroadcast() bool {
 }
 
 func (msg *TssMessage) GetMessageKey() (string, error) {
-	if len(msg.UpdateMessages) == 0 {
+	if len(msg.UpdateMessages) == 0 || msg.UpdateMessages[0] == nil {
 		err := fmt.Errorf("empty update messages")
 		log.Error(err)
 		return "", err
-- 
2.43.0

