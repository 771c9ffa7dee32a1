From a569d71ac0219253aa67ff3801e0edd52027ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 1/5] fix: map every symbol hash to a strictly increasing index
 sequence

nextIndex never advanced for hash 0, took a step of zero when the generator
output was below 2^11, and overflowed to an invalid index when it rounded up
to 2^64.
---
 riblt/random.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..5e369c1 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -35,7 +35,9 @@ func (s *randomMapping) nextIndex() uint64 {
 	//
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
-	xm := float64(r) / (1 << 64)
+	// x/m is kept strictly between 0 and 1 (the top 52 bits of r plus a half are
+	// exactly representable), so that the step is at least 1 and finite for every r
+	xm := (float64(r>>12) + 0.5) / (1 << 52)
 	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
 	return s.lastIdx
 }
-- 
2.43.0


From 8f6f1cdf661eb8fa3a4eb62fb6f37975dbe95826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 2/5] fix: keep the ldpc encoder from skipping outside its
 window

---
 ldpc/encoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..9570891 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -95,7 +95,13 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	W = math.Exp(math.Log(rand.Float64()) / d)
 	midx := deg
 	for midx < len(e.window) {
-		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
+		skip := math.Floor(math.Log(rand.Float64()) / math.Log(1.0-W))
+		// skip is not a valid index when the random draw is zero or when W
+		// is too small to make a difference: nothing else is selected
+		if !(skip >= 0 && skip < float64(len(e.window))) {
+			break
+		}
+		midx += (int)(skip) + 1
 		if midx < len(e.window) {
 			(*selected)[rand.Intn(deg)] = e.window[midx]
 			W = W * math.Exp(math.Log(rand.Float64())/d)
-- 
2.43.0


From a6930f54bd863076bd2a8731adcdcecc512aea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 3/5] fix: visit a server's neighbours in connection order, not
 hash table order

---
 simulator/module.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simulator/module.go b/simulator/module.go
index 20324fc..cac2907 100644
--- a/simulator/module.go
+++ b/simulator/module.go
@@ -41,6 +41,7 @@ type peer struct {
 
 type server struct {
 	handlers map[des.Module]peer
+	peers []des.Module	// keys of handlers in connection order
 	decoder *lt.Decoder[transaction]
 
 	received map[transaction]struct{}
@@ -77,7 +78,9 @@ func (a *server) newHandler() *handler {
 
 func connectServers(a, b *server, delay time.Duration) {
 	a.handlers[b] = peer{a.newHandler(), delay}
+	a.peers = append(a.peers, b)
 	b.handlers[a] = peer{b.newHandler(), delay}
+	b.peers = append(b.peers, a)
 }
 
 func newServers(simulator *des.Simulator, n int, startingSeed int64, config serverConfig) []*server {
@@ -102,7 +105,8 @@ func newServers(simulator *des.Simulator, n int, startingSeed int64, config serv
 }
 
 func (s *server) collectOutgoingMessages(outbox []des.OutgoingMessage) []des.OutgoingMessage {
-	for peer, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		for _, msg := range handler.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
 		}
@@ -130,7 +134,8 @@ func (s *server) scheduleForwardingTransactions(out []des.OutgoingMessage, txs [
 
 func (s *server) forwardTransaction(tx lt.Transaction[transaction]) {
 	canStartNewBlock := (s.forceSynchronize == 0)
-	for _, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		handler.sender.onTransaction(tx, canStartNewBlock)
 	}
 }
@@ -166,7 +171,8 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 	} else if lp, isLp := payload.(loopback); isLp {
 		s.forwardTransaction(lp.tx)
 	} else if _, isNb := payload.(createNewBlock); isNb {
-		for _, handler := range s.handlers {
+		for _, peer := range s.peers {
+			handler := s.handlers[peer]
 			handler.sender.tryFillSendWindow(true)
 		}
 		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})
-- 
2.43.0


From 8487d120bbe5c10b9b25f591a2d1ef79a5ce47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 4/5] fix: read the peer's whole key even when it arrives in
 pieces

---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 16e1ba0e04e8cae1930856b50f98faca456a59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 5/5] fix: keep sending a block whose window rounds down to
 nothing

---
 simulator/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/node.go b/simulator/node.go
index 68ba560..5b734e9 100644
--- a/simulator/node.go
+++ b/simulator/node.go
@@ -65,6 +65,9 @@ func (n *sender) tryProduceCodeword(mayStartNewBlock bool) (codeword, bool) {
 			// move to the next block
 			blockSize := len(n.buffer)
 			n.sendWindow = int(float64(blockSize) * n.controlOverhead)
+			if n.sendWindow < 1 {
+				n.sendWindow = 1 // otherwise nothing is sent any more
+			}
 			cw.newBlock = true
 			n.encodingCurrentBlock = true
 			dist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)
-- 
2.43.0

