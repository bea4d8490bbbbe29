From 911edaa0b5913185ac4ac620e12c9746a6f2e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 01/40] fix: remember the message id a server subscription is
 waiting for

ACK and NACK compare against Subscription.msgId, which was never set: in
client-individual mode no message was ever settled and NACK did nothing.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..14ae88f 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -413,6 +413,12 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 		f.Header.Set(frame.MessageId, messageId)
 		f.Header.Set(frame.Id, messageId)
 
+		// remember which message an ACK or NACK for this
+		// subscription has to refer to
+		if sub != nil {
+			sub.msgId = c.lastMsgId
+		}
+
 		// if there is any requirement by the client to acknowledge, set
 		// the ack header as per STOMP 1.2
 		if sub == nil || sub.ack == frame.AckAuto {
-- 
2.43.0


From b37b05b61325653ef7c80e7195d4ef4e375aa10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 02/40] fix: a subscription removed from a list is no longer in
 the list

Ack, Nack and FindByIdAndRemove left Subscription.subList set, so that the
next Add of the subscription panicked and took the whole server down.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From 7162abe5f6333c2c492032ce7e80e04351e9b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 03/40] fix: accept STOMP 1.2 ACK and NACK frames, which name
 the message in the id header

---
 server/client/conn.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 14ae88f..edad2a7 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -662,18 +662,32 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	return nil
 }
 
-func (c *Conn) handleAck(f *frame.Frame) error {
-	var err error
+// Determines which message an ACK or NACK frame refers to.
+func (c *Conn) ackMessageId(f *frame.Frame) (uint64, error) {
 	var msgId string
+	var ok bool
 
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
+	// STOMP 1.2 identifies the message with the id header, whose value
+	// is that of the ack header of the MESSAGE frame
+	if c.version == stomp.V12 {
+		msgId, ok = f.Header.Contains(frame.Id)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.Ack)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.MessageId)
+	}
+	if !ok {
+		return 0, missingHeader(frame.MessageId)
 	}
 
 	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	return strconv.ParseUint(msgId, 10, 64)
+}
+
+func (c *Conn) handleAck(f *frame.Frame) error {
+	msgId64, err := c.ackMessageId(f)
 	if err != nil {
 		return err
 	}
@@ -706,17 +720,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 }
 
 func (c *Conn) handleNack(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
-	}
-
-	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	msgId64, err := c.ackMessageId(f)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ea8c8898a432b7c522c000983e4b574ce056e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 04/40] fix: answer a SEND without destination with ERROR

The request processor panicked on it, so one client frame took the whole
server down.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index edad2a7..252c463 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -758,6 +758,12 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	// check before the frame enters a transaction or the upper layer,
+	// which cannot do without a destination
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From 4d42167c844f7892b67528e8503c9a41a36adadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 05/40] fix: answer a SUBSCRIBE with an unknown ack mode with
 ERROR

It was accepted, and the next ACK on the connection made
Subscription.IsAckedBy panic and took the whole server down.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 252c463..6bb6506 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -630,6 +630,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
-- 
2.43.0


From c9acd21fddaaff0a7b782d86e76e9165ed05a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:50 +0000
Subject: [PATCH 06/40] fix: send RECEIPT after a frame was processed, and for
 every kind of frame

Receipts were sent before the frame was looked at, so a refused frame was
answered with RECEIPT and then an ERROR without receipt-id, and a message
could be overtaken by one sent after its receipt. SUBSCRIBE and UNSUBSCRIBE
were never answered at all.
---
 server/client/conn.go | 71 +++++++++----------------------------------
 1 file changed, 15 insertions(+), 56 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 6bb6506..281706d 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -255,12 +255,23 @@ func (c *Conn) processLoop() {
 
 			// Pass to the appropriate function for handling
 			// according to the current state of the connection.
+			receipt, hasReceipt := f.Header.Contains(frame.Receipt)
 			err := c.stateFunc(c, f)
 			if err != nil {
 				c.sendErrorImmediately(err, f)
 				return
 			}
 
+			// The frame has been processed, so now is the time
+			// to send a receipt if the client requested one.
+			if hasReceipt {
+				err := c.sendImmediately(frame.New(frame.RECEIPT,
+					frame.ReceiptId, receipt))
+				if err != nil {
+					return
+				}
+			}
+
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				// subscription channel has been closed,
@@ -539,30 +550,10 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	return nil
 }
 
-// Sends a RECEIPT frame to the client if the frame f contains
-// a receipt header. If the frame does contain a receipt header,
-// it will be removed from the frame.
-func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
-	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
-		// Remove the receipt header from the frame. This is handy
-		// for transactions, because the frame has its receipt
-		// header removed prior to entering the transaction store.
-		// When the frame is processed upon transaction commit, it
-		// will not have a receipt header anymore.
-		f.Header.Del(frame.Receipt)
-		return c.sendImmediately(frame.New(frame.RECEIPT,
-			frame.ReceiptId, receipt))
-	}
-	return nil
-}
-
 func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
-	// Ignore the error condition if we cannot send a RECEIPT frame,
-	// as the connection is about to close anyway.
-	_ = c.sendReceiptImmediately(f)
 	return nil
 }
 
@@ -570,12 +561,6 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-
 		return c.txStore.Begin(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -585,11 +570,6 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
@@ -604,11 +584,6 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Abort(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -698,12 +673,6 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -731,12 +700,6 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -770,22 +733,18 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
 	} else {
 		// not in a transaction
-		// change from SEND to MESSAGE
+		// change from SEND to MESSAGE, the receipt header
+		// is between the sender and the server only
 		f.Command = frame.MESSAGE
+		f.Header.Del(frame.Receipt)
 		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
 	}
 
-- 
2.43.0


From b15c808284731c57ed988f5dc3400407261279b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 07/40] fix: requeue a message for a subscription whose id has
 been reused

After UNSUBSCRIBE and SUBSCRIBE with the same id, a queue message still
under way to the old subscription was delivered as if it belonged to the
new one, and the old one was subscribed again.
---
 server/client/conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 281706d..7936e23 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -290,8 +290,9 @@ func (c *Conn) processLoop() {
 
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
-			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			// this, so we check (the id might be in use
+			// again for another subscription)
+			if current, ok := c.subs[sub.id]; ok && current == sub {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
-- 
2.43.0


From ef0ee4d901184bbeb4858c2c418c34a53e1b2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 08/40] fix: requeue a queue message that could not be written
 to its client

---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7936e23..f92188a 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -300,6 +300,10 @@ func (c *Conn) processLoop() {
 				// write the frame to the client
 				err := c.writer.Write(sub.frame)
 				if err != nil {
+					// the message has not been delivered, have
+					// it requeued when cleaning up
+					c.subList.Add(sub)
+
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-- 
2.43.0


From 59f912278df0e8ce70503e982c830ab5d0da6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 09/40] fix: do not deadlock when the server's internal
 channels are full

A connection waiting for room in the request channel did not empty its own
channels, while the request processor waited for room in one of those.
---
 server/client/conn.go | 72 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index f92188a..8d9926b 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -30,6 +30,8 @@ type Conn struct {
 	subChannel     chan *Subscription                  // Receives subscription messages for client
 	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
+	subBacklog     []*Subscription                     // Taken from subChannel while waiting for the upper layer
+	writeBacklog   []*frame.Frame                      // Taken from writeChannel while waiting for the upper layer
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
 	version        stomp.Version                       // Negotiated STOMP protocol version
@@ -198,13 +200,27 @@ func (c *Conn) processLoop() {
 			timerChannel = timer.C
 		}
 
+		// anything in a backlog goes before what is in its channel
+		writeChannel, subChannel := c.writeChannel, c.subChannel
+		if len(c.writeBacklog) > 0 {
+			writeChannel = make(chan *frame.Frame, 1)
+			writeChannel <- c.writeBacklog[0]
+		}
+		if len(c.subBacklog) > 0 {
+			subChannel = make(chan *Subscription, 1)
+			subChannel <- c.subBacklog[0]
+		}
+
 		select {
-		case f, ok := <-c.writeChannel:
+		case f, ok := <-writeChannel:
 			if !ok {
 				// write channel has been closed, so
 				// exit go-routine (after cleaning up)
 				return
 			}
+			if len(c.writeBacklog) > 0 {
+				c.writeBacklog = c.writeBacklog[1:]
+			}
 
 			// have a frame to the client with
 			// no acknowledgement required (topic)
@@ -272,12 +288,15 @@ func (c *Conn) processLoop() {
 				}
 			}
 
-		case sub, ok := <-c.subChannel:
+		case sub, ok := <-subChannel:
 			if !ok {
 				// subscription channel has been closed,
 				// so exit go-routine (after cleaning up)
 				return
 			}
+			if len(c.subBacklog) > 0 {
+				c.subBacklog = c.subBacklog[1:]
+			}
 
 			// have a frame to the client which requires
 			// acknowledgement to the upper layer
@@ -316,14 +335,14 @@ func (c *Conn) processLoop() {
 					// so send the subscription back the upper layer
 					// straight away
 					sub.frame = nil
-					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+					c.request(Request{Op: SubscribeOp, Sub: sub})
 				} else {
 					// subscription requires acknowledgement
 					c.subList.Add(sub)
 				}
 			} else {
 				// Subscription no longer exists, requeue
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.request(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		case _ = <-timerChannel:
@@ -341,6 +360,22 @@ func (c *Conn) processLoop() {
 	}
 }
 
+// Sends a request to the upper layer. The upper layer might itself be
+// waiting for this connection to take something from its channels, so
+// keep emptying them until the upper layer accepts the request.
+func (c *Conn) request(r Request) {
+	for {
+		select {
+		case c.requestChannel <- r:
+			return
+		case f := <-c.writeChannel:
+			c.writeBacklog = append(c.writeBacklog, f)
+		case sub := <-c.subChannel:
+			c.subBacklog = append(c.subBacklog, sub)
+		}
+	}
+}
+
 // Called when the connection is closing, and takes care of
 // unsubscribing all subscriptions with the upper layer, and
 // re-queueing all unacknowledged messages to the upper layer.
@@ -358,7 +393,7 @@ func (c *Conn) cleanupConn() {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
 		// all subscriptions are unsubscribed from the upper layer.
-		c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+		c.request(Request{Op: UnsubscribeOp, Sub: sub})
 	}
 
 	// Clear out the map of subscriptions
@@ -367,7 +402,7 @@ func (c *Conn) cleanupConn() {
 	// Every subscription requiring acknowledgement has a frame
 	// that needs to be requeued in the upper layer
 	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
 	}
 
 	// empty the subscription and write queue
@@ -375,7 +410,7 @@ func (c *Conn) cleanupConn() {
 	c.cleanupSubChannel()
 
 	// Tell the upper layer we are now disconnected
-	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
+	c.request(Request{Op: DisconnectedOp, Conn: c})
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
@@ -389,6 +424,7 @@ func (c *Conn) cleanupConn() {
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
 func (c *Conn) discardWriteChannelFrames() {
+	c.writeBacklog = nil
 	for finished := false; !finished; {
 		select {
 		case _, ok := <-c.writeChannel:
@@ -406,12 +442,18 @@ func (c *Conn) cleanupSubChannel() {
 	// Read the subscription channel until it is empty.
 	// Each frame should be requeued to the upper layer.
 	for finished := false; !finished; {
+		for len(c.subBacklog) > 0 {
+			sub := c.subBacklog[0]
+			c.subBacklog = c.subBacklog[1:]
+			c.request(Request{Op: RequeueOp, Frame: sub.frame})
+		}
+
 		select {
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				finished = true
 			} else {
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.request(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		default:
@@ -550,7 +592,7 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	c.stateFunc = connected
 
 	// tell the upper layer we are connected
-	c.requestChannel <- Request{Op: ConnectedOp, Conn: c}
+	c.request(Request{Op: ConnectedOp, Conn: c})
 
 	return nil
 }
@@ -625,7 +667,7 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 	c.subs[id] = sub
 
 	// send information about new subscription to upper layer
-	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+	c.request(Request{Op: SubscribeOp, Sub: sub})
 	return nil
 }
 
@@ -644,7 +686,7 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	delete(c.subs, id)
 
 	// tell the upper layer of the unsubscribe
-	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+	c.request(Request{Op: UnsubscribeOp, Sub: sub})
 	return nil
 }
 
@@ -692,7 +734,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			c.request(Request{Op: SubscribeOp, Sub: s})
 		})
 	}
 
@@ -715,14 +757,14 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		// handle any subscriptions that are acknowledged by this msg
 		c.subList.Nack(msgId64, func(s *Subscription) {
 			// send frame back to upper layer for requeue
-			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
+			c.request(Request{Op: RequeueOp, Frame: s.frame})
 
 			// remove frame from the subscription, it has been requeued
 			s.frame = nil
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			c.request(Request{Op: SubscribeOp, Sub: s})
 		})
 	}
 	return nil
@@ -750,7 +792,7 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		// is between the sender and the server only
 		f.Command = frame.MESSAGE
 		f.Header.Del(frame.Receipt)
-		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+		c.request(Request{Op: EnqueueOp, Frame: f})
 	}
 
 	return nil
-- 
2.43.0


From 79efd645d9e048b945c4bc7719dbb062f275f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 10/40] fix: do not lose messages or block while a server
 connection is cleaned up

The request processor could still send to the connection after its channels
had been emptied for the last time: a queue message was then lost, and more
topic messages than fit the channel blocked the server for good.
---
 server/client/conn.go    | 17 ++++++++++++++++-
 server/client/request.go |  1 +
 server/processor.go      |  4 ++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 8d9926b..6594739 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -410,7 +410,22 @@ func (c *Conn) cleanupConn() {
 	c.cleanupSubChannel()
 
 	// Tell the upper layer we are now disconnected
-	c.request(Request{Op: DisconnectedOp, Conn: c})
+	done := make(chan struct{})
+	c.request(Request{Op: DisconnectedOp, Conn: c, Done: done})
+
+	// Keep emptying the subscription and write queue until the upper
+	// layer has processed that request and all the ones before it,
+	// after which it does not send anything to this connection.
+	for finished := false; !finished; {
+		select {
+		case <-c.writeChannel:
+		case sub := <-c.subChannel:
+			c.subBacklog = append(c.subBacklog, sub)
+			c.cleanupSubChannel()
+		case <-done:
+			finished = true
+		}
+	}
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
diff --git a/server/client/request.go b/server/client/request.go
index 3b6aa40..c847967 100644
--- a/server/client/request.go
+++ b/server/client/request.go
@@ -29,4 +29,5 @@ type Request struct {
 	Sub   *Subscription // SubscribeOp, UnsubscribeOp
 	Frame *frame.Frame  // EnqueueOp, RequeueOp
 	Conn  *Conn         // ConnectedOp, DisconnectedOp
+	Done  chan struct{} // DisconnectedOp: closed once the request is processed
 }
diff --git a/server/processor.go b/server/processor.go
index 291845a..387c84a 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -89,6 +89,10 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
 			}
+
+		case client.DisconnectedOp:
+			// nothing is sent to the connection from here on
+			close(r.Done)
 		}
 	}
 	// this is no longer required for go 1.1
-- 
2.43.0


From 5850b299bba4edc5a923eef43321402527080c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 11/40] fix: let the read loop of a finished server connection
 terminate

It stayed blocked forever when more than 16 frames were pending.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 6594739..a8e8c69 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -433,6 +433,11 @@ func (c *Conn) cleanupConn() {
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
+
+	// The read loop might be waiting to pass on frames that nobody is
+	// going to process any more, let it terminate.
+	for range c.readChannel {
+	}
 }
 
 // Discard anything on the write channel. These frames
-- 
2.43.0


From 9ad7f558dea1b9b0a2bc71907e22c4fae3b5310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 12/40] fix: start the queue storage when the server starts, as
 documented

---
 server/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/processor.go b/server/processor.go
index 387c84a..9e0d1e9 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -30,6 +30,7 @@ func newRequestProcessor(server *Server) *requestProcessor {
 	if server.QueueStorage == nil {
 		proc.qm = queue.NewManager(queue.NewMemoryQueueStorage())
 	} else {
+		server.QueueStorage.Start()
 		proc.qm = queue.NewManager(server.QueueStorage)
 	}
 
-- 
2.43.0


From c06c8ae0f1c263baea02dc017817f4009fa0124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 13/40] fix: an ACK settles only the message it names

A message-id is unique on a connection, not within a subscription: in ack
mode client every subscription of the connection whose message had a lower
id was acknowledged as well, although that message was never acknowledged.
---
 server/client/conn.go              |  7 +++++--
 server/client/subscription_list.go | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index a8e8c69..f1d50e9 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -747,8 +747,11 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			return err
 		}
 	} else {
-		// handle any subscriptions that are acknowledged by this msg
-		c.subList.Ack(msgId64, func(s *Subscription) {
+		// Handle the subscription that is acknowledged by this msg. A
+		// subscription has one message outstanding at most, so this is
+		// for ack mode client as well. Earlier messages on the list
+		// belong to other subscriptions and are not acknowledged.
+		c.subList.FindByMsgIdAndRemove(msgId64, func(s *Subscription) {
 			// remove frame from the subscription, it has been delivered
 			s.frame = nil
 
diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 2e5942a..98f3ba6 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -66,6 +66,20 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 	return nil
 }
 
+// Search for the subscription whose message has the specified message-id.
+// The subscription is removed from the list and the callback function called
+// for that subscription.
+func (sl *SubscriptionList) FindByMsgIdAndRemove(msgId uint64, callback func(s *Subscription)) {
+	for e := sl.subs.Front(); e != nil; e = e.Next() {
+		sub := e.Value.(*Subscription)
+		if sub.msgId == msgId {
+			sl.Remove(sub)
+			callback(sub)
+			return
+		}
+	}
+}
+
 // Finds all subscriptions in the subscription list that are acked by the
 // specified message-id (or ack) header. The subscription is removed from
 // the list and the callback function called for that subscription.
-- 
2.43.0


From 4eedb204488b053f0c12352eeef281c9ed681ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 14/40] fix: requeue the unacknowledged message of an ended
 subscription

It was held back until the connection ended, and a late ACK or NACK made
the queue send messages to the subscription that no longer existed.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f1d50e9..233deab 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -707,6 +707,12 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 
 	// tell the upper layer of the unsubscribe
 	c.request(Request{Op: UnsubscribeOp, Sub: sub})
+
+	// A message that was sent to the subscription but has not been
+	// acknowledged needs to be requeued in the upper layer
+	if sub := c.subList.FindByIdAndRemove(id); sub != nil {
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
+	}
 	return nil
 }
 
-- 
2.43.0


From 61638b0ea720e7e9fa5edcaa5ad22b8801279ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 15/40] fix: send nothing after the receipt for a DISCONNECT
 frame

As the comment in handleDisconnect says. The connection stayed in the
connected state, so messages kept being sent, and taken from their queues,
until the client closed the connection.
---
 server/client/conn.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 233deab..4c264b8 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -36,6 +36,7 @@ type Conn struct {
 	writeTimeout   time.Duration                       // Heart beat write timeout
 	version        stomp.Version                       // Negotiated STOMP protocol version
 	closed         bool                                // Is the connection closed
+	disconnecting  bool                                // Has the client sent a DISCONNECT frame
 	txStore        *txStore                            // Stores transactions in progress
 	lastMsgId      uint64                              // last message-id value
 	subList        *SubscriptionList                   // List of subscriptions requiring acknowledgement
@@ -288,6 +289,11 @@ func (c *Conn) processLoop() {
 				}
 			}
 
+			if c.disconnecting {
+				// the client is going to close the connection
+				return
+			}
+
 		case sub, ok := <-subChannel:
 			if !ok {
 				// subscription channel has been closed,
@@ -431,6 +437,13 @@ func (c *Conn) cleanupConn() {
 	c.discardWriteChannelFrames()
 	c.cleanupSubChannel()
 
+	// Closing too early could keep the client from receiving the receipt
+	// for its DISCONNECT, so wait until the client closes the connection.
+	if c.disconnecting {
+		for range c.readChannel {
+		}
+	}
+
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 
@@ -621,6 +634,7 @@ func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
+	c.disconnecting = true
 	return nil
 }
 
-- 
2.43.0


From ea68706fbde5e692511e2e2f7a1a8014b1f8bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 16/40] fix: allocate the memory for a body as it arrives

A frame announcing a content-length of up to 4 GB made the reader allocate
all of it at once, so a few small frames could exhaust a server's memory.
---
 frame/reader.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/frame/reader.go b/frame/reader.go
index ded3dfe..ec84c85 100644
--- a/frame/reader.go
+++ b/frame/reader.go
@@ -15,6 +15,9 @@ const (
 	nullByte   = byte(0)
 )
 
+// Memory allocated for the body of a frame before any of it has been read.
+const maxBodyAllocation = 1 << 20
+
 var (
 	ErrInvalidCommand     = errors.New("invalid command")
 	ErrInvalidFrameFormat = errors.New("invalid frame format")
@@ -109,9 +112,24 @@ func (r *Reader) Read() (*Frame, error) {
 		return nil, err
 	} else if ok {
 		// content length specified in the header, so use that
-		f.Body = make([]byte, contentLength)
+		// (but allocate only as the content arrives, because
+		// there need not be any)
+		allocate := contentLength
+		if allocate > maxBodyAllocation {
+			allocate = maxBodyAllocation
+		}
+		f.Body = make([]byte, allocate)
 		for bytesRead := 0; bytesRead < contentLength; {
-			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
+			if bytesRead == len(f.Body) {
+				allocate = 2 * len(f.Body)
+				if allocate > contentLength {
+					allocate = contentLength
+				}
+				body := make([]byte, allocate)
+				copy(body, f.Body)
+				f.Body = body
+			}
+			n, err := r.reader.Read(f.Body[bytesRead:])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 9cd30e2a83cbcad58df44a09f2419d9a29489945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 17/40] fix: treat topic messages according to the subscription
 they are for

A topic message that was still on its way within the server when its
subscription ended was sent after the receipt for the UNSUBSCRIBE, even
under an id that had been subscribed again for another destination. And
topic messages for subscriptions with ack mode client and
client-individual had no ack header, which STOMP 1.2 clients (including
the one in this library) rely on.
---
 server/client/conn.go         | 33 ++++++++++++++++++++++++---------
 server/client/subscription.go |  2 +-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 4c264b8..3da0d82 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -28,10 +28,10 @@ type Conn struct {
 	writer         *frame.Writer                       // Writes STOMP frames directly to the network connection
 	requestChannel chan Request                        // For sending requests to upper layer
 	subChannel     chan *Subscription                  // Receives subscription messages for client
-	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
+	writeChannel   chan pendingWrite                   // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
 	subBacklog     []*Subscription                     // Taken from subChannel while waiting for the upper layer
-	writeBacklog   []*frame.Frame                      // Taken from writeChannel while waiting for the upper layer
+	writeBacklog   []pendingWrite                      // Taken from writeChannel while waiting for the upper layer
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
 	version        stomp.Version                       // Negotiated STOMP protocol version
@@ -45,6 +45,13 @@ type Conn struct {
 	log            stomp.Logger
 }
 
+// A frame for the client that does not require any acknowledgement to
+// the upper layer. Has a subscription if it is a topic message.
+type pendingWrite struct {
+	frame *frame.Frame
+	sub   *Subscription
+}
+
 // Creates a new client connection. The config parameter contains
 // process-wide configuration parameters relevant to a client connection.
 // The rw parameter is a network connection object for communicating with
@@ -56,7 +63,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		rw:             rw,
 		requestChannel: ch,
 		subChannel:     make(chan *Subscription, maxPendingWrites),
-		writeChannel:   make(chan *frame.Frame, maxPendingWrites),
+		writeChannel:   make(chan pendingWrite, maxPendingWrites),
 		readChannel:    make(chan *frame.Frame, maxPendingReads),
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
@@ -73,7 +80,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 func (c *Conn) Send(f *frame.Frame) {
 	// Place the frame on the write channel. If the
 	// write channel is full, the caller will block.
-	c.writeChannel <- f
+	c.writeChannel <- pendingWrite{frame: f}
 }
 
 // Send and ERROR message to the client. The client
@@ -204,7 +211,7 @@ func (c *Conn) processLoop() {
 		// anything in a backlog goes before what is in its channel
 		writeChannel, subChannel := c.writeChannel, c.subChannel
 		if len(c.writeBacklog) > 0 {
-			writeChannel = make(chan *frame.Frame, 1)
+			writeChannel = make(chan pendingWrite, 1)
 			writeChannel <- c.writeBacklog[0]
 		}
 		if len(c.subBacklog) > 0 {
@@ -213,7 +220,7 @@ func (c *Conn) processLoop() {
 		}
 
 		select {
-		case f, ok := <-writeChannel:
+		case pending, ok := <-writeChannel:
 			if !ok {
 				// write channel has been closed, so
 				// exit go-routine (after cleaning up)
@@ -225,6 +232,14 @@ func (c *Conn) processLoop() {
 
 			// have a frame to the client with
 			// no acknowledgement required (topic)
+			f, sub := pending.frame, pending.sub
+
+			// the subscription might have been unsubscribed
+			// after this was sent to it (and its id might be
+			// in use again for another subscription)
+			if sub != nil && c.subs[sub.id] != sub {
+				continue
+			}
 
 			// stop the heart-beat timer
 			if timer != nil {
@@ -232,7 +247,7 @@ func (c *Conn) processLoop() {
 				timer = nil
 			}
 
-			c.allocateMessageId(f, nil)
+			c.allocateMessageId(f, sub)
 
 			// write the frame to the client
 			err := c.writer.Write(f)
@@ -374,8 +389,8 @@ func (c *Conn) request(r Request) {
 		select {
 		case c.requestChannel <- r:
 			return
-		case f := <-c.writeChannel:
-			c.writeBacklog = append(c.writeBacklog, f)
+		case pending := <-c.writeChannel:
+			c.writeBacklog = append(c.writeBacklog, pending)
 		case sub := <-c.subChannel:
 			c.subBacklog = append(c.subBacklog, sub)
 		}
diff --git a/server/client/subscription.go b/server/client/subscription.go
index a9f1757..59ed1fd 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -73,7 +73,7 @@ func (s *Subscription) SendTopicFrame(f *frame.Frame) {
 
 	// topics are handled differently, they just go
 	// straight to the client without acknowledgement
-	s.conn.writeChannel <- f
+	s.conn.writeChannel <- pendingWrite{frame: f, sub: s}
 }
 
 func (s *Subscription) setSubscriptionHeader(f *frame.Frame) {
-- 
2.43.0


From a0376460af3b3e67d5e42380263db13655f22206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 18/40] fix: the server's heart-beat timeout is for received
 data, not for whole frames

---
 server/client/conn.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 3da0d82..65e1363 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -119,22 +119,34 @@ func (c *Conn) sendImmediately(f *frame.Frame) error {
 	return c.writer.Write(f)
 }
 
+// Reads from a connection, and fails when no data at all has been
+// received during the timeout. The timeout starts again whenever data
+// has been received, however long it takes to receive a whole frame.
+type timeoutReader struct {
+	rw      net.Conn
+	timeout time.Duration // zero for no timeout
+}
+
+func (r *timeoutReader) Read(p []byte) (int, error) {
+	if r.timeout == time.Duration(0) {
+		// infinite timeout
+		r.rw.SetReadDeadline(time.Time{})
+	} else {
+		r.rw.SetReadDeadline(time.Now().Add(r.timeout))
+	}
+	return r.rw.Read(p)
+}
+
 // Go routine for reading bytes from a client and assembling into
 // STOMP frames. Also handles heart-beat read timeout. All read
 // frames are pushed onto the read channel to be processed by the
 // processLoop go-routine. This keeps all processing of frames for
 // this connection on the one go-routine and avoids race conditions.
 func (c *Conn) readLoop() {
-	reader := frame.NewReader(c.rw)
+	source := &timeoutReader{rw: c.rw}
+	reader := frame.NewReader(source)
 	expectingConnect := true
-	readTimeout := time.Duration(0)
 	for {
-		if readTimeout == time.Duration(0) {
-			// infinite timeout
-			c.rw.SetReadDeadline(time.Time{})
-		} else {
-			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
-		}
 		f, err := reader.Read()
 		if err != nil {
 			if err == io.EOF {
@@ -179,7 +191,7 @@ func (c *Conn) readLoop() {
 					cx = min
 				}
 
-				readTimeout = time.Duration(cx) * time.Millisecond
+				source.timeout = time.Duration(cx) * time.Millisecond * 2
 
 				expectingConnect = false
 			}
-- 
2.43.0


From 7bec3d996ca913ef230047833a837de537d499fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 19/40] fix: a receipt that arrives after its timeout does not
 block the connection

---
 conn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 94c3108..8dfe87e 100644
--- a/conn.go
+++ b/conn.go
@@ -59,7 +59,7 @@ type Conn struct {
 
 type writeRequest struct {
 	Frame *frame.Frame      // frame to send
-	C     chan *frame.Frame // response channel
+	C     chan *frame.Frame // response channel; for a receipt it has room for the one response
 }
 
 // Dial creates a network connection to a STOMP server and performs
@@ -485,7 +485,7 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
+	ch := make(chan *frame.Frame, 1)
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
@@ -551,7 +551,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
@@ -650,7 +650,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		c.writeCh <- request
-- 
2.43.0


From ac7ad8527d478cb62e7b733e638e8de66645116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 20/40] fix: confirmed sends of several goroutines do not wait
 for each other's receipts

---
 conn.go | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/conn.go b/conn.go
index 8dfe87e..ab2d745 100644
--- a/conn.go
+++ b/conn.go
@@ -532,48 +532,45 @@ func (c *Conn) MustDisconnect() error {
 // Any number of options can be specified in opts. See the examples for usage. Options include whether
 // to receive a RECEIPT, should the content-length be suppressed, and sending custom header entries.
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
+	request, err := c.startSend(destination, contentType, body, opts)
+	if err != nil {
+		return err
+	}
+
+	if request.C != nil {
+		// wait for the receipt without holding the lock, so that
+		// other calls do not have to wait for it as well
+		return readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
+	}
+
+	return nil
+}
+
+// startSend passes a SEND frame to the processLoop. The request it returns
+// has a response channel if the frame asks for a receipt.
+func (c *Conn) startSend(destination, contentType string, body []byte, opts []func(*frame.Frame) error) (writeRequest, error) {
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
-		return ErrAlreadyClosed
+		return writeRequest{}, ErrAlreadyClosed
 	}
 
 	f, err := createSendFrame(destination, contentType, body, opts)
 	if err != nil {
-		return err
+		return writeRequest{}, err
 	}
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
+	request := writeRequest{Frame: f}
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
-		request := writeRequest{
-			Frame: f,
-			C:     make(chan *frame.Frame, 1),
-		}
-
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
-
-		err = readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
-		if err != nil {
-			return err
-		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
-
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
+		request.C = make(chan *frame.Frame, 1)
 	}
 
-	return nil
+	return request, sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
-- 
2.43.0


From c4a4121fb1053ed8a0e6f81b579b85bb8ac102a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:45 +0000
Subject: [PATCH 21/40] fix: keep receipts and messages apart in the client

---
 conn.go | 62 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/conn.go b/conn.go
index ab2d745..3c062f0 100644
--- a/conn.go
+++ b/conn.go
@@ -304,7 +304,12 @@ func readLoop(c *Conn, reader *frame.Reader) {
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
-	channels := make(map[string]chan *frame.Frame)
+	// The channels that frames from the server are passed on to. Receipts
+	// and messages are looked up separately: a receipt id is never a
+	// subscription id, whatever its text is.
+	receipts := make(map[string]chan *frame.Frame) // by receipt id
+	unsubs := make(map[string]chan *frame.Frame)   // by the receipt id of the UNSUBSCRIBE
+	subs := make(map[string]chan *frame.Frame)     // by subscription id
 
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
@@ -327,14 +332,14 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
-			sendError(channels, err)
+			sendError(receipts, subs, err)
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(channels, err)
+				sendError(receipts, subs, err)
 				return
 			}
 			writeTimer = nil
@@ -350,7 +355,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			if !ok {
 				err := newErrorMessage("connection closed")
-				sendError(channels, err)
+				sendError(receipts, subs, err)
 				return
 			}
 
@@ -362,20 +367,31 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			switch f.Command {
 			case frame.RECEIPT:
 				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
-					if ch, ok := channels[id]; ok {
+					if ch, ok := receipts[id]; ok {
+						delete(receipts, id)
+						ch <- f
+						close(ch)
+					} else if ch, ok := unsubs[id]; ok {
+						delete(unsubs, id)
+						if subs[id] == ch {
+							delete(subs, id)
+						}
 						ch <- f
-						delete(channels, id)
 						close(ch)
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(channels, err)
+					sendError(receipts, subs, err)
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, ch := range channels {
+				for _, ch := range receipts {
+					ch <- f
+					close(ch)
+				}
+				for _, ch := range subs {
 					ch <- f
 					close(ch)
 				}
@@ -389,7 +405,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
-					if ch, ok := channels[id]; ok {
+					if ch, ok := subs[id]; ok {
 						ch <- f
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
@@ -405,13 +421,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				writeTimeoutChannel = nil
 			}
 			if !ok {
-				sendError(channels, errors.New("write channel closed"))
+				sendError(receipts, subs, errors.New("write channel closed"))
 				return
 			}
-			if req.C != nil {
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
-					channels[receipt] = req.C
+					receipts[receipt] = req.C
 				}
 			}
 
@@ -424,18 +440,18 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				// however, don't send the frame, it's most likely an invalid destination
 				// on the broker.
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					channels[replyTo] = req.C
+					subs[replyTo] = req.C
 					sendFrame = false
 				} else {
 					id, _ := req.Frame.Header.Contains(frame.Id)
-					channels[id] = req.C
+					subs[id] = req.C
 				}
 
 			case frame.UNSUBSCRIBE:
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					ch, ok := channels[replyTo]
+					ch, ok := subs[replyTo]
 					if ok {
-						delete(channels, replyTo)
+						delete(subs, replyTo)
 						close(ch)
 					}
 					sendFrame = false
@@ -445,6 +461,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					// header so that when the server responds with a
 					// RECEIPT frame, the corresponding channel will be closed
 					req.Frame.Header.Set(frame.Receipt, id)
+					if ch, ok := subs[id]; ok {
+						unsubs[id] = ch
+					}
 				}
 			}
 
@@ -452,7 +471,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(channels, err)
+					sendError(receipts, subs, err)
 					return
 				}
 			}
@@ -460,10 +479,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 }
 
-// Send an error to all receipt channels.
-func sendError(m map[string]chan *frame.Frame, err error) {
+// Send an error to all receipt and subscription channels.
+func sendError(receipts, subs map[string]chan *frame.Frame, err error) {
 	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-	for _, ch := range m {
+	for _, ch := range receipts {
+		ch <- frame
+	}
+	for _, ch := range subs {
 		ch <- frame
 	}
 }
-- 
2.43.0


From 5fd366eddbf1970f1ca03619091a9b3413bef653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:57 +0000
Subject: [PATCH 22/40] fix: Unsubscribe reports timeouts and lost connections,
 and leaves no locked mutex behind

---
 conn.go         |   5 +-
 subscription.go | 179 +++++++++++++++++++++++++-----------------------
 2 files changed, 97 insertions(+), 87 deletions(-)

diff --git a/conn.go b/conn.go
index 3c062f0..ed78da3 100644
--- a/conn.go
+++ b/conn.go
@@ -756,7 +756,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		C:     ch,
 	}
 
-	closeMutex := &sync.Mutex{}
 	sub := &Subscription{
 		id:                        id,
 		replyToSet:                replyToSet,
@@ -764,8 +763,8 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		conn:                      c,
 		ackMode:                   ack,
 		C:                         make(chan *Message, 16),
-		closeMutex:                closeMutex,
-		closeCond:                 sync.NewCond(closeMutex),
+		closed:                    make(chan struct{}),
+		giveUp:                    make(chan struct{}),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 	go sub.readLoop(ch)
diff --git a/subscription.go b/subscription.go
index 8ca54af..657fe1f 100644
--- a/subscription.go
+++ b/subscription.go
@@ -1,9 +1,7 @@
 package stomp
 
 import (
-	"errors"
 	"fmt"
-	"sync"
 	"sync/atomic"
 	"time"
 
@@ -28,9 +26,9 @@ type Subscription struct {
 	conn                      *Conn
 	ackMode                   AckMode
 	state                     int32
-	closeMutex                *sync.Mutex
-	closeCond                 *sync.Cond
-	closeOnce                 sync.Once
+	confirmed                 bool          // the server has confirmed the UNSUBSCRIBE; set before closed is closed
+	closed                    chan struct{} // closed after C has been closed
+	giveUp                    chan struct{} // closed when the UNSUBSCRIBE was not confirmed in time
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -63,8 +61,7 @@ func (s *Subscription) Active() bool {
 
 // Unsubscribes and closes the channel C.
 func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
-	// transition to the "closing" state
-	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+	if !s.Active() {
 		return ErrCompletedSubscription
 	}
 
@@ -80,55 +77,45 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		}
 	}
 
+	// UNSUBSCRIBE is a bit weird in that it is tagged with a "receipt" header
+	// on the I/O goroutine, so the call to sendFrame() below will not wait
+	// for the resulting RECEIPT. A receipt header from the options would make
+	// it wait for a RECEIPT that never comes.
+	f.Header.Del(frame.Receipt)
+
 	if s.replyToSet {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
 
+	// transition to the "closing" state
+	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+		return ErrCompletedSubscription
+	}
+
 	err := s.conn.sendFrame(f)
-	if errors.Is(err, ErrClosedUnexpectedly) {
-		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
+	if err != nil {
+		// the subscription ends together with the connection
 		return err
 	}
 
-	// UNSUBSCRIBE is a bit weird in that it is tagged with a "receipt" header
-	// on the I/O goroutine, so the above call to sendFrame() will not wait
-	// for the resulting RECEIPT.
-	//
-	// We don't want to interfere with `s.C` since we might be "stealing"
-	// MESSAGEs or ERRORs from another goroutine, so use a sync.Cond to
-	// wait for the terminal state transition instead.
-	s.closeMutex.Lock()
-	for atomic.LoadInt32(&s.state) != subStateClosed {
-		err = waitWithTimeout(s.closeCond, s.unsubscribeReceiptTimeout)
-		if err != nil && errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
-			// The [closeCond.Broadcast] can race with the timeout, so make sure
-			// the channel is still available.
-			if atomic.LoadInt32(&s.state) != subStateClosed {
-				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
-			}
-			return err
-		}
+	var timeout <-chan time.Time
+	if s.unsubscribeReceiptTimeout > 0 {
+		timer := time.NewTimer(s.unsubscribeReceiptTimeout)
+		defer timer.Stop()
+		timeout = timer.C
 	}
-	s.closeMutex.Unlock()
-	return err
-}
 
-func waitWithTimeout(cond *sync.Cond, timeout time.Duration) error {
-	if timeout == 0 {
-		cond.Wait()
-		return nil
-	}
-	waitChan := make(chan struct{})
-	go func() {
-		cond.Wait()
-		close(waitChan)
-	}()
+	// We don't want to interfere with `s.C` since we might be "stealing"
+	// MESSAGEs or ERRORs from another goroutine, so leave it to the readLoop
+	// and wait for the terminal state transition instead.
 	select {
-	case <-waitChan:
+	case <-s.closed:
+		if !s.confirmed {
+			return ErrClosedUnexpectedly
+		}
 		return nil
-	case <-time.After(timeout):
+	case <-timeout:
+		close(s.giveUp)
 		return &ErrUnsubscribeReceiptTimeout
 	}
 }
@@ -150,15 +137,33 @@ func (s *Subscription) Read() (*Message, error) {
 	return msg, nil
 }
 
+// closeChannel ends the subscription, with msg as the last thing on the
+// channel C. It is only called by the readLoop, and only once.
 func (s *Subscription) closeChannel(msg *Message) {
-	s.closeOnce.Do(func() {
-		if msg != nil {
-			s.C <- msg
+	if msg != nil {
+		s.C <- msg
+	}
+	atomic.StoreInt32(&s.state, subStateClosed)
+	close(s.C)
+	close(s.closed)
+}
+
+// abandon ends the subscription when its UNSUBSCRIBE has not been confirmed
+// in time. What the server still sends for it is discarded, so that it does
+// not hold up the connection.
+func (s *Subscription) abandon(ch chan *frame.Frame) {
+	msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
+	delivered := make(chan struct{})
+	go func() {
+		s.closeChannel(msg)
+		close(delivered)
+	}()
+	for f := range ch {
+		if f.Command != frame.MESSAGE {
+			break
 		}
-		atomic.StoreInt32(&s.state, subStateClosed)
-		close(s.C)
-		s.closeCond.Broadcast()
-	})
+	}
+	<-delivered
 }
 
 func (s *Subscription) subscriptionErrorMessage(message string) *Message {
@@ -169,15 +174,22 @@ func (s *Subscription) subscriptionErrorMessage(message string) *Message {
 	}
 }
 
+// readLoop passes on what the server sends for the subscription. It is the
+// only goroutine that sends to or closes the channel C.
 func (s *Subscription) readLoop(ch chan *frame.Frame) {
 	for {
-		f, ok := <-ch
+		var f *frame.Frame
+		var ok bool
+
+		select {
+		case f, ok = <-ch:
+		case <-s.giveUp:
+			s.abandon(ch)
+			return
+		}
+
 		if !ok {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				msg := s.subscriptionErrorMessage("channel read failed")
-				s.closeChannel(msg)
-			}
+			s.closeChannel(s.subscriptionErrorMessage("channel read failed"))
 			return
 		}
 
@@ -192,36 +204,35 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 				Header:       f.Header,
 				Body:         f.Body,
 			}
-			s.C <- msg
-		} else if f.Command == frame.ERROR {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				message, _ := f.Header.Contains(frame.Message)
-				text := fmt.Sprintf("Subscription %s: %s: ERROR message:%s",
-					s.id,
-					s.destination,
-					message)
-				s.conn.log.Info(text)
-				contentType := f.Header.Get(frame.ContentType)
-				msg := &Message{
-					Err: &Error{
-						Message: f.Header.Get(frame.Message),
-						Frame:   f,
-					},
-					ContentType:  contentType,
-					Conn:         s.conn,
-					Subscription: s,
-					Header:       f.Header,
-					Body:         f.Body,
-				}
-				s.closeChannel(msg)
+			select {
+			case s.C <- msg:
+			case <-s.giveUp:
+				s.abandon(ch)
+				return
 			}
+		} else if f.Command == frame.ERROR {
+			message, _ := f.Header.Contains(frame.Message)
+			text := fmt.Sprintf("Subscription %s: %s: ERROR message:%s",
+				s.id,
+				s.destination,
+				message)
+			s.conn.log.Info(text)
+			contentType := f.Header.Get(frame.ContentType)
+			s.closeChannel(&Message{
+				Err: &Error{
+					Message: f.Header.Get(frame.Message),
+					Frame:   f,
+				},
+				ContentType:  contentType,
+				Conn:         s.conn,
+				Subscription: s,
+				Header:       f.Header,
+				Body:         f.Body,
+			})
 			return
 		} else if f.Command == frame.RECEIPT {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				s.closeChannel(nil)
-			}
+			s.confirmed = true
+			s.closeChannel(nil)
 			return
 		} else {
 			s.conn.log.Infof("Subscription %s: %s: unsupported frame type: %+v", s.id, s.destination, f)
-- 
2.43.0


From d1d44834c09c79fc1fafca94006b21df9ad56659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 23/40] fix: the client goes on writing while a message waits
 for its subscription

---
 conn.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index ed78da3..e6a6368 100644
--- a/conn.go
+++ b/conn.go
@@ -311,6 +311,11 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	unsubs := make(map[string]chan *frame.Frame)   // by the receipt id of the UNSUBSCRIBE
 	subs := make(map[string]chan *frame.Frame)     // by subscription id
 
+	// Frames on their way to a subscription. Nothing more is taken from
+	// readCh until they have been accepted, but writing goes on: the reader
+	// of the subscription may be waiting for that.
+	var deliveries []delivery
+
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
@@ -328,7 +333,17 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			writeTimeoutChannel = writeTimer.C
 		}
 
+		readCh := c.readCh
+		var next delivery
+		if len(deliveries) > 0 {
+			readCh = nil
+			next = deliveries[0]
+		}
+
 		select {
+		case next.ch <- next.f:
+			deliveries = deliveries[1:]
+
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
@@ -345,7 +360,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			writeTimer = nil
 			writeTimeoutChannel = nil
 
-		case f, ok := <-c.readCh:
+		case f, ok := <-readCh:
 			// stop the read timer
 			if readTimer != nil {
 				readTimer.Stop()
@@ -376,8 +391,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 						if subs[id] == ch {
 							delete(subs, id)
 						}
-						ch <- f
-						close(ch)
+						deliveries = append(deliveries, delivery{ch, f})
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
@@ -406,7 +420,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
 					if ch, ok := subs[id]; ok {
-						ch <- f
+						deliveries = append(deliveries, delivery{ch, f})
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
 					}
@@ -451,8 +465,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
 					ch, ok := subs[replyTo]
 					if ok {
+						// there is no RECEIPT from the server to wait for
 						delete(subs, replyTo)
-						close(ch)
+						receipt := frame.New(frame.RECEIPT, frame.ReceiptId, replyTo)
+						deliveries = append(deliveries, delivery{ch, receipt})
 					}
 					sendFrame = false
 				} else {
@@ -479,6 +495,12 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 }
 
+// A delivery is a frame for the subscription that reads from the channel.
+type delivery struct {
+	ch chan *frame.Frame
+	f  *frame.Frame
+}
+
 // Send an error to all receipt and subscription channels.
 func sendError(receipts, subs map[string]chan *frame.Frame, err error) {
 	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-- 
2.43.0


From 88c2bf88b6552fb87ebb44cc74ed1888e46afa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 24/40] fix: end everything that waits when the client's
 connection ends, and nothing else

---
 conn.go | 215 ++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 140 insertions(+), 75 deletions(-)

diff --git a/conn.go b/conn.go
index e6a6368..7c77907 100644
--- a/conn.go
+++ b/conn.go
@@ -50,6 +50,8 @@ type Conn struct {
 	hbGracePeriodMultiplier   float64
 	closed                    bool
 	closeMutex                *sync.Mutex
+	stop                      chan struct{} // closed when the network connection is closed
+	stopOnce                  sync.Once
 	options                   *connOptions
 	log                       Logger
 	writesSent                int64
@@ -104,6 +106,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c := &Conn{
 		conn:       conn,
 		closeMutex: &sync.Mutex{},
+		stop:       make(chan struct{}),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -297,7 +300,11 @@ func readLoop(c *Conn, reader *frame.Reader) {
 		if c.statsEnabled {
 			atomic.AddInt64(&c.readsReceived, 1)
 		}
-		c.readCh <- f
+		select {
+		case c.readCh <- f:
+		case <-c.stop:
+			return
+		}
 	}
 }
 
@@ -321,7 +328,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
-	defer c.MustDisconnect()
+	// Every way out ends the connection, and tells everybody who waits for
+	// something from the server why.
+	var failure *frame.Frame
+	defer func() { c.finish(failure, receipts, unsubs, subs, deliveries) }()
 
 	for {
 		if c.readTimeout > 0 && readTimer == nil {
@@ -341,20 +351,23 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		}
 
 		select {
+		case <-c.stop:
+			failure = errorFrame(newErrorMessage("connection closed"))
+			return
+
 		case next.ch <- next.f:
 			deliveries = deliveries[1:]
 
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
-			err := newErrorMessage("read timeout")
-			sendError(receipts, subs, err)
+			failure = errorFrame(newErrorMessage("read timeout"))
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(receipts, subs, err)
+				failure = errorFrame(err)
 				return
 			}
 			writeTimer = nil
@@ -369,8 +382,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			}
 
 			if !ok {
-				err := newErrorMessage("connection closed")
-				sendError(receipts, subs, err)
+				failure = errorFrame(newErrorMessage("connection closed"))
 				return
 			}
 
@@ -394,27 +406,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 						deliveries = append(deliveries, delivery{ch, f})
 					}
 				} else {
-					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(receipts, subs, err)
+					failure = errorFrame(&Error{Message: "missing receipt-id", Frame: f})
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, ch := range receipts {
-					ch <- f
-					close(ch)
-				}
-				for _, ch := range subs {
-					ch <- f
-					close(ch)
-				}
-
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
+				failure = f
 				return
 
 			case frame.MESSAGE:
@@ -427,17 +425,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				}
 			}
 
-		case req, ok := <-c.writeCh:
+		case req := <-c.writeCh:
 			// stop the write timeout
 			if writeTimer != nil {
 				writeTimer.Stop()
 				writeTimer = nil
 				writeTimeoutChannel = nil
 			}
-			if !ok {
-				sendError(receipts, subs, errors.New("write channel closed"))
-				return
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -487,7 +481,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(receipts, subs, err)
+					failure = errorFrame(err)
 					return
 				}
 			}
@@ -501,15 +495,66 @@ type delivery struct {
 	f  *frame.Frame
 }
 
-// Send an error to all receipt and subscription channels.
-func sendError(receipts, subs map[string]chan *frame.Frame, err error) {
-	frame := frame.New(frame.ERROR, frame.Message, err.Error())
+// finish ends the connection when the processLoop ends.
+func (c *Conn) finish(failure *frame.Frame, receipts, unsubs, subs map[string]chan *frame.Frame, deliveries []delivery) {
+	// this also lets go of those who wait for room in writeCh
+	c.closeConn()
+
+	// nothing is added to writeCh after this
+	c.closeMutex.Lock()
+	c.closed = true
+	c.closeMutex.Unlock()
+
+	for len(c.writeCh) > 0 {
+		req := <-c.writeCh
+		if req.Frame.Command == frame.SUBSCRIBE {
+			deliveries = append(deliveries, delivery{req.C, failure})
+		} else if req.C != nil {
+			req.C <- failure
+		}
+	}
+
 	for _, ch := range receipts {
-		ch <- frame
+		ch <- failure
 	}
+
 	for _, ch := range subs {
-		ch <- frame
+		deliveries = append(deliveries, delivery{ch, failure})
 	}
+	for id, ch := range unsubs {
+		if subs[id] != ch {
+			deliveries = append(deliveries, delivery{ch, failure})
+		}
+	}
+
+	// a subscription that nobody reads from must not hold up the others
+	perSub := make(map[chan *frame.Frame][]*frame.Frame)
+	for _, d := range deliveries {
+		perSub[d.ch] = append(perSub[d.ch], d.f)
+	}
+	for ch, frames := range perSub {
+		go func(ch chan *frame.Frame, frames []*frame.Frame) {
+			for _, f := range frames {
+				ch <- f
+			}
+		}(ch, frames)
+	}
+}
+
+// closeConn closes the network connection, which makes the readLoop and the
+// processLoop end.
+func (c *Conn) closeConn() error {
+	var err error
+	c.stopOnce.Do(func() {
+		close(c.stop)
+		err = c.conn.Close()
+	})
+	return err
+}
+
+// errorFrame returns an ERROR frame for an error that does not come from the server.
+func errorFrame(err error) *frame.Frame {
+	return frame.New(frame.ERROR, frame.Message, err.Error())
 }
 
 // Disconnect will disconnect from the STOMP server. This function
@@ -519,51 +564,60 @@ func sendError(receipts, subs map[string]chan *frame.Frame, err error) {
 // with the STOMP server is closed and any further attempt to write
 // to the server will fail.
 func (c *Conn) Disconnect() error {
+	ch, err := c.startDisconnect()
+	if ch == nil {
+		return err
+	}
+
+	if err == nil {
+		err = readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
+	}
+	if err == nil {
+		return c.closeConn()
+	}
+
+	if err == ErrDisconnectReceiptTimeout {
+		_ = c.closeConn()
+	}
+
+	return err
+}
+
+// startDisconnect passes a DISCONNECT frame to the processLoop. It returns the
+// channel for the response, or nil if the connection is closed already.
+func (c *Conn) startDisconnect() (chan *frame.Frame, error) {
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
-		return nil
+		return nil, nil
 	}
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
+	// the last frame that is sent
+	c.closed = true
+
 	ch := make(chan *frame.Frame, 1)
-	c.writeCh <- writeRequest{
+	err := c.enqueue(writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
-	}
-
-	err := readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
-	if err == nil {
-		c.closed = true
-		return c.conn.Close()
-	}
-
-	if err == ErrDisconnectReceiptTimeout {
-		c.closed = true
-		_ = c.conn.Close()
-	}
-
-	return err
+	}, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout, ErrAlreadyClosed)
+	return ch, err
 }
 
 // MustDisconnect will disconnect 'ungracefully' from the STOMP server.
 // This method should be used only as last resort when there are fatal
 // network errors that prevent to do a proper disconnect from the server.
 func (c *Conn) MustDisconnect() error {
+	// somebody may hold the lock until the connection is closed
+	err := c.closeConn()
+
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
-	if c.closed {
-		return nil
-	}
-
-	// just close writeCh
-	close(c.writeCh)
-
 	c.closed = true
-	return c.conn.Close()
+	return err
 }
 
 // Send sends a message to the STOMP server, which in turn sends the message to the specified destination.
@@ -614,7 +668,7 @@ func (c *Conn) startSend(destination, contentType string, body []byte, opts []fu
 		request.C = make(chan *frame.Frame, 1)
 	}
 
-	return request, sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
+	return request, c.enqueue(request, c.msgSendTimeout, ErrMsgSendTimeout, ErrAlreadyClosed)
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
@@ -634,19 +688,23 @@ func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duratio
 	}
 }
 
-func sendDataToWriteChWithTimeout(ch chan writeRequest, request writeRequest, timeout time.Duration) error {
-	if timeout <= 0 {
-		ch <- request
-		return nil
+// enqueue passes a request to the processLoop. The caller holds closeMutex and
+// has seen that the connection is not closed.
+func (c *Conn) enqueue(request writeRequest, timeout time.Duration, timeoutErr, closedErr error) error {
+	var timeoutChan <-chan time.Time
+	if timeout > 0 {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
 	}
 
-	timer := time.NewTimer(timeout)
 	select {
-	case <-timer.C:
-		return ErrMsgSendTimeout
-	case ch <- request:
-		timer.Stop()
+	case c.writeCh <- request:
 		return nil
+	case <-c.stop:
+		return closedErr
+	case <-timeoutChan:
+		return timeoutErr
 	}
 }
 
@@ -679,7 +737,6 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 	c.closeMutex.Lock()
 	if c.closed {
 		c.closeMutex.Unlock()
-		c.conn.Close()
 		return ErrClosedUnexpectedly
 	}
 
@@ -694,12 +751,16 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 			C:     make(chan *frame.Frame, 1),
 		}
 
-		c.writeCh <- request
+		err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly)
 
 		// Now that we've written to the writeCh channel we can release the
 		// close mutex while we wait for our response
 		c.closeMutex.Unlock()
 
+		if err != nil {
+			return err
+		}
+
 		var response *frame.Frame
 
 		if c.writeTimeout > 0 {
@@ -722,10 +783,14 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 	} else {
 		// no receipt required
 		request := writeRequest{Frame: f}
-		c.writeCh <- request
+		err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly)
 
 		// Unlock the mutex now that we're written to the write channel
 		c.closeMutex.Unlock()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -739,7 +804,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
-		c.conn.Close()
 		return nil, ErrClosedUnexpectedly
 	}
 
@@ -789,14 +853,15 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		giveUp:                    make(chan struct{}),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
-	go sub.readLoop(ch)
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	// TODO is this safe? There is no check if writeCh is actually open.
-	c.writeCh <- request
+	if err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly); err != nil {
+		return nil, err
+	}
+	go sub.readLoop(ch)
 	return sub, nil
 }
 
-- 
2.43.0


From f1a8826bc5bb75b740053f604942ceb971804f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 25/40] fix: the client sends no heart-beat after DISCONNECT

---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 7c77907..781fd30 100644
--- a/conn.go
+++ b/conn.go
@@ -327,6 +327,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
+	var disconnecting bool // the DISCONNECT frame is the last one, not even a heart-beat follows it
 
 	// Every way out ends the connection, and tells everybody who waits for
 	// something from the server why.
@@ -338,7 +339,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
 			readTimeoutChannel = readTimer.C
 		}
-		if c.writeTimeout > 0 && writeTimer == nil {
+		if c.writeTimeout > 0 && writeTimer == nil && !disconnecting {
 			writeTimer = time.NewTimer(c.writeTimeout)
 			writeTimeoutChannel = writeTimer.C
 		}
@@ -477,6 +478,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				}
 			}
 
+			if req.Frame.Command == frame.DISCONNECT {
+				disconnecting = true
+			}
+
 			// frame to send, if enabled
 			if sendFrame {
 				err := writer.Write(req.Frame)
-- 
2.43.0


From 1e8b8e449462afdf1ad1ee0a35408fbab5c2eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 26/40] fix: the client's write buffer has the size given for
 it

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 781fd30..390e6b9 100644
--- a/conn.go
+++ b/conn.go
@@ -121,7 +121,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	}
 
 	if options.WriteBufferSize > 0 {
-		writer = frame.NewWriterSize(conn, options.ReadBufferSize)
+		writer = frame.NewWriterSize(conn, options.WriteBufferSize)
 	}
 
 	readChannelCapacity := 20
-- 
2.43.0


From 0f9f84ec8d792796d6a2d01a5f8db1a674d591b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 27/40] fix: Dial closes the network connection when the STOMP
 connect fails

---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 390e6b9..3134ba6 100644
--- a/conn.go
+++ b/conn.go
@@ -88,7 +88,12 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		c.Close()
+		return nil, err
+	}
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
-- 
2.43.0


From ceef3bd0c488a2c28f3897d9c56259e8fd904519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 28/40] fix: no read timeout unless both sides agreed that the
 server sends heart-beats

---
 conn.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 3134ba6..a72deed 100644
--- a/conn.go
+++ b/conn.go
@@ -217,8 +217,13 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
-			readTimeout = options.ReadTimeout
+		if readTimeout > 0 && options.ReadTimeout >= time.Millisecond {
+			if readTimeout < options.ReadTimeout {
+				readTimeout = options.ReadTimeout
+			}
+		} else {
+			// the server cannot send heart-beats, or has been asked not to
+			readTimeout = 0
 		}
 
 		c.readTimeout = readTimeout
-- 
2.43.0


From 122d1d3ede4bc8c23e6e3cf769bf15bdd84fcca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 29/40] fix: count the frames that are really sent

---
 conn.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index a72deed..b05c0b8 100644
--- a/conn.go
+++ b/conn.go
@@ -499,6 +499,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					failure = errorFrame(err)
 					return
 				}
+				if c.statsEnabled {
+					atomic.AddInt64(&c.writesSent, 1)
+				}
 			}
 		}
 	}
@@ -607,10 +610,6 @@ func (c *Conn) startDisconnect() (chan *frame.Frame, error) {
 		return nil, nil
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	// the last frame that is sent
 	c.closed = true
 
@@ -673,10 +672,6 @@ func (c *Conn) startSend(destination, contentType string, body []byte, opts []fu
 		return writeRequest{}, err
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	request := writeRequest{Frame: f}
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
@@ -755,10 +750,6 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		return ErrClosedUnexpectedly
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
 		request := writeRequest{
@@ -869,10 +860,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
 	if err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From abbb0605b85908514c8ea375c125b3b26492e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 30/40] fix: the client's read timeout is for received data,
 not for whole frames

---
 conn.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index b05c0b8..4a687b3 100644
--- a/conn.go
+++ b/conn.go
@@ -36,6 +36,7 @@ const ReplyToHeader = "reply-to"
 // the Dial or Connect function.
 type Conn struct {
 	conn                      io.ReadWriteCloser
+	activity                  *activityReader
 	readCh                    chan *frame.Frame
 	writeCh                   chan writeRequest
 	version                   Version
@@ -105,11 +106,13 @@ func Connect(conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error)
 }
 
 func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error) {
-	reader := frame.NewReader(conn)
+	activity := &activityReader{r: conn, start: time.Now()}
+	reader := frame.NewReader(activity)
 	writer := frame.NewWriter(conn)
 
 	c := &Conn{
 		conn:       conn,
+		activity:   activity,
 		closeMutex: &sync.Mutex{},
 		stop:       make(chan struct{}),
 	}
@@ -122,7 +125,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c.log = options.Logger
 
 	if options.ReadBufferSize > 0 {
-		reader = frame.NewReaderSize(conn, options.ReadBufferSize)
+		reader = frame.NewReaderSize(activity, options.ReadBufferSize)
 	}
 
 	if options.WriteBufferSize > 0 {
@@ -312,12 +315,39 @@ func readLoop(c *Conn, reader *frame.Reader) {
 		}
 		select {
 		case c.readCh <- f:
+			// the time waiting for room in readCh does not count
+			// as silence of the server
+			c.activity.note()
 		case <-c.stop:
 			return
 		}
 	}
 }
 
+// An activityReader remembers when data has last been received.
+type activityReader struct {
+	last  int64 // nanoseconds from start
+	start time.Time
+	r     io.Reader
+}
+
+func (a *activityReader) Read(p []byte) (int, error) {
+	n, err := a.r.Read(p)
+	if n > 0 {
+		a.note()
+	}
+	return n, err
+}
+
+func (a *activityReader) note() {
+	atomic.StoreInt64(&a.last, int64(time.Since(a.start)))
+}
+
+// idle returns for how long nothing has been received.
+func (a *activityReader) idle() time.Duration {
+	return time.Since(a.start) - time.Duration(atomic.LoadInt64(&a.last))
+}
+
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
@@ -333,6 +363,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	// of the subscription may be waiting for that.
 	var deliveries []delivery
 
+	readTimeout := time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier)
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
@@ -346,7 +377,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 	for {
 		if c.readTimeout > 0 && readTimer == nil {
-			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
+			readTimer = time.NewTimer(readTimeout - c.activity.idle())
 			readTimeoutChannel = readTimer.C
 		}
 		if c.writeTimeout > 0 && writeTimer == nil && !disconnecting {
@@ -370,6 +401,18 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			deliveries = deliveries[1:]
 
 		case <-readTimeoutChannel:
+			if len(c.readCh) == cap(c.readCh) {
+				// the readLoop may be waiting for us instead of the server
+				readTimer.Reset(readTimeout)
+				continue
+			}
+			if c.activity.idle() < readTimeout {
+				// something has been received in the meantime
+				readTimer = nil
+				readTimeoutChannel = nil
+				continue
+			}
+
 			// read timeout, close the connection
 			failure = errorFrame(newErrorMessage("read timeout"))
 			return
@@ -385,13 +428,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			writeTimeoutChannel = nil
 
 		case f, ok := <-readCh:
-			// stop the read timer
-			if readTimer != nil {
-				readTimer.Stop()
-				readTimer = nil
-				readTimeoutChannel = nil
-			}
-
 			if !ok {
 				failure = errorFrame(newErrorMessage("connection closed"))
 				return
-- 
2.43.0


From d6f9ce7b02d978d29d82411506624d6c1916a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 31/40] fix: Subscription.Read returns what was received before
 the subscription ended

---
 subscription.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subscription.go b/subscription.go
index 657fe1f..7f32998 100644
--- a/subscription.go
+++ b/subscription.go
@@ -124,9 +124,7 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 // method: many callers will prefer to read from the channel C
 // directly.
 func (s *Subscription) Read() (*Message, error) {
-	if !s.Active() {
-		return nil, ErrCompletedSubscription
-	}
+	// What was received before the subscription ended is still there.
 	msg, ok := <-s.C
 	if !ok {
 		return nil, ErrCompletedSubscription
-- 
2.43.0


From 52e7972e114daa919676f8c8d52861a93f85f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 32/40] fix: Disconnect, Unsubscribe and Send time out although
 another call waits for the server to read

---
 conn.go         | 132 +++++++++++++++++++++++++++++++-----------------
 subscription.go |  15 +++---
 2 files changed, 93 insertions(+), 54 deletions(-)

diff --git a/conn.go b/conn.go
index 4a687b3..e6e325e 100644
--- a/conn.go
+++ b/conn.go
@@ -50,7 +50,7 @@ type Conn struct {
 	unsubscribeReceiptTimeout time.Duration
 	hbGracePeriodMultiplier   float64
 	closed                    bool
-	closeMutex                *sync.Mutex
+	closeLock                 chan struct{} // held by who sends to it; protects closed and additions to writeCh
 	stop                      chan struct{} // closed when the network connection is closed
 	stopOnce                  sync.Once
 	options                   *connOptions
@@ -111,10 +111,10 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	writer := frame.NewWriter(conn)
 
 	c := &Conn{
-		conn:       conn,
-		activity:   activity,
-		closeMutex: &sync.Mutex{},
-		stop:       make(chan struct{}),
+		conn:      conn,
+		activity:  activity,
+		closeLock: make(chan struct{}, 1),
+		stop:      make(chan struct{}),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -555,9 +555,9 @@ func (c *Conn) finish(failure *frame.Frame, receipts, unsubs, subs map[string]ch
 	c.closeConn()
 
 	// nothing is added to writeCh after this
-	c.closeMutex.Lock()
+	c.lock(nil)
 	c.closed = true
-	c.closeMutex.Unlock()
+	c.unlock()
 
 	for len(c.writeCh) > 0 {
 		req := <-c.writeCh
@@ -618,13 +618,15 @@ func errorFrame(err error) *frame.Frame {
 // with the STOMP server is closed and any further attempt to write
 // to the server will fail.
 func (c *Conn) Disconnect() error {
-	ch, err := c.startDisconnect()
-	if ch == nil {
-		return err
-	}
-
-	if err == nil {
-		err = readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
+	timeoutChan, stop := newTimeout(c.disconnectReceiptTimeout)
+	defer stop()
+
+	ch, err := c.startDisconnect(timeoutChan)
+	if ch != nil {
+		err = readReceipt(ch, timeoutChan, ErrDisconnectReceiptTimeout)
+	} else if err == nil {
+		// already closed
+		return nil
 	}
 	if err == nil {
 		return c.closeConn()
@@ -638,10 +640,12 @@ func (c *Conn) Disconnect() error {
 }
 
 // startDisconnect passes a DISCONNECT frame to the processLoop. It returns the
-// channel for the response, or nil if the connection is closed already.
-func (c *Conn) startDisconnect() (chan *frame.Frame, error) {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
+// channel for the response, which is nil if nothing was sent.
+func (c *Conn) startDisconnect(timeoutChan <-chan time.Time) (chan *frame.Frame, error) {
+	if !c.lock(timeoutChan) {
+		return nil, ErrDisconnectReceiptTimeout
+	}
+	defer c.unlock()
 	if c.closed {
 		return nil, nil
 	}
@@ -653,8 +657,11 @@ func (c *Conn) startDisconnect() (chan *frame.Frame, error) {
 	err := c.enqueue(writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
-	}, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout, ErrAlreadyClosed)
-	return ch, err
+	}, timeoutChan, ErrDisconnectReceiptTimeout, ErrAlreadyClosed)
+	if err != nil {
+		return nil, err
+	}
+	return ch, nil
 }
 
 // MustDisconnect will disconnect 'ungracefully' from the STOMP server.
@@ -664,8 +671,8 @@ func (c *Conn) MustDisconnect() error {
 	// somebody may hold the lock until the connection is closed
 	err := c.closeConn()
 
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
+	c.lock(nil)
+	defer c.unlock()
 	c.closed = true
 	return err
 }
@@ -697,8 +704,13 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 // startSend passes a SEND frame to the processLoop. The request it returns
 // has a response channel if the frame asks for a receipt.
 func (c *Conn) startSend(destination, contentType string, body []byte, opts []func(*frame.Frame) error) (writeRequest, error) {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
+	timeoutChan, stop := newTimeout(c.msgSendTimeout)
+	defer stop()
+
+	if !c.lock(timeoutChan) {
+		return writeRequest{}, ErrMsgSendTimeout
+	}
+	defer c.unlock()
 	if c.closed {
 		return writeRequest{}, ErrAlreadyClosed
 	}
@@ -714,15 +726,17 @@ func (c *Conn) startSend(destination, contentType string, body []byte, opts []fu
 		request.C = make(chan *frame.Frame, 1)
 	}
 
-	return request, c.enqueue(request, c.msgSendTimeout, ErrMsgSendTimeout, ErrAlreadyClosed)
+	return request, c.enqueue(request, timeoutChan, ErrMsgSendTimeout, ErrAlreadyClosed)
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
-	var timeoutChan <-chan time.Time
-	if timeout > 0 {
-		timeoutChan = time.After(timeout)
-	}
+	timeoutChan, stop := newTimeout(timeout)
+	defer stop()
+
+	return readReceipt(responseChan, timeoutChan, timeoutErr)
+}
 
+func readReceipt(responseChan chan *frame.Frame, timeoutChan <-chan time.Time, timeoutErr error) error {
 	select {
 	case <-timeoutChan:
 		return timeoutErr
@@ -734,16 +748,34 @@ func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duratio
 	}
 }
 
-// enqueue passes a request to the processLoop. The caller holds closeMutex and
-// has seen that the connection is not closed.
-func (c *Conn) enqueue(request writeRequest, timeout time.Duration, timeoutErr, closedErr error) error {
-	var timeoutChan <-chan time.Time
-	if timeout > 0 {
-		timer := time.NewTimer(timeout)
-		defer timer.Stop()
-		timeoutChan = timer.C
+// newTimeout returns a channel that delivers the time after the timeout, or
+// never if there is none, and a function to release it.
+func newTimeout(timeout time.Duration) (<-chan time.Time, func()) {
+	if timeout <= 0 {
+		return nil, func() {}
 	}
+	timer := time.NewTimer(timeout)
+	return timer.C, func() { timer.Stop() }
+}
+
+// lock acquires closeLock. While the server does not read, somebody may hold it
+// until the connection is closed, so waiting for it can time out.
+func (c *Conn) lock(timeoutChan <-chan time.Time) bool {
+	select {
+	case c.closeLock <- struct{}{}:
+		return true
+	case <-timeoutChan:
+		return false
+	}
+}
 
+func (c *Conn) unlock() {
+	<-c.closeLock
+}
+
+// enqueue passes a request to the processLoop. The caller holds closeLock and
+// has seen that the connection is not closed.
+func (c *Conn) enqueue(request writeRequest, timeoutChan <-chan time.Time, timeoutErr, closedErr error) error {
 	select {
 	case c.writeCh <- request:
 		return nil
@@ -777,12 +809,20 @@ func createSendFrame(destination, contentType string, body []byte, opts []func(*
 }
 
 func (c *Conn) sendFrame(f *frame.Frame) error {
+	return c.sendFrameWithTimeout(f, nil, nil)
+}
+
+// sendFrameWithTimeout is sendFrame with a limit for the time it takes until
+// the frame has been passed to the processLoop.
+func (c *Conn) sendFrameWithTimeout(f *frame.Frame, timeoutChan <-chan time.Time, timeoutErr error) error {
 	// Lock our mutex, but don't close it via defer
 	// If the frame requests a receipt then we want to release the lock before
 	// we block on the response, otherwise we can end up deadlocking
-	c.closeMutex.Lock()
+	if !c.lock(timeoutChan) {
+		return timeoutErr
+	}
 	if c.closed {
-		c.closeMutex.Unlock()
+		c.unlock()
 		return ErrClosedUnexpectedly
 	}
 
@@ -793,11 +833,11 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 			C:     make(chan *frame.Frame, 1),
 		}
 
-		err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly)
+		err := c.enqueue(request, timeoutChan, timeoutErr, ErrClosedUnexpectedly)
 
 		// Now that we've written to the writeCh channel we can release the
 		// close mutex while we wait for our response
-		c.closeMutex.Unlock()
+		c.unlock()
 
 		if err != nil {
 			return err
@@ -825,10 +865,10 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 	} else {
 		// no receipt required
 		request := writeRequest{Frame: f}
-		err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly)
+		err := c.enqueue(request, timeoutChan, timeoutErr, ErrClosedUnexpectedly)
 
 		// Unlock the mutex now that we're written to the write channel
-		c.closeMutex.Unlock()
+		c.unlock()
 
 		if err != nil {
 			return err
@@ -843,8 +883,8 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 // will be received by this subscription. A subscription has a channel
 // on which the calling program can receive messages.
 func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Frame) error) (*Subscription, error) {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
+	c.lock(nil)
+	defer c.unlock()
 	if c.closed {
 		return nil, ErrClosedUnexpectedly
 	}
@@ -896,7 +936,7 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 
-	if err := c.enqueue(request, 0, nil, ErrClosedUnexpectedly); err != nil {
+	if err := c.enqueue(request, nil, nil, ErrClosedUnexpectedly); err != nil {
 		return nil, err
 	}
 	go sub.readLoop(ch)
diff --git a/subscription.go b/subscription.go
index 7f32998..4a2831e 100644
--- a/subscription.go
+++ b/subscription.go
@@ -92,19 +92,18 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		return ErrCompletedSubscription
 	}
 
-	err := s.conn.sendFrame(f)
+	timeout, stop := newTimeout(s.unsubscribeReceiptTimeout)
+	defer stop()
+
+	err := s.conn.sendFrameWithTimeout(f, timeout, &ErrUnsubscribeReceiptTimeout)
+	if err == &ErrUnsubscribeReceiptTimeout {
+		close(s.giveUp)
+	}
 	if err != nil {
 		// the subscription ends together with the connection
 		return err
 	}
 
-	var timeout <-chan time.Time
-	if s.unsubscribeReceiptTimeout > 0 {
-		timer := time.NewTimer(s.unsubscribeReceiptTimeout)
-		defer timer.Stop()
-		timeout = timer.C
-	}
-
 	// We don't want to interfere with `s.C` since we might be "stealing"
 	// MESSAGEs or ERRORs from another goroutine, so leave it to the readLoop
 	// and wait for the terminal state transition instead.
-- 
2.43.0


From ed9a64cc37471a151b4a718cf2e78c5b78e2d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 33/40] fix: DialWithContext ignores its context while the
 network connection is being made

---
 conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index e6e325e..3c9895e 100644
--- a/conn.go
+++ b/conn.go
@@ -74,7 +74,8 @@ func Dial(network, addr string, opts ...func(*Conn) error) (*Conn, error) {
 }
 
 func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Conn) error) (*Conn, error) {
-	c, err := net.Dial(network, addr)
+	var dialer net.Dialer
+	c, err := dialer.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2fdf8856bb7d9f5db295a03d9a9d05d8b604788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:56 +0000
Subject: [PATCH 34/40] fix: Disconnect with a short timeout gave up without
 having tried, and left the connection open for calls

---
 conn.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 3c9895e..6b97390 100644
--- a/conn.go
+++ b/conn.go
@@ -634,7 +634,7 @@ func (c *Conn) Disconnect() error {
 	}
 
 	if err == ErrDisconnectReceiptTimeout {
-		_ = c.closeConn()
+		_ = c.MustDisconnect()
 	}
 
 	return err
@@ -762,6 +762,12 @@ func newTimeout(timeout time.Duration) (<-chan time.Time, func()) {
 // lock acquires closeLock. While the server does not read, somebody may hold it
 // until the connection is closed, so waiting for it can time out.
 func (c *Conn) lock(timeoutChan <-chan time.Time) bool {
+	// even the shortest timeout is only for waiting
+	select {
+	case c.closeLock <- struct{}{}:
+		return true
+	default:
+	}
 	select {
 	case c.closeLock <- struct{}{}:
 		return true
@@ -777,6 +783,14 @@ func (c *Conn) unlock() {
 // enqueue passes a request to the processLoop. The caller holds closeLock and
 // has seen that the connection is not closed.
 func (c *Conn) enqueue(request writeRequest, timeoutChan <-chan time.Time, timeoutErr, closedErr error) error {
+	// even the shortest timeout is only for waiting
+	select {
+	case c.writeCh <- request:
+		return nil
+	case <-c.stop:
+		return closedErr
+	default:
+	}
 	select {
 	case c.writeCh <- request:
 		return nil
-- 
2.43.0


From 2de754fe072095e4566c2ca636e83f7e93a77878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 35/40] fix: ConnectWithContext does not notice that its
 context has been cancelled

---
 conn.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 6b97390..4f841a3 100644
--- a/conn.go
+++ b/conn.go
@@ -173,20 +173,15 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 		return nil, err
 	}
 
-	connection, isNetConn := conn.(net.Conn)
-	deadline, ok := ctx.Deadline()
-	if ok && isNetConn {
-		connection.SetReadDeadline(deadline)
+	release := func() {}
+	if connection, ok := conn.(net.Conn); ok {
+		release = endReadWith(ctx, connection)
 	}
-	
 	response, err := reader.Read()
+	release()
 	if err != nil {
 		return nil, err
 	}
-	// Restore Conn-level deadlines
-	if ok && isNetConn {
-		connection.SetReadDeadline(time.Time{})
-	}
 	if response == nil {
 		return nil, errors.New("unexpected empty frame")
 	}
@@ -260,6 +255,35 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	return c, nil
 }
 
+// endReadWith makes reading from the connection fail as soon as the context
+// has ended, until the function returned is called.
+func endReadWith(ctx context.Context, connection net.Conn) (release func()) {
+	if ctx.Done() == nil {
+		return func() {}
+	}
+	if deadline, ok := ctx.Deadline(); ok {
+		connection.SetReadDeadline(deadline)
+	}
+	stop := make(chan struct{})
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		select {
+		case <-ctx.Done():
+			if ctx.Err() == context.Canceled {
+				connection.SetReadDeadline(time.Unix(1, 0))
+			}
+		case <-stop:
+		}
+	}()
+	return func() {
+		close(stop)
+		<-done
+		// Restore Conn-level deadlines
+		connection.SetReadDeadline(time.Time{})
+	}
+}
+
 // Version returns the version of the STOMP protocol that
 // is being used to communicate with the STOMP server. This
 // version is negotiated with the server during the connect sequence.
-- 
2.43.0


From 4234a24254e20381e58c0cf64228232e0406e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 36/40] fix: Disconnect of a closed connection could time out

---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4f841a3..e39c6a7 100644
--- a/conn.go
+++ b/conn.go
@@ -668,7 +668,13 @@ func (c *Conn) Disconnect() error {
 // channel for the response, which is nil if nothing was sent.
 func (c *Conn) startDisconnect(timeoutChan <-chan time.Time) (chan *frame.Frame, error) {
 	if !c.lock(timeoutChan) {
-		return nil, ErrDisconnectReceiptTimeout
+		select {
+		case <-c.stop:
+			// already closed
+			return nil, nil
+		default:
+			return nil, ErrDisconnectReceiptTimeout
+		}
 	}
 	defer c.unlock()
 	if c.closed {
-- 
2.43.0


From c915ef4c8bda549e032b4500c360dfa43720f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:48 +0000
Subject: [PATCH 37/40] fix: subscribing to a reply queue delayed the client's
 heart-beat

---
 conn.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index e39c6a7..c41a0af 100644
--- a/conn.go
+++ b/conn.go
@@ -498,12 +498,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			}
 
 		case req := <-c.writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -555,6 +549,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
+
 				err := writer.Write(req.Frame)
 				if err != nil {
 					failure = errorFrame(err)
-- 
2.43.0


From c2bcb52f53c3258a1e2b808b1c13ca189b6003fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 38/40] fix: read timeout at once when heart-beat interval
 times grace multiplier overflows

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index c41a0af..aa00a85 100644
--- a/conn.go
+++ b/conn.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 	"net"
 	"strconv"
 	"sync"
@@ -388,7 +389,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	// of the subscription may be waiting for that.
 	var deliveries []delivery
 
-	readTimeout := time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier)
+	readTimeout := time.Duration(math.MaxInt64)
+	if t := float64(c.readTimeout) * c.hbGracePeriodMultiplier; t < math.MaxInt64 {
+		readTimeout = time.Duration(t)
+	}
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
-- 
2.43.0


From 33bee30f722a16de710c7dda6cf9ec40de16c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:35 +0000
Subject: [PATCH 39/40] fix: client and server could wait for each other for
 ever, each writing and not reading

---
 conn.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index aa00a85..d7bea68 100644
--- a/conn.go
+++ b/conn.go
@@ -389,6 +389,35 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	// of the subscription may be waiting for that.
 	var deliveries []delivery
 
+	// Frames are written by a goroutine of their own, because the server may
+	// be waiting for us to read before it goes on reading itself. Whatever
+	// arrives while a frame is being written is kept in the backlog.
+	var backlog []*frame.Frame
+	toWrite := make(chan *frame.Frame)
+	written := make(chan error, 1)
+	go func() {
+		for f := range toWrite {
+			written <- writer.Write(f)
+		}
+	}()
+	defer close(toWrite)
+	write := func(f *frame.Frame) error {
+		toWrite <- f
+		readCh := c.readCh
+		for {
+			select {
+			case err := <-written:
+				return err
+			case f, ok := <-readCh:
+				if ok {
+					backlog = append(backlog, f)
+				} else {
+					readCh = nil
+				}
+			}
+		}
+	}
+
 	readTimeout := time.Duration(math.MaxInt64)
 	if t := float64(c.readTimeout) * c.hbGracePeriodMultiplier; t < math.MaxInt64 {
 		readTimeout = time.Duration(t)
@@ -414,11 +443,15 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			writeTimeoutChannel = writeTimer.C
 		}
 
-		readCh := c.readCh
+		var readCh <-chan *frame.Frame = c.readCh
 		var next delivery
 		if len(deliveries) > 0 {
 			readCh = nil
 			next = deliveries[0]
+		} else if len(backlog) > 0 {
+			first := make(chan *frame.Frame, 1)
+			first <- backlog[0]
+			readCh = first
 		}
 
 		select {
@@ -448,7 +481,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
-			err := writer.Write(nil)
+			err := write(nil)
 			if err != nil {
 				failure = errorFrame(err)
 				return
@@ -462,6 +495,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				return
 			}
 
+			if len(backlog) > 0 {
+				backlog = backlog[1:]
+			}
+
 			if f == nil {
 				// heart-beat received
 				continue
@@ -560,7 +597,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					writeTimeoutChannel = nil
 				}
 
-				err := writer.Write(req.Frame)
+				err := write(req.Frame)
 				if err != nil {
 					failure = errorFrame(err)
 					return
-- 
2.43.0


From fd5fd7b34af9973eb50b17f2f8cbfffd985bdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:50 +0000
Subject: [PATCH 40/40] fix: end every subscription whose id has been used
 again

A subscription whose Unsubscribe had not been confirmed was forgotten when
another one with the same id was unsubscribed as well: its goroutine stayed
for ever, and the RECEIPT for the first UNSUBSCRIBE confirmed the second.
---
 conn.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index d7bea68..64bef4a 100644
--- a/conn.go
+++ b/conn.go
@@ -381,7 +381,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	// and messages are looked up separately: a receipt id is never a
 	// subscription id, whatever its text is.
 	receipts := make(map[string]chan *frame.Frame) // by receipt id
-	unsubs := make(map[string]chan *frame.Frame)   // by the receipt id of the UNSUBSCRIBE
+	unsubs := make(map[string][]chan *frame.Frame) // by the receipt id of the UNSUBSCRIBE, in the order sent
 	subs := make(map[string]chan *frame.Frame)     // by subscription id
 
 	// Frames on their way to a subscription. Nothing more is taken from
@@ -511,8 +511,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 						delete(receipts, id)
 						ch <- f
 						close(ch)
-					} else if ch, ok := unsubs[id]; ok {
-						delete(unsubs, id)
+					} else if chs := unsubs[id]; len(chs) > 0 {
+						// an id can be used again before the earlier
+						// subscription with that id has been confirmed to end
+						ch := chs[0]
+						if unsubs[id] = chs[1:]; len(chs) == 1 {
+							delete(unsubs, id)
+						}
 						if subs[id] == ch {
 							delete(subs, id)
 						}
@@ -579,7 +584,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					// RECEIPT frame, the corresponding channel will be closed
 					req.Frame.Header.Set(frame.Receipt, id)
 					if ch, ok := subs[id]; ok {
-						unsubs[id] = ch
+						unsubs[id] = append(unsubs[id], ch)
 					}
 				}
 			}
@@ -617,7 +622,7 @@ type delivery struct {
 }
 
 // finish ends the connection when the processLoop ends.
-func (c *Conn) finish(failure *frame.Frame, receipts, unsubs, subs map[string]chan *frame.Frame, deliveries []delivery) {
+func (c *Conn) finish(failure *frame.Frame, receipts map[string]chan *frame.Frame, unsubs map[string][]chan *frame.Frame, subs map[string]chan *frame.Frame, deliveries []delivery) {
 	// this also lets go of those who wait for room in writeCh
 	c.closeConn()
 
@@ -642,9 +647,11 @@ func (c *Conn) finish(failure *frame.Frame, receipts, unsubs, subs map[string]ch
 	for _, ch := range subs {
 		deliveries = append(deliveries, delivery{ch, failure})
 	}
-	for id, ch := range unsubs {
-		if subs[id] != ch {
-			deliveries = append(deliveries, delivery{ch, failure})
+	for id, chs := range unsubs {
+		for _, ch := range chs {
+			if subs[id] != ch {
+				deliveries = append(deliveries, delivery{ch, failure})
+			}
 		}
 	}
 
-- 
2.43.0

