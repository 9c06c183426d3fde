From d836629fe7cde598413007d181348aed0c04c094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 01/44] fix: encode request messages with their header and all
 three payload fields

---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From 026e3715f38fece9d9c985191833e4d68636ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 02/44] fix: accept well-formed piece messages, do not
 dereference a failed decode

---
 src/p2p/message.go | 2 +-
 src/p2p/piece.go   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..d2cff9e 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -208,7 +208,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
 		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..71ef6d4 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -78,8 +78,9 @@ func (mp *MsgPiece) String() string {
 // FUNC =======================================================================
 
 func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
-	if uint32(len(payload)) != length {
-		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", MsgHavePayloadLen, len(payload))
+	// length includes the id byte, which is not part of the payload
+	if uint64(len(payload))+1 != uint64(length) {
+		return nil, fmt.Errorf("piece message of length %v must have a payload 1 byte shorter, got %v", length, len(payload))
 	}
 	if uint32(len(payload)) < MsgPieceMinPayloadLen {
 		return nil, fmt.Errorf("piece message payload must be at least %v bytes, got %v", MsgPieceMinPayloadLen, len(payload))
-- 
2.43.0


From 4c998d0ef743989b835204fe9bb1db2612c3a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 03/44] fix: do not let a huge message length wrap around the
 length check

---
 src/p2p/bitfield.go | 4 ++--
 src/p2p/message.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..abc4b98 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -63,8 +63,8 @@ func DecodeMsgBitfield(fullmsg []byte, msglen uint32) (*MsgBitfield, error) {
 	//	return nil, fmt.Errorf("message length (%v) does not match fullmsg length (%v)", msglen, len(fullmsg))
 	//}
 
-	nbytes := int64(4 + msglen)
-	nbits := int64(msglen-1) * 8
+	nbytes := 4 + int64(msglen)
+	nbits := (int64(msglen) - 1) * 8
 
 	// We need to make a copy of the data since we do not want to be
 	// allocating a new []byte during whatever conn.recv() loop, simply
diff --git a/src/p2p/message.go b/src/p2p/message.go
index d2cff9e..6dff176 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,13 +165,13 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
 
 	// msglen includes length byte, -1 to exclude it
-	payload := data[PayloadStart : PayloadStart+msglen-1]
+	payload := data[PayloadStart : uint64(PayloadStart)+uint64(msglen)-1]
 
 	var msg Message
 	var n uint64
-- 
2.43.0


From 7fcd24f10ddc3b9f3568f2b89918f4b5c820fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 04/44] fix: skip an invalid bitfield message instead of
 decoding it forever

---
 src/p2p/message.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 6dff176..bd10ab7 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -200,9 +200,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
-		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
-- 
2.43.0


From af9a19321249834b2d753629ab08440d587bdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 05/44] fix: copy the block of a decoded piece message out of
 the receive buffer

---
 src/p2p/piece.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 71ef6d4..664412a 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -87,6 +87,9 @@ func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
 	}
 	index := binary.BigEndian.Uint32(payload[0:4])
 	begin := binary.BigEndian.Uint32(payload[4:8])
-	block := payload[8:]
+
+	// The caller reuses the buffer it received into, keep a copy of the block
+	block := make([]byte, len(payload)-8)
+	copy(block, payload[8:])
 	return NewMsgPiece(index, begin, block), nil
 }
-- 
2.43.0


From 65dd290989359c536d7cc865a70039571f57bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 06/44] fix: do not write message headers into the shared
 bitfield when encoding

---
 src/p2p/bitfield.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index abc4b98..fc8c4c2 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -41,8 +41,10 @@ func (bf *MsgBitfield) Bitfield() *bf.Bitfield {
 // IMPL =======================================================================
 
 func (bf *MsgBitfield) Encode() []byte {
-	data := bf.bitfield.Data5()
-	bf.msgBase.fillBase(data[:5])
+	// The bitfield is shared between peers, do not write the header into it
+	data := make([]byte, len(bf.bitfield.Data5()))
+	copy(data, bf.bitfield.Data5())
+	bf.msgBase.fillBase(data)
 	return data
 }
 
-- 
2.43.0


From 4b575de283d78482e53fbf68cb9d23f86e7f8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 07/44] fix: leave the header and the spare bits alone when
 filling a bitfield

---
 src/bf/bitfield.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..f6eb101 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -101,10 +101,9 @@ func (bf *Bitfield) calcNset() {
 }
 
 func (bf *Bitfield) Fill() {
-	for i, _ := range bf.data5 {
-		bf.data5[i] = 255
+	for i := int64(0); i < bf.nbits; i++ {
+		bf.Set(i, true)
 	}
-	bf.nset = bf.nbits
 }
 
 func (bf *Bitfield) Get(idx int64) bool {
-- 
2.43.0


From 282713c058a473827a05d0a7b38f79aae97fc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 08/44] fix: refuse a bit count that needs one byte less than
 the bitfield has

---
 src/bf/bitfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index f6eb101..f5cce27 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -161,7 +161,7 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
 	bf.nbits = nbits
-- 
2.43.0


From e2aa0c64d4c218ce195993a6b3c7244f55c87c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 09/44] fix: mark the tracked piece as active, not a copy of it

---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..79e409d 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -155,14 +155,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From bd993b50e5fbfbf1505903d2e8d6e325d890523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 10/44] fix: keep pieces held by 64 or more peers in the last
 bucket

---
 src/swarm/piecetracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 79e409d..38d220a 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -130,9 +130,9 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 		if node.Data.peerSet.Has(whom) {
 			// Move to previous bucket, unless decrementing value by 1
 			// leaves it in the largest bucket. I.e, numBuckets = 50
-			// and oldCount = 52, then the node should remain in bucket 50.
+			// and oldCount = 52, then the node should remain in bucket 49.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From 91af0e3c1f6c7f9fcb5da740f5a68fac5f92c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 11/44] fix: forget the requests of a peer that is unregistered

---
 src/swarm/piecetracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 38d220a..13dfc66 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
-- 
2.43.0


From ac2b5c91649175cc202a8f552e36a7009968e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 12/44] fix: advance the offset when creating request messages

---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..106a59c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -276,6 +276,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From 0676b19e23e2b889764d06b3c0077fa9586c520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 13/44] fix: send a choke message to choke a peer

---
 src/swarm/peerhandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 106a59c..4881e75 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -131,7 +131,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 // ============================================================================
 
 func (ph *PeerHandler) Choke() error {
-	msg := p2p.NewMsgUnchoke()
+	msg := p2p.NewMsgChoke()
 	_, e := ph.conn.Write(msg.Encode())
 	return e
 }
-- 
2.43.0


From 3d05b4254272e3556b883d8c6da6fe71c2b72bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 14/44] fix: refuse requests for data outside of the torrent

---
 src/swarm/msghandler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..e900ea4 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -59,12 +59,20 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
+	if idx >= s.Tor.Info().NumPieces() {
+		return errors.New("request for a piece that does not exist")
+	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
-		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
+		begin := int64(reqMsg.Begin())
+		end := begin + int64(reqMsg.ReqLen())
+		if end > n {
+			return errors.New("request for data outside of the piece")
+		}
+		subdata := ph.buf[begin:end]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
 		if e != nil {
-- 
2.43.0


From 7540c6188b445c3890c80eacc9230d2ac5e7bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 15/44] fix: read the whole handshake even if it arrives in
 parts

---
 src/swarm/peerhandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 4881e75..d16c7d9 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	stdio "io"
 	"log"
 	"math"
 	"net"
@@ -82,7 +83,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 
 	// Read the handshake
-	_, e = conn.Read(buf)
+	_, e = stdio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
-- 
2.43.0


From fb9ebbff783fd2ada4c51da1a86ba6ea5679a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 16/44] fix: check the handshake of peers we connect to

---
 src/swarm/peerhandler.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index d16c7d9..f29369c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -47,7 +47,7 @@ type PeerHandler struct {
 // FUNK =======================================================================
 
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
-// handshake.
+// handshake and checks the one the peer answers with.
 func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 	conn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
@@ -61,6 +61,20 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
+	// The peer must answer with a handshake for the same torrent
+	buf := make([]byte, HandshakeLen)
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e != nil {
+		return nil, e
+	}
+	_, e = stdio.ReadFull(conn, buf)
+	if e != nil {
+		return nil, e
+	}
+	if !ValidHandshake(buf, swarm.Tor.Infohash()) {
+		return nil, fmt.Errorf("bad peer handshake")
+	}
+
 	return NewPeerHandler(pInfo, swarm, conn), nil
 }
 
-- 
2.43.0


From f75399fac1063e28b88d626af957d57e79d1235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 17/44] fix: close the connection when the handshake fails

---
 src/swarm/peerhandler.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index f29369c..420fe8b 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -48,11 +48,16 @@ type PeerHandler struct {
 
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
 // handshake and checks the one the peer answers with.
-func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
+func FromBootstrap(pInfo peer.Info, swarm *Swarm) (ph *PeerHandler, e error) {
 	conn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
 		return nil, e
 	}
+	defer func() {
+		if e != nil {
+			_ = conn.Close()
+		}
+	}()
 
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 
@@ -80,7 +85,12 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 // FromIncoming receives a new peer connection. It will first check for the correct
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
-func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
+func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, e error) {
+	defer func() {
+		if e != nil {
+			_ = conn.Close()
+		}
+	}()
 
 	// Must be using TCP (for now atleast)
 	tcpAddr, ok := conn.RemoteAddr().(*net.TCPAddr)
@@ -91,7 +101,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	buf := make([]byte, HandshakeLen)
 
 	// Set timeout
-	e := conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
 	if e != nil {
 		return nil, e
 	}
@@ -103,7 +113,6 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 	peerHs := Handshake(buf)
 	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
-		_ = conn.Close() // TODO: Handle?
 		return nil, fmt.Errorf("bad peer handshake")
 	}
 	log.Printf("good handshake from %v", conn.RemoteAddr())
-- 
2.43.0


From 9f25a6b5cf9510493163acc01c2ff680137c62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 18/44] fix: end the read loop of a peer whenever its receive
 loop ends

---
 src/io/readloop.go       | 25 +++++++++++++++++++++----
 src/swarm/peerhandler.go |  2 +-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..11f03d3 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -51,13 +51,22 @@ func (rl *ReadLoop) ReadError() <-chan error {
 }
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
+// It must be called once, also when Run() has already reported an error.
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	close(rl.chDone)
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
 }
 
+// report passes an error to the user, unless they are done.
+func (rl *ReadLoop) report(e error) {
+	select {
+	case rl.chErr <- e:
+	case <-rl.chDone:
+	}
+}
+
 // Run will enter an infinite loop reading from the connection. When data is
 // read, it will write a byte slice to the buffer channel, which is accessed
 // via ReadData. If there are any errors, they are reported on the error
@@ -70,13 +79,21 @@ func (rl *ReadLoop) Run() {
 	for !done {
 		e := rl.conn.SetReadDeadline(time.Now().Add(rl.timeout))
 		if e != nil {
-			rl.chErr <- e
+			rl.report(e)
 			break
 		}
 
+		// If Finish was called before the deadline was set, its own deadline
+		// has been overwritten
+		select {
+		case <-rl.chDone:
+			return
+		default:
+		}
+
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
-			rl.chErr <- e
+		if e != nil {
+			rl.report(e)
 			break
 		} else {
 			rl.chBuf <- rl.buf[:n]
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 420fe8b..3373f6e 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -228,6 +228,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	done := false
@@ -240,7 +241,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 		case e = <-readLoop.ReadError():
 			done = true
 		case <-chKill:
-			readLoop.Finish()
 			done = true
 		}
 
-- 
2.43.0


From 7b3c3b60ab93dc7076d6f9c2db0a805e199e8e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 19/44] fix: shut a peer down completely on its first error

---
 src/swarm/peerhandler.go | 20 ++++++++++++++------
 src/swarm/swarm.go       |  7 +++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 3373f6e..6f2a7ec 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -165,8 +165,9 @@ func (ph *PeerHandler) Choke() error {
 
 func (ph *PeerHandler) Loop() {
 
-	// Any goroutines spawned should report errors on this chan
-	chErr := make(chan error)
+	// Any goroutines spawned should report errors on this chan. Each reports
+	// at most once, with room for all of them none blocks.
+	chErr := make(chan error, 3)
 
 	// Use to stop to all spawned goroutines
 	chDone := make(chan bool)
@@ -178,6 +179,8 @@ func (ph *PeerHandler) Loop() {
 		log.Printf("error unchoking: %v\n", e)
 	}
 
+	ph.procs.Add(3)
+
 	go ph.pingLoop(chErr, chDone)
 
 	go ph.recvLoop(chErr, chDone)
@@ -196,8 +199,10 @@ func (ph *PeerHandler) Loop() {
 		case e = <-chErr:
 			done = true
 			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
+			close(chDone)
+			_ = ph.conn.Close()
 			ph.procs.Wait()
+			ph.swarm.PPT.Unregister(ph)
 			// We will eventually wrap this in a struct so that we can
 			// tell the main loop which PeerHandler has errored
 			ph.chErr <- e
@@ -220,7 +225,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 	//    append new data to previous data and try decoding all again.
 	// 4. Rinse repeat.
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -253,7 +257,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -264,6 +267,12 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 	// TODO: Yikes
 	for !ph.swarm.Bf.Complete() {
 
+		select {
+		case <-chDone:
+			return
+		default:
+		}
+
 		// Fill up requests
 		for i := len(reqs); i < 5; i++ {
 			next, ok := ph.swarm.PPT.NextPiece(ph)
@@ -310,7 +319,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..3eef790 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -42,6 +42,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	swarm := Swarm{}
 	swarm.Id = utils.NewPeerId()
 	swarm.Port = opts.Port()
+	swarm.ChErr = make(chan error)
 
 	// Read torrent file
 	log.Printf("reading torrent file [%v]\n", opts.Input())
@@ -122,6 +123,12 @@ func (s *Swarm) Start() {
 	go s.runListener()
 	go s.RLIO.Run()
 
+	// The peers log their errors themselves
+	go func() {
+		for range s.ChErr {
+		}
+	}()
+
 	// Start peer Goroutines
 	for _, p := range s.Peers {
 		go func(peer peer.Info) {
-- 
2.43.0


From 6ef3cf3b7fb1e279f4ec1f51c9d28a4ed9ea37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 20/44] fix: report a request that could not be sent

---
 src/swarm/peerhandler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 6f2a7ec..f975a60 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -285,8 +285,11 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					chErr <- e
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
-- 
2.43.0


From d8a20b361bfbc0a3eb5a58ae30b349ccb9ac9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 21/44] fix: stop the keep alive ticker of a finished peer

---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index f975a60..becaa61 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -329,6 +329,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
 	addr := ph.peerInfo.Addr()
 	ticker := time.NewTicker(SendKeepAlive)
+	defer ticker.Stop()
 	ka := p2p.KeepAliveSingleton
 	data := ka.Encode()
 
-- 
2.43.0


From be71eee10bda7c002b71fb2bd1ec12b58b84781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 22/44] fix: do not share an unguarded slice of handlers,
 survive a failed accept

---
 src/swarm/swarm.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 3eef790..490c0cd 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -151,12 +152,14 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
-			panic(err)
+			// Running out of descriptors, or a client that is already gone,
+			// should not take down everything else
+			log.Printf("failed to accept client: %v", err)
+			time.Sleep(time.Second)
+			continue
 		}
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
@@ -165,7 +168,6 @@ func (s *Swarm) runListener() {
 			if e != nil {
 				log.Println(e)
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From 89093f6edfd5d20f00865d728b63cae2444cef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 23/44] fix: tell the tracker how many bytes are left

---
 src/swarm/swarm.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 490c0cd..ee4ada3 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -74,9 +74,19 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	// Compute remaining bytes left
+	left := int64(0)
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if _bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += torInfo.LastPieceLen()
+		} else {
+			left += torInfo.PieceLen()
+		}
+	}
+	swarm.Stats = tracker.NewStats(0, 0, uint64(left))
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
-- 
2.43.0


From 0bc14c7b39de9295fc5165b15884548c3782cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 24/44] fix: let a waiting rate limited call see the rate and
 usage change

---
 src/io/ratelimit.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..a1615de 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -40,25 +40,23 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.rlock.Lock()
-	defer rl.rlock.Unlock()
-	rl.rRate = limit // Only place this is modified, don't need atomic
+	// No lock, a call to Read that waits for the rate is holding it
+	atomic.StoreInt64(&rl.rRate, limit)
 }
 
 func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.wlock.Lock()
-	defer rl.wlock.Unlock()
-	rl.wRate = limit // Only place this is modified, don't need atomic
+	// No lock, a call to Write that waits for the rate is holding it
+	atomic.StoreInt64(&rl.wRate, limit)
 }
 
 // Run will maintain the set rate limit in an infinite loop, until Stop() is
 // called. This method should almost certainly be in its own goroutine.
 func (rl *RateLimitIO) Run() {
-	rl.rUsed = 0
-	rl.wUsed = 0
+	atomic.StoreInt64(&rl.rUsed, 0)
+	atomic.StoreInt64(&rl.wUsed, 0)
 
 	done := false
 	for !done {
@@ -88,7 +86,7 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Write,
 	// the lock would only be acquired after the in-progress Write finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.wRate == NoLimit {
+	if atomic.LoadInt64(&rl.wRate) == NoLimit {
 		_, e := writer.Write(data)
 		atomic.AddInt64(&rl.wUsed, lenData)
 		atomic.AddInt64(&rl.wTotal, lenData)
@@ -101,9 +99,11 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if rl.wUsed < rl.wRate {
+		rate := atomic.LoadInt64(&rl.wRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.wUsed) < rate {
 			break
 		}
+		time.Sleep(time.Millisecond)
 	}
 
 	atomic.AddInt64(&rl.wUsed, lenData)
@@ -125,7 +125,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Read,
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.rRate == NoLimit {
+	if atomic.LoadInt64(&rl.rRate) == NoLimit {
 		_, e := reader.Read(buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
@@ -138,9 +138,11 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if rl.rUsed < rl.rRate {
+		rate := atomic.LoadInt64(&rl.rRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.rUsed) < rate {
 			break
 		}
+		time.Sleep(time.Millisecond)
 	}
 
 	atomic.AddInt64(&rl.rUsed, lenBuf)
-- 
2.43.0


From b68f931111233d7b044f3be546aaba71881e9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 25/44] fix: read the full buffer in a rate limited read, as
 documented

---
 src/io/ratelimit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index a1615de..08d2e57 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -126,7 +126,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
 	if atomic.LoadInt64(&rl.rRate) == NoLimit {
-		_, e := reader.Read(buf)
+		_, e := io.ReadFull(reader, buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
 		return e
@@ -149,6 +149,6 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	unlocker.Do(rl.rlock.Unlock)
 	atomic.AddInt64(&rl.rTotal, lenBuf)
 
-	_, e := reader.Read(buf)
+	_, e := io.ReadFull(reader, buf)
 	return e
 }
-- 
2.43.0


From e5927a6ebcbb389efc810d812f81a9d786eafe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 26/44] fix: do not burn a core while the swarm runs

---
 src/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main.go b/src/main.go
index c38f018..7134b35 100644
--- a/src/main.go
+++ b/src/main.go
@@ -38,9 +38,7 @@ func CmdSwarm(opts *utils.Opts) {
 
 	s.Start()
 
-	for {
-
-	}
+	select {}
 }
 
 func CmdTorInfo(opts *utils.Opts) {
-- 
2.43.0


From f577864afd994d6e7723122097e3439ef5b0bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 27/44] fix: do not truncate a file that exists but could not
 be opened

---
 src/utils/futils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..c80ff45 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -67,12 +67,12 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
-	// Create new file
-	if e != nil {
+	// Create new file. Any other error must not lead to it, creating truncates.
+	if os.IsNotExist(e) {
 		fp, e = CreateZeroFilledFile(fpath, length)
-		if e != nil {
-			return nil, e
-		}
+	}
+	if e != nil {
+		return nil, e
 	}
 
 	// Check size
-- 
2.43.0


From 09809795e4c473f51d69b56e908c0fe09e07eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 28/44] fix: close files that could not be brought to their
 size

---
 src/utils/futils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index c80ff45..13284df 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -24,6 +24,7 @@ func CreateZeroFilledFile(fpath string, size int64) (*os.File, error) {
 
 	e = AppendZeros(f, size)
 	if e != nil {
+		_ = f.Close()
 		return nil, e
 	}
 
@@ -78,6 +79,7 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 	// Check size
 	s, e := fp.Stat()
 	if e != nil {
+		_ = fp.Close()
 		return nil, e
 	}
 	chkLen := s.Size()
@@ -86,6 +88,7 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 	} else if chkLen > length {
 		e = fp.Truncate(length)
 		if e != nil {
+			_ = fp.Close()
 			return nil, e
 		} else {
 			return fp, nil
@@ -93,6 +96,7 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 	} else {
 		e = AppendZeros(fp, length-chkLen)
 		if e != nil {
+			_ = fp.Close()
 			return nil, e
 		}
 	}
-- 
2.43.0


From efd978c69403191509c0b9f2b8f8c42424c560c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 29/44] fix: close files that could not be read when creating a
 torrent

---
 src/torrent/info/info.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..79562c0 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -106,6 +106,7 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 
 		stat, e := fptr.Stat()
 		if e != nil {
+			_ = fptr.Close()
 			return nil, e
 		}
 
@@ -118,6 +119,7 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 			n, e := fptr.Read(buf[buflen:])
 			if e != nil {
 				if e != io.EOF {
+					_ = fptr.Close()
 					return nil, e
 				}
 				// If we reached end of file, break and start processing
-- 
2.43.0


From 3ea80217b4f3266d40c75c78dc8663612e8b310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 30/44] fix: refuse torrents with inconsistent lengths instead
 of crashing or hanging

---
 src/torrent/info/info.go     | 23 +++++++++++++++++++++++
 src/torrent/info/piecemap.go |  2 +-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 79562c0..3d96f9e 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -22,6 +23,10 @@ func (fme *FileMetaError) Error() string {
 	return "tracker error: " + fme.msg
 }
 
+// MaxPieceLen is the largest piece length that is accepted. It bounds the
+// memory that a torrent file can make us allocate.
+const MaxPieceLen = 1 << 29
+
 // ============================================================================
 // STRUCTS ====================================================================
 
@@ -83,7 +88,14 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
+	if pieceLen <= 0 || pieceLen > MaxPieceLen {
+		return nil, fmt.Errorf("invalid piece length [%v]", pieceLen)
+	}
+
 	npieces := maxBuf / pieceLen
+	if npieces == 0 {
+		npieces = 1 // A single piece may be larger than maxBuf
+	}
 	bufSize := npieces * pieceLen
 
 	buf := make([]byte, bufSize, bufSize)
@@ -162,12 +174,23 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	if pieceLen <= 0 || pieceLen > MaxPieceLen {
+		return nil, fmt.Errorf("invalid piece length [%v]", pieceLen)
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 || fentry.Length() > math.MaxInt64-length {
+			return nil, fmt.Errorf("invalid file length [%v]", fentry.Length())
+		}
 		length += fentry.Length()
 	}
 
+	if int64(len(hashes)/20) != filesd.CalcNumPieces(files, pieceLen) {
+		return nil, errors.New("number of hashes does not match the length of the files")
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
 	npieces := int64(len(hashes) / 20)
diff --git a/src/torrent/info/piecemap.go b/src/torrent/info/piecemap.go
index 3f57e04..5bb41fd 100644
--- a/src/torrent/info/piecemap.go
+++ b/src/torrent/info/piecemap.go
@@ -26,7 +26,7 @@ func MakePieceMap(fl filesd.FileList, npieces int64, pieceLen int64, totalLen in
 
 		// Keep getting pieces for the file until we get a nil. Then,
 		// process the next file entry.
-		for {
+		for pieceIdx < npieces {
 			pinfo, e := fe.PieceInfo(pieceIdx, pieceLen)
 			if e != nil {
 				// Start looking through next file entry
-- 
2.43.0


From 3afecf594d34f9010093536fd9e0a098418a5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 31/44] fix: refuse torrents with paths outside of their
 directory

---
 src/torrent/filesd/entrybase.go | 12 ++++++++++++
 src/torrent/info/info.go        |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..accc888 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -51,6 +51,12 @@ func MakeFileEntry(torPath string, length int64) EntryBase {
 	}
 }
 
+// ValidPathPart tells if a name from a torrent file can be used as the name of
+// a file or directory, without leaving the directory it is in.
+func ValidPathPart(part string) bool {
+	return part != "" && part != "." && part != ".." && !strings.ContainsAny(part, "/\\\x00")
+}
+
 func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	entries := make([]EntryBase, 0, 1)
 
@@ -78,10 +84,16 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			if !ok {
 				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
 			}
+			if !ValidPathPart(pathPiece) {
+				return nil, fmt.Errorf("file entry contains invalid path part [%v]", pathPiece)
+			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
 		}
 		l := len(strb.String())
+		if l == 0 {
+			return nil, errors.New("file entry contains an empty path")
+		}
 
 		// exclude last '/'
 		entries = append(entries, MakeFileEntry(strb.String()[:l-1], fLen))
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 3d96f9e..bb36354 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -225,6 +225,10 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		return nil, err
 	}
 
+	if !filesd.ValidPathPart(name) {
+		return nil, &FileMetaError{msg: fmt.Sprintf("invalid name [%v]", name)}
+	}
+
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 851b74a9027bf14669db858ec452fdfa6113bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 32/44] fix: do not use the hash of a partial encoding as
 infohash

---
 src/torrent/torrent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..adb86f3 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,7 +97,10 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
+	enc, err := bencode.Encode(infodict)
+	if err != nil {
+		return nil, err
+	}
 	tor.infohash = utils.SHA1(enc)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
-- 
2.43.0


From f22999be335543c5f1bc294a5637a72146853bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 33/44] fix: report an invalid announce url instead of
 dereferencing nil

---
 src/tracker/tracker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..e907ce7 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -75,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,8 +86,11 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, e := http.NewRequest("GET", tor.Announce(), nil)
+	if e != nil {
+		return nil, e
+	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", url.QueryEscape(peerId))
@@ -94,7 +100,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-- 
2.43.0


From e3e4dbbef6778c006433b29eedef0fcc99940595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 34/44] fix: close the body of the tracker response

---
 src/tracker/tracker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index e907ce7..26265d2 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -111,6 +111,8 @@ func do(req *http.Request) (*Response, error) {
 		return nil, err
 	}
 
+	defer resp.Body.Close()
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7db01118bb106a8fd24007105f99233ca5aae29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 35/44] fix: refuse negative unsigned values and ports that do
 not fit

---
 src/bencode/dict.go    | 8 ++++++++
 src/tracker/tracker.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7e5ed53 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: "negative int64",
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 26265d2..b6abd7f 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -248,6 +249,9 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
+		if port > math.MaxUint16 {
+			return nil, &Error{msg: fmt.Sprintf("invalid peer port [%v]", port)}
+		}
 		id, err := peerDict.GetString("peer id")
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 5d750e4cc4008f2842f875fb0481ed503505f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 36/44] fix: decode the smallest int64, refuse negative zero

---
 src/bencode/decode.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..dbd7800 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -166,12 +166,13 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
-
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		strInt += string(dc.curByte())
 		dc.curs++
+		if dc.curByte() == '0' {
+			return 0, &DecoderError{"bad int (negative 0) at byte " + strconv.FormatUint(dc.curs, 10)}
+		}
 	}
 
 	// Should not have leading 0s, unless value is 0
@@ -201,7 +202,7 @@ func (dc *decoder) decodeInt() (int64, error) {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From 259a9a350d169c1a348e08332fb53910c6df0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 37/44] fix: limit the nesting depth when decoding

---
 src/bencode/decode.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index dbd7800..e5a1663 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,6 +57,12 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	dc.depth++
+	defer func() { dc.depth-- }()
+	if dc.depth > maxDepth {
+		return nil, &DecoderError{"nested too deeply"}
+	}
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +104,12 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	dc.depth++
+	defer func() { dc.depth-- }()
+	if dc.depth > maxDepth {
+		return nil, &DecoderError{"nested too deeply"}
+	}
+
 	dc.curs++
 	var list List
 
@@ -208,9 +220,14 @@ func (dc *decoder) decodeInt() (int64, error) {
 // ============================================================================
 // Decoder Struct =============================================================
 
+// maxDepth is how deep lists and dicts may be nested. Without a limit, data
+// could make the recursion exhaust the stack, which can't be recovered from.
+const maxDepth = 512
+
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From 763711e620c3540fc9364c7e28c4982a965354fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 38/44] fix: do not pad the items of a set with zero values

---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From cb856fc407443984c305201aef3bd4afbbf64956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 39/44] fix: put IPv6 addresses of peers in brackets

---
 src/peer/info.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..8ccc150 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,11 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
-
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port)),
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 0af407c9256d7deaaae06d6bf860085dfbd58c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 40/44] fix: refuse a port option that does not fit

---
 src/utils/opts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..50b3ece 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -72,6 +73,10 @@ func (o *Opts) Validate() error {
 		return fmt.Errorf("invalid command given, [%v]", *o.cmd)
 	}
 
+	if *o.port > math.MaxUint16 {
+		return fmt.Errorf("invalid port given, [%v]", *o.port)
+	}
+
 	// Upload limit
 	v, e := parseSizeUnits(*opts.uplimStr)
 	if e != nil {
-- 
2.43.0


From af04d18e98503aae8cd6b10d88f3776ae8b5e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 41/44] fix: refuse size options that overflow

---
 src/utils/opts.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 50b3ece..cd3d0f6 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -143,16 +143,24 @@ func parseSizeUnits(str string) (int64, error) {
 	case 'B':
 		return val, nil
 	case 'K':
-		return val * 1024, nil
+		return scaleSize(val, 1024)
 	case 'M':
-		return val * 1024 * 1024, nil
+		return scaleSize(val, 1024*1024)
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		return scaleSize(val, 1024*1024*1024)
 	default:
 		return 0, errors.New("invalid units")
 	}
 }
 
+// scaleSize multiplies val by unit, unless the result does not fit.
+func scaleSize(val int64, unit int64) (int64, error) {
+	if val > math.MaxInt64/unit || val < math.MinInt64/unit {
+		return 0, errors.New("size too large")
+	}
+	return val * unit, nil
+}
+
 func (o *Opts) Input() string {
 	return *o.input
 }
-- 
2.43.0


From 2dcbd4223da824bf5c1759208026ffe6e33fd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 42/44] fix: escape the peer id sent to the tracker once, not
 twice

---
 src/tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index b6abd7f..8bea4b5 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -7,7 +7,6 @@ import (
 	"math"
 	"net"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -94,7 +93,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
+	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
 	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
-- 
2.43.0


From 580e59c1a8f12511c7dd9e06b29c9225bd975429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 43/44] fix: CloseAll closes every file, also when closing one
 fails

---
 src/torrent/fileio/fileio.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index 38eedcc..75f303c 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -101,21 +101,20 @@ func (fio *FileIO) Close(fpath string) error {
 }
 
 func (fio *FileIO) CloseAll() error {
-	var e error
+	var err error
 
 	for _, lfp := range fio.lfps {
 		func() {
 			lfp.lock.Lock()
 			defer lfp.lock.Unlock()
-			e = lfp.fp.Close()
+			e := lfp.fp.Close()
+			if e != nil && err == nil {
+				err = e
+			}
 		}()
-
-		if e != nil {
-			return e
-		}
 	}
 
-	return nil
+	return err
 }
 
 func (fio *FileIO) write(fpath string, seekAmnt int64, data []byte) (int64, error) {
-- 
2.43.0


From 00325f25128d4f0e1453296a844880a14b2a9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 44/44] fix: close the files when a swarm cannot be started

---
 src/swarm/swarm.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index ee4ada3..6a05efd 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -37,9 +37,7 @@ type Swarm struct {
 // ============================================================================
 // FUNK =======================================================================
 
-func NewSwarm(opts *utils.Opts) (*Swarm, error) {
-	var err error
-
+func NewSwarm(opts *utils.Opts) (s *Swarm, err error) {
 	swarm := Swarm{}
 	swarm.Id = utils.NewPeerId()
 	swarm.Port = opts.Port()
@@ -56,6 +54,11 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 
 	// Make the FileIO handler
 	swarm.Fileio = fileio.NewFileIO(torInfo)
+	defer func() {
+		if err != nil {
+			_ = swarm.Fileio.CloseAll()
+		}
+	}()
 
 	// OCAT files
 	log.Printf("openning and validating files")
-- 
2.43.0

