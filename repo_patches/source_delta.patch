From 39cd5b3592420ba33ba5cef2a7fb5c40cb092fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 01/45] fix: encode request messages with their full 17 byte
 layout

---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From 737e042e749eaa5c5f9abe981d21574cbc04db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 02/45] fix: decode piece messages instead of crashing on them

---
 src/p2p/message.go |  2 +-
 src/p2p/piece.go   | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..d2cff9e 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -208,7 +208,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
 		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..3911a00 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -78,14 +78,20 @@ func (mp *MsgPiece) String() string {
 // FUNC =======================================================================
 
 func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
-	if uint32(len(payload)) != length {
-		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", MsgHavePayloadLen, len(payload))
+	// length includes the type byte, payload does not
+	if uint32(len(payload))+1 != length {
+		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", length-1, len(payload))
 	}
 	if uint32(len(payload)) < MsgPieceMinPayloadLen {
 		return nil, fmt.Errorf("piece message payload must be at least %v bytes, got %v", MsgPieceMinPayloadLen, len(payload))
 	}
 	index := binary.BigEndian.Uint32(payload[0:4])
 	begin := binary.BigEndian.Uint32(payload[4:8])
-	block := payload[8:]
+
+	// Make a copy of the block, payload is likely part of a recv buffer that
+	// will be overwritten
+	block := make([]byte, len(payload)-8)
+	copy(block, payload[8:])
+
 	return NewMsgPiece(index, begin, block), nil
 }
-- 
2.43.0


From 613f495ed4d75d9c7de6cdaae284c88e77070391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 03/45] fix: do not let a message length near 2^32 wrap around
 the bounds check

---
 src/p2p/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index d2cff9e..bd73d92 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,7 +165,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
-- 
2.43.0


From f63367496c8a958b160c0b562aa88657ef1a52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 04/45] fix: skip an empty bitfield message instead of looping
 on it forever

---
 src/p2p/message.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index bd73d92..e1c8c61 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -200,9 +200,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
-		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
-- 
2.43.0


From 7b63531e4fc5b7011fd36038f3b0e07e2e977bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 05/45] fix: refuse a number of bits that leaves the last
 bitfield byte unused

---
 src/bf/bitfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..6d10573 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -162,7 +162,7 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits < 0 || nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
 	bf.nbits = nbits
-- 
2.43.0


From 54a8f5d5a99bbef2574f6e329f6544a0a6da3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 06/45] fix: leave the spare bits clear when filling a bitfield

---
 src/bf/bitfield.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 6d10573..e20bc36 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -101,8 +101,12 @@ func (bf *Bitfield) calcNset() {
 }
 
 func (bf *Bitfield) Fill() {
-	for i, _ := range bf.data5 {
-		bf.data5[i] = 255
+	for i, _ := range bf.data {
+		bf.data[i] = 255
+	}
+	// Spare bits of the last byte must stay 0
+	if rem := bf.nbits % 8; rem != 0 {
+		bf.data[bf.nbytes-1] = uint8(255) << (8 - rem)
 	}
 	bf.nset = bf.nbits
 }
-- 
2.43.0


From 1d9dfd73895420ef12298238f0e1d5a834f0446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 07/45] fix: list only the members of a set

---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From 7396c45418e5e013330d579ee6a444271dc7f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 08/45] fix: remember which pieces are assigned to a peer

---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..79e409d 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -155,14 +155,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From 22c94fb941db6c011da3e38e409b1ff237a10443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 09/45] fix: do not index past the last availability bucket
 with 64 or more peers

---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 79e409d..54659c8 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -132,7 +132,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 			// leaves it in the largest bucket. I.e, numBuckets = 50
 			// and oldCount = 52, then the node should remain in bucket 50.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From fb8a654fbdf031cd6abfaf4f66124ab87611c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 10/45] fix: forget the assignments of a peer that left

---
 src/swarm/piecetracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 54659c8..aa80468 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
-- 
2.43.0


From c9450a07a8e8cbcd2cf6bbf5da8df2b3ae398e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 11/45] fix: advance through the piece when splitting it into
 requests

---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..106a59c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -276,6 +276,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From a37fb5899eb7a6f1c0a6f132d5ad0ab8d6cf638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 12/45] fix: send a choke message when choking

---
 src/swarm/peerhandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 106a59c..4881e75 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -131,7 +131,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 // ============================================================================
 
 func (ph *PeerHandler) Choke() error {
-	msg := p2p.NewMsgUnchoke()
+	msg := p2p.NewMsgChoke()
 	_, e := ph.conn.Write(msg.Encode())
 	return e
 }
-- 
2.43.0


From 8a41082a8eb2bbd41e3e31b424129ca96bd093f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 13/45] fix: refuse requests for bytes outside of a piece

---
 src/swarm/msghandler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..2f03828 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -2,6 +2,7 @@ package swarm
 
 import (
 	"errors"
+	"fmt"
 	"log"
 
 	"gotor/p2p"
@@ -59,11 +60,19 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
+	if idx >= s.Bf.Nbits() {
+		return fmt.Errorf("request for piece %v, only have %v pieces", idx, s.Bf.Nbits())
+	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
+		// The block must lie within the piece. The last piece may not fill
+		// the buffer.
+		if uint64(reqMsg.Begin())+uint64(reqMsg.ReqLen()) > uint64(n) {
+			return fmt.Errorf("request for bytes past the end of piece %v", idx)
+		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
-- 
2.43.0


From 24e78aa591897c94121fe7e496a7e6da826477b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 14/45] fix: wait for the whole handshake of an incoming peer

---
 src/swarm/peerhandler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 4881e75..368a2df 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	stdio "io"
 	"log"
 	"math"
 	"net"
@@ -81,8 +82,8 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
-	// Read the handshake
-	_, e = conn.Read(buf)
+	// Read the handshake, it may come in several parts
+	_, e = stdio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
-- 
2.43.0


From da6cf0003cd515243dd1194251e6c3be06d18b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 15/45] fix: close incoming connections that fail before or
 during the handshake

---
 src/swarm/peerhandler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 368a2df..d92a9b3 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -66,7 +66,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 // FromIncoming receives a new peer connection. It will first check for the correct
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
-func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
+func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, err error) {
+
+	// Nobody else will close the connection if we refuse the peer
+	defer func() {
+		if err != nil {
+			_ = conn.Close() // TODO: Handle?
+		}
+	}()
 
 	// Must be using TCP (for now atleast)
 	tcpAddr, ok := conn.RemoteAddr().(*net.TCPAddr)
@@ -89,7 +96,6 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 	peerHs := Handshake(buf)
 	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
-		_ = conn.Close() // TODO: Handle?
 		return nil, fmt.Errorf("bad peer handshake")
 	}
 	log.Printf("good handshake from %v", conn.RemoteAddr())
-- 
2.43.0


From 1fba7b85044e92add947a9f6f6b8967ae9a267c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 16/45] fix: check the handshake of the peers we connect to

---
 src/swarm/peerhandler.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index d92a9b3..2de1a16 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -47,13 +47,20 @@ type PeerHandler struct {
 // FUNK =======================================================================
 
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
-// handshake.
-func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
+// handshake, and checks the handshake that the peer answers with.
+func FromBootstrap(pInfo peer.Info, swarm *Swarm) (ph *PeerHandler, err error) {
 	conn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
 		return nil, e
 	}
 
+	// Nobody else will close the connection if we refuse the peer
+	defer func() {
+		if err != nil {
+			_ = conn.Close()
+		}
+	}()
+
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 
 	_, e = conn.Write(hs)
@@ -61,6 +68,22 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
+	// Set timeout
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e != nil {
+		return nil, e
+	}
+
+	// Read the peer's handshake
+	peerHs := make(Handshake, HandshakeLen)
+	_, e = stdio.ReadFull(conn, peerHs)
+	if e != nil {
+		return nil, e
+	}
+	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
+		return nil, fmt.Errorf("bad peer handshake")
+	}
+
 	return NewPeerHandler(pInfo, swarm, conn), nil
 }
 
-- 
2.43.0


From 6160008dec7e061f474bb88507ec0476f393c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 17/45] fix: let Finish end a read loop in whatever state it is

---
 src/io/readloop.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..ed2cbe2 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -3,6 +3,7 @@ package io
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -17,6 +18,7 @@ type ReadLoop struct {
 	chReady chan struct{} // Once data in chBuf is processed, this signals user is ready to read again
 	chErr   chan error    // Errors encountered when reading
 	chDone  chan struct{} // Once user is done, Run() will exit
+	finish  sync.Once     // chDone may only be closed once
 
 	conn    net.Conn
 	timeout time.Duration
@@ -52,7 +54,8 @@ func (rl *ReadLoop) ReadError() <-chan error {
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	// Close rather than send, Run may not be waiting on chDone, now or ever
+	rl.finish.Do(func() { close(rl.chDone) })
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
@@ -70,15 +73,19 @@ func (rl *ReadLoop) Run() {
 	for !done {
 		e := rl.conn.SetReadDeadline(time.Now().Add(rl.timeout))
 		if e != nil {
-			rl.chErr <- e
+			rl.reportError(e)
 			break
 		}
 
+		// Finish may have been called before the deadline was moved
+		select {
+		case <-rl.chDone:
+			return
+		default:
+		}
+
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
-			rl.chErr <- e
-			break
-		} else {
+		if n > 0 {
 			rl.chBuf <- rl.buf[:n]
 
 			select {
@@ -87,5 +94,19 @@ func (rl *ReadLoop) Run() {
 				done = true
 			}
 		}
+
+		// There may be data along with the error
+		if n == 0 || e != nil {
+			rl.reportError(e)
+			break
+		}
+	}
+}
+
+// reportError hands the error to the user, unless they are done.
+func (rl *ReadLoop) reportError(e error) {
+	select {
+	case rl.chErr <- e:
+	case <-rl.chDone:
 	}
 }
-- 
2.43.0


From e7089704d2c7fef1b390039eaf78a12c963b1f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 18/45] fix: stop all of the goroutines of a peer that is gone,
 and give its pieces back

---
 src/swarm/peerhandler.go | 70 ++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 2de1a16..ff18031 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -24,6 +24,9 @@ const (
 	SendKeepAlive    = 60 * time.Second
 	HandshakeTimeout = 1 * time.Second
 
+	// requestInterval is how often we look for more pieces to request
+	requestInterval = 100 * time.Millisecond
+
 	// requestLength is the same piece request length as qBittorrent
 	requestLength = 16384
 )
@@ -184,30 +187,32 @@ func (ph *PeerHandler) Loop() {
 		log.Printf("error unchoking: %v\n", e)
 	}
 
+	ph.procs.Add(3)
+
 	go ph.pingLoop(chErr, chDone)
 
 	go ph.recvLoop(chErr, chDone)
 
 	go ph.requestLoop(chErr, chDone)
 
-	done := false
-	for {
-		if done {
-			break
-		}
+	// For now, just kill ourselves if we receive any error.
+	// We will fine-tune this later
+	e = <-chErr
+	log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
 
-		select {
-		// For now, just kill ourselves if we receive any error.
-		// We will fine-tune this later
-		case e = <-chErr:
-			done = true
-			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
-			ph.procs.Wait()
-			// We will eventually wrap this in a struct so that we can
-			// tell the main loop which PeerHandler has errored
-			ph.chErr <- e
-		}
+	// Stop all the goroutines, even those waiting on the connection
+	close(chDone)
+	_ = ph.conn.Close()
+	ph.procs.Wait()
+
+	// Give the peer's pieces back
+	ph.swarm.PPT.Unregister(ph)
+
+	// We will eventually wrap this in a struct so that we can
+	// tell the main loop which PeerHandler has errored
+	select {
+	case ph.chErr <- e:
+	default: // Nobody is listening
 	}
 
 	log.Printf("peer %v done", ph.peerInfo.Addr())
@@ -226,7 +231,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 	//    append new data to previous data and try decoding all again.
 	// 4. Rinse repeat.
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -234,6 +238,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	done := false
@@ -246,20 +251,26 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 		case e = <-readLoop.ReadError():
 			done = true
 		case <-chKill:
-			readLoop.Finish()
 			done = true
 		}
 
 		if e != nil {
-			chErr <- e
+			report(e, chErr, chKill)
 			done = true
 		}
 	}
 }
 
+// report hands an error to the main loop, unless it is already done.
+func report(e error, chErr chan<- error, chDone <-chan bool) {
+	select {
+	case chErr <- e:
+	case <-chDone:
+	}
+}
+
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -270,6 +281,12 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 	// TODO: Yikes
 	for !ph.swarm.Bf.Complete() {
 
+		select {
+		case <-chDone:
+			return
+		case <-time.After(requestInterval):
+		}
+
 		// Fill up requests
 		for i := len(reqs); i < 5; i++ {
 			next, ok := ph.swarm.PPT.NextPiece(ph)
@@ -282,8 +299,11 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					report(e, chErr, chDone)
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
@@ -316,7 +336,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
@@ -324,6 +343,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
 	addr := ph.peerInfo.Addr()
 	ticker := time.NewTicker(SendKeepAlive)
+	defer ticker.Stop()
 	ka := p2p.KeepAliveSingleton
 	data := ka.Encode()
 
@@ -333,7 +353,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 		case <-ticker.C:
 			_, e := ph.conn.Write(data)
 			if e != nil {
-				chErr <- e
+				report(e, chErr, chDone)
 				log.Printf("error with keep alive to %v", addr)
 				done = true
 			}
-- 
2.43.0


From 1642925cb9503b018f2b75d3066e3858f1ba693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 19/45] fix: do not keep every incoming peer in memory forever

---
 src/swarm/swarm.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..41bfa5e 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -144,8 +144,6 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
@@ -158,7 +156,6 @@ func (s *Swarm) runListener() {
 			if e != nil {
 				log.Println(e)
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From 64061a44fe9ff4f5e9a6ea7b8205ae57307959ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 20/45] fix: keep accepting peers after an error

---
 src/swarm/swarm.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 41bfa5e..10cf9c1 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -15,6 +16,9 @@ import (
 	"gotor/utils"
 )
 
+// acceptRetry is how long we wait before accepting peers again after an error
+const acceptRetry = 100 * time.Millisecond
+
 // ============================================================================
 // STRUCTS ====================================================================
 
@@ -147,7 +151,10 @@ func (s *Swarm) runListener() {
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
-			panic(err)
+			// We may be out of file descriptors until some peers leave
+			log.Printf("failed to accept: %v", err)
+			time.Sleep(acceptRetry)
+			continue
 		}
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
-- 
2.43.0


From c600fb7567432589599acb263d090082fd0e6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 21/45] fix: put messages together that arrive in several parts

---
 src/swarm/msghandler.go  | 35 +++++++++++++++++++++++++++++++----
 src/swarm/peerhandler.go | 11 +----------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 2f03828..ddce87d 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -1,6 +1,7 @@
 package swarm
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"log"
@@ -8,14 +9,40 @@ import (
 	"gotor/p2p"
 )
 
+// maxMsgLen is the length of the longest message we wait for the end of, other
+// than a bitfield
+const maxMsgLen = 1048576
+
 // handleMessage decodes the data in the buffer and handles the messages appropriately.
 func (ph *PeerHandler) handleMessage(buf []byte) error {
 	var e error
-	dar := p2p.DecodeAll(buf)
-	pcent := 100.0 * float32(dar.Read) / float32(len(buf))
-	log.Printf("Decoded %v/%v (%v%%) bytes from %v\n", dar.Read, len(buf), pcent, ph.peerInfo.Addr())
 
-	for _, msg := range dar.Msgs {
+	// The first message may have started in earlier data, and the end of the
+	// last one may be yet to come
+	ph.pending = append(ph.pending, buf...)
+	data := ph.pending
+	defer func() { ph.pending = append(ph.pending[:0], data...) }()
+
+	for len(data) >= int(p2p.MsgLengthPrefixLen) {
+
+		msglen := int64(binary.BigEndian.Uint32(data))
+		if msglen > maxMsgLen && msglen > 1+ph.swarm.Bf.Nbytes() {
+			return fmt.Errorf("message of %v bytes is too long", msglen)
+		}
+
+		total := int64(p2p.MsgLengthPrefixLen) + msglen
+		if int64(len(data)) < total {
+			break
+		}
+
+		dr, err := p2p.Decode(data[:total])
+		data = data[total:]
+		if err != nil {
+			log.Printf("ignoring message from %v: %v", ph.peerInfo.Addr(), err)
+			continue
+		}
+
+		msg := dr.Msg
 		switch msg.Mtype() {
 		case p2p.TypeRequest:
 			mreq := msg.(*p2p.MsgRequest)
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index ff18031..2888015 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -42,6 +42,7 @@ type PeerHandler struct {
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
+	pending   []byte         // Data received that is not a whole message yet
 
 	chErr chan<- error // Report errors
 }
@@ -221,16 +222,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	// TODO: Should probably handle split messages
-	// What if we need to recv more than we can handle?
-	// 1. Decode all messages
-	// 2. Any subsections of bytes that were not decoded AND come
-	//    before any successfully decoded messages are discarded
-	// 3. This could leave a tail of non-decoded bytes. These should
-	//    be stored in another buffer. When we go to read again,
-	//    append new data to previous data and try decoding all again.
-	// 4. Rinse repeat.
-
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
-- 
2.43.0


From 2407294d8537c0d0aad735adc6cfca525a2ef268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 22/45] fix: take note of the pieces that peers announce with
 have messages

---
 src/swarm/msghandler.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index ddce87d..db7a94a 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -47,6 +47,9 @@ func (ph *PeerHandler) handleMessage(buf []byte) error {
 		case p2p.TypeRequest:
 			mreq := msg.(*p2p.MsgRequest)
 			e = ph.handleRequest(mreq)
+		case p2p.TypeHave:
+			mhave := msg.(*p2p.MsgHave)
+			e = ph.handleHave(mhave)
 		case p2p.TypeBitfield:
 			mbf := msg.(*p2p.MsgBitfield)
 			e = ph.handleBitfield(mbf)
@@ -83,6 +86,20 @@ func (ph *PeerHandler) handleBitfield(bfMsg *p2p.MsgBitfield) error {
 	return nil
 }
 
+func (ph *PeerHandler) handleHave(haveMsg *p2p.MsgHave) error {
+	swarm := ph.swarm
+
+	idx := int64(haveMsg.Index())
+	if idx >= swarm.Bf.Nbits() {
+		return fmt.Errorf("peer has piece %v, only have %v pieces", idx, swarm.Bf.Nbits())
+	}
+
+	ph.bf.Set(idx, true)
+	swarm.PPT.Register(ph, haveMsg.Index())
+
+	return nil
+}
+
 func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
-- 
2.43.0


From aaae8a5bfb7c43e5b76ce6755d97b2864d51c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 23/45] fix: let waiting transfers proceed when their rate
 limit is raised

---
 src/io/ratelimit.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..2842c0e 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -9,6 +9,9 @@ import (
 
 const (
 	NoLimit = -1
+
+	// pollInterval is how often a waiting transfer checks if it may proceed
+	pollInterval = 1 * time.Millisecond
 )
 
 type RateLimitIO struct {
@@ -40,25 +43,25 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.rlock.Lock()
-	defer rl.rlock.Unlock()
-	rl.rRate = limit // Only place this is modified, don't need atomic
+	// The lock is held by whoever is waiting for the current rate to allow for
+	// more, they must see the change
+	atomic.StoreInt64(&rl.rRate, limit)
 }
 
 func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.wlock.Lock()
-	defer rl.wlock.Unlock()
-	rl.wRate = limit // Only place this is modified, don't need atomic
+	// The lock is held by whoever is waiting for the current rate to allow for
+	// more, they must see the change
+	atomic.StoreInt64(&rl.wRate, limit)
 }
 
 // Run will maintain the set rate limit in an infinite loop, until Stop() is
 // called. This method should almost certainly be in its own goroutine.
 func (rl *RateLimitIO) Run() {
-	rl.rUsed = 0
-	rl.wUsed = 0
+	atomic.StoreInt64(&rl.rUsed, 0)
+	atomic.StoreInt64(&rl.wUsed, 0)
 
 	done := false
 	for !done {
@@ -88,7 +91,7 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Write,
 	// the lock would only be acquired after the in-progress Write finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.wRate == NoLimit {
+	if atomic.LoadInt64(&rl.wRate) == NoLimit {
 		_, e := writer.Write(data)
 		atomic.AddInt64(&rl.wUsed, lenData)
 		atomic.AddInt64(&rl.wTotal, lenData)
@@ -101,9 +104,11 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if rl.wUsed < rl.wRate {
+		rate := atomic.LoadInt64(&rl.wRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.wUsed) < rate {
 			break
 		}
+		time.Sleep(pollInterval)
 	}
 
 	atomic.AddInt64(&rl.wUsed, lenData)
@@ -125,7 +130,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Read,
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.rRate == NoLimit {
+	if atomic.LoadInt64(&rl.rRate) == NoLimit {
 		_, e := reader.Read(buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
@@ -138,9 +143,11 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if rl.rUsed < rl.rRate {
+		rate := atomic.LoadInt64(&rl.rRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.rUsed) < rate {
 			break
 		}
+		time.Sleep(pollInterval)
 	}
 
 	atomic.AddInt64(&rl.rUsed, lenBuf)
-- 
2.43.0


From 7faf267b24fe27210833ec1060b9273ec43b42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 24/45] fix: read all of the data that was asked for

---
 src/io/ratelimit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 2842c0e..f1dd07a 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -131,7 +131,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
 	if atomic.LoadInt64(&rl.rRate) == NoLimit {
-		_, e := reader.Read(buf)
+		_, e := io.ReadFull(reader, buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
 		return e
@@ -154,6 +154,6 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	unlocker.Do(rl.rlock.Unlock)
 	atomic.AddInt64(&rl.rTotal, lenBuf)
 
-	_, e := reader.Read(buf)
+	_, e := io.ReadFull(reader, buf)
 	return e
 }
-- 
2.43.0


From 463d5c8e2ada55267216d172e9b69dda5bf2ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 25/45] fix: decode the smallest 64 bit integer

---
 src/bencode/decode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..1585f91 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -166,11 +166,10 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		strInt += string(dc.curByte())
 		dc.curs++
 	}
 
@@ -201,7 +200,7 @@ func (dc *decoder) decodeInt() (int64, error) {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From 29cea987d2946f7ae492e40f0358edd39ed3513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 26/45] fix: refuse bencodings that are nested too deep for the
 stack

---
 src/bencode/decode.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 1585f91..b001a15 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,6 +57,11 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +103,11 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	var list List
 
@@ -206,9 +216,28 @@ func (dc *decoder) decodeInt() (int64, error) {
 // ============================================================================
 // Decoder Struct =============================================================
 
+// maxDepth is how deep lists and dictionaries may be nested. Running out of stack
+// cannot be recovered from.
+const maxDepth = 10000
+
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int
+}
+
+// enter must be called when starting to decode a list or a dictionary.
+func (dc *decoder) enter() error {
+	dc.depth++
+	if dc.depth > maxDepth {
+		return &DecoderError{"nested too deep"}
+	}
+	return nil
+}
+
+// leave must be called when done decoding a list or a dictionary.
+func (dc *decoder) leave() {
+	dc.depth--
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From 120919daacf4f117e66d960cb3914448c623a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 27/45] fix: compute the infohash from the bytes in the torrent
 file

---
 src/bencode/decode.go  | 49 ++++++++++++++++++++++++++++++++++++++++++
 src/torrent/torrent.go |  9 ++++++--
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index b001a15..c23a1a8 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -48,6 +48,55 @@ func Decode(data []byte) (ret interface{}, err error) {
 	return ret, err
 }
 
+// RawValue returns the bytes of the value that key has in a bencoded dictionary,
+// as they stand in data.
+func RawValue(data []byte, key string) (ret []byte, err error) {
+
+	dc := decoder{data: data, curs: 0}
+
+	defer func() {
+		if r := recover(); r != nil {
+			ret, err = nil, &DecoderError{"read end of data before completion"}
+		}
+	}()
+
+	if dc.curByte() != 'd' {
+		return nil, &DecoderError{"not pointing to dict"}
+	}
+	dc.curs++
+
+	for dc.curByte() != 'e' {
+		k, e := dc.decodeString()
+		if e != nil {
+			return nil, e
+		}
+
+		start := dc.curs
+		switch dc.curByte() {
+		case 'd':
+			_, e = dc.decodeDict()
+		case 'l':
+			_, e = dc.decodeList()
+		case 'i':
+			_, e = dc.decodeInt()
+		default:
+			_, e = dc.decodeString()
+		}
+		if e != nil {
+			return nil, e
+		}
+
+		if k == key {
+			ret = data[start:dc.curs]
+		}
+	}
+
+	if ret == nil {
+		return nil, &DictMissingKeyError{key: key}
+	}
+	return ret, nil
+}
+
 // ============================================================================
 // Private ====================================================================
 
diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..879bf1e 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,8 +97,13 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
-	tor.infohash = utils.SHA1(enc)
+	// Hash the bytes in the file. Encoding the dictionary may not give the same
+	// bytes, or may not even be possible.
+	raw, err := bencode.RawValue(fdata, "info")
+	if err != nil {
+		return nil, err
+	}
+	tor.infohash = utils.SHA1(raw)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
 	if err != nil {
-- 
2.43.0


From e762b707a67274688d85e06797036c13354f5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 28/45] fix: refuse impossible piece lengths, file lengths and
 numbers of hashes

---
 src/torrent/info/info.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..d32c01f 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -160,12 +161,23 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	if pieceLen < 1 {
+		return nil, errors.New("piece length must be at least 1")
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 || fentry.Length() > math.MaxInt64-length {
+			return nil, errors.New("invalid file length")
+		}
 		length += fentry.Length()
 	}
 
+	if int64(len(hashes)/20) != filesd.CalcNumPieces(files, pieceLen) {
+		return nil, errors.New("number of hashes does not match number of pieces")
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
 	npieces := int64(len(hashes) / 20)
-- 
2.43.0


From e21db99c78093de836e4fc85fd3346dc2ddbd2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 29/45] fix: refuse empty file paths instead of crashing on
 them

---
 src/torrent/filesd/entrybase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..db49e2b 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -70,6 +70,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			return nil, err
 		}
 
+		if len(fPathList) == 0 {
+			return nil, errors.New("file entry contains empty path")
+		}
+
 		// Read through list of path strings
 		strb := strings.Builder{}
 
-- 
2.43.0


From dd5df71a139f911129829f5e896776f2f0614960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 30/45] fix: refuse torrents that name files outside of the
 working directory

---
 src/torrent/info/info.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index d32c01f..8a07c7f 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -203,6 +203,24 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 
 }
 
+// localPath joins workingDir and the path elements, which come from a torrent and
+// may try to name a file outside of workingDir.
+func localPath(workingDir string, elems ...string) (string, error) {
+	fpath := filepath.Join(append([]string{workingDir}, elems...)...)
+
+	rel, e := filepath.Rel(workingDir, fpath)
+	if e != nil {
+		return "", e
+	}
+
+	outside := ".." + string(filepath.Separator)
+	if rel == "." || rel == ".." || strings.HasPrefix(rel, outside) {
+		return "", fmt.Errorf("path [%v] is not inside [%v]", fpath, workingDir)
+	}
+
+	return fpath, nil
+}
+
 // FromDict creates and returns a new *TorInfo from the info dictionary of a
 // torrent file.
 func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
@@ -227,7 +245,10 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 	if err == nil {
 
 		fentry := filesd.MakeFileEntry(name, length)
-		localPath := filepath.Join(workingDir, fentry.TorPath())
+		localPath, err := localPath(workingDir, fentry.TorPath())
+		if err != nil {
+			return nil, err
+		}
 		fentry.SetLocalPath(localPath)
 		fentries = []filesd.EntryBase{fentry}
 
@@ -248,9 +269,12 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		}
 
 		// Modify local path
-		workingDir = filepath.Join(workingDir, name) // Torrent paths don't include base dir
 		for i, fe := range fentries {
-			localPath := filepath.Join(workingDir, fe.TorPath())
+			// Torrent paths don't include base dir
+			localPath, err := localPath(workingDir, name, fe.TorPath())
+			if err != nil {
+				return nil, err
+			}
 			fentries[i].SetLocalPath(localPath)
 		}
 	}
-- 
2.43.0


From ead0de11d30e6ce626ab99eeff1d21367d4a261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 31/45] fix: create torrents with pieces larger than 5 MiB

---
 src/torrent/info/info.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 8a07c7f..7f59f7b 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -84,7 +84,15 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
+	if pieceLen < 1 {
+		return nil, errors.New("piece length must be at least 1")
+	}
+
+	// At least one piece must fit
 	npieces := maxBuf / pieceLen
+	if npieces == 0 {
+		npieces = 1
+	}
 	bufSize := npieces * pieceLen
 
 	buf := make([]byte, bufSize, bufSize)
-- 
2.43.0


From 1c18a01409803da3405326a065bb84bcb15b2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 32/45] fix: report an unusable announce URL instead of
 crashing on it

---
 src/tracker/tracker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..e907ce7 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -75,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,8 +86,11 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, e := http.NewRequest("GET", tor.Announce(), nil)
+	if e != nil {
+		return nil, e
+	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", url.QueryEscape(peerId))
@@ -94,7 +100,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-- 
2.43.0


From b58ed22ab545cf90ee23fc9df69212e756d756dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 33/45] fix: escape the peer id once in announce requests

---
 src/tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index e907ce7..a6b8cf0 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -6,7 +6,6 @@ import (
 	"io/ioutil"
 	"net"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -93,7 +92,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
+	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
 	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
-- 
2.43.0


From 8a7bfc91c2b38427e962567b4117651206003306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 34/45] fix: do not turn negative integers into huge unsigned
 ones

---
 src/bencode/dict.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7e5ed53 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: "negative int64",
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
-- 
2.43.0


From 07e0787da645dc84d19370d8b6bab2733195d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 35/45] fix: refuse peers with impossible addresses or ports

---
 src/tracker/tracker.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index a6b8cf0..3aed5c6 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"strings"
@@ -249,7 +250,13 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
-		peerList = append(peerList, peer.MakePeer(id, net.ParseIP(ip), uint16(port)))
+		addr := net.ParseIP(ip)
+		if addr == nil || port > math.MaxUint16 {
+			return nil, &Error{
+				msg: fmt.Sprintf("invalid peer address [%v:%v]", ip, port),
+			}
+		}
+		peerList = append(peerList, peer.MakePeer(id, addr, uint16(port)))
 	}
 	return peerList, nil
 }
-- 
2.43.0


From f057f15420480f651a0531bb627536770f47c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 36/45] fix: refuse sizes that do not fit in 64 bits

---
 src/utils/opts.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..2454ee3 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -99,14 +100,12 @@ func parseSizeUnits(str string) (int64, error) {
 	}
 
 	i := 0
-	mult := int64(1)
+	strb := strings.Builder{}
 	if str[0] == '-' {
-		mult = -1
+		strb.WriteByte('-')
 		i++
 	}
 
-	strb := strings.Builder{}
-
 	// Read the numbers
 	for ; i < lenstr; i++ {
 		if str[i] >= '0' && str[i] <= '9' {
@@ -116,11 +115,10 @@ func parseSizeUnits(str string) (int64, error) {
 		}
 	}
 
-	v, e := strconv.Atoi(strb.String())
+	val, e := strconv.ParseInt(strb.String(), 10, 64)
 	if e != nil {
 		return 0, e
 	}
-	val := int64(v) * mult
 
 	// No letter, assume units BYTES
 	if i == lenstr {
@@ -133,19 +131,25 @@ func parseSizeUnits(str string) (int64, error) {
 		return 0, errors.New("invalid format")
 	}
 
+	unit := int64(1)
 	lastChar := str[i]
 	switch lastChar {
 	case 'B':
-		return val, nil
+		break
 	case 'K':
-		return val * 1024, nil
+		unit = 1024
 	case 'M':
-		return val * 1024 * 1024, nil
+		unit = 1024 * 1024
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		unit = 1024 * 1024 * 1024
 	default:
 		return 0, errors.New("invalid units")
 	}
+
+	if val > math.MaxInt64/unit || val < math.MinInt64/unit {
+		return 0, errors.New("value out of range")
+	}
+	return val * unit, nil
 }
 
 func (o *Opts) Input() string {
-- 
2.43.0


From 90c92aeff38ec81b92b354848ef504d929c68fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 37/45] fix: refuse ports above 65535

---
 src/utils/opts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 2454ee3..2422d56 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -73,6 +73,10 @@ func (o *Opts) Validate() error {
 		return fmt.Errorf("invalid command given, [%v]", *o.cmd)
 	}
 
+	if *o.port > math.MaxUint16 {
+		return fmt.Errorf("invalid port given, [%v]", *o.port)
+	}
+
 	// Upload limit
 	v, e := parseSizeUnits(*opts.uplimStr)
 	if e != nil {
-- 
2.43.0


From 1b8bf0241714d7b4072f3171725cb3e4b1bd610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 38/45] fix: announce how many bytes are left to download

---
 src/swarm/swarm.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 10cf9c1..8e22371 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -76,9 +76,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	swarm.Stats = tracker.NewStats(0, 0, swarm.bytesLeft())
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
@@ -121,6 +119,25 @@ func (s *Swarm) Validate() error {
 	return nil
 }
 
+// bytesLeft returns the number of bytes in the pieces that we do not have.
+func (s *Swarm) bytesLeft() uint64 {
+	torInfo := s.Tor.Info()
+	left := int64(0)
+
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if s.Bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += torInfo.LastPieceLen()
+		} else {
+			left += torInfo.PieceLen()
+		}
+	}
+
+	return uint64(left)
+}
+
 func (s *Swarm) Start() {
 
 	go s.runListener()
-- 
2.43.0


From 9139d86065c35fab2a19f7fc7ff318b67b1b2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 39/45] fix: keep all of the announce URL's own parameters

---
 src/tracker/tracker.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 3aed5c6..733c828 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"net"
 	"net/http"
+	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -91,7 +92,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	if e != nil {
 		return nil, e
 	}
-	query := req.URL.Query()
+	query := url.Values{}
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
@@ -99,7 +100,13 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
-	req.URL.RawQuery = query.Encode()
+
+	// Leave the parameters that the announce URL has of its own as they are
+	own := strings.ReplaceAll(req.URL.RawQuery, " ", "+")
+	if own != "" {
+		own += "&"
+	}
+	req.URL.RawQuery = own + query.Encode()
 	return req, nil
 }
 
-- 
2.43.0


From 67586775c654d29f16cd6fb6fcb99c1c800ea341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 40/45] fix: write the addresses of IPv6 peers so that they can
 be dialed

---
 src/peer/info.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..8ccc150 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,11 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
-
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port)),
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 7af50fa6e6e0595ccd8bd1f0fe5190ff7ae450e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 41/45] fix: encode a shared bitfield without a data race

---
 src/p2p/bitfield.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..2f6a359 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -40,8 +40,9 @@ func (bf *MsgBitfield) Bitfield() *bf.Bitfield {
 // ============================================================================
 // IMPL =======================================================================
 
+// Encode returns a copy, as other peers may be sent the same bitfield meanwhile.
 func (bf *MsgBitfield) Encode() []byte {
-	data := bf.bitfield.Data5()
+	data := append([]byte(nil), bf.bitfield.Data5()...)
 	bf.msgBase.fillBase(data[:5])
 	return data
 }
-- 
2.43.0


From cea19280eb8fe4833637fd89ba332ba8db69bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 42/45] fix: give up on peers that take nothing of what they
 are sent

---
 src/swarm/peerhandler.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 2888015..3dff4ce 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -24,6 +24,9 @@ const (
 	SendKeepAlive    = 60 * time.Second
 	HandshakeTimeout = 1 * time.Second
 
+	// SendTimeout is how long a peer may take to receive what we send it
+	SendTimeout = 5 * time.Minute
+
 	// requestInterval is how often we look for more pieces to request
 	requestInterval = 100 * time.Millisecond
 
@@ -47,6 +50,20 @@ type PeerHandler struct {
 	chErr chan<- error // Report errors
 }
 
+// sendConn is a connection whose writes fail once they have waited for SendTimeout,
+// lest we wait forever for a peer that does not read.
+type sendConn struct {
+	net.Conn
+}
+
+func (c sendConn) Write(data []byte) (int, error) {
+	e := c.SetWriteDeadline(time.Now().Add(SendTimeout))
+	if e != nil {
+		return 0, e
+	}
+	return c.Conn.Write(data)
+}
+
 // ============================================================================
 // FUNK =======================================================================
 
@@ -153,7 +170,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 	return &PeerHandler{
 		peerInfo: pInfo,
 		swarm:    swarm,
-		conn:     conn,
+		conn:     sendConn{conn},
 		chErr:    swarm.ChErr,
 		procs:    sync.WaitGroup{},
 		buf:      make([]byte, torInfo.PieceLen(), torInfo.PieceLen()),
-- 
2.43.0


From 18f85c6f58109e392d9d0e99990d1fb38a70d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 43/45] fix: an existing file that cannot be opened is not
 replaced by zeros

---
 src/utils/futils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..363ce05 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -67,6 +67,11 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
+	// A file that exists but cannot be opened now must not be replaced
+	if e != nil && !os.IsNotExist(e) {
+		return nil, e
+	}
+
 	// Create new file
 	if e != nil {
 		fp, e = CreateZeroFilledFile(fpath, length)
-- 
2.43.0


From bd5957c41253db4562963d4aaa3885dd5c6d7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 44/45] fix: a piece buffer is no longer than the payload

---
 src/swarm/peerhandler.go |  2 +-
 src/swarm/swarm.go       | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 3dff4ce..4aad542 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -173,7 +173,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 		conn:     sendConn{conn},
 		chErr:    swarm.ChErr,
 		procs:    sync.WaitGroup{},
-		buf:      make([]byte, torInfo.PieceLen(), torInfo.PieceLen()),
+		buf:      newPieceBuf(torInfo),
 		bf:       bf.NewBitfield(torInfo.NumPieces()),
 	}
 }
diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 8e22371..232121d 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -12,6 +12,7 @@ import (
 	"gotor/peer"
 	"gotor/torrent"
 	"gotor/torrent/fileio"
+	"gotor/torrent/info"
 	"gotor/tracker"
 	"gotor/utils"
 )
@@ -100,7 +101,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 func (s *Swarm) Validate() error {
 
 	torInfo := s.Tor.Info()
-	buf := make([]byte, torInfo.PieceLen(), torInfo.PieceLen())
+	buf := newPieceBuf(torInfo)
 
 	var i int64
 	for i = 0; i < torInfo.NumPieces(); i++ {
@@ -119,6 +120,15 @@ func (s *Swarm) Validate() error {
 	return nil
 }
 
+// newPieceBuf returns a buffer that any piece fits in. The piece length may be
+// far beyond the length of all files.
+func newPieceBuf(torInfo *info.TorInfo) []byte {
+	if torInfo.Length() < torInfo.PieceLen() {
+		return make([]byte, torInfo.Length())
+	}
+	return make([]byte, torInfo.PieceLen())
+}
+
 // bytesLeft returns the number of bytes in the pieces that we do not have.
 func (s *Swarm) bytesLeft() uint64 {
 	torInfo := s.Tor.Info()
-- 
2.43.0


From 34b8aa8e25be479776465485dbccb5c4f641a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 45/45] fix: creating a torrent with a piece length beyond the
 payload does not exhaust memory

---
 src/torrent/info/info.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 7f59f7b..2b47ca0 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -95,15 +95,30 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	}
 	bufSize := npieces * pieceLen
 
-	buf := make([]byte, bufSize, bufSize)
-	buflen := int64(0)
-	pieceHashes := strings.Builder{}
-
 	// Multifile torrents don't include the base directory in the files dictionary.
 	if len(paths) > 1 {
 		workingDir = filepath.Join(workingDir, name)
 	}
 
+	// A single piece may be far longer than all the files
+	if bufSize > maxBuf {
+		total := int64(0)
+		for _, fpath := range paths {
+			stat, e := os.Stat(filepath.Join(workingDir, fpath))
+			if e != nil {
+				return nil, e
+			}
+			total += stat.Size()
+		}
+		if total < bufSize {
+			bufSize = total + 1
+		}
+	}
+
+	buf := make([]byte, bufSize, bufSize)
+	buflen := int64(0)
+	pieceHashes := strings.Builder{}
+
 	for _, fpath := range paths {
 
 		localPath := filepath.Join(workingDir, fpath)
-- 
2.43.0

