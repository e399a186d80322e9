From e4624503c5763ef7e49102b610335100c63cf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 01/70] verif: dial hook for peer connections behind the verif
 build tag

---
 pkg/peer/dial.go       | 10 ++++++++++
 pkg/peer/dial_verif.go | 19 +++++++++++++++++++
 pkg/peer/peer.go       |  2 +-
 3 files changed, 30 insertions(+), 1 deletion(-)
 create mode 100644 pkg/peer/dial.go
 create mode 100644 pkg/peer/dial_verif.go

diff --git a/pkg/peer/dial.go b/pkg/peer/dial.go
new file mode 100644
index 0000000..6745870
--- /dev/null
+++ b/pkg/peer/dial.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package peer
+
+import "net"
+
+// dial opens the connection to a peer.
+func dial(peerAddr string) (net.Conn, error) {
+	return net.Dial("tcp", peerAddr)
+}
diff --git a/pkg/peer/dial_verif.go b/pkg/peer/dial_verif.go
new file mode 100644
index 0000000..08b1f46
--- /dev/null
+++ b/pkg/peer/dial_verif.go
@@ -0,0 +1,19 @@
+//go:build verif
+
+package peer
+
+import "net"
+
+// DialHook, when set, replaces the TCP dial of NewElementsPeer. It only exists
+// in builds with the `verif` tag, where it lets a monitor supply an in-memory
+// connection.
+var DialHook func(peerAddr string) (net.Conn, error)
+
+// dial opens the connection to a peer.
+func dial(peerAddr string) (net.Conn, error) {
+	if hook := DialHook; hook != nil {
+		return hook(peerAddr)
+	}
+
+	return net.Dial("tcp", peerAddr)
+}
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ccae398..b8a58f3 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,7 +35,7 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := net.Dial("tcp", peerAddr)
+	conn, err := dial(peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7dd3ad10175f4cf262ac5b14e46e8902c8ad0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 02/70] fix: read fixed-size fields in full when they arrive in
 several segments

---
 pkg/binary/unmarshaler.go | 9 +++++++--
 pkg/node/node.go          | 3 ++-
 pkg/protocol/msg.go       | 4 ++--
 pkg/protocol/netaddr.go   | 2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..04a99f1 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -151,8 +151,13 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 	return out, err
 }
 
-func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+func (d Decoder) decodeArray(length int64, out []byte) error {
+	if int64(len(out)) > length {
+		out = out[:length]
+	}
+
+	// a single Read may legitimately return less than what is still to come
+	if _, err := io.ReadFull(d.r, out); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..d3fd76e 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -175,7 +175,8 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 
 Loop:
 	for {
-		nn, err := conn.Read(tmp)
+		// TCP is a stream: a header may arrive in several segments
+		nn, err := io.ReadFull(conn, tmp)
 		if err != nil {
 			logrus.Errorf(err.Error())
 			n.DisconCh <- p.ID()
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..7dd144a 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -108,13 +108,13 @@ func newVarStr(str string) VarStr {
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	if _, err := io.ReadFull(r, lengthBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.Length = uint8(lengthBuf[0])
 
 	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..bef5087 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -34,7 +34,7 @@ func (ip IPv4) String() string {
 // UnmarshalBinary implements the binary.Marshaler interface
 func (ip IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-- 
2.43.0


From cb6d4efa5ddf3c8d6b019688c969cfda2a57f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 03/70] fix: keep the decoded value of IPv4 addresses and block
 locators

---
 pkg/protocol/blocklocator.go | 4 ++--
 pkg/protocol/netaddr.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..7857539 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -44,7 +44,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -67,6 +67,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index bef5087..f590dc9 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -32,7 +32,7 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
 	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
-- 
2.43.0


From 086f02bddbe1a65d3cf4d7ab74f7bf77e0fe6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 04/70] fix: marshal varints and cfilter messages in their wire
 format

---
 pkg/protocol/msg_cfilter.go | 6 +++---
 pkg/protocol/varint.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..6775118 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -20,7 +20,7 @@ type MsgCFilter struct {
 }
 
 var _ binary.Unmarshaler = (*MsgCFilter)(nil)
-var _ binary.Marshaler = (*MsgCFilter)(nil)
+var _ binary.Marshaler = MsgCFilter{}
 
 func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter) (*Message, error) {
 	payload := &MsgCFilter{
@@ -32,14 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
+	b, err := binary.Marshal([hashLen]byte(*msg.BlockHash))
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..d86f564 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -18,7 +18,7 @@ type VarInt struct {
 }
 
 var _ binary.Unmarshaler = (*VarInt)(nil)
-var _ binary.Marshaler = (*VarInt)(nil)
+var _ binary.Marshaler = VarInt{}
 
 func newFromInt(i int) VarInt {
 	if i < 0 {
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From 4e7bec6d2bbe63a585142652693941e084202dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 05/70] fix: never encode a varint value as the prefix of a
 longer encoding

---
 pkg/protocol/varint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index d86f564..e98a03c 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -44,7 +44,10 @@ func NewVarint(u interface{}) (VarInt, error) {
 	switch v := u.(type) {
 	case int:
 		return newFromInt(v), nil
-	case uint8, uint16, uint32:
+	case uint8:
+		// 0xFD, 0xFE and 0xFF are the prefixes of the longer encodings
+		return newFromInt(int(v)), nil
+	case uint16, uint32:
 		return VarInt{Value: v}, nil
 	case uint64:
 		var err error = nil
-- 
2.43.0


From b95c10314ef8d45561923a90a2a67b724ab853e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 06/70] fix: inventory counts of inv and getdata are varints

---
 pkg/protocol/msg_getdata.go | 2 +-
 pkg/protocol/msg_inv.go     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..6ca244b 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..70ed012 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -16,7 +16,7 @@ const (
 
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +28,12 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
-- 
2.43.0


From 485844ac3fb6b82917c1e1fa0fd38a013dee9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 07/70] fix: the length of a variable length string is a varint

---
 pkg/protocol/msg.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 7dd144a..a6995dd 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -94,29 +94,36 @@ func (mh MessageHeader) HasValidMagic() bool {
 
 // VarStr ...
 type VarStr struct {
-	Length uint8
+	Length VarInt
 	String string
 }
 
 func newVarStr(str string) VarStr {
 	return VarStr{
-		Length: uint8(len(str)), // TODO: implement var_int
+		Length: newFromInt(len(str)),
 		String: str,
 	}
 }
 
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
-	lengthBuf := make([]byte, 1)
-	if _, err := io.ReadFull(r, lengthBuf); err != nil {
+	if err := v.Length.UnmarshalBinary(r); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
-	v.Length = uint8(lengthBuf[0])
 
-	stringBuf := make([]byte, v.Length)
-	if _, err := io.ReadFull(r, stringBuf); err != nil {
+	length, err := v.Length.Int()
+	if err != nil {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
+	}
+
+	// the length is chosen by the sender: grow with what is really there
+	stringBuf, err := io.ReadAll(io.LimitReader(r, int64(length)))
+	if err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
+	if len(stringBuf) != length {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", io.ErrUnexpectedEOF)
+	}
 	v.String = string(stringBuf)
 
 	return nil
-- 
2.43.0


From e630536d3b8f5c6989ce43bb16ae3d1c8368e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 08/70] fix: allocate decoded lists and byte strings by what
 was received, not by the announced count

---
 pkg/binary/unmarshaler.go    | 22 +++++++++++++++-------
 pkg/protocol/blocklocator.go |  5 +++--
 pkg/protocol/msg_headers.go  |  5 +++--
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 04a99f1..d4c3442 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -135,20 +135,28 @@ func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 	return b, nil
 }
 
-func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
-	if len <= 0 {
-		return nil, fmt.Errorf("invalid length %d", len)
+func (d Decoder) DecodeBytes(length int64) ([]byte, error) {
+	if length <= 0 {
+		return nil, fmt.Errorf("invalid length %d", length)
 	}
 
-	if len == 1 {
+	if length == 1 {
 		var val uint8
 		err := d.decodeUint8(&val)
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// the length may be chosen by the sender: grow with what is really there
+	out, err := io.ReadAll(io.LimitReader(d.r, length))
+	if err != nil {
+		return nil, err
+	}
+
+	if int64(len(out)) < length {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	return out, nil
 }
 
 func (d Decoder) decodeArray(length int64, out []byte) error {
diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index 7857539..7e61457 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -57,14 +57,15 @@ func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	hashes := make([][32]byte, numberOfBlockLocatorHashes)
+	// the count is chosen by the sender: grow with what is really there
+	hashes := make([][32]byte, 0)
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
 		var hash [hashLen]byte
 		if err := d.Decode(&hash); err != nil {
 			return err
 		}
-		hashes[i] = hash
+		hashes = append(hashes, hash)
 	}
 
 	*locators = hashes
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..a20fc40 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -31,7 +31,8 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	headers := make([]*block.Header, numberOfHeaders)
+	// the count is chosen by the sender: grow with what is really there
+	headers := make([]*block.Header, 0)
 
 	for i := 0; i < numberOfHeaders; i++ {
 		header, err := block.DeserializeHeader(&headersBytes)
@@ -39,7 +40,7 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 			return err
 		}
 
-		headers[i] = header
+		headers = append(headers, header)
 
 		// assume that we read a "block" with zero transactions
 		var tmpLen VarInt
-- 
2.43.0


From 36629dd29759e10ae223a765f21e4c050c96e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 09/70] fix: keep the last byte of a reader that returns it
 together with EOF

---
 pkg/binary/unmarshaler.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index d4c3442..e7b3c6e 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -120,6 +120,7 @@ func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 	for {
 		buf := make([]byte, 1)
 		n, err := d.r.Read(buf)
+		b.Write(buf[:n])
 
 		if err != nil {
 			if err == io.EOF {
@@ -128,8 +129,6 @@ func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 
 			return b, err
 		}
-
-		b.Write(buf[:n])
 	}
 
 	return b, nil
-- 
2.43.0


From 9362bd781ffa2444ea69b0e520207e8fa66d9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 10/70] fix: stopping a node ends its goroutines, and may
 happen more than once

---
 pkg/node/chainsync.go       |  9 ++++++--
 pkg/node/cmd_block.go       |  8 +++++--
 pkg/node/cmd_cfilter.go     |  7 ++++--
 pkg/node/cmd_getcfilters.go |  2 +-
 pkg/node/cmd_getheaders.go  |  2 +-
 pkg/node/cmd_headers.go     |  8 +++++--
 pkg/node/cmd_inv.go         |  2 +-
 pkg/node/cmd_ping.go        |  2 +-
 pkg/node/cmd_pong.go        |  7 ++++--
 pkg/node/cmd_sendcmpct.go   |  2 +-
 pkg/node/cmd_skip.go        |  2 +-
 pkg/node/cmd_tx.go          |  2 +-
 pkg/node/cmd_verack.go      |  2 +-
 pkg/node/cmd_version.go     |  2 +-
 pkg/node/handle_ping.go     | 12 +++++++---
 pkg/node/node.go            | 46 +++++++++++++++++++++++++++++--------
 16 files changed, 83 insertions(+), 32 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..49f1aac 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -100,7 +100,12 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+
+		select {
+		case <-n.quit:
+			return
+		case <-time.After(time.Second * 1):
+		}
 	}
 }
 
@@ -124,7 +129,7 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			close(n.syncedChan)
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..d5aec2b 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -51,7 +51,11 @@ func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 
 		return nil
 	}
-	n.blockHeadersCh <- *msgBlock.Header
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return nil
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..de48b82 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
@@ -17,7 +17,10 @@ func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..ebafe7b 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,7 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..cfa7752 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..0509b32 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,7 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	conn := p.Connection()
@@ -75,7 +75,11 @@ func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) erro
 
 	if len(headers.Headers) > 0 {
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return nil
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..cb7e82f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..ffd8f72 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..10fd21c 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
@@ -16,7 +16,10 @@ func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..8fa10fd 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..89182d7 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,7 +10,7 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..800a425 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..3d43dfb 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -5,6 +5,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..d025789 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,7 +10,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..bbd8774 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -95,9 +95,13 @@ func (n *node) monitorPeer(peer peer.Peer) {
 
 			logrus.Debugf("sent 'ping' to %s", peer)
 
-			n.pingsCh <- peerPing{
+			select {
+			case n.pingsCh <- peerPing{
 				nonce:  nonce,
 				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
 			}
 
 			t := time.NewTimer(pingTimeoutSec * time.Second)
@@ -106,12 +110,14 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			case pn := <-n.peersPongCh[peer.ID()]:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.notifyDisconnected(peer.ID())
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
+			case <-n.quit:
+				return
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnected(peer.ID())
 				return
 			}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index d3fd76e..2e162a8 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
@@ -52,6 +53,7 @@ type node struct {
 	syncedChan chan struct{}
 
 	notifySyncedOnce sync.Once
+	stopOnce         sync.Once
 }
 
 var _ NodeService = (*node)(nil)
@@ -89,14 +91,14 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
@@ -117,8 +119,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
@@ -136,14 +137,20 @@ func (n node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
-
-	return nil
+	select {
+	case <-n.syncedChan:
+		return nil
+	case <-n.quit:
+		return errors.New("node stopped before the headers were synced")
+	}
 }
 
 func (n *node) Stop() error {
-	n.memPool.Stop()
-	close(n.quit)
+	n.stopOnce.Do(func() {
+		n.memPool.Stop()
+		close(n.quit)
+	})
+
 	return nil
 }
 
@@ -173,13 +180,24 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
+	// once the node is stopped nothing is read from its peers anymore
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-n.quit:
+			conn.Close()
+		case <-done:
+		}
+	}()
+
 Loop:
 	for {
 		// TCP is a stream: a header may arrive in several segments
 		nn, err := io.ReadFull(conn, tmp)
 		if err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.notifyDisconnected(p.ID())
 			break Loop
 		}
 
@@ -297,6 +315,14 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 	return err
 }
 
+// notifyDisconnected asks the peers monitor to disconnect the peer.
+func (n *node) notifyDisconnected(peerID peer.PeerID) {
+	select {
+	case n.DisconCh <- peerID:
+	case <-n.quit:
+	}
+}
+
 // on disconnect, remove the peer from the node.
 // and close the connection.
 func (n *node) disconnectPeer(peerID peer.PeerID) {
-- 
2.43.0


From 4d688c997206230cdf61c19775fb170285d70258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 11/70] fix: synchronize access to the peers of a node

---
 pkg/node/chainsync.go   | 14 +++++++-------
 pkg/node/handle_ping.go | 17 +++++++++++++----
 pkg/node/node.go        | 39 ++++++++++++++++++++++++++++++++++-----
 3 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 49f1aac..2b0880d 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,7 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
+	p := n.getPeer(peerID)
 
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
@@ -111,12 +111,12 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
-			if bestPeer != nil {
-				p = bestPeer
-				break
-			}
-		}
+		p = n.getBestPeerForSync()
+	}
+
+	if p == nil {
+		log.Error("node: sync block headers failed: no peers")
+		return
 	}
 
 	if err := n.syncWithPeer(p.ID()); err != nil {
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index bbd8774..448fd7a 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,6 +16,9 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
@@ -44,12 +47,14 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
-			if p == nil {
+			n.peersMutex.RLock()
+			pongCh := n.peersPongCh[peerID]
+			n.peersMutex.RUnlock()
+			if pongCh == nil {
 				break
 			}
 
-			n.peersPongCh[peerID] <- nonce
+			pongCh <- nonce
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -70,6 +75,10 @@ func (n *node) monitorPeers() {
 
 // monitors the pings/pongs for a peer
 func (n *node) monitorPeer(peer peer.Peer) {
+	n.peersMutex.RLock()
+	pongCh := n.peersPongCh[peer.ID()]
+	n.peersMutex.RUnlock()
+
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
@@ -107,7 +116,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
+			case pn := <-pongCh:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
 					n.notifyDisconnected(peer.ID())
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 2e162a8..5a872cd 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -38,6 +38,8 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	//peersMutex synchronizes access to Peers and peersPongCh
+	peersMutex sync.RWMutex
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -99,7 +101,7 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
+	if n.getPeer(outbound.ID()) != nil {
 		return fmt.Errorf("peer already known by node")
 	}
 
@@ -157,6 +159,9 @@ func (n *node) Stop() error {
 // Return the best peer (now randomly)
 // TODO : implement a better way to select the best peer (eg. by latency)
 func (n *node) getBestPeerForSync() peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
 	if len(n.Peers) == 0 {
 		return nil
 	}
@@ -168,6 +173,27 @@ func (n *node) getBestPeerForSync() peer.Peer {
 	return nil
 }
 
+// Return the peer with the given id, nil if the node is not connected to it.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.Peers[peerID]
+}
+
+// Return the peers the node is connected to.
+func (n *node) getPeers() []peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	peers := make([]peer.Peer, 0, len(n.Peers))
+	for _, p := range n.Peers {
+		peers = append(peers, p)
+	}
+
+	return peers
+}
+
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
 	defer func() {
@@ -328,6 +354,9 @@ func (n *node) notifyDisconnected(peerID peer.PeerID) {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	peer := n.Peers[peerID]
 	if peer == nil {
 		return
@@ -335,6 +364,7 @@ func (n *node) disconnectPeer(peerID peer.PeerID) {
 
 	peer.Connection().Close()
 	delete(n.Peers, peerID)
+	delete(n.peersPongCh, peerID)
 }
 
 // monitorBlockHeaders monitors new block headers coming from peers.
@@ -352,7 +382,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if p := n.getBestPeerForSync(); p != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -371,8 +401,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(p.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -418,7 +447,7 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
-	for _, peer := range n.Peers {
+	for _, peer := range n.getPeers() {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
 			return err
-- 
2.43.0


From 8d1fafd73600d2e912ab6c3f903dc521957dafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 12/70] fix: a timely pong is never lost, and never blocks the
 monitor of the peers

---
 pkg/node/handle_ping.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 448fd7a..7a611e1 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -25,7 +25,7 @@ func (n *node) addPeer(peer peer.Peer) error {
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -54,7 +54,12 @@ func (n *node) monitorPeers() {
 				break
 			}
 
-			pongCh <- nonce
+			// there is room for the answer to the only ping in flight: never
+			// wait for a peer's monitor, it may be waiting to report here
+			select {
+			case pongCh <- nonce:
+			default:
+			}
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -98,12 +103,6 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
-			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
-			}
-
-			logrus.Debugf("sent 'ping' to %s", peer)
-
 			select {
 			case n.pingsCh <- peerPing{
 				nonce:  nonce,
@@ -113,6 +112,14 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				return
 			}
 
+			// the nonce is known before the peer can answer with it
+			if _, err := peer.Connection().Write(msg); err != nil {
+				n.notifyDisconnected(peer.ID())
+				return
+			}
+
+			logrus.Debugf("sent 'ping' to %s", peer)
+
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-- 
2.43.0


From 87a1a0d281943b3cc1ec44cc3190a2924079c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 13/70] fix: take messages off a peer's stream as units, and
 only act on those that are intact

---
 pkg/node/cmd_block.go       |  7 ++---
 pkg/node/cmd_cfilter.go     |  8 +++---
 pkg/node/cmd_getcfilters.go |  8 +++---
 pkg/node/cmd_getheaders.go  |  8 +++---
 pkg/node/cmd_headers.go     |  9 ++++---
 pkg/node/cmd_inv.go         |  8 +++---
 pkg/node/cmd_ping.go        |  8 +++---
 pkg/node/cmd_pong.go        |  8 +++---
 pkg/node/cmd_sendcmpct.go   |  8 +++---
 pkg/node/cmd_skip.go        |  3 +--
 pkg/node/cmd_tx.go          |  8 +++---
 pkg/node/cmd_verack.go      |  3 ++-
 pkg/node/cmd_version.go     |  8 +++---
 pkg/node/node.go            | 51 ++++++++++++++++++++++++++++++++++++-
 pkg/protocol/msg.go         |  6 +++++
 15 files changed, 111 insertions(+), 40 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index d5aec2b..99b91e4 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -3,8 +3,6 @@ package node
 import (
 	"context"
 	"github.com/vulpemventures/go-elements/block"
-	"io"
-
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
@@ -14,12 +12,11 @@ import (
 func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
-	_, err := n.blockHeadersDb.ChainTip(context.Background())
-	if err != nil && err != repository.ErrNoBlocksHeaders {
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index de48b82..f1c6adc 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
@@ -11,7 +9,11 @@ import (
 func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index ebafe7b..a658ad3 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -3,8 +3,6 @@ package node
 import (
 	"context"
 	"fmt"
-	"io"
-
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -15,7 +13,11 @@ import (
 
 func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index cfa7752..a95481c 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
@@ -11,7 +9,11 @@ import (
 
 func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 0509b32..8770cfd 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -4,19 +4,20 @@ import (
 	"context"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
-	"github.com/vulpemventures/neutrino-elements/pkg/repository"
-	"io"
-
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
+	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
 func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
+	lr, err := readPayload(msgHeader, conn)
+	if err != nil {
+		return err
+	}
 
 	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
 		return err
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index cb7e82f..4732cf3 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
@@ -12,7 +10,11 @@ func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
+	lr, err := readPayload(header, conn)
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index ffd8f72..d124466 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
@@ -12,7 +10,11 @@ func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
+	lr, err := readPayload(header, conn)
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 10fd21c..c5454c2 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
@@ -11,7 +9,11 @@ import (
 func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index 8fa10fd..f1cf288 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
@@ -11,7 +9,11 @@ import (
 
 func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 89182d7..1269ad2 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -4,7 +4,6 @@ import (
 	"io"
 
 	"github.com/sirupsen/logrus"
-	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
@@ -14,7 +13,7 @@ func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
+	if _, err := io.Copy(io.Discard, lr); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 800a425..e28b080 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -1,8 +1,6 @@
 package node
 
 import (
-	"io"
-
 	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
@@ -12,7 +10,11 @@ import (
 func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr, err := readPayload(header, p.Connection())
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 3d43dfb..486a4d7 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -6,5 +6,6 @@ import (
 )
 
 func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
-	return nil
+	_, err := readPayload(header, p.Connection())
+	return err
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index d025789..1e55e6f 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -2,8 +2,6 @@ package node
 
 import (
 	"fmt"
-	"io"
-
 	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
@@ -14,7 +12,11 @@ func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
+	lr, err := readPayload(header, conn)
+	if err != nil {
+		return err
+	}
+
 	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
 		return err
 	}
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 5a872cd..e3ae702 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -20,6 +20,9 @@ import (
 const (
 	pingIntervalSec = 120
 	pingTimeoutSec  = 60
+
+	// maxPayloadLength is the length of the longest payload the node reads
+	maxPayloadLength = 32 * 1024 * 1024
 )
 
 type NodeService interface {
@@ -199,7 +202,7 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 	defer func() {
 		if r := recover(); r != nil {
 			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
-			n.handlePeerMessages(p)
+			go n.handlePeerMessages(p)
 		}
 	}()
 
@@ -235,6 +238,22 @@ Loop:
 
 		if err := msgHeader.Validate(); err != nil {
 			logrus.Debugf("validate header failed: %+v", err)
+			if !msgHeader.HasValidMagic() {
+				continue
+			}
+
+			// what follows is the payload, not the next message
+			if err := n.skipMessage(&msgHeader, p); err != nil {
+				logrus.Errorf("failed to skip message: %+v", err)
+			}
+			continue
+		}
+
+		if msgHeader.Magic != n.Network {
+			logrus.Debugf("message of another network: %x", msgHeader.Magic)
+			if err := n.skipMessage(&msgHeader, p); err != nil {
+				logrus.Errorf("failed to skip message: %+v", err)
+			}
 			continue
 		}
 
@@ -311,6 +330,36 @@ Loop:
 	}
 }
 
+// readPayload reads the whole payload of a message, so that the next message is
+// found where it starts no matter what happens with this one, and checks that it
+// is the payload announced by the header.
+func readPayload(header *protocol.MessageHeader, conn io.Reader) (io.Reader, error) {
+	lr := io.LimitReader(conn, int64(header.Length))
+
+	if header.Length > maxPayloadLength {
+		if _, err := io.Copy(io.Discard, lr); err != nil {
+			return nil, err
+		}
+
+		return nil, fmt.Errorf("payload of %d bytes is too long", header.Length)
+	}
+
+	payload, err := io.ReadAll(lr)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(payload) < int(header.Length) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	if !header.HasValidChecksum(payload) {
+		return nil, fmt.Errorf("invalid checksum: %x", header.Checksum)
+	}
+
+	return bytes.NewReader(payload), nil
+}
+
 // Returns the services (as serviceFlag) supported by the node.
 func (n *node) getServicesFlag() protocol.ServiceFlag {
 	return protocol.SFNodeCF
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index a6995dd..6af7e9c 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -92,6 +92,12 @@ func (mh MessageHeader) HasValidMagic() bool {
 	return false
 }
 
+// HasValidChecksum returns true if the checksum of the message header is the
+// one of the given payload. Returns false otherwise.
+func (mh MessageHeader) HasValidChecksum(payload []byte) bool {
+	return mh.Checksum == checksum(payload)
+}
+
 // VarStr ...
 type VarStr struct {
 	Length VarInt
-- 
2.43.0


From f0f4c5f0513f055d32dee0e18464e496eeaa3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 14/70] fix: send a transaction to every peer even if one of
 them fails

---
 pkg/node/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index e3ae702..8483c7d 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -496,12 +496,14 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
+	// a failing peer must not keep the transaction from the others
+	var sendErr error
 	for _, peer := range n.getPeers() {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
-			return err
+			sendErr = err
 		}
 	}
 
-	return nil
+	return sendErr
 }
-- 
2.43.0


From 0860532d9a60a1707f20c9a3e36898c3efd65345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 15/70] fix: answer getcfilters with the whole range, from the
 start height up

---
 pkg/node/cmd_getcfilters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index a658ad3..16d05cd 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -44,7 +44,7 @@ func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) er
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	for height := getCFilters.StartHeight; height <= endBlockHeader.Height; height++ {
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 32b7828109e79016913cbaf45e030afb0afe5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 16/70] fix: go on with another peer when the one asked for
 headers or a filter fails

---
 pkg/node/handle_ping.go |  5 +++++
 pkg/node/node.go        | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 7a611e1..334af01 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -68,6 +68,11 @@ func (n *node) monitorPeers() {
 		case peerID := <-n.DisconCh:
 			n.disconnectPeer(peerID)
 
+			// it may have been the one the headers were synced with
+			if n.getBestPeerForSync() != nil {
+				go n.sync(nil)
+			}
+
 			for k, v := range peerPings {
 				if v == peerID {
 					delete(peerPings, k)
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 8483c7d..a02f7fc 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -431,7 +431,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if p := n.getBestPeerForSync(); p != nil {
+			if peers := n.getPeers(); len(peers) > 0 {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -450,10 +450,13 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				err = n.sendMessage(p.Connection(), msg)
-				if err != nil {
+				// ask another peer if one fails, nobody asks again later
+				for _, p := range peers {
+					err = n.sendMessage(p.Connection(), msg)
+					if err == nil {
+						break
+					}
 					logrus.Error(err)
-					continue
 				}
 			}
 		}
-- 
2.43.0


From ca08689e91a81da0876b834f7bc5a22d33ffe2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 17/70] fix: confirm and announce every transaction of the
 mem-pool exactly once

---
 pkg/node/mempool.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..1faee9e 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -140,20 +140,18 @@ func (m *MemPool) CheckTxConfirmed(block block.Block) {
 }
 
 func (m *MemPool) checkTxConfirmed(block block.Block) {
-	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
-		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
-					log.Errorln("failed to remove tx from memPool")
-				}
-
-				m.notifySubscribers(TxConfirmedEvent{
-					txID: tx.TxHash().String(),
-					tx:   *tx,
-				})
-			}
+	for _, tx := range block.TransactionsData.Transactions {
+		txID := tx.TxHash().String()
+
+		// only who removes the tx notifies that it is confirmed
+		if err := m.removeTxFromMemPool(txID); err != nil {
+			continue
 		}
+
+		m.notifySubscribers(TxConfirmedEvent{
+			txID: txID,
+			tx:   *tx,
+		})
 	}
 }
 
@@ -168,26 +166,33 @@ func (m *MemPool) removeTxFromMemPool(txID string) error {
 	return errors.New("tx not found")
 }
 
-func (m *MemPool) addTx(txID string, txData txData) {
+// addTx returns false if the tx is already in the memPool.
+func (m *MemPool) addTx(txID string, txData txData) bool {
 	m.txsMutex.Lock()
 	defer m.txsMutex.Unlock()
 
 	if _, ok := m.txs[txID]; !ok {
 		m.txs[txID] = txData
+		return true
 	}
+
+	return false
 }
 
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
 	for tx := range m.txChan {
-		m.addTx(
+		added := m.addTx(
 			tx.HashStr(),
 			txData{
 				tx:           tx.Transaction,
 				timeReceived: time.Now(),
 			},
 		)
+		if !added {
+			continue
+		}
 
 		m.notifySubscribers(TxUnConfirmedEvent{
 			txID: tx.HashStr(),
-- 
2.43.0


From 80268a364da345ed47b529e393f6cb74958fb56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 18/70] fix: stopping the mem-pool does not crash who adds or
 receives transactions

---
 pkg/node/mempool.go | 65 +++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 1faee9e..46ca334 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -31,6 +31,10 @@ type MemPool struct {
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
 	txSubscribers []txSubscriber
+	//notifications counts the notifications that are being delivered
+	notifications *sync.WaitGroup
+	//stopped is true once the memPool is stopped, txSubscribersMutex protects it
+	stopped bool
 }
 
 func NewMemPool() MemPool {
@@ -40,6 +44,7 @@ func NewMemPool() MemPool {
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		notifications:      new(sync.WaitGroup),
 	}
 }
 
@@ -92,10 +97,17 @@ func (m *MemPool) Start() {
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
+	m.txSubscribersMutex.Lock()
+	defer m.txSubscribersMutex.Unlock()
+	if m.stopped {
+		return
+	}
+	m.stopped = true
+
 	close(m.quitChan)
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	// nobody sends to a subscriber anymore when its channel is closed
+	m.notifications.Wait()
+	for _, v := range m.txSubscribers {
 		close(v.txEvent)
 	}
 }
@@ -113,13 +125,21 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	select {
+	case m.txChan <- tx:
+	case <-m.quitChan:
+	}
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	m.txSubscribersMutex.Lock()
 	defer m.txSubscribersMutex.Unlock()
 	txEvent := make(chan TxEvent)
+	if m.stopped {
+		close(txEvent)
+		return txEvent
+	}
+
 	m.txSubscribers = append(m.txSubscribers, txSubscriber{
 		id:      id,
 		txEvent: txEvent,
@@ -128,13 +148,6 @@ func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
-	m.txSubscribersMutex.RLock()
-	defer m.txSubscribersMutex.RUnlock()
-
-	return m.txSubscribers
-}
-
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
 	go m.checkTxConfirmed(block)
 }
@@ -182,7 +195,15 @@ func (m *MemPool) addTx(txID string, txData txData) bool {
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
-	for tx := range m.txChan {
+	for {
+		var tx protocol.MsgTx
+		select {
+		case tx = <-m.txChan:
+		case <-m.quitChan:
+			log.Debugln("mem-pool: memPool listener stopped")
+			return
+		}
+
 		added := m.addTx(
 			tx.HashStr(),
 			txData{
@@ -201,16 +222,26 @@ func (m *MemPool) listenForNewTxs() {
 
 		log.Debugf("tx %s added to memPool", tx.HashStr())
 	}
-
-	log.Debugln("mem-pool: memPool listener stopped")
 }
 
 func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	m.txSubscribersMutex.RLock()
+	defer m.txSubscribersMutex.RUnlock()
+	if m.stopped {
+		return
+	}
+
+	for _, v := range m.txSubscribers {
+		m.notifications.Add(1)
 		go func(subscriber txSubscriber) {
+			defer m.notifications.Done()
+
 			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
+			select {
+			case subscriber.txEvent <- txEvent:
+			case <-m.quitChan:
+				return
+			}
 			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
 		}(v)
 	}
-- 
2.43.0


From e31eaa68402f074e90d984b752ea69e6301da9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 19/70] fix: keep every header of a batch written to the
 in-memory repository

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..5905b9f 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -73,6 +73,8 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 	defer h.locker.Unlock()
 
 	for _, header := range headers {
+		// each entry points to its own copy
+		header := header
 		hash, err := header.Hash()
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From b4bc2a08e04a901d2dbe202838884d9ff4dc8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 20/70] fix: asking the in-memory repository for the ancestors
 of an unknown block does not panic

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 5905b9f..723e7f4 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -167,6 +167,9 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 	}
 
 	blockHeader := h.headers[hash]
+	if blockHeader == nil {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
-- 
2.43.0


From dcef7b0cef3916a85c5842e6123168ff7df2001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 21/70] fix: report errors of the database instead of panicking
 or ignoring them

---
 .../storage/db/pg/filter_repository_impl.go     |  4 +++-
 .../storage/db/pg/header_repository_impl.go     | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..c325ead 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"database/sql"
+	"errors"
 	"fmt"
 	"github.com/lib/pq"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -49,7 +50,8 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
+		var pqErr *pq.Error
+		if errors.As(err, &pqErr) {
 			if pqErr.Code == uniqueViolation {
 				f, err := f.GetFilter(ctx, entry.Key)
 				if err != nil {
diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..8280608 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"database/sql"
+	"errors"
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
@@ -123,7 +124,8 @@ func (h *headerRepositoryImpl) WriteHeaders(
 		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
+			var pqErr *pq.Error
+			if errors.As(err, &pqErr) {
 				if pqErr.Code == uniqueViolation {
 					log.Warnf("header already exists: %s", hash.String())
 					return nil
@@ -221,7 +223,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
@@ -272,8 +277,12 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 
 	blockHeaders := []*BlockHeader{}
 	err := h.db.Db.Select(&blockHeaders, query)
-	if err == sql.ErrNoRows {
-		return nil, repository.ErrNoBlocksHeaders
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return nil, repository.ErrNoBlocksHeaders
+		}
+
+		return nil, err
 	}
 
 	var headers []*block.Header
-- 
2.43.0


From 2bdc5fc282ea149ad91f519e8dd3ad480a9da401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 22/70] fix: a known header does not drop the rest of its batch

---
 .../storage/db/pg/header_repository_impl.go   | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 8280608..976e973 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -4,11 +4,9 @@ import (
 	"bytes"
 	"context"
 	"database/sql"
-	"errors"
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -121,18 +119,18 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		// a unique violation would abort the whole transaction, and with it
+		// the other headers of the batch
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT DO NOTHING;`
 
-		if _, err = tx.NamedExec(query, bh); err != nil {
-			var pqErr *pq.Error
-			if errors.As(err, &pqErr) {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
+		res, err := tx.NamedExec(query, bh)
+		if err != nil {
 			return err
 		}
+
+		if inserted, err := res.RowsAffected(); err == nil && inserted == 0 {
+			log.Warnf("header already exists: %s", hash.String())
+		}
 	}
 
 	return tx.Commit()
-- 
2.43.0


From af824120dd9937f73cc1ac5e44150fdd3ecfe621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 23/70] fix: a height without header is reported as block not
 found

---
 internal/infrastructure/storage/db/pg/header_repository_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 976e973..0181a8e 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -256,7 +256,7 @@ func (h *headerRepositoryImpl) getBlockHeaderByHeight(height uint32) (*block.Hea
 	err := h.db.Db.Get(blockHeader, query, height)
 	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, repository.ErrNoBlocksHeaders
+			return nil, repository.ErrBlockNotFound
 		}
 
 		return nil, err
-- 
2.43.0


From 1558e470b780a51526205fc47c7a8feb7dad058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 24/70] fix: a request of the scanner neither misses its
 wake-up nor waits behind one of a future block

---
 pkg/scanner/requestqueue.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..237698c 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -39,12 +39,23 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	queue.locker.Lock()
-	defer queue.locker.Unlock()
-	defer queue.cond.Signal()
-
 	queue.requests = append(queue.requests, req)
+	queue.locker.Unlock()
+
+	queue.wakeUp()
 }
 
+// wakeUp wakes up who is waiting on cond. The lock of cond makes sure that it
+// can't be missed by who has checked its condition but does not wait yet.
+func (queue *scanRequestQueue) wakeUp() {
+	queue.cond.L.Lock()
+	defer queue.cond.L.Unlock()
+
+	queue.cond.Broadcast()
+}
+
+// peek returns the request to start with: the one with the lowest start height.
+// The other ones join when the scan gets to their start height.
 func (queue *scanRequestQueue) peek() *ScanRequest {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
@@ -53,7 +64,14 @@ func (queue *scanRequestQueue) peek() *ScanRequest {
 		return nil
 	}
 
-	return queue.requests[0]
+	first := queue.requests[0]
+	for _, req := range queue.requests[1:] {
+		if req.StartHeight < first.StartHeight {
+			first = req
+		}
+	}
+
+	return first
 }
 
 func (queue *scanRequestQueue) isEmpty() bool {
-- 
2.43.0


From 9f0eddaa4da1446d42c76514bab8274c7b3ad261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 25/70] fix: stopping the scanner ends it, whatever it is
 doing, and it can be started again

---
 pkg/scanner/scanner.go | 87 +++++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..8dd7aad 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -3,6 +3,8 @@ package scanner
 import (
 	"context"
 	"fmt"
+	"sync"
+
 	"github.com/google/uuid"
 
 	"github.com/vulpemventures/go-elements/descriptor"
@@ -56,13 +58,14 @@ type Service interface {
 }
 
 type scannerService struct {
-	started       bool
 	requestsQueue *scanRequestQueue
 	filterDB      repository.FilterRepository
 	headerDB      repository.BlockHeaderRepository
 	genesisHash   *chainhash.Hash
 	blockService  blockservice.BlockService
-	quitCh        chan struct{}
+	mutex         sync.Mutex
+	// quitCh is closed to stop the scanner, it is nil while it is not started
+	quitCh chan struct{}
 }
 
 var _ Service = (*scannerService)(nil)
@@ -78,7 +81,6 @@ func New(
 		filterDB:      filterDB,
 		headerDB:      headerDB,
 		blockService:  blockSvc,
-		quitCh:        make(chan struct{}),
 		genesisHash:   genesisHash,
 	}
 }
@@ -86,25 +88,35 @@ func New(
 func (s *scannerService) Start() (<-chan Report, error) {
 	log.Debugln("scanner: starting scanner ...")
 
-	if s.started {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	if s.quitCh != nil {
 		return nil, fmt.Errorf("scanner already started")
 	}
 
-	s.quitCh = make(chan struct{}, 1)
+	s.quitCh = make(chan struct{})
 	resultCh := make(chan Report)
 	// start the requests manager
-	go s.requestsManager(resultCh)
+	go s.requestsManager(resultCh, s.quitCh)
 
-	s.started = true
 	return resultCh, nil
 }
 
 func (s *scannerService) Stop() {
 	log.Debugln("scanner: stopping scanner ...")
 
-	s.quitCh <- struct{}{}
-	s.started = false
-	//s.requestsQueue = newScanRequestQueue() TODO: commented cause data race
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	if s.quitCh == nil {
+		return
+	}
+
+	close(s.quitCh)
+	s.quitCh = nil
+	// the manager may be waiting for requests
+	s.requestsQueue.wakeUp()
 }
 
 func (s *scannerService) Watch(opts ...ScanRequestOption) {
@@ -167,47 +179,39 @@ func (s *scannerService) WatchDescriptorWallet(
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-func (s *scannerService) requestsManager(ch chan<- Report) {
-	defer close(s.quitCh)
-
+func (s *scannerService) requestsManager(ch chan<- Report, quit <-chan struct{}) {
 	for {
 		s.requestsQueue.cond.L.Lock()
-		for s.requestsQueue.isEmpty() {
+		for s.requestsQueue.isEmpty() && !isClosed(quit) {
 			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
 			s.requestsQueue.cond.Wait() // wait for new requests
-
-			// check if we should quit the routine
-			select {
-			case <-s.quitCh:
-				s.requestsQueue.cond.L.Unlock()
-				return
-			default:
-			}
 		}
 		s.requestsQueue.cond.L.Unlock()
 
-		// get the next request without removing it from the queue
-		nextRequest := s.requestsQueue.peek()
-		err := s.requestWorker(nextRequest.StartHeight, ch)
-		if err != nil {
-			logrus.Errorf("error while scanning: %v", err)
-		}
-
 		// check if we should quit the routine
-		select {
-		case <-s.quitCh:
+		if isClosed(quit) {
 			return
-		default:
+		}
+
+		// get the next request without removing it from the queue
+		nextRequest := s.requestsQueue.peek()
+		if nextRequest == nil {
 			continue
 		}
 
+		err := s.requestWorker(nextRequest.StartHeight, ch, quit)
+		if err != nil {
+			logrus.Errorf("error while scanning: %v", err)
+		}
 	}
 }
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
 // TODO handle properly errors (enqueue the unresolved requests ??)
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
+func (s *scannerService) requestWorker(
+	startHeight uint32, reportsChan chan<- Report, quit <-chan struct{},
+) error {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
@@ -216,7 +220,7 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		return err
 	}
 
-	for nextHeight <= chainTip.Height {
+	for nextHeight <= chainTip.Height && !isClosed(quit) {
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
 
@@ -250,7 +254,11 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 
 			for _, report := range reports {
 				// send the report to the output channel
-				reportsChan <- report
+				select {
+				case reportsChan <- report:
+				case <-quit:
+					return nil
+				}
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
 				if report.Request.IsPersistent {
@@ -349,3 +357,12 @@ func (s *scannerService) extractBlockMatches(blockHash *chainhash.Hash, requests
 
 	return results, remainRequests, nil
 }
+
+func isClosed(ch <-chan struct{}) bool {
+	select {
+	case <-ch:
+		return true
+	default:
+		return false
+	}
+}
-- 
2.43.0


From 93e1468fe254deb0d3abac2f5003562338b54d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 26/70] fix: the scanner keeps the requests it could not
 resolve, from where they were left

---
 pkg/scanner/scanner.go | 187 ++++++++++++++++++++++++-----------------
 1 file changed, 110 insertions(+), 77 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 8dd7aad..951275a 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"time"
 
 	"github.com/google/uuid"
 
@@ -12,6 +13,7 @@ import (
 	"github.com/btcsuite/btcd/btcutil/gcs/builder"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
+	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -24,6 +26,9 @@ const (
 	SpentUtxo
 
 	numOsScripts = 100
+
+	// retryInterval is the time to wait after a failure
+	retryInterval = time.Second
 )
 
 type EventType int
@@ -202,33 +207,43 @@ func (s *scannerService) requestsManager(ch chan<- Report, quit <-chan struct{})
 		err := s.requestWorker(nextRequest.StartHeight, ch, quit)
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
+
+			// do not insist immediately on what just failed
+			select {
+			case <-quit:
+			case <-time.After(retryInterval):
+			}
 		}
 	}
 }
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
-// TODO handle properly errors (enqueue the unresolved requests ??)
+// the requests that are not resolved go back to the queue, from the first height
+// they have not been checked at
 func (s *scannerService) requestWorker(
 	startHeight uint32, reportsChan chan<- Report, quit <-chan struct{},
-) error {
+) (lastErr error) {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	defer func() {
+		s.enqueueAtHeight(nextBatch, nextHeight)
+	}()
+
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
 		return err
 	}
 
-	for nextHeight <= chainTip.Height && !isClosed(quit) {
+	for nextHeight <= chainTip.Height {
+		if isClosed(quit) {
+			return nil
+		}
+
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
 
-		itemsBytes := make([][]byte, len(nextBatch))
-		for i, req := range nextBatch {
-			itemsBytes[i] = req.Item.Bytes()
-		}
-
 		// get the block hash for height
 		var blockHash *chainhash.Hash
 		if nextHeight == 0 {
@@ -240,41 +255,17 @@ func (s *scannerService) requestWorker(
 			}
 		}
 
-		// check with filterDB if the block has one of the items
-		matched, err := s.blockFilterMatches(itemsBytes, blockHash)
+		remainReqs, failedReqs, err := s.scanBlock(blockHash, nextHeight, nextBatch, reportsChan, quit)
 		if err != nil {
-			return err
+			lastErr = err
 		}
 
-		if matched {
-			reports, remainReqs, err := s.extractBlockMatches(blockHash, nextBatch)
-			if err != nil {
-				return err
-			}
+		// the requests that this block may still resolve wait for it, the other ones go on
+		s.enqueueAtHeight(failedReqs, nextHeight)
 
-			for _, report := range reports {
-				// send the report to the output channel
-				select {
-				case reportsChan <- report:
-				case <-quit:
-					return nil
-				}
-
-				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
-					s.Watch(
-						WithRequestID(report.Request.ClientID),
-						WithStartBlock(report.BlockHeight+1),
-						WithWatchItem(report.Request.Item),
-						WithPersistentWatch(),
-					)
-				}
-			}
-
-			// if some requests remain, put them back in the next batch
-			// this will remove the resolved requests from the batch
-			nextBatch = remainReqs
-		}
+		// if some requests remain, put them back in the next batch
+		// this will remove the resolved requests from the batch
+		nextBatch = remainReqs
 
 		// increment the height to scan
 		// if nothing was found, we can just continue with same batch and next height
@@ -286,12 +277,76 @@ func (s *scannerService) requestWorker(
 		}
 	}
 
-	// enqueue the remaining requests
-	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
+	return lastErr
+}
+
+// scanBlock sends the reports of the requests resolved by the block. It returns the
+// requests to go on with at the next block, and those to check this block for again.
+func (s *scannerService) scanBlock(
+	blockHash *chainhash.Hash, height uint32, requests []*ScanRequest,
+	reportsChan chan<- Report, quit <-chan struct{},
+) (remainReqs, failedReqs []*ScanRequest, err error) {
+	itemsBytes := make([][]byte, len(requests))
+	for i, req := range requests {
+		itemsBytes[i] = req.Item.Bytes()
 	}
 
-	return nil
+	// check with filterDB if the block has one of the items
+	matched, err := s.blockFilterMatches(itemsBytes, blockHash)
+	if err == repository.ErrFilterNotFound {
+		// headers are stored before their filter: without it, only the block can tell
+		// (there is nothing to look for in the genesis block)
+		matched, err = height > 0 && len(requests) > 0, nil
+	}
+	if err != nil {
+		return nil, requests, err
+	}
+	if !matched {
+		return requests, nil, nil
+	}
+
+	block, err := s.blockService.GetBlock(blockHash)
+	if err != nil {
+		for i, req := range requests {
+			matched, filterErr := s.blockFilterMatches(itemsBytes[i:i+1], blockHash)
+			if filterErr == nil && !matched {
+				remainReqs = append(remainReqs, req)
+			} else {
+				failedReqs = append(failedReqs, req)
+			}
+		}
+		return remainReqs, failedReqs, fmt.Errorf("block %s: %w", blockHash, err)
+	}
+
+	for i, req := range requests {
+		reports := extractMatches(block, blockHash, req)
+
+		for _, report := range reports {
+			// send the report to the output channel
+			select {
+			case reportsChan <- report:
+			case <-quit:
+				return remainReqs, requests[i:], nil
+			}
+		}
+
+		// if the request is persistent, the scanner will keep watching the item at the next block height
+		if len(reports) == 0 || req.IsPersistent {
+			remainReqs = append(remainReqs, req)
+		}
+	}
+
+	return remainReqs, nil, nil
+}
+
+// enqueueAtHeight puts requests back in the queue. The given requests are left as
+// they are, they may be part of a report.
+func (s *scannerService) enqueueAtHeight(requests []*ScanRequest, height uint32) {
+	for _, req := range requests {
+		next := *req
+		next.StartHeight = height
+		s.requestsQueue.enqueue(&next)
+	}
 }
 
 func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash.Hash) (bool, error) {
@@ -302,9 +357,6 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 
 	filter, err := s.filterDB.GetFilter(context.Background(), filterToFetchKey)
 	if err != nil {
-		if err == repository.ErrFilterNotFound {
-			return false, nil
-		}
 		return false, err
 	}
 
@@ -322,40 +374,21 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 	return matched, nil
 }
 
-func (s *scannerService) extractBlockMatches(blockHash *chainhash.Hash, requests []*ScanRequest) ([]Report, []*ScanRequest, error) {
-	block, err := s.blockService.GetBlock(blockHash)
-	if err != nil {
-		if err == blockservice.ErrorBlockNotFound {
-			return nil, requests, nil // skip requests if block svc is not able to find the block
-		}
-
-		return nil, nil, err
-	}
-
-	results := make([]Report, 0)
-
-	remainRequests := make([]*ScanRequest, 0)
-
-	for _, req := range requests {
-		reqMatchedAtLeastOneTime := false
-		for _, tx := range block.TransactionsData.Transactions {
-			if req.Item.Match(tx) {
-				reqMatchedAtLeastOneTime = true
-				results = append(results, Report{
-					Transaction: tx,
-					BlockHash:   blockHash,
-					BlockHeight: block.Header.Height,
-					Request:     req,
-				})
-			}
-		}
-
-		if !reqMatchedAtLeastOneTime {
-			remainRequests = append(remainRequests, req)
+func extractMatches(block *block.Block, blockHash *chainhash.Hash, req *ScanRequest) []Report {
+	var results []Report
+
+	for _, tx := range block.TransactionsData.Transactions {
+		if req.Item.Match(tx) {
+			results = append(results, Report{
+				Transaction: tx,
+				BlockHash:   blockHash,
+				BlockHeight: block.Header.Height,
+				Request:     req,
+			})
 		}
 	}
 
-	return results, remainRequests, nil
+	return results
 }
 
 func isClosed(ch <-chan struct{}) bool {
-- 
2.43.0


From 7b4082e25226aef575859f77388f597787ea1311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 27/70] fix: the scanner does not spin while it waits for the
 next block

---
 pkg/scanner/scanner.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 951275a..0e8463e 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -27,6 +27,8 @@ const (
 
 	numOsScripts = 100
 
+	// pollInterval is the time between two checks for a new block
+	pollInterval = 100 * time.Millisecond
 	// retryInterval is the time to wait after a failure
 	retryInterval = time.Second
 )
@@ -204,15 +206,18 @@ func (s *scannerService) requestsManager(ch chan<- Report, quit <-chan struct{})
 			continue
 		}
 
+		// the requests that are left wait for the next block
+		pause := pollInterval
 		err := s.requestWorker(nextRequest.StartHeight, ch, quit)
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
-
 			// do not insist immediately on what just failed
-			select {
-			case <-quit:
-			case <-time.After(retryInterval):
-			}
+			pause = retryInterval
+		}
+
+		select {
+		case <-quit:
+		case <-time.After(pause):
 		}
 	}
 }
-- 
2.43.0


From a45076273caec7fb0366b127d8e2ac2eaddc747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 28/70] fix: refuse unsupported or malformed descriptors
 instead of panicking

---
 pkg/scanner/scanner.go | 60 +++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 0e8463e..e7c3849 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -137,54 +137,60 @@ func (s *scannerService) WatchDescriptorWallet(
 	eventType []EventType,
 	blockStart int,
 ) error {
+	if blockStart < 0 {
+		return fmt.Errorf("invalid start block: %d", blockStart)
+	}
+
 	for _, v := range eventType {
 		switch v {
 		case UnspentUtxo:
-			wallet, err := descriptor.Parse(desc)
+			scripts, err := descriptorScripts(desc)
 			if err != nil {
 				return err
 			}
 
-			var scripts []descriptor.ScriptResponse
-
-			if wallet.IsRange() {
-				scripts, err = wallet.Script(descriptor.WithRange(numOsScripts))
-				if err != nil {
-					return err
-				}
-
-				for _, v := range scripts {
-					s.Watch(
-						WithRequestID(requestID),
-						WithStartBlock(uint32(blockStart)),
-						WithWatchItem(&UnspentWatchItem{
-							outputScript: v.Script,
-						}),
-						WithPersistentWatch(),
-					)
-				}
-			} else {
-				scripts, err = wallet.Script(nil)
-				if err != nil {
-					return err
-				}
-
+			for _, v := range scripts {
 				s.Watch(
 					WithRequestID(requestID),
 					WithStartBlock(uint32(blockStart)),
 					WithWatchItem(&UnspentWatchItem{
-						outputScript: scripts[0].Script,
+						outputScript: v.Script,
 					}),
 					WithPersistentWatch(),
 				)
 			}
-
 		}
 	}
 
 	return nil
 }
 
+// descriptorScripts returns the scripts of a descriptor, the first numOsScripts
+// ones if it is a range
+func descriptorScripts(desc string) (scripts []descriptor.ScriptResponse, err error) {
+	defer func() {
+		// the parser panics on some malformed descriptors
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid descriptor: %v", r)
+		}
+	}()
+
+	wallet, err := descriptor.Parse(desc)
+	if err != nil {
+		return nil, err
+	}
+	// the parser knows some script expressions that it does not support yet
+	if wallet == nil {
+		return nil, fmt.Errorf("descriptor not supported: %s", desc)
+	}
+
+	if wallet.IsRange() {
+		return wallet.Script(descriptor.WithRange(numOsScripts))
+	}
+
+	return wallet.Script(nil)
+}
+
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
 func (s *scannerService) requestsManager(ch chan<- Report, quit <-chan struct{}) {
 	for {
-- 
2.43.0


From 3b2574cecd1eef0c7d17385c0a07971d103958c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 29/70] fix: a subscription of the notification service neither
 stops nor receives the other ones

---
 .../core/application/notification_service.go  | 121 +++++++++++-------
 1 file changed, 78 insertions(+), 43 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..12767d3 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -18,50 +19,47 @@ type NotificationService interface {
 }
 
 type notificationService struct {
-	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
-	subscribers map[SubscriberID]Subscriber
+	// subscriptions is a map of the IDs of the requests made to the scanner and
+	// the subscribers they have been made for
+	subscriptions map[uuid.UUID]Subscriber
+	// subscriptionsLock is a mutex for subscriptions map
+	subscriptionsLock sync.RWMutex
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
-	// registerSubs is a channel used to register subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel used to unregister subscribers
-	unregisterSubs chan Subscriber
+	// registerSubs is a channel used to register subscriptions
+	registerSubs chan uuid.UUID
 
 	// subsEventReport is a channel used to report events to subscribers
 	subsEventReport chan SubscriberEventReport
 	// subsErrorReport is a channel used to report errors to subscribers
 	subsErrorReport chan SubscriberErrorReport
 
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleOnChainEvents chan struct{}
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleSubscribers chan struct{}
+	// quit is closed to stop handleOnChainEvents and handleSubscribers
+	quit     chan struct{}
+	quitOnce sync.Once
 }
 
 func NewNotificationService(
 	scannerSvc scanner.Service,
 ) NotificationService {
 	return &notificationService{
-		subscribers:             make(map[SubscriberID]Subscriber),
-		scannerSvc:              scannerSvc,
-		registerSubs:            make(chan Subscriber),
-		unregisterSubs:          make(chan Subscriber),
-		subsEventReport:         make(chan SubscriberEventReport),
-		subsErrorReport:         make(chan SubscriberErrorReport),
-		quitHandleOnChainEvents: make(chan struct{}),
-		quitHandleSubscribers:   make(chan struct{}),
+		subscriptions:   make(map[uuid.UUID]Subscriber),
+		scannerSvc:      scannerSvc,
+		registerSubs:    make(chan uuid.UUID),
+		subsEventReport: make(chan SubscriberEventReport),
+		subsErrorReport: make(chan SubscriberErrorReport),
+		quit:            make(chan struct{}),
 	}
 }
 
 func (n *notificationService) Start() error {
-	go n.handleSubscribers()
-
 	scannerReport, err := n.scannerSvc.Start()
 	if err != nil {
 		return err
 	}
 
+	go n.handleSubscribers()
 	go n.handleOnChainEvents(scannerReport)
 
 	log.Debug("notification-service started")
@@ -77,10 +75,7 @@ func (n *notificationService) ErrorReport() chan SubscriberErrorReport {
 }
 
 func (n *notificationService) Stop() {
-	log.Debug("sss")
-	n.quitHandleOnChainEvents <- struct{}{}
-	n.quitHandleSubscribers <- struct{}{}
-	log.Debug("sssdsds")
+	n.quitOnce.Do(func() { close(n.quit) })
 }
 
 func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.Report) {
@@ -93,14 +88,23 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 	for {
 		select {
 		case report := <-scannerReport:
-			n.subsEventReport <- SubscriberEventReport{
-				SubscriberID: SubscriberID(report.Request.ClientID),
+			subscriber, ok := n.getSubscriptionSafe(report.Request.ClientID)
+			if !ok {
+				// un-subscribed in the meantime
+				continue
+			}
+
+			select {
+			case n.subsEventReport <- SubscriberEventReport{
+				SubscriberID: subscriber.ID,
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
 				Transaction:  report.Transaction,
+			}:
+			case <-n.quit:
 			}
-		case <-n.quitHandleOnChainEvents:
+		case <-n.quit:
 			log.Debug("notificationService -> handleOnChainEvents stopped")
 			return
 		}
@@ -117,25 +121,32 @@ func (n *notificationService) handleSubscribers() {
 
 	for {
 		select {
-		case sub := <-n.registerSubs:
-			n.subscribers[sub.ID] = sub
+		case id := <-n.registerSubs:
+			sub, ok := n.getSubscriptionSafe(id)
+			if !ok {
+				// un-subscribed in the meantime
+				continue
+			}
 
 			if err := n.scannerSvc.WatchDescriptorWallet(
-				uuid.UUID(sub.ID),
+				id,
 				sub.WalletDescriptor,
 				sub.Events,
 				sub.BlockHeight,
 			); err != nil {
-				n.subsErrorReport <- SubscriberErrorReport{
+				n.subscriptionsLock.Lock()
+				delete(n.subscriptions, id)
+				n.subscriptionsLock.Unlock()
+
+				select {
+				case n.subsErrorReport <- SubscriberErrorReport{
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
+				}:
+				case <-n.quit:
 				}
-
-				return
 			}
-		case sub := <-n.unregisterSubs:
-			delete(n.subscribers, sub.ID)
-		case <-n.quitHandleSubscribers:
+		case <-n.quit:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
 		}
@@ -149,22 +160,46 @@ func (n *notificationService) Subscribe(
 		return err
 	}
 
+	// a subscriber that comes back must not get the events of its former
+	// subscriptions: the scanner does not forget them
+	id := uuid.New()
+	n.subscriptionsLock.Lock()
+	n.subscriptions[id] = subscriber
+	n.subscriptionsLock.Unlock()
+
 	go func() {
-		n.registerSubs <- subscriber
+		select {
+		case n.registerSubs <- id:
+		case <-n.quit:
+		}
 	}()
 
 	return nil
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
-	if !ok {
-		return errors.New("subscriber not found")
+	n.subscriptionsLock.Lock()
+	defer n.subscriptionsLock.Unlock()
+
+	found := false
+	for id, sub := range n.subscriptions {
+		if sub.ID == subscriber.ID {
+			delete(n.subscriptions, id)
+			found = true
+		}
 	}
 
-	go func() {
-		n.unregisterSubs <- subscriber
-	}()
+	if !found {
+		return errors.New("subscriber not found")
+	}
 
 	return nil
 }
+
+func (n *notificationService) getSubscriptionSafe(id uuid.UUID) (Subscriber, bool) {
+	n.subscriptionsLock.RLock()
+	defer n.subscriptionsLock.RUnlock()
+
+	subscriber, ok := n.subscriptions[id]
+	return subscriber, ok
+}
-- 
2.43.0


From 3e6538450fc258974fd2966587aed3a3a6ff5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 30/70] fix: the notification handler survives early requests,
 gone subscribers and its own stop

---
 .../web-socket/handler/http_handler.go        | 11 +--
 .../handler/notification_handler.go           | 72 ++++++++-----------
 .../web-socket/handler/ws_handler.go          | 10 +--
 3 files changed, 41 insertions(+), 52 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..57a1ac6 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,13 +22,15 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
-		ID:          SubscriberID(subsID),
-		EndpointUrl: subscriptionReq.EndpointUrl,
-	}
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		subscriber := &HttpSubscriber{
+			ID:          SubscriberID(subsID),
+			EndpointUrl: subscriptionReq.EndpointUrl,
+		}
+		d.registerSubscriber(subscriber)
+
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
@@ -36,6 +38,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}); err != nil {
 			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
+			d.unregisterSubscriber(subscriber)
 
 			resp := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "un-successful registration",
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..786d203 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -10,7 +10,6 @@ import (
 	"net/http"
 	"runtime/debug"
 	"sync"
-	"time"
 )
 
 const (
@@ -32,15 +31,10 @@ type descriptorWalletNotifierHandler struct {
 	subscribers map[SubscriberID]Subscriber
 	// subscribersLock is a mutex for subscribers map
 	subscribersLock *sync.RWMutex
-	// registerSubs is a channel for registering subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel for unregistering subscribers
-	unregisterSubs chan Subscriber
-
-	// quit is a channel for stopping handleSubscribers
-	quitHandleSubscribers chan struct{}
-	// quit is a channel for stopping handleSubscribers
-	quitHandleOnChainNotifications chan struct{}
+
+	// quit is closed to stop handleOnChainNotifications
+	quit     chan struct{}
+	quitOnce sync.Once
 }
 
 type DescriptorWalletNotifierHandler interface {
@@ -54,49 +48,37 @@ func NewDescriptorWalletNotifierHandler(
 	notificationSvc application.NotificationService,
 ) DescriptorWalletNotifierHandler {
 	return &descriptorWalletNotifierHandler{
-		notificationSvc:                notificationSvc,
-		subscribers:                    make(map[SubscriberID]Subscriber),
-		subscribersLock:                new(sync.RWMutex),
-		registerSubs:                   make(chan Subscriber),
-		unregisterSubs:                 make(chan Subscriber),
-		quitHandleSubscribers:          make(chan struct{}),
-		quitHandleOnChainNotifications: make(chan struct{}),
+		notificationSvc: notificationSvc,
+		subscribers:     make(map[SubscriberID]Subscriber),
+		subscribersLock: new(sync.RWMutex),
+		quit:            make(chan struct{}),
 	}
 }
 
 func (d *descriptorWalletNotifierHandler) Start() {
 	go d.handleOnChainNotifications()
-	go d.handleSubscribers()
 }
 
 func (d *descriptorWalletNotifierHandler) Stop() {
-	d.quitHandleSubscribers <- struct{}{}
-	d.quitHandleOnChainNotifications <- struct{}{}
-	time.Sleep(time.Second) // wait for DescriptorWalletNotifierHandler to stop
+	d.quitOnce.Do(func() { close(d.quit) })
 
 	d.notificationSvc.Stop()
 }
 
-func (d *descriptorWalletNotifierHandler) handleSubscribers() {
-	for {
-		select {
-		case sub := <-d.registerSubs:
-			log.Debugf("subscriber: %v, registrated", uuid.UUID(sub.SubscriberID()).String())
-			d.addSubscriberSafe(sub)
-
-		case sub := <-d.unregisterSubs:
-			log.Infof("subscriber: %v, un-registered", uuid.UUID(sub.SubscriberID()).String())
-			d.deleteSubscriberSafe(sub.SubscriberID())
-			if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-				ID: application.SubscriberID(sub.SubscriberID()),
-			}); err != nil {
-				log.Errorf("failed unsubscribing from chain: %v", err.Error())
-			}
+// registerSubscriber makes the subscriber able to receive what it subscribes to
+func (d *descriptorWalletNotifierHandler) registerSubscriber(sub Subscriber) {
+	log.Debugf("subscriber: %v, registrated", uuid.UUID(sub.SubscriberID()).String())
+	d.addSubscriberSafe(sub)
+}
 
-		case <-d.quitHandleSubscribers:
-			log.Debugf("descriptorWalletNotifierHandler -> handleSubscribers stopped")
-			return
-		}
+// unregisterSubscriber forgets the subscriber, and whatever it subscribed to
+func (d *descriptorWalletNotifierHandler) unregisterSubscriber(sub Subscriber) {
+	log.Infof("subscriber: %v, un-registered", uuid.UUID(sub.SubscriberID()).String())
+	d.deleteSubscriberSafe(sub.SubscriberID())
+	if err := d.notificationSvc.UnSubscribe(application.Subscriber{
+		ID: application.SubscriberID(sub.SubscriberID()),
+	}); err != nil {
+		log.Debugf("failed unsubscribing from chain: %v", err.Error())
 	}
 }
 
@@ -111,6 +93,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
 			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
+			if subscriber == nil {
+				// gone in the meantime
+				continue
+			}
 
 			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
 			if err != nil {
@@ -159,6 +145,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			)
 
 			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
+			if subscriber == nil {
+				// gone in the meantime
+				continue
+			}
 
 			response := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: errReport.ErrorMsg.Error(),
@@ -192,7 +182,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 				}()
 			}
 
-		case <-d.quitHandleOnChainNotifications:
+		case <-d.quit:
 			log.Debugf("descriptorWalletNotifierHandler -> handleOnChainNotifications stopped")
 			return
 		}
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..729ebd0 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -39,10 +39,12 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
+	subscriber := &WsSubscriber{
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
+	d.registerSubscriber(subscriber)
+	defer d.unregisterSubscriber(subscriber)
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
@@ -62,10 +64,6 @@ msgloop:
 				log.Warnf("Error reading message: %v\n", err)
 			}
 
-			d.unregisterSubs <- &WsSubscriber{
-				ID: SubscriberID(subsID),
-			}
-
 			return
 		}
 
@@ -78,8 +76,6 @@ msgloop:
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
 		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
 		for _, v := range wsMsg.EventTypes {
 			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
-- 
2.43.0


From 53a9620806162e977ef58d0260b83cc317ab200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 31/70] fix: answer every subscription request exactly once

---
 .../web-socket/handler/http_handler.go        |  4 +++-
 .../web-socket/handler/ws_handler.go          | 23 +++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 57a1ac6..fb29931 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -44,6 +44,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 		log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -61,9 +62,10 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful un-registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 
-		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
+		log.Infof("sucesfull un-registration, subscriber: %v", subsID)
 
 		resp := neutrinodtypes.GeneralMessageResponse{
 			Message: "successful un-registration",
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 729ebd0..b78e3fe 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -71,7 +71,14 @@ msgloop:
 		wsMsg := &neutrinodtypes.SubscriptionRequestWs{}
 		if err = json.Unmarshal(message, wsMsg); err != nil {
 			log.Warn(err)
-			return
+
+			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
+
+			goto msgloop
 		}
 
 		log.Debugf("new message from subscriber: %v", subsID)
@@ -109,8 +116,9 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -130,11 +138,12 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 
-			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
+			log.Infof("sucesfull un-registration, subscriber: %v", subsID)
 
 			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
@@ -144,6 +153,12 @@ msgloop:
 			}
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
+
+			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
 		}
 	}
 }
-- 
2.43.0


From eae3531c88193906cf2112d1a0fe3590220a1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 32/70] fix: a ws subscriber that does not read delays nobody,
 and its messages are written one at a time

---
 .../handler/notification_handler.go           |  4 +-
 .../interface/web-socket/handler/types.go     | 67 +++++++++++++++++++
 .../web-socket/handler/ws_handler.go          | 35 ++++------
 3 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 786d203..b799a89 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -112,7 +112,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
@@ -157,7 +157,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..333db1c 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -3,6 +3,14 @@ package handler
 import (
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
+	log "github.com/sirupsen/logrus"
+	"sync"
+	"time"
+)
+
+const (
+	// writeTimeout is the time given to a ws subscriber to take a message
+	writeTimeout = 10 * time.Second
 )
 
 type SubscriberID uuid.UUID
@@ -17,6 +25,65 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+
+	// outgoing are the messages that wait for being written to WsConnection
+	outgoing     [][]byte
+	outgoingLock sync.Mutex
+	// outgoingReady wakes up writeMessages
+	outgoingReady chan struct{}
+	// closed is closed as soon as nothing has to be written anymore
+	closed chan struct{}
+}
+
+func NewWsSubscriber(id SubscriberID, conn *websocket.Conn) *WsSubscriber {
+	return &WsSubscriber{
+		ID:            id,
+		WsConnection:  conn,
+		outgoingReady: make(chan struct{}, 1),
+		closed:        make(chan struct{}),
+	}
+}
+
+// send adds a message to those to write, without waiting for the other side
+func (w *WsSubscriber) send(msg []byte) {
+	w.outgoingLock.Lock()
+	w.outgoing = append(w.outgoing, msg)
+	w.outgoingLock.Unlock()
+
+	select {
+	case w.outgoingReady <- struct{}{}:
+	default:
+	}
+}
+
+// writeMessages is the only writer of WsConnection, which does not support
+// concurrent ones
+func (w *WsSubscriber) writeMessages() {
+	for {
+		select {
+		case <-w.outgoingReady:
+		case <-w.closed:
+			return
+		}
+
+		w.outgoingLock.Lock()
+		messages := w.outgoing
+		w.outgoing = nil
+		w.outgoingLock.Unlock()
+
+		for _, msg := range messages {
+			err := w.WsConnection.SetWriteDeadline(time.Now().Add(writeTimeout))
+			if err == nil {
+				err = w.WsConnection.WriteMessage(websocket.TextMessage, msg)
+			}
+			if err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+				// makes the reader unregister the subscriber
+				w.WsConnection.Close()
+				return
+			}
+		}
+	}
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index b78e3fe..94836e1 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -39,10 +39,10 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	subscriber := &WsSubscriber{
-		ID:           SubscriberID(subsID),
-		WsConnection: conn,
-	}
+	subscriber := NewWsSubscriber(SubscriberID(subsID), conn)
+	go subscriber.writeMessages()
+	defer close(subscriber.closed)
+
 	d.registerSubscriber(subscriber)
 	defer d.unregisterSubscriber(subscriber)
 
@@ -72,7 +72,7 @@ msgloop:
 		if err = json.Unmarshal(message, wsMsg); err != nil {
 			log.Warn(err)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "bad request",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -89,7 +89,7 @@ msgloop:
 			if err != nil {
 				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: "irregular event type",
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -112,7 +112,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -122,7 +122,7 @@ msgloop:
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -134,7 +134,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -145,7 +145,7 @@ msgloop:
 
 			log.Infof("sucesfull un-registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -154,7 +154,7 @@ msgloop:
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "bad request",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -167,24 +167,15 @@ func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
-	defer func() {
-		if err := recover(); err != nil {
-			log.Errorf("sendResponseToSubscriberWs recovered from panic: %v", err)
-			log.Tracef("sendResponseToSubscriberWs recovered from panic: %v", string(debug.Stack()))
-		}
-	}()
-
 	r, err := json.Marshal(resp)
 	if err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
-	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
-		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
-	}
+	subscriber.send(r)
 
 	return nil
 }
-- 
2.43.0


From 2f03d85d3bbed0c1eea15c121df3d3dc07fb67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 33/70] fix: close the ws connections when the notification
 handler stops

---
 .../interface/web-socket/handler/notification_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index b799a89..c502d95 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -63,6 +63,15 @@ func (d *descriptorWalletNotifierHandler) Stop() {
 	d.quitOnce.Do(func() { close(d.quit) })
 
 	d.notificationSvc.Stop()
+
+	// shutting down the http server does not care about ws connections
+	d.subscribersLock.RLock()
+	defer d.subscribersLock.RUnlock()
+	for _, sub := range d.subscribers {
+		if wsSubscriber, ok := sub.(*WsSubscriber); ok {
+			wsSubscriber.WsConnection.Close()
+		}
+	}
 }
 
 // registerSubscriber makes the subscriber able to receive what it subscribes to
-- 
2.43.0


From c3e9e9954ee532dc2ec93755ded9881f4eb3aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 34/70] fix: accept http subscriptions with event types as
 documented

---
 pkg/neutrinod-types/types_http.go | 47 ++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/pkg/neutrinod-types/types_http.go b/pkg/neutrinod-types/types_http.go
index 056de09..f4206ef 100644
--- a/pkg/neutrinod-types/types_http.go
+++ b/pkg/neutrinod-types/types_http.go
@@ -1,6 +1,10 @@
 package neutrinodtypes
 
-import "github.com/vulpemventures/neutrino-elements/pkg/scanner"
+import (
+	"encoding/json"
+
+	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
+)
 
 type SubscriptionRequestHttp struct {
 	ActionType       ActionType          `json:"actionType"`
@@ -9,3 +13,44 @@ type SubscriptionRequestHttp struct {
 	StartBlockHeight int                 `json:"startBlockHeight"`
 	EndpointUrl      string              `json:"endpointUrl"`
 }
+
+// UnmarshalJSON accepts event types by name, as documented and as web-socket
+// requests do, besides by the number they are marshaled to
+func (s *SubscriptionRequestHttp) UnmarshalJSON(data []byte) error {
+	type request SubscriptionRequestHttp
+	req := struct {
+		*request
+		EventTypes []json.RawMessage `json:"eventTypes"`
+	}{request: (*request)(s)}
+
+	if err := json.Unmarshal(data, &req); err != nil {
+		return err
+	}
+
+	s.EventTypes = make([]scanner.EventType, 0, len(req.EventTypes))
+	for _, raw := range req.EventTypes {
+		var name EventType
+		if err := json.Unmarshal(raw, &name); err == nil {
+			eventType, err := FromNeutrinodTypeToScannerEventType(name)
+			if err != nil {
+				return err
+			}
+
+			s.EventTypes = append(s.EventTypes, eventType)
+			continue
+		}
+
+		var eventType scanner.EventType
+		if err := json.Unmarshal(raw, &eventType); err != nil {
+			return err
+		}
+
+		if _, err := FromScannerEventTypeToNeutrinodType(eventType); err != nil {
+			return err
+		}
+
+		s.EventTypes = append(s.EventTypes, eventType)
+	}
+
+	return nil
+}
-- 
2.43.0


From 7eb282e170d02c7f6ec8d1d3567bef87a186283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 35/70] fix: un-register the webhook of an http subscription

---
 .../web-socket/handler/http_handler.go        | 21 ++++++++++++-------
 .../handler/notification_handler.go           | 18 ++++++++++++++++
 .../interface/web-socket/handler/types.go     |  5 +++--
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index fb29931..6205adf 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -26,8 +26,9 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
 		subscriber := &HttpSubscriber{
-			ID:          SubscriberID(subsID),
-			EndpointUrl: subscriptionReq.EndpointUrl,
+			ID:               SubscriberID(subsID),
+			EndpointUrl:      subscriptionReq.EndpointUrl,
+			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}
 		d.registerSubscriber(subscriber)
 
@@ -53,10 +54,14 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 		}
 		sendResponseToSubscriberHttp(w, resp)
 	case neutrinodtypes.Unregister:
-		if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-			ID: application.SubscriberID(subsID),
-		}); err != nil {
-			log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
+		// a request is a subscriber of its own: what identifies the one to
+		// un-register is the webhook
+		subscribers := d.getHttpSubscribersSafe(
+			subscriptionReq.EndpointUrl,
+			subscriptionReq.DescriptorWallet,
+		)
+		if len(subscribers) == 0 {
+			log.Errorf("unsucesfull un-registration, no subscriber: %v", subscriptionReq.EndpointUrl)
 
 			resp := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "un-successful un-registration",
@@ -65,7 +70,9 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			return
 		}
 
-		log.Infof("sucesfull un-registration, subscriber: %v", subsID)
+		for _, subscriber := range subscribers {
+			d.unregisterSubscriber(subscriber)
+		}
 
 		resp := neutrinodtypes.GeneralMessageResponse{
 			Message: "successful un-registration",
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index c502d95..1c0980a 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -205,6 +205,24 @@ func (d *descriptorWalletNotifierHandler) getSubscriberSafe(subscriberID Subscri
 	return d.subscribers[subscriberID]
 }
 
+func (d *descriptorWalletNotifierHandler) getHttpSubscribersSafe(
+	endpointUrl, walletDescriptor string,
+) []*HttpSubscriber {
+	d.subscribersLock.RLock()
+	defer d.subscribersLock.RUnlock()
+
+	var subscribers []*HttpSubscriber
+	for _, sub := range d.subscribers {
+		httpSubscriber, ok := sub.(*HttpSubscriber)
+		if ok && httpSubscriber.EndpointUrl == endpointUrl &&
+			httpSubscriber.WalletDescriptor == walletDescriptor {
+			subscribers = append(subscribers, httpSubscriber)
+		}
+	}
+
+	return subscribers
+}
+
 func (d *descriptorWalletNotifierHandler) addSubscriberSafe(subscriber Subscriber) {
 	d.subscribersLock.Lock()
 	defer d.subscribersLock.Unlock()
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index 333db1c..5a6f835 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -95,8 +95,9 @@ func (w *WsSubscriber) SubscriberID() SubscriberID {
 }
 
 type HttpSubscriber struct {
-	ID          SubscriberID
-	EndpointUrl string
+	ID               SubscriberID
+	EndpointUrl      string
+	WalletDescriptor string
 }
 
 func (h *HttpSubscriber) Type() SubscriberType {
-- 
2.43.0


From d2726d7395d16e3e3c98c20eb1ae186b327d466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 36/70] fix: the daemon reports a failed start, can be stopped
 while it syncs, and scans the network it is configured for

---
 internal/interface/web-socket/server.go | 35 ++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f35dd11..0a31a55 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -49,18 +49,28 @@ func NewElementsNeutrinoServer(
 }
 
 func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-chan error {
-	errC := make(chan error, 1)
+	// nobody may be reading yet, and the shutdown must not wait for it
+	errC := make(chan error, 4)
 
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
-	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
+	if err := n.startNode(ctx); err != nil {
+		if ctx.Err() != nil {
+			log.Info("neutrinod: shutdown signal received while syncing")
+			stop()
+			close(errC)
+			return errC
+		}
+
 		errC <- err
+		return errC
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
-	genesisBlockHashStr := protocol.GetCheckpoints(protocol.MagicRegtest)[0]
+	genesisBlockHashStr := protocol.GetCheckpoints(protocol.Networks[n.nodeCfg.Network])[0]
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
+		return errC
 	}
 
 	scannerSvc := scanner.New(
@@ -74,6 +84,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	if err := notificationSvc.Start(); err != nil {
 		errC <- err
+		return errC
 	}
 
 	descriptorWalletNotifierSvc := handler.NewDescriptorWalletNotifierHandler(notificationSvc)
@@ -144,3 +155,21 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	return errC
 }
+
+// startNode starts the node, and stops it if the context is done before it is synced
+func (n *NeutrinoServer) startNode(ctx context.Context) error {
+	started := make(chan struct{})
+	defer close(started)
+
+	go func() {
+		select {
+		case <-ctx.Done():
+			if err := n.nodeSvc.Stop(); err != nil {
+				log.Errorf("neutrinod: failed to stop node: %v", err)
+			}
+		case <-started:
+		}
+	}()
+
+	return n.nodeSvc.Start(n.peerUrl)
+}
-- 
2.43.0


From a59d6b9c03bba6b3b098d8aaa112070cf2bd294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 37/70] fix: do not leave open the connection to a peer with an
 unsupported address

---
 pkg/peer/peer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index b8a58f3..0ab34a8 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,12 +35,12 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := dial(peerAddr)
+	netAddress, err := protocol.ParseNodeAddr(peerAddr)
 	if err != nil {
 		return nil, err
 	}
 
-	netAddress, err := protocol.ParseNodeAddr(peerAddr)
+	conn, err := dial(peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f18d21c4175a31366ee75142b35bb1a780b3a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 38/70] fix: refuse a block that is not the one asked for

---
 pkg/blockservice/service.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/blockservice/service.go b/pkg/blockservice/service.go
index 1271bc7..887edca 100644
--- a/pkg/blockservice/service.go
+++ b/pkg/blockservice/service.go
@@ -67,5 +67,13 @@ func (b *esploraBlockService) GetBlock(hash *chainhash.Hash) (*block.Block, erro
 		return nil, err
 	}
 
+	blockHash, err := block.Header.Hash()
+	if err != nil {
+		return nil, err
+	}
+	if !blockHash.IsEqual(hash) {
+		return nil, fmt.Errorf("getBlock asked for block %v, got %v", hash, blockHash)
+	}
+
 	return block, nil
 }
-- 
2.43.0


From 45b543a34d410fc301bd5dba643b4e976c2f899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 39/70] fix: confirm the transactions of a block whose header
 is known already

---
 pkg/node/cmd_block.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 99b91e4..e500797 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -21,6 +21,10 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
+	// what the block confirms does not depend on the headers synced so far, its
+	// own one may have been received in a headers message already
+	n.memPool.CheckTxConfirmed(msgBlock.Block)
+
 	tip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		if err == repository.ErrNoBlocksHeaders {
@@ -53,7 +57,6 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	case <-n.quit:
 		return nil
 	}
-	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
 }
-- 
2.43.0


From 8b3ab46b8be8a5bfeadbdff37291ee72c9436386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 40/70] fix: a header that can't be written leaves no gap
 behind it

---
 pkg/node/node.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index a02f7fc..b120017 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -13,6 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 	"io"
+	"math"
 	"runtime/debug"
 	"sync"
 )
@@ -418,16 +419,28 @@ func (n *node) disconnectPeer(peerID peer.PeerID) {
 
 // monitorBlockHeaders monitors new block headers coming from peers.
 func (n *node) monitorBlockHeaders() {
+	// missing is the height of the header that could not be written, if any: the
+	// next ones would leave a gap, they are asked again from the chain tip
+	missing := uint32(math.MaxUint32)
+
 	for {
 		select {
 		case <-n.quit:
 			return
 		case newHeader := <-n.blockHeadersCh:
+			if newHeader.Height > missing {
+				continue
+			}
+
 			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
+				missing = newHeader.Height
 				continue
 			}
+			if newHeader.Height == missing {
+				missing = math.MaxUint32
+			}
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-- 
2.43.0


From 05c2787199c5eeebece51c6c5fd398f2781a43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 41/70] fix: refuse a block whose transactions are not those
 its header commits to

---
 pkg/blockservice/service.go | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/pkg/blockservice/service.go b/pkg/blockservice/service.go
index 887edca..c5a44ba 100644
--- a/pkg/blockservice/service.go
+++ b/pkg/blockservice/service.go
@@ -74,6 +74,44 @@ func (b *esploraBlockService) GetBlock(hash *chainhash.Hash) (*block.Block, erro
 	if !blockHash.IsEqual(hash) {
 		return nil, fmt.Errorf("getBlock asked for block %v, got %v", hash, blockHash)
 	}
+	if err := checkTransactions(block); err != nil {
+		return nil, fmt.Errorf("getBlock block %v: %w", hash, err)
+	}
 
 	return block, nil
 }
+
+// checkTransactions returns an error if the transactions of the block are not those its header commits to.
+func checkTransactions(b *block.Block) error {
+	level := make([]chainhash.Hash, 0, len(b.TransactionsData.Transactions))
+	for _, tx := range b.TransactionsData.Transactions {
+		level = append(level, tx.TxHash())
+	}
+
+	var root chainhash.Hash
+	for len(level) > 0 {
+		if len(level) == 1 {
+			root = level[0]
+			break
+		}
+
+		next := make([]chainhash.Hash, 0, (len(level)+1)/2)
+		for i := 0; i < len(level); i += 2 {
+			right := i // the last hash of an odd level is paired with itself
+			if i+1 < len(level) {
+				right = i + 1
+				// a list of transactions with repeated ones may have the root of the list without them
+				if level[i] == level[right] {
+					return fmt.Errorf("repeated transactions")
+				}
+			}
+			next = append(next, chainhash.DoubleHashH(append(level[i].CloneBytes(), level[right][:]...)))
+		}
+		level = next
+	}
+
+	if !bytes.Equal(root[:], b.Header.MerkleRoot) {
+		return fmt.Errorf("transactions do not match the merkle root")
+	}
+	return nil
+}
-- 
2.43.0


From d9de841231974e47cf5a6912b5a7ce392b31dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 42/70] fix: do not discard the saved settings when they cannot
 be read

---
 cmd/neutrino/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 76a2b24..9dc23ea 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -72,7 +72,11 @@ func getState() (map[string]string, error) {
 	if err != nil {
 		return nil, errors.New("get config state error: try 'config cmd'")
 	}
-	json.Unmarshal(file, &data)
+	if len(file) > 0 { // the file is empty until the first setting is saved
+		if err := json.Unmarshal(file, &data); err != nil {
+			return nil, fmt.Errorf("config state %s is damaged: %w", statePath, err)
+		}
+	}
 
 	return data, nil
 }
-- 
2.43.0


From e37679ac3af66b8e9439e239f9948072b1581422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 43/70] fix: a transaction is in the mem-pool before the block
 that confirms it is handled

---
 pkg/node/mempool.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 46ca334..c7dd3ee 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -125,6 +125,25 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
+	select {
+	case <-m.quitChan:
+		return
+	default:
+	}
+
+	// the tx is in the memPool before the next message is handled, which may be
+	// the block that confirms it
+	added := m.addTx(
+		tx.HashStr(),
+		txData{
+			tx:           tx.Transaction,
+			timeReceived: time.Now(),
+		},
+	)
+	if !added {
+		return
+	}
+
 	select {
 	case m.txChan <- tx:
 	case <-m.quitChan:
@@ -204,17 +223,6 @@ func (m *MemPool) listenForNewTxs() {
 			return
 		}
 
-		added := m.addTx(
-			tx.HashStr(),
-			txData{
-				tx:           tx.Transaction,
-				timeReceived: time.Now(),
-			},
-		)
-		if !added {
-			continue
-		}
-
 		m.notifySubscribers(TxUnConfirmedEvent{
 			txID: tx.HashStr(),
 			tx:   tx.Transaction,
-- 
2.43.0


From eaf13db9b45bb895edceb8040ac07e27d7818dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 44/70] fix: no gap in the headers when several peers send them
 while a write fails

---
 pkg/node/node.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index b120017..91de45e 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -13,7 +13,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 	"io"
-	"math"
 	"runtime/debug"
 	"sync"
 )
@@ -419,27 +418,40 @@ func (n *node) disconnectPeer(peerID peer.PeerID) {
 
 // monitorBlockHeaders monitors new block headers coming from peers.
 func (n *node) monitorBlockHeaders() {
-	// missing is the height of the header that could not be written, if any: the
-	// next ones would leave a gap, they are asked again from the chain tip
-	missing := uint32(math.MaxUint32)
+	// highest is the height of the highest header written, -1 until it is known
+	highest := int64(-1)
 
 	for {
 		select {
 		case <-n.quit:
 			return
 		case newHeader := <-n.blockHeadersCh:
-			if newHeader.Height > missing {
+			if highest < 0 {
+				tip, err := n.blockHeadersDb.ChainTip(context.Background())
+				switch err {
+				case nil:
+					highest = int64(tip.Height)
+				case repository.ErrNoBlocksHeaders:
+					highest = 0
+				default:
+					logrus.Error(err)
+					continue
+				}
+			}
+
+			// a header before this one could not be written, whichever peer it
+			// was from: they are asked again from the chain tip
+			if int64(newHeader.Height) > highest+1 {
 				continue
 			}
 
 			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
-				missing = newHeader.Height
 				continue
 			}
-			if newHeader.Height == missing {
-				missing = math.MaxUint32
+			if int64(newHeader.Height) > highest {
+				highest = int64(newHeader.Height)
 			}
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
-- 
2.43.0


From 53d9314a5b2579a5db764835e73c098ddf7baa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 45/70] fix: ask for the next headers only when the last ones
 are written

---
 pkg/node/cmd_headers.go | 8 ++++++++
 pkg/node/node.go        | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 8770cfd..643e847 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -83,6 +83,14 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) err
 			}
 		}
 
+		//the next portion is asked for from the last header of this one, it has
+		//to be written before
+		select {
+		case <-n.headersDoneCh:
+		case <-n.quit:
+			return nil
+		}
+
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
 		log.Debugf("node: peers tip: %v", p.PeersTip())
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 91de45e..31e6476 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -49,8 +49,10 @@ type node struct {
 
 	compactFiltersCh chan protocol.MsgCFilter
 	blockHeadersCh   chan block.Header
-	filtersDb        repository.FilterRepository
-	blockHeadersDb   repository.BlockHeaderRepository
+	//headersDoneCh can be received from when the headers sent so far are handled
+	headersDoneCh  chan struct{}
+	filtersDb      repository.FilterRepository
+	blockHeadersDb repository.BlockHeaderRepository
 
 	memPool MemPool
 
@@ -88,6 +90,7 @@ func New(config NodeConfig) (NodeService, error) {
 
 		compactFiltersCh: make(chan protocol.MsgCFilter),
 		blockHeadersCh:   make(chan block.Header),
+		headersDoneCh:    make(chan struct{}),
 		filtersDb:        config.FiltersDB,
 		blockHeadersDb:   config.BlockHeadersDB,
 		memPool:          NewMemPool(),
@@ -425,6 +428,7 @@ func (n *node) monitorBlockHeaders() {
 		select {
 		case <-n.quit:
 			return
+		case n.headersDoneCh <- struct{}{}:
 		case newHeader := <-n.blockHeadersCh:
 			if highest < 0 {
 				tip, err := n.blockHeadersDb.ChainTip(context.Background())
-- 
2.43.0


From 62cf5b6572bbe885478fcec24dc31d023bc92d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 46/70] fix: a start does not succeed before the peer has told
 its height

---
 pkg/node/chainsync.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 2b0880d..99d9603 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -93,12 +93,18 @@ func (n *node) syncWithPeer(peerID peer.PeerID) error {
 }
 
 func (n *node) checkSyncedInitial(p peer.Peer) {
+	// the height to sync to is only known once the peer has sent its version
+	tipKnown := false
+
 	for {
 		log.Debug("node: checkSynced")
-		isSynced, _ := n.synced(p)
-		if isSynced {
-			n.notifySynced()
-			return
+		tipKnown = tipKnown || p.PeersTip() > 0 || n.getPeer(p.ID()) != nil
+		if tipKnown {
+			isSynced, _ := n.synced(p)
+			if isSynced {
+				n.notifySynced()
+				return
+			}
 		}
 
 		select {
-- 
2.43.0


From af61b2d91f38604fa5eeebb720bb0497eca05893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 47/70] fix: go on syncing when a portion of headers is known
 already

---
 pkg/node/cmd_headers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 643e847..371c095 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -56,6 +56,10 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) err
 	}
 
 	if lastHeaderBlockHeight <= tip.Height {
+		//new blocks may have brought these headers already, the peer has more
+		if tip.Height < p.PeersTip() {
+			n.sync(p)
+		}
 		return nil
 	}
 
-- 
2.43.0


From 2ac2cb56557892b436c5dca088d341b8546a95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 48/70] fix: sync till the last header announced, as for blocks

---
 pkg/node/cmd_headers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 371c095..1c7e91d 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -51,6 +51,10 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) err
 	firstHeaderBlockHeight := headers.Headers[0].Height
 	lastHeaderBlockHeight := headers.Headers[len(headers.Headers)-1].Height
 	if firstHeaderBlockHeight > tip.Height+1 {
+		//the same as for a new block: sync till the last one announced
+		if lastHeaderBlockHeight > p.PeersTip() {
+			p.SetPeersTip(lastHeaderBlockHeight)
+		}
 		n.sync(p)
 		return nil
 	}
-- 
2.43.0


From 2938a2c61bdb6b8cb54492aec00cd99200626fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 49/70] fix: a pong counts for the peer that sent it only

---
 pkg/node/cmd_pong.go    | 5 ++++-
 pkg/node/handle_ping.go | 6 ++++--
 pkg/node/node.go        | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index c5454c2..611e869 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -19,7 +19,10 @@ func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 	}
 
 	select {
-	case n.pongsCh <- pong.Nonce:
+	case n.pongsCh <- peerPing{
+		nonce:  pong.Nonce,
+		peerID: p.ID(),
+	}:
 	case <-n.quit:
 	}
 
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 334af01..5559f45 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -42,9 +42,11 @@ func (n *node) monitorPeers() {
 		select {
 		case <-n.quit:
 			return
-		case nonce := <-n.pongsCh:
+		case pong := <-n.pongsCh:
+			nonce := pong.nonce
 			peerID := peerPings[nonce]
-			if peerID == "" {
+			// only the pinged peer can answer its ping
+			if peerID == "" || peerID != pong.peerID {
 				break
 			}
 			n.peersMutex.RLock()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 31e6476..a9c080b 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -39,7 +39,7 @@ type node struct {
 	Network     protocol.Magic
 	Peers       map[peer.PeerID]peer.Peer
 	pingsCh     chan peerPing
-	pongsCh     chan uint64
+	pongsCh     chan peerPing
 	peersPongCh map[peer.PeerID]chan uint64
 	//peersMutex synchronizes access to Peers and peersPongCh
 	peersMutex sync.RWMutex
@@ -83,7 +83,7 @@ func New(config NodeConfig) (NodeService, error) {
 		Network:     networkMagic,
 		Peers:       make(map[peer.PeerID]peer.Peer),
 		pingsCh:     make(chan peerPing),
-		pongsCh:     make(chan uint64),
+		pongsCh:     make(chan peerPing),
 		peersPongCh: make(map[peer.PeerID]chan uint64),
 		DisconCh:    make(chan peer.PeerID),
 		UserAgent:   config.UserAgent,
-- 
2.43.0


From 4e8e3c75273028437de2d08d7eba92faf0c3ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 50/70] fix: a header whose write reported a failure may be
 written, read the tip again

---
 pkg/node/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index a9c080b..0885d8a 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -452,6 +452,8 @@ func (n *node) monitorBlockHeaders() {
 			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
+				// it may have been written all the same
+				highest = -1
 				continue
 			}
 			if int64(newHeader.Height) > highest {
-- 
2.43.0


From 7f309d09e1cb7948dfbb9aa9ba4dac9c462dbf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 51/70] fix: a string that is not exactly a transaction is not
 sent as another one

---
 pkg/protocol/msg_tx.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index ae27c60..b0d7a5f 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -2,9 +2,12 @@ package protocol
 
 import (
 	"crypto/sha256"
+	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"sort"
+	"strings"
 
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -15,12 +18,21 @@ type MsgTx struct {
 	transaction.Transaction
 }
 
-func NewMsgTxFromHex(hex string) (MsgTx, error) {
-	tx, err := transaction.NewTxFromHex(hex)
+func NewMsgTxFromHex(txHex string) (MsgTx, error) {
+	tx, err := transaction.NewTxFromHex(txHex)
 	if err != nil {
 		return MsgTx{}, err
 	}
 
+	// a string that is cut short or goes on after the transaction is none
+	serialized, err := tx.Serialize()
+	if err != nil {
+		return MsgTx{}, err
+	}
+	if !strings.EqualFold(hex.EncodeToString(serialized), txHex) {
+		return MsgTx{}, errors.New("not exactly a transaction")
+	}
+
 	return MsgTx{*tx}, nil
 }
 
-- 
2.43.0


From a827fda644094ef4a79420054ca394980a771848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 52/70] fix: close the connection of a peer that is lost before
 the handshake

---
 pkg/node/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0885d8a..76a3d0c 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -135,6 +135,7 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	err = n.AddOutboundPeer(initialPeer)
 	if err != nil {
+		initialPeer.Connection().Close()
 		return err
 	}
 
@@ -229,6 +230,8 @@ Loop:
 		nn, err := io.ReadFull(conn, tmp)
 		if err != nil {
 			logrus.Errorf(err.Error())
+			// also if the peer is lost before the node knows it
+			conn.Close()
 			n.notifyDisconnected(p.ID())
 			break Loop
 		}
-- 
2.43.0


From 1e1f0e9acd7c9da83c2ee8334efa9308b95f9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 53/70] fix: the key of a filter leaves the caller's buffer
 alone

---
 pkg/repository/filter_repository.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/repository/filter_repository.go b/pkg/repository/filter_repository.go
index e132e10..8ed7572 100644
--- a/pkg/repository/filter_repository.go
+++ b/pkg/repository/filter_repository.go
@@ -53,6 +53,11 @@ type FilterKey struct {
 }
 
 func (k FilterKey) String() string {
-	hashedKey := btcutil.Hash160(append(k.BlockHash, byte(k.FilterType)))
+	// the block hash may be part of a larger buffer: it must not be appended to
+	preimage := make([]byte, 0, len(k.BlockHash)+1)
+	preimage = append(preimage, k.BlockHash...)
+	preimage = append(preimage, byte(k.FilterType))
+
+	hashedKey := btcutil.Hash160(preimage)
 	return hex.EncodeToString(hashedKey[:6])
 }
-- 
2.43.0


From 80e77f67b6b5b757ea0f85360fbb38d68a4843a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 54/70] fix: stop reporting once the scanner is stopped, and do
 not repeat reports after a restart

---
 pkg/scanner/request.go |  2 ++
 pkg/scanner/scanner.go | 31 +++++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/scanner/request.go b/pkg/scanner/request.go
index 820b6fe..a83b78e 100644
--- a/pkg/scanner/request.go
+++ b/pkg/scanner/request.go
@@ -11,6 +11,8 @@ type ScanRequest struct {
 	Item WatchItem
 	// IsPersistent if true, the request will be re-added with StartHeight = StartHeiht + 1
 	IsPersistent bool
+	// reported is how many matches of the block at StartHeight are already reported
+	reported int
 }
 
 type ScanRequestOption func(req *ScanRequest)
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index e7c3849..1397f9d 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -332,18 +332,22 @@ func (s *scannerService) scanBlock(
 	for i, req := range requests {
 		reports := extractMatches(block, blockHash, req)
 
-		for _, report := range reports {
+		// the scanner may have been stopped after it has sent some of them
+		for sent := req.reported; sent < len(reports); sent++ {
 			// send the report to the output channel
-			select {
-			case reportsChan <- report:
-			case <-quit:
-				return remainReqs, requests[i:], nil
+			if !sendReport(reports[sent], reportsChan, quit) {
+				interrupted := *req
+				interrupted.reported = sent
+				failedReqs = append(failedReqs, &interrupted)
+				return remainReqs, append(failedReqs, requests[i+1:]...), nil
 			}
 		}
 
 		// if the request is persistent, the scanner will keep watching the item at the next block height
 		if len(reports) == 0 || req.IsPersistent {
-			remainReqs = append(remainReqs, req)
+			next := *req
+			next.reported = 0
+			remainReqs = append(remainReqs, &next)
 		}
 	}
 
@@ -402,6 +406,21 @@ func extractMatches(block *block.Block, blockHash *chainhash.Hash, req *ScanRequ
 	return results
 }
 
+// sendReport returns false if the report is not sent because of quit
+func sendReport(report Report, reportsChan chan<- Report, quit <-chan struct{}) bool {
+	// nothing is sent after quit, even if the receiver is ready
+	if isClosed(quit) {
+		return false
+	}
+
+	select {
+	case reportsChan <- report:
+		return true
+	case <-quit:
+		return false
+	}
+}
+
 func isClosed(ch <-chan struct{}) bool {
 	select {
 	case <-ch:
-- 
2.43.0


From 5e5952af117e379534e76a33150a77897a7f7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 55/70] fix: refuse a bad descriptor or start block whatever
 the events, and watch each event once

---
 pkg/scanner/scanner.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1397f9d..cbc7682 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -3,6 +3,7 @@ package scanner
 import (
 	"context"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -137,18 +138,24 @@ func (s *scannerService) WatchDescriptorWallet(
 	eventType []EventType,
 	blockStart int,
 ) error {
-	if blockStart < 0 {
+	if blockStart < 0 || int64(blockStart) > math.MaxUint32 {
 		return fmt.Errorf("invalid start block: %d", blockStart)
 	}
 
+	scripts, err := descriptorScripts(desc)
+	if err != nil {
+		return err
+	}
+
+	watched := make(map[EventType]bool)
 	for _, v := range eventType {
+		if watched[v] {
+			continue
+		}
+		watched[v] = true
+
 		switch v {
 		case UnspentUtxo:
-			scripts, err := descriptorScripts(desc)
-			if err != nil {
-				return err
-			}
-
 			for _, v := range scripts {
 				s.Watch(
 					WithRequestID(requestID),
-- 
2.43.0


From b70cc9106993a3b495509df7df032452c5f5bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 56/70] fix: accept descriptors in the documented form

---
 pkg/scanner/scanner.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index cbc7682..62788dc 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"math"
+	"strings"
 	"sync"
 	"time"
 
@@ -182,6 +183,12 @@ func descriptorScripts(desc string) (scripts []descriptor.ScriptResponse, err er
 		}
 	}()
 
+	// the parser only knows the names specific to elements
+	desc = strings.TrimSpace(desc)
+	if strings.HasPrefix(desc, "wpkh(") {
+		desc = "el" + desc
+	}
+
 	wallet, err := descriptor.Parse(desc)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7cb53aec088e4855eba2091a1a8ad0e209763500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 57/70] fix: refuse an http subscription followed by something
 else

---
 internal/interface/web-socket/handler/http_handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 6205adf..e981230 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
 	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
+	"io"
 	"net/http"
 )
 
@@ -15,7 +16,10 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 ) {
 	var subscriptionReq neutrinodtypes.SubscriptionRequestHttp
 
-	err := json.NewDecoder(req.Body).Decode(&subscriptionReq)
+	body, err := io.ReadAll(req.Body)
+	if err == nil {
+		err = json.Unmarshal(body, &subscriptionReq)
+	}
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
 		return
-- 
2.43.0


From 194bb1f11fe960b304ffccc9fce66acf2c220232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 58/70] fix: refuse a webhook that is no http url

---
 .../web-socket/handler/http_handler.go        | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index e981230..a42a0ab 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -2,12 +2,14 @@ package handler
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
 	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
 	"io"
 	"net/http"
+	"net/url"
 )
 
 func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
@@ -29,6 +31,16 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		if err := validateEndpointUrl(subscriptionReq.EndpointUrl); err != nil {
+			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
+
+			resp := neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "un-successful registration",
+			}
+			sendResponseToSubscriberHttp(w, resp)
+			return
+		}
+
 		subscriber := &HttpSubscriber{
 			ID:               SubscriberID(subsID),
 			EndpointUrl:      subscriptionReq.EndpointUrl,
@@ -94,6 +106,20 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	log.Debugf("new ws subscriber connected: %v", subsID)
 }
 
+// validateEndpointUrl checks if events can be posted to the given url
+func validateEndpointUrl(endpointUrl string) error {
+	u, err := url.Parse(endpointUrl)
+	if err != nil {
+		return err
+	}
+
+	if (u.Scheme != "http" && u.Scheme != "https") || u.Hostname() == "" {
+		return fmt.Errorf("invalid endpoint url: %q", endpointUrl)
+	}
+
+	return nil
+}
+
 func sendResponseToSubscriberHttp[
 V neutrinodtypes.MessageErrorResponse |
 neutrinodtypes.OnChainEventResponse |
-- 
2.43.0


From fdaaab914973235f3acb555ee75588248bd390f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 59/70] fix: give up on a webhook that does not answer

---
 .../interface/web-socket/handler/notification_handler.go   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 1c0980a..859b540 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -22,6 +22,9 @@ const (
 var (
 	newline = []byte{'\n'}
 	space   = []byte{' '}
+
+	// webhookClient does not wait forever for a webhook
+	webhookClient = &http.Client{Timeout: writeTimeout}
 )
 
 type descriptorWalletNotifierHandler struct {
@@ -133,7 +136,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 						log.Errorf("handleOnChainNotifications -> %v", err)
 					}
 
-					resp, err := http.Post(
+					resp, err := webhookClient.Post(
 						httpSubscriber.EndpointUrl,
 						"application/json",
 						bytes.NewBuffer(respJson),
@@ -178,7 +181,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 						log.Errorf("handleOnChainNotifications -> %v", err)
 					}
 
-					resp, err := http.Post(
+					resp, err := webhookClient.Post(
 						httpSubscriber.EndpointUrl,
 						"application/json",
 						bytes.NewBuffer(respJson),
-- 
2.43.0


From 0ca1cb056849868a640561cc71499444f7bdec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 60/70] fix: close a ws connection that is made while the
 notification handler stops

---
 internal/interface/web-socket/handler/ws_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 94836e1..7c108da 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -46,6 +46,13 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	d.registerSubscriber(subscriber)
 	defer d.unregisterSubscriber(subscriber)
 
+	select {
+	case <-d.quit:
+		// Stop has closed the connections it knew already
+		return
+	default:
+	}
+
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
 msgloop:
-- 
2.43.0


From 2ceed47d288b69b3bf7f7017658ef96d7ea8272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 61/70] fix: an interrupted config command does not lose the
 saved settings

---
 cmd/neutrino/main.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 9dc23ea..dd1eaae 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -108,7 +108,7 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
+	err = replaceFile(statePath, jsonString)
 	if err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
@@ -116,6 +116,32 @@ func setState(data map[string]string) error {
 	return nil
 }
 
+// replaceFile replaces the content of the file as a whole or not at all, whatever
+// interrupts it
+func replaceFile(name string, data []byte) error {
+	tmp, err := ioutil.TempFile(path.Dir(name), path.Base(name))
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tmp.Name()) // if it is not renamed
+
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), name)
+}
+
 func merge(maps ...map[string]string) map[string]string {
 	merge := make(map[string]string, 0)
 	for _, m := range maps {
-- 
2.43.0


From 3da644c299ce69b1b3f71dacfcd0992131f2ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 62/70] fix: do not close the error channel of the daemon while
 the http server may send on it

---
 internal/interface/web-socket/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index 0a31a55..7552588 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -114,6 +114,8 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 		Handler: muxRouter,
 	}
 
+	served := make(chan struct{})
+
 	go func() {
 		<-ctx.Done()
 
@@ -131,6 +133,9 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 			stop()
 			cancel()
+
+			// the http server may still have an error to report
+			<-served
 			close(errC)
 		}()
 
@@ -144,6 +149,8 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	// start http server
 	go func() {
+		defer close(served)
+
 		log.Infof(
 			"neutrinod: neutrino-elements daemon listening and serving at: %v",
 			n.serverAddress)
-- 
2.43.0


From ef27c3abd23ad7532f1d9603495df9ecc0b1e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 63/70] fix: a command after leading zero bytes is no supported
 command

---
 pkg/protocol/msg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 6af7e9c..93aa5bc 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -57,9 +57,9 @@ func NewMessage(cmd string, networkMagic Magic, payload interface{}) (*Message,
 	return &msg, nil
 }
 
-// CommandString returns command as a string with zero bytes removed.
+// CommandString returns command as a string with the trailing zero bytes removed.
 func (mh MessageHeader) CommandString() string {
-	return strings.Trim(string(mh.Command[:]), "\x00")
+	return strings.TrimRight(string(mh.Command[:]), "\x00")
 }
 
 // Validate ...
-- 
2.43.0


From 1e10cb4c76d9752011ae405c204c581e68d3c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 64/70] fix: the hash of a transaction message is its id,
 without the witness

---
 pkg/protocol/msg_tx.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index b0d7a5f..9cac955 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -1,12 +1,9 @@
 package protocol
 
 import (
-	"crypto/sha256"
 	"encoding/hex"
 	"errors"
-	"fmt"
 	"io"
-	"sort"
 	"strings"
 
 	"github.com/vulpemventures/go-elements/transaction"
@@ -38,19 +35,13 @@ func NewMsgTxFromHex(txHex string) (MsgTx, error) {
 
 // Hash returns transaction ID.
 func (tx MsgTx) Hash() ([]byte, error) {
-	serialized, err := tx.MarshalBinary()
-	if err != nil {
-		return nil, fmt.Errorf("tx.MarshalBinary: %+v", err)
-	}
-
-	hash := sha256.Sum256(serialized)
-	hash = sha256.Sum256(hash[:])
+	// the witness is not part of the ID, which is written in reverse order
+	hash := tx.TxHash()
 
-	txid := hash[:]
-
-	sort.SliceStable(txid, func(i, j int) bool {
-		return true
-	})
+	txid := make([]byte, 0, len(hash))
+	for i := len(hash) - 1; i >= 0; i-- {
+		txid = append(txid, hash[i])
+	}
 
 	return txid, nil
 }
-- 
2.43.0


From 10d8bb293009457467404666e423476f87ca9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 65/70] fix: a peer that does not read is dropped, and holds
 nobody up for long

---
 pkg/peer/peer.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 0ab34a8..8177f0b 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -1,13 +1,18 @@
 package peer
 
 import (
+	"errors"
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
+// writeTimeout is the time a peer has to take a message
+const writeTimeout = 20 * time.Second
+
 // PeerID is peer IP address.
 type PeerID string
 
@@ -47,7 +52,7 @@ func NewElementsPeer(peerAddr string) (Peer, error) {
 
 	return &elementsPeer{
 		networkAddress: netAddress,
-		tcpConnection:  conn,
+		tcpConnection:  &timedConn{Conn: conn, turn: make(chan struct{}, 1)},
 		m:              new(sync.RWMutex),
 	}, nil
 }
@@ -81,3 +86,31 @@ func (e *elementsPeer) SetPeersTip(startBlockHeight uint32) {
 func (e *elementsPeer) String() string {
 	return e.tcpConnection.RemoteAddr().String()
 }
+
+// timedConn is a connection that is closed if the peer does not read what is
+// written to it, so that nobody waits for such a peer forever.
+type timedConn struct {
+	net.Conn
+
+	// turn is full while somebody writes: the timeout of a write starts when
+	// the one before is over
+	turn chan struct{}
+}
+
+func (c *timedConn) Write(b []byte) (int, error) {
+	c.turn <- struct{}{}
+	defer func() { <-c.turn }()
+
+	if err := c.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
+		return 0, err
+	}
+
+	n, err := c.Conn.Write(b)
+	var netErr net.Error
+	if errors.As(err, &netErr) && netErr.Timeout() {
+		// the message may be written in part, nothing can follow it
+		c.Conn.Close()
+	}
+
+	return n, err
+}
-- 
2.43.0


From 49e20f14ab64882f7cbfed543e44a1a69c3b7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 66/70] fix: names and password of the database may contain any
 character

---
 .../storage/db/pg/db_service.go               | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/db_service.go b/internal/infrastructure/storage/db/pg/db_service.go
index b97435c..a06ebab 100644
--- a/internal/infrastructure/storage/db/pg/db_service.go
+++ b/internal/infrastructure/storage/db/pg/db_service.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/go-testfixtures/testfixtures/v3"
 	"github.com/golang-migrate/migrate/v4"
+	"net/url"
 	"sync"
 
 	"github.com/golang-migrate/migrate/v4/database/postgres"
@@ -16,11 +17,10 @@ import (
 )
 
 const (
-	postgresDriver             = "postgres"
-	insecureDataSourceTemplate = "postgresql://%s:%s@%s:%d/%s?sslmode=disable"
-	dataSourceTemplate         = "host=%s port=%d user=%s password=%s dbname=%s"
-	postgresDialect            = "postgres"
-	fixturesPath               = "../fixtures"
+	postgresDriver     = "postgres"
+	dataSourceTemplate = "host=%s port=%d user=%s password=%s dbname=%s"
+	postgresDialect    = "postgres"
+	fixturesPath       = "../fixtures"
 )
 
 var (
@@ -97,18 +97,20 @@ func migrateDb(db *sql.DB, migrationSourceUrl string) error {
 
 // insecureDataSourceStr converts database configuration params to connection string
 func insecureDataSourceStr(dbConfig DbConfig) string {
-	return fmt.Sprintf(
-		insecureDataSourceTemplate,
-		dbConfig.DbUser,
-		dbConfig.DbPassword,
-		dbConfig.DbHost,
-		dbConfig.DbPort,
-		dbConfig.DbName,
-	)
+	// names and password may contain any character
+	dataSource := url.URL{
+		Scheme:   "postgresql",
+		User:     url.UserPassword(dbConfig.DbUser, dbConfig.DbPassword),
+		Host:     fmt.Sprintf("%s:%d", dbConfig.DbHost, dbConfig.DbPort),
+		Path:     "/" + dbConfig.DbName,
+		RawQuery: "sslmode=disable",
+	}
+
+	return dataSource.String()
 }
 
 // CreateLoader creates loader that is to be used to load fixtures from given
-//folder
+// folder
 func (d *DbService) CreateLoader(db *sql.DB) error {
 	f, err := testfixtures.New(
 		testfixtures.Database(db),
-- 
2.43.0


From 12042aa6ed6f0ca0f81d759d696de41ab1561124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 67/70] fix: filters that did not arrive are asked for again,
 and a stopped sync goes on

---
 pkg/node/missing.go | 164 ++++++++++++++++++++++++++++++++++++++++++++
 pkg/node/node.go    |   1 +
 2 files changed, 165 insertions(+)
 create mode 100644 pkg/node/missing.go

diff --git a/pkg/node/missing.go b/pkg/node/missing.go
new file mode 100644
index 0000000..a418047
--- /dev/null
+++ b/pkg/node/missing.go
@@ -0,0 +1,164 @@
+package node
+
+import (
+	"context"
+	"sort"
+	"time"
+
+	"github.com/btcsuite/btcd/chaincfg/chainhash"
+	log "github.com/sirupsen/logrus"
+	"github.com/vulpemventures/neutrino-elements/pkg/peer"
+	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
+	"github.com/vulpemventures/neutrino-elements/pkg/repository"
+)
+
+const (
+	// missingIntervalSec is the time between two searches for what has not
+	// arrived, and so the time peers have to send what they were asked for
+	missingIntervalSec = 60
+	// maxMissingFilters is the number of missing filters asked for at a time
+	maxMissingFilters = 1000
+)
+
+// monitorMissing asks again for the headers and filters that have been asked for
+// but are not stored: the peer may be gone or may not have answered, the store may
+// have failed, or the node was stopped in the meantime.
+func (n *node) monitorMissing() {
+	// missing are the heights of the headers without filter
+	missing := make(map[uint32]struct{})
+	// the headers below this height have their filter, unless they are in missing
+	next := uint32(1)
+	// height of the chain tip when it was looked at last
+	lastTip := uint32(0)
+
+	ticker := time.NewTicker(missingIntervalSec * time.Second)
+	defer ticker.Stop()
+
+	for round := 0; ; round++ {
+		select {
+		case <-n.quit:
+			return
+		case <-ticker.C:
+		}
+
+		tip := uint32(0)
+		chainTip, err := n.blockHeadersDb.ChainTip(context.Background())
+		if err == nil {
+			tip = chainTip.Height
+		} else if err != repository.ErrNoBlocksHeaders {
+			log.Errorf("node: looking for missing filters failed: %s", err)
+			continue
+		}
+
+		if tip == lastTip {
+			n.resumeSync(tip, round)
+		}
+		lastTip = tip
+
+		if err := n.requestMissingFilters(missing, round); err != nil {
+			log.Errorf("node: looking for missing filters failed: %s", err)
+			continue
+		}
+
+		for ; next <= tip && len(missing) < maxMissingFilters; next++ {
+			select {
+			case <-n.quit:
+				return
+			default:
+			}
+
+			hash, err := n.missingFilter(next)
+			if err != nil {
+				log.Errorf("node: looking for missing filters failed: %s", err)
+				break
+			}
+			if hash != nil {
+				missing[next] = struct{}{}
+			}
+		}
+	}
+}
+
+// missingFilter returns the hash of the block at the given height if its filter is
+// missing, nil if there is nothing to ask for.
+func (n *node) missingFilter(height uint32) (*chainhash.Hash, error) {
+	hash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
+	if err != nil {
+		if err == repository.ErrBlockNotFound {
+			return nil, nil
+		}
+		return nil, err
+	}
+
+	_, err = n.filtersDb.GetFilter(context.Background(), repository.FilterKey{
+		BlockHash:  hash.CloneBytes(),
+		FilterType: repository.RegularFilter,
+	})
+	if err == repository.ErrFilterNotFound {
+		return hash, nil
+	}
+	return nil, err
+}
+
+// requestMissingFilters asks for the missing filters, and removes from them the
+// ones that have arrived.
+func (n *node) requestMissingFilters(missing map[uint32]struct{}, round int) error {
+	for height := range missing {
+		hash, err := n.missingFilter(height)
+		if err != nil {
+			return err
+		}
+		if hash == nil {
+			delete(missing, height)
+			continue
+		}
+
+		if p := n.peerOfRound(n.getPeers(), round); p != nil {
+			log.Debugf("node: asking %s again for the filter of block %d", p.ID(), height)
+			if err := n.requestFilter(p, height, hash); err != nil {
+				log.Error(err)
+			}
+		}
+	}
+
+	return nil
+}
+
+// resumeSync goes on syncing if a peer has more headers than the node.
+func (n *node) resumeSync(tip uint32, round int) {
+	ahead := make([]peer.Peer, 0)
+	for _, p := range n.getPeers() {
+		if p.PeersTip() > tip {
+			ahead = append(ahead, p)
+		}
+	}
+
+	if p := n.peerOfRound(ahead, round); p != nil {
+		n.sync(p)
+	}
+}
+
+// peerOfRound returns another peer each round, so that none is asked forever for
+// something it does not have.
+func (n *node) peerOfRound(peers []peer.Peer, round int) peer.Peer {
+	if len(peers) == 0 {
+		return nil
+	}
+
+	sort.Slice(peers, func(i, j int) bool { return peers[i].ID() < peers[j].ID() })
+	return peers[round%len(peers)]
+}
+
+// requestFilter asks the peer for the filter of a block.
+func (n *node) requestFilter(p peer.Peer, height uint32, hash *chainhash.Hash) error {
+	msg, err := protocol.NewMessage("getcfilters", n.Network, &protocol.MsgGetCFilters{
+		FilterType:  0,
+		StartHeight: height,
+		StopHash:    *hash,
+	})
+	if err != nil {
+		return err
+	}
+
+	return n.sendMessage(p.Connection(), msg)
+}
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 76a3d0c..40bffde 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -142,6 +142,7 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 	go n.monitorPeers()
 	go n.monitorBlockHeaders()
 	go n.monitorCFilters()
+	go n.monitorMissing()
 	go n.checkSyncedInitial(initialPeer)
 
 	n.memPool.Start()
-- 
2.43.0


From ad1cf43d3d2a06c6650966d8318cc62b2e954d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 68/70] fix: a block announced while the store fails is not
 forgotten

---
 pkg/node/cmd_block.go   | 11 ++++++++---
 pkg/node/cmd_headers.go | 11 +++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index e500797..698bbd8 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -25,6 +25,13 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	// own one may have been received in a headers message already
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
+	// the peer has this block, whether its header can be stored now or not
+	newBlockHeight := msgBlock.Header.Height
+	isAhead := newBlockHeight > p.PeersTip()
+	if isAhead {
+		p.SetPeersTip(newBlockHeight)
+	}
+
 	tip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		if err == repository.ErrNoBlocksHeaders {
@@ -43,10 +50,8 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	//new blocks are going to be mined before sync is done and in order to sync till
 	//the latest block, and not 50000, we need to update the peer tip height to
 	//the latest block
-	newBlockHeight := msgBlock.Header.Height
 	if newBlockHeight != tip.Height+1 {
-		if newBlockHeight > p.PeersTip() {
-			p.SetPeersTip(newBlockHeight)
+		if isAhead {
 			n.sync(p)
 		}
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 1c7e91d..d78b407 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -23,6 +23,13 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) err
 		return err
 	}
 
+	//the same as for a new block: sync till the last one announced
+	if l := len(headers.Headers); l > 0 && checkHeadersInSequence(headers) {
+		if last := headers.Headers[l-1].Height; last > p.PeersTip() {
+			p.SetPeersTip(last)
+		}
+	}
+
 	tip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		if err == repository.ErrNoBlocksHeaders {
@@ -51,10 +58,6 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) err
 	firstHeaderBlockHeight := headers.Headers[0].Height
 	lastHeaderBlockHeight := headers.Headers[len(headers.Headers)-1].Height
 	if firstHeaderBlockHeight > tip.Height+1 {
-		//the same as for a new block: sync till the last one announced
-		if lastHeaderBlockHeight > p.PeersTip() {
-			p.SetPeersTip(lastHeaderBlockHeight)
-		}
 		n.sync(p)
 		return nil
 	}
-- 
2.43.0


From a07be0c16b11357f670c3101f384a00a75c291ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 69/70] fix: the scanner drops the requests of subscribers that
 are gone

---
 .../core/application/notification_service.go  |  9 ++-
 pkg/scanner/request.go                        |  3 +
 pkg/scanner/requestqueue.go                   | 73 ++++++++++++++++++-
 pkg/scanner/scanner.go                        |  9 +++
 4 files changed, 92 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 12767d3..eb919f7 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -145,6 +145,12 @@ func (n *notificationService) handleSubscribers() {
 				}:
 				case <-n.quit:
 				}
+				continue
+			}
+
+			if _, ok := n.getSubscriptionSafe(id); !ok {
+				// un-subscribed in the meantime
+				n.scannerSvc.UnWatch(id)
 			}
 		case <-n.quit:
 			log.Debug("notificationService -> handleSubscribers stopped")
@@ -161,7 +167,7 @@ func (n *notificationService) Subscribe(
 	}
 
 	// a subscriber that comes back must not get the events of its former
-	// subscriptions: the scanner does not forget them
+	// subscriptions: the scanner may be about to report some
 	id := uuid.New()
 	n.subscriptionsLock.Lock()
 	n.subscriptions[id] = subscriber
@@ -185,6 +191,7 @@ func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
 	for id, sub := range n.subscriptions {
 		if sub.ID == subscriber.ID {
 			delete(n.subscriptions, id)
+			n.scannerSvc.UnWatch(id)
 			found = true
 		}
 	}
diff --git a/pkg/scanner/request.go b/pkg/scanner/request.go
index a83b78e..7a7ea0b 100644
--- a/pkg/scanner/request.go
+++ b/pkg/scanner/request.go
@@ -13,6 +13,9 @@ type ScanRequest struct {
 	IsPersistent bool
 	// reported is how many matches of the block at StartHeight are already reported
 	reported int
+	// seq tells the requests made before those of the same client were removed from
+	// the ones made after
+	seq uint64
 }
 
 type ScanRequestOption func(req *ScanRequest)
diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 237698c..b8f169a 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -2,12 +2,21 @@ package scanner
 
 import (
 	"sync"
+
+	"github.com/google/uuid"
 )
 
 type scanRequestQueue struct {
 	requests []*ScanRequest
 	locker   sync.Locker
 	cond     sync.Cond
+	// seq is the number of requests made
+	seq uint64
+	// scans is the number of scans that have taken requests out of the queue
+	scans int
+	// removed are the clients whose requests were removed during these scans, and
+	// the number of requests made before
+	removed map[uuid.UUID]uint64
 }
 
 func newScanRequestQueue() *scanRequestQueue {
@@ -16,6 +25,7 @@ func newScanRequestQueue() *scanRequestQueue {
 		requests: make([]*ScanRequest, 0),
 		locker:   new(sync.Mutex),
 		cond:     sync.Cond{L: &sync.Mutex{}},
+		removed:  make(map[uuid.UUID]uint64),
 	}
 }
 
@@ -39,12 +49,73 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	queue.locker.Lock()
-	queue.requests = append(queue.requests, req)
+	if req.seq == 0 {
+		queue.seq++
+		req.seq = queue.seq
+	}
+	if !queue.isRemoved(req) {
+		queue.requests = append(queue.requests, req)
+	}
 	queue.locker.Unlock()
 
 	queue.wakeUp()
 }
 
+// remove removes the requests of a client, also those taken out by a scan: they do
+// not come back.
+func (queue *scanRequestQueue) remove(clientID uuid.UUID) {
+	queue.locker.Lock()
+	defer queue.locker.Unlock()
+
+	queue.removed[clientID] = queue.seq
+	queue.requests = queue.withoutRemoved(queue.requests)
+	if queue.scans == 0 {
+		delete(queue.removed, clientID)
+	}
+}
+
+// remaining returns the requests that have not been removed.
+func (queue *scanRequestQueue) remaining(requests []*ScanRequest) []*ScanRequest {
+	queue.locker.Lock()
+	defer queue.locker.Unlock()
+
+	return queue.withoutRemoved(requests)
+}
+
+// beginScan has to be called before requests are taken out, endScan when they are
+// back in the queue.
+func (queue *scanRequestQueue) beginScan() {
+	queue.locker.Lock()
+	defer queue.locker.Unlock()
+
+	queue.scans++
+}
+
+func (queue *scanRequestQueue) endScan() {
+	queue.locker.Lock()
+	defer queue.locker.Unlock()
+
+	queue.scans--
+	if queue.scans == 0 {
+		queue.removed = make(map[uuid.UUID]uint64)
+	}
+}
+
+func (queue *scanRequestQueue) withoutRemoved(requests []*ScanRequest) []*ScanRequest {
+	var remain []*ScanRequest
+	for _, req := range requests {
+		if !queue.isRemoved(req) {
+			remain = append(remain, req)
+		}
+	}
+	return remain
+}
+
+func (queue *scanRequestQueue) isRemoved(req *ScanRequest) bool {
+	seq, ok := queue.removed[req.ClientID]
+	return ok && req.seq <= seq
+}
+
 // wakeUp wakes up who is waiting on cond. The lock of cond makes sure that it
 // can't be missed by who has checked its condition but does not wait yet.
 func (queue *scanRequestQueue) wakeUp() {
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 62788dc..b499442 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -56,6 +56,8 @@ type Service interface {
 	Stop()
 	// Watch add a new request to the queue
 	Watch(...ScanRequestOption)
+	// UnWatch drops the requests of a client that are not resolved yet
+	UnWatch(requestID uuid.UUID)
 	// WatchDescriptorWallet imports wallet descriptor, generates scripts and which
 	//for specific events for those scripts
 	WatchDescriptorWallet(
@@ -133,6 +135,10 @@ func (s *scannerService) Watch(opts ...ScanRequestOption) {
 	s.requestsQueue.enqueue(req)
 }
 
+func (s *scannerService) UnWatch(requestID uuid.UUID) {
+	s.requestsQueue.remove(requestID)
+}
+
 func (s *scannerService) WatchDescriptorWallet(
 	requestID uuid.UUID,
 	desc string,
@@ -252,8 +258,10 @@ func (s *scannerService) requestWorker(
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	s.requestsQueue.beginScan()
 	defer func() {
 		s.enqueueAtHeight(nextBatch, nextHeight)
+		s.requestsQueue.endScan()
 	}()
 
 	chainTip, err := s.headerDB.ChainTip(context.Background())
@@ -268,6 +276,7 @@ func (s *scannerService) requestWorker(
 
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
+		nextBatch = s.requestsQueue.remaining(nextBatch)
 
 		// get the block hash for height
 		var blockHash *chainhash.Hash
-- 
2.43.0


From b5358f9bffbdb9d3352d1a6f8037a4d38a7d6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 70/70] fix: a peer that answers now and then must not keep the
 others from resuming the sync

---
 pkg/node/missing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/node/missing.go b/pkg/node/missing.go
index a418047..9453ba0 100644
--- a/pkg/node/missing.go
+++ b/pkg/node/missing.go
@@ -30,6 +30,8 @@ func (n *node) monitorMissing() {
 	next := uint32(1)
 	// height of the chain tip when it was looked at last
 	lastTip := uint32(0)
+	// number of times the sync has been resumed
+	resumed := 0
 
 	ticker := time.NewTicker(missingIntervalSec * time.Second)
 	defer ticker.Stop()
@@ -51,7 +53,8 @@ func (n *node) monitorMissing() {
 		}
 
 		if tip == lastTip {
-			n.resumeSync(tip, round)
+			n.resumeSync(tip, resumed)
+			resumed++
 		}
 		lastTip = tip
 
-- 
2.43.0

