From 61591133876e12dfaad77f034abd1dc9fe777501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 01/22] fix: do not read past the end of truncated KV entries

A truncated name, type, address, string or binary value made the scanner
slice out of range and panic. Report it as an unterminated sequence
instead, and keep reporting an error once a scan has failed.
---
 pkg/encoding/kvscanner.go | 54 ++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..263b284 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -183,8 +183,23 @@ func (k *KVEntry) Reset() {
 	k.intVal = 0
 }
 
+// take returns the next n bytes of the buffer and moves past them. If the
+// buffer ends before that, it fails the scan.
+func (k *KVScanner) take(n uint64) ([]byte, bool) {
+	if n > uint64(len(k.buf)) {
+		k.lastErr = ErrUnterminatedSequence
+		return nil, false
+	}
+
+	b := k.buf[:n]
+	k.buf = k.buf[n:]
+	return b, true
+}
+
+// Next reads the next entry into e. It returns false at the end of the entries
+// and on malformed data, in which case Error returns what is wrong with it.
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if len(k.buf) == 0 {
+	if k.lastErr != nil || len(k.buf) == 0 {
 		return false
 	}
 
@@ -201,13 +216,18 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
-	e.name = k.buf[:nameLen]
-	k.buf = k.buf[nameLen:]
+	var ok bool
+	if e.name, ok = k.take(nameLen); !ok {
+		return false
+	}
 
-	e.dataType = DataType(k.buf[0] & dataTypeMask)
+	typeByte, ok := k.take(1)
+	if !ok {
+		return false
+	}
+	e.dataType = DataType(typeByte[0] & dataTypeMask)
 	// just always decode the boolVar even tho its wrong.
-	e.boolVar = k.buf[0]&dataFlagTrue > 0
-	k.buf = k.buf[1:]
+	e.boolVar = typeByte[0]&dataFlagTrue > 0
 
 	switch e.dataType {
 	case DataTypeNull, DataTypeBool:
@@ -225,12 +245,14 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
-		e.byteVal = k.buf[:net.IPv4len]
-		k.buf = k.buf[net.IPv4len:]
+		if e.byteVal, ok = k.take(net.IPv4len); !ok {
+			return false
+		}
 
 	case DataTypeIPV6:
-		e.byteVal = k.buf[:net.IPv6len]
-		k.buf = k.buf[net.IPv6len:]
+		if e.byteVal, ok = k.take(net.IPv6len); !ok {
+			return false
+		}
 
 	case DataTypeString:
 		nameLen, n, err := Varint(k.buf)
@@ -240,8 +262,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
-		e.byteVal = k.buf[:nameLen]
-		k.buf = k.buf[nameLen:]
+		if e.byteVal, ok = k.take(nameLen); !ok {
+			return false
+		}
 
 	case DataTypeBinary:
 		valLen, n, err := Varint(k.buf)
@@ -251,8 +274,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
-		e.byteVal = k.buf[:valLen]
-		k.buf = k.buf[valLen:]
+		if e.byteVal, ok = k.take(valLen); !ok {
+			return false
+		}
 
 	default:
 		k.lastErr = fmt.Errorf("unknown data type: %x", e.dataType)
@@ -264,7 +288,7 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 
 func (k *KVScanner) Discard() error {
 	if k.RemainingBuf() == 0 {
-		return nil
+		return k.Error()
 	}
 
 	e := AcquireKVEntry()
-- 
2.43.0


From 9ff4acf2982529dcf3d6d240aed4d4be7ebb0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/22] fix: end a message's KV scan after its declared number
 of entries

The scanner ignored the entry count, so reading or discarding the entries
of a message ran into the messages following it in the same NOTIFY.
---
 pkg/encoding/kvscanner.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 263b284..bb971f0 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -55,6 +55,8 @@ func (k *KVScanner) RemainingBuf() int {
 	return len(k.buf)
 }
 
+// NewKVScanner returns a scanner for the count entries at the start of b, or
+// for all the entries in b if count is negative.
 func NewKVScanner(b []byte, count int) *KVScanner {
 	return &KVScanner{buf: b, left: count}
 }
@@ -199,7 +201,14 @@ func (k *KVScanner) take(n uint64) ([]byte, bool) {
 // Next reads the next entry into e. It returns false at the end of the entries
 // and on malformed data, in which case Error returns what is wrong with it.
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if k.lastErr != nil || len(k.buf) == 0 {
+	if k.lastErr != nil || k.left == 0 {
+		return false
+	}
+
+	if len(k.buf) == 0 {
+		if k.left > 0 {
+			k.lastErr = ErrUnterminatedSequence
+		}
 		return false
 	}
 
@@ -207,7 +216,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		panic("KVEntry cant be nil")
 	}
 	e.Reset()
-	k.left--
+	if k.left > 0 {
+		k.left--
+	}
 
 	nameLen, n, err := Varint(k.buf)
 	if err != nil {
@@ -287,10 +298,6 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return k.Error()
-	}
-
 	e := AcquireKVEntry()
 	defer ReleaseKVEntry(e)
 	for k.Next(e) {
-- 
2.43.0


From 59406548e6836a5394ca5bd8238bb5ee0b3f6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 03/22] fix: report truncated messages instead of panicking

A name longer than the remaining payload, or a missing entry count, made
the message scanner slice out of range.
---
 pkg/encoding/messagescanner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..471f8be 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -74,7 +74,7 @@ func (s *MessageScanner) Next(m *Message) bool {
 		m.KV = nil
 	}
 
-	if len(s.buf) == 0 {
+	if s.lastErr != nil || len(s.buf) == 0 {
 		return false
 	}
 
@@ -85,6 +85,12 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	// The name is followed by at least the number of entries.
+	if nameLen >= uint64(len(s.buf)) {
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
+
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From c6258cd1b3c10047653ca69626925d5b11a1e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 04/22] fix: leave no partial entry behind when a KVWriter is
 full

Writing the type byte of an entry indexed past the end of a full buffer
and panicked, and entries whose value did not fit left their name and
type in the output.
---
 pkg/encoding/kvwriter.go | 67 ++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..b5e5209 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -45,26 +45,31 @@ func (aw *KVWriter) Bytes() []byte {
 	return aw.data[:aw.off]
 }
 
-func (aw *KVWriter) writeKey(name []byte) error {
+// writeKey writes the name and the type of an entry.
+func (aw *KVWriter) writeKey(name []byte, t byte) error {
 	n, err := PutBytes(aw.data[aw.off:], name)
 	if err != nil {
 		return err
 	}
 
-	aw.off += n
+	if n >= len(aw.data)-aw.off {
+		return ErrInsufficientSpace
+	}
+
+	aw.data[aw.off+n] = t
+	aw.off += n + 1
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(DataTypeString)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeString)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -73,15 +78,14 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(DataTypeBinary)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeBinary)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -90,27 +94,15 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 }
 
 func (aw *KVWriter) SetNull(name string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeNull)
-	aw.off++
-
-	return nil
+	return aw.writeKey([]byte(name), byte(DataTypeNull))
 }
 func (aw *KVWriter) SetBool(name string, v bool) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeBool)
+	t := byte(DataTypeBool)
 	if v {
-		aw.data[aw.off] |= dataFlagTrue
+		t |= dataFlagTrue
 	}
-	aw.off++
 
-	return nil
+	return aw.writeKey([]byte(name), t)
 }
 
 func (aw *KVWriter) SetUInt32(name string, v uint32) error {
@@ -122,15 +114,14 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(d)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(d)
-	aw.off++
-
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -146,22 +137,24 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
+	var t DataType
 	switch {
 	case v.Is6():
-		aw.data[aw.off] = byte(DataTypeIPV6)
+		t = DataTypeIPV6
 	case v.Is4():
-		aw.data[aw.off] = byte(DataTypeIPV4)
+		t = DataTypeIPV4
 	default:
 		return fmt.Errorf("invalid address")
 	}
-	aw.off++
+
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(t)); err != nil {
+		return err
+	}
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
-- 
2.43.0


From b60fae47d9646820147187701779d667d2abe255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 05/22] fix: do not emit a partial action for an invalid
 address

SetAddr wrote the action header before it rejected the address, so the
following actions could not be decoded.
---
 pkg/encoding/actionwriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..55ea63c 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,10 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
-- 
2.43.0


From a422da5ff62d87ace254629dc2940c660197ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/22] fix: check the offered max-frame-size before truncating
 it

Sizes above 32 bits wrapped around and were accepted.
---
 spop/protocol.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..71aa473 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -128,13 +128,14 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			size := k.ValueInt()
+			if size < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", size)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if size > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", size)
 			}
+			c.maxFrameSize = uint32(size)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From 264f11eaaf44f0e6b60c8ea30d32e43cc0725737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 07/22] fix: only treat a HELLO with a true healthcheck entry
 as health check

---
 spop/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 71aa473..b2eee16 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -146,7 +146,9 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			if k.ValueBool() {
+				defer c.ctxCancel(nil)
+			}
 		}
 	}
 
-- 
2.43.0


From cf99100eeb5672980f83fc2299194d5dbdc22b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 08/22] fix: do not allocate the length a peer claims for a
 message

A peer could crash the process with a message length that cannot be
allocated. Bound the length and grow the buffer as the data arrives.
---
 peers/protocol.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..674a36f 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -2,6 +2,7 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -169,6 +170,14 @@ type byteReader interface {
 	io.Reader
 }
 
+const (
+	// maxMessageLength is the longest message HAProxy can have in a buffer,
+	// since the size of those is a C int.
+	maxMessageLength = 1<<31 - 1
+
+	maxMessagePrealloc = 16 << 10
+)
+
 type rawMessage struct {
 	Data []byte
 
@@ -195,14 +204,19 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
-		m.Data = make([]byte, dataLength)
-		readData, err = io.ReadFull(r, m.Data)
+		if dataLength > maxMessageLength {
+			return int64(n), fmt.Errorf("message length %d exceeds maximum %d", dataLength, maxMessageLength)
+		}
+
+		// The remote only claims this length, so allocate no more than a bit
+		// up front and the rest as the data arrives.
+		data := bytes.NewBuffer(make([]byte, 0, min(int(dataLength), maxMessagePrealloc)+bytes.MinRead))
+		copied, err := io.CopyN(data, r, int64(dataLength))
+		readData = int(copied)
 		if err != nil {
 			return int64(n + readData), fmt.Errorf("failed reading message data: %v", err)
 		}
-		if uint64(readData) != dataLength {
-			return int64(n + readData), fmt.Errorf("invalid amount read: %d != %d", dataLength, readData)
-		}
+		m.Data = data.Bytes()
 	}
 
 	return int64(n + readData), nil
-- 
2.43.0


From 2e56b68c7ea0eba3a6ad1b7399986940bd94f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 09/22] fix: report truncated or unknown stick table data
 instead of panicking

Definitions, keys and values that end too early made Unmarshal slice out
of range, allocate a claimed length, or return zero filled values.
---
 peers/sticktable/constants.go   |  3 ++-
 peers/sticktable/sticktables.go | 14 +++++++++++---
 peers/sticktable/values.go      | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..c952538 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -20,6 +20,7 @@ const (
 	KeyTypeMethod
 )
 
+// New returns an empty key of this type, or nil if there are no keys of it.
 func (t KeyType) New() MapKey {
 	switch t {
 	case KeyTypeSignedInteger:
@@ -33,7 +34,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..4dd65a3 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,9 +38,11 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
-	name := make([]byte, nameLength)
-	offset += copy(name, b[offset:])
-	s.Name = string(name)
+	if nameLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	s.Name = string(b[offset : offset+int(nameLength)])
+	offset += int(nameLength)
 
 	keyType, n, err := encoding.Varint(b[offset:])
 	offset += n
@@ -224,11 +226,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..a1498ed 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -17,6 +17,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -31,6 +35,9 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
@@ -46,6 +53,9 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if len(b) < 16 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
@@ -66,6 +76,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, encoding.ErrUnterminatedSequence
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +90,9 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrUnterminatedSequence
+	}
 	*v = b[:keySize]
 	return int(keySize), nil
 }
@@ -225,6 +241,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if valueLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
 	value := make([]byte, valueLength)
 	offset += copy(value, b[offset:])
 	f.Value = value
-- 
2.43.0


From 15a5e24998dfe831c6b904612a993c5d2b09fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 10/22] fix: encode the length of dictionary data like HAProxy
 does

The length of a dictionary value covers everything that follows it, but
was sent as the length of the string alone, which HAProxy rejects as
malformed. References to cached entries and one byte values did not
survive a round trip, and a missing entry was sent with a stray byte.
---
 peers/sticktable/values.go | 44 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index a1498ed..b35c99f 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -220,6 +220,12 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	// The length covers everything following it.
+	if length > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	b = b[:offset+int(length)]
+
 	id, n, err := encoding.Varint(b[offset:])
 	offset += n
 	if err != nil {
@@ -227,7 +233,8 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 	}
 	f.ID = id
 
-	if length == 1 {
+	// The remote refers to an entry it has sent before.
+	if offset == len(b) {
 		return offset, nil
 	}
 
@@ -324,30 +331,35 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 }
 
 func (f *DictData) Marshal(b []byte) (int, error) {
-	var offset int
-
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-	offset += n
-	if err != nil {
-		return offset, err
+	// No entry
+	if f.ID == 0 {
+		return encoding.PutVarint(b, 0)
 	}
 
-	n, err = encoding.PutVarint(b[offset:], uint64(f.ID))
-	offset += n
+	// An entry the remote already has in its cache consists of the ID only.
+	var header [20]byte
+	n, err := encoding.PutVarint(header[:], f.ID)
 	if err != nil {
-		return offset, err
+		return 0, err
 	}
-
 	if len(f.Value) > 0 {
-		n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-		offset += n
+		vn, err := encoding.PutVarint(header[n:], uint64(len(f.Value)))
 		if err != nil {
-			return offset, err
+			return 0, err
 		}
+		n += vn
+	}
 
-		copy(b[offset:], f.Value)
-		offset += len(f.Value)
+	offset, err := encoding.PutVarint(b, uint64(n+len(f.Value)))
+	if err != nil {
+		return offset, err
 	}
+	if n+len(f.Value) > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
+	}
+
+	offset += copy(b[offset:], header[:n])
+	offset += copy(b[offset:], f.Value)
 
 	return offset, nil
 }
-- 
2.43.0


From b360fc45c42019c3ebdaae11aad9f53b27f22dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 11/22] fix: pad binary keys to the key length of their table

A shorter key was sent as is, so the remote took the data following it
for the rest of the key.
---
 peers/sticktable/values.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index b35c99f..f104536 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -291,7 +291,11 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	n := copy(b[:keySize], *v)
+	for i := range b[n:keySize] {
+		b[n+i] = 0
+	}
+	return int(keySize), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
-- 
2.43.0


From 309ded89c5532625a11d470af7ab79e73ea9fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 12/22] fix: report entries that cannot be encoded instead of
 panicking or truncating

Marshalling into a buffer that is too small truncated string keys or
panicked, and so did address keys of the wrong family. In SendEntry such
a panic left the writer locked, so nothing could be sent anymore.
---
 peers/sticktable/sticktables.go |  6 ++++++
 peers/sticktable/values.go      | 28 ++++++++++++++++++++++++++--
 peers/writer.go                 | 10 ++++------
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 4dd65a3..58b27c2 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -195,11 +195,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index f104536..ee9983e 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -259,6 +259,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -267,7 +270,14 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
-	a := (*netip.Addr)(v).As4()
+	addr := (*netip.Addr)(v)
+	if !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("invalid ipv4 key: %s", addr)
+	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	a := addr.As4()
 	copy(b, a[:])
 	return 4, nil
 }
@@ -276,7 +286,14 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
-	a := (*netip.Addr)(v).As16()
+	addr := (*netip.Addr)(v)
+	if !addr.IsValid() {
+		return 0, fmt.Errorf("invalid ipv6 key: %s", addr)
+	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	a := addr.As16()
 	copy(b, a[:])
 	return 16, nil
 }
@@ -287,10 +304,17 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(*v) > len(b)-n {
+		return n, encoding.ErrInsufficientSpace
+	}
+
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	n := copy(b[:keySize], *v)
 	for i := range b[n:keySize] {
 		b[n+i] = 0
diff --git a/peers/writer.go b/peers/writer.go
index 2a378e3..283e1a0 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -170,6 +170,8 @@ func marshalEntry(buf []byte, entry *sticktable.EntryUpdate, updateID uint32) (i
 // Note: for bulk operations, prefer SendEntries which batches writes and flushes once.
 func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	updateID := w.nextUpdateID
 	w.nextUpdateID++
 
@@ -180,22 +182,18 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 
 	offset, err := marshalEntry(w.buf, entry, updateID)
 	if err != nil {
-		w.mu.Unlock()
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
 
-	if err = w.writeMessageLocked(
+	if err := w.writeMessageLocked(
 		MessageClassStickTableUpdates,
 		byte(msgType),
 		w.buf[:offset],
 	); err != nil {
-		w.mu.Unlock()
 		return err
 	}
 
-	err = w.bw.Flush()
-	w.mu.Unlock()
-	return err
+	return w.bw.Flush()
 }
 
 // SendEntries sends multiple stick table entry updates in a single
-- 
2.43.0


From ce808f4675d28b45f8d3cef341130bcc5db236d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 13/22] fix: close peer connections when their session ends

A silent peer only had its context cancelled while its connection stayed
open, and a cancelled base context did not end sessions at all. The
handler was closed by whoever noticed first, possibly twice or never.
Now a session ends by cancelling its context, which closes the
connection, and the handler is closed once, after Serve has returned.
---
 peers/protocol.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 674a36f..46c5a89 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -43,12 +43,10 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	return &c
 }
 
+// Close ends the session. It must only be called once Serve has returned, to
+// end a session that is being served cancel its context instead.
 func (c *protocolClient) Close() error {
 	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
-
 	return c.handler.Close()
 }
 
@@ -105,22 +103,40 @@ func (c *protocolClient) resetLastMessage() {
 }
 
 func (c *protocolClient) heartbeat() {
-	for range c.nextHeartbeat.C {
+	defer c.nextHeartbeat.Stop()
+	for {
+		select {
+		case <-c.ctx.Done():
+			return
+		case <-c.nextHeartbeat.C:
+		}
+
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.ctxCancel()
 			return
 		}
 	}
 }
 
 func (c *protocolClient) lastMessage() {
-	<-c.lastMessageTimer.C
-	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
+	defer c.lastMessageTimer.Stop()
+	select {
+	case <-c.ctx.Done():
+	case <-c.lastMessageTimer.C:
+		log.Println("last message timer expired: closing connection")
+		c.ctxCancel()
+	}
 }
 
 func (c *protocolClient) Serve() error {
+	// The end of the context ends the session: closing the connection makes
+	// pending reads and writes return.
+	if closer, ok := c.rw.(io.Closer); ok {
+		stop := context.AfterFunc(c.ctx, func() { _ = closer.Close() })
+		defer stop()
+	}
+
 	if err := c.peerHandshake(); err != nil {
 		return fmt.Errorf("handshake: %v", err)
 	}
-- 
2.43.0


From 174a870600a6a3049c1e0f520a54ae7252dfacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 14/22] fix: do not count the time spent in a peer handler as
 silence

A handler busy for more than five seconds lost its connection although
the remote kept sending heartbeats.
---
 peers/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 46c5a89..691d31d 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -161,10 +161,12 @@ func (c *protocolClient) Serve() error {
 			return fmt.Errorf("reading message: %v", err)
 		}
 
-		c.resetLastMessage()
+		// The remote is not silent while we are busy with its message.
+		c.lastMessageTimer.Stop()
 		if err := c.messageHandler(&m); err != nil {
 			return fmt.Errorf("message handler: %v", err)
 		}
+		c.resetLastMessage()
 	}
 }
 
-- 
2.43.0


From bf028836c01ab9e9d9186cf2a7b0e139609c9f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 15/22] fix: do not lose messages received together with the
 handshake

The scanner used to read the handshake reads ahead, so a message in the
same segment was dropped and the stream went out of step.
---
 peers/messages.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..97df8f2 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -1,12 +1,14 @@
 package peers
 
 import (
-	"bufio"
 	"fmt"
 	"io"
 	"os"
+	"strings"
 )
 
+const maxHandshakeLine = 64 << 10
+
 // Handshake is composed by these fields:
 //
 //	protocol identifier   : HAProxyS
@@ -41,26 +43,51 @@ func NewHandshake(remotePeer string) *Handshake {
 	}
 }
 
-func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+// readLine reads a single line, and nothing behind it, from r.
+func readLine(r io.Reader) (string, error) {
+	var line []byte
+	b := make([]byte, 1)
+	for {
+		_, err := io.ReadFull(r, b)
+		if err != nil && err != io.EOF {
+			return "", err
+		}
+		if err == io.EOF || b[0] == '\n' {
+			return strings.TrimSuffix(string(line), "\r"), nil
+		}
+		if len(line) == maxHandshakeLine {
+			return "", fmt.Errorf("handshake line exceeds %d bytes", maxHandshakeLine)
+		}
+		line = append(line, b[0])
+	}
+}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
+func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
+	line, err := readLine(r)
+	if err != nil {
+		return -1, err
+	}
+	_, err = fmt.Sscanf(line, "%s %s", &h.ProtocolIdentifier, &h.Version)
 	if err != nil {
 		return -1, err
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	h.RemotePeer, err = readLine(r)
+	if err != nil {
+		return -1, err
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	line, err = readLine(r)
+	if err != nil {
+		return -1, err
+	}
+	_, err = fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
 	if err != nil {
 		return -1, err
 	}
 
 	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+	return -1, nil
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From e72b99aadfe9a92d5f2943246b5081201ad5e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 16/22] fix: the glitch rate of a stick table definition has a
 period

Like for all other rates, HAProxy sends the type and the period, which
were read as those of another type or left unread.
---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index c952538..72f9d90 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -111,7 +111,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From e0a23ff50ac7698dead13c94733bb767e9e8e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 17/22] fix: do not allocate the length a remote claims for a
 frame

With a max-frame-size of 2 GB, which is accepted, the first bytes of a frame
were enough to make the agent allocate 2 GB for each connection. Grow the
buffer as the data arrives.
---
 spop/frame.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..1a6fe64 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -64,16 +64,22 @@ func (f *frame) readFrom(r io.Reader, limit uint32) (int64, error) {
 	}
 
 	f.buf.Reset()
-	f.buf.Grow(int(frameLen))
-	dataBuf := f.buf.WriteNBytes(int(frameLen))
 
-	// read full frame into buffer
-	n, err := io.ReadFull(r, dataBuf)
-	if err != nil {
-		return int64(n + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
+	// Read the full frame into the buffer. The remote only claims its length,
+	// so the buffer grows as the data arrives.
+	read := 0
+	for read < int(frameLen) {
+		chunk := min(int(frameLen)-read, max(read, maxFrameSize))
+		f.buf.Grow(chunk)
+
+		n, err := io.ReadFull(r, f.buf.WriteNBytes(chunk))
+		read += n
+		if err != nil {
+			return int64(read + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
+		}
 	}
 
-	return int64(n + len(f.length)), f.decodeHeader()
+	return int64(read + len(f.length)), f.decodeHeader()
 }
 
 func (f *frame) WriteTo(w io.Writer) (int64, error) {
-- 
2.43.0


From 8fda0f4084661ad96f4a073193210fbf334c4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 18/22] fix: answer a peer's handshake before its writer is
 handed out

What the handler, or a goroutine it had passed the writer to, sent before the
status line was written went in front of it and broke the handshake.
---
 peers/protocol.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 691d31d..13ca66e 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -60,19 +60,17 @@ func (c *protocolClient) lockedWrite(data []byte) (int, error) {
 	return n, c.bw.Flush()
 }
 
-func (c *protocolClient) peerHandshake() error {
+func (c *protocolClient) peerHandshake() (*Handshake, error) {
 	var h Handshake
 	if _, err := h.ReadFrom(c.br); err != nil {
-		return err
+		return nil, err
 	}
 
-	c.handler.HandleHandshake(c.ctx, &h)
-
 	if _, err := c.lockedWrite([]byte(fmt.Sprintf("%d\n", HandshakeStatusHandshakeSucceeded))); err != nil {
-		return fmt.Errorf("handshake failed: %v", err)
+		return nil, fmt.Errorf("handshake failed: %v", err)
 	}
 
-	return nil
+	return &h, nil
 }
 
 func (c *protocolClient) resetHeartbeat() {
@@ -137,13 +135,19 @@ func (c *protocolClient) Serve() error {
 		defer stop()
 	}
 
-	if err := c.peerHandshake(); err != nil {
+	h, err := c.peerHandshake()
+	if err != nil {
 		return fmt.Errorf("handshake: %v", err)
 	}
 
 	c.resetHeartbeat()
-	c.resetLastMessage()
 	go c.heartbeat()
+
+	// The handler gets access to the writer with this, so the remote must have
+	// been sent its status line before.
+	c.handler.HandleHandshake(c.ctx, h)
+
+	c.resetLastMessage()
 	go c.lastMessage()
 
 	for {
-- 
2.43.0


From d5ba42c3f5e85066fbd0ed879be567209ee11bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 19/22] fix: notice a disconnect while all workers are busy

Disconnect frames were queued behind the NOTIFYs of all connections. With every
worker in a handler that waits for its context, none of the contexts was ever
cancelled and the agent stopped for good.
---
 spop/protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index b2eee16..f6f9588 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"log"
 	"syscall"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
@@ -100,6 +101,15 @@ func (c *protocolClient) Serve() error {
 			continue
 		}
 
+		// The workers may all be busy with handlers that only return once they
+		// learn about the end of their connection.
+		if f.frameType == frameTypeIDHaproxyDisconnect {
+			if err := c.frameHandler(f); err != nil {
+				log.Println(err)
+			}
+			continue
+		}
+
 		c.as.schedule(f, c)
 	}
 }
-- 
2.43.0


From 7ddd12f18d014611471ed6ce3f65685bcb123e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:24 +0000
Subject: [PATCH 20/22] fix: stop waiting for HAProxy when the test has been
 ended

Run left a goroutine behind that went on dialing for the rest of the test
run, and panicked by sending on the closed channel if HAProxy came up while
the test was being ended.
---
 pkg/testutil/haproxy.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/testutil/haproxy.go b/pkg/testutil/haproxy.go
index 5020bac..33dc30b 100644
--- a/pkg/testutil/haproxy.go
+++ b/pkg/testutil/haproxy.go
@@ -144,11 +144,18 @@ http-request return status 200 content-type "text/plain" string "Hello World!\n"
 
 	RunProcess(tb, "haproxy", []string{"-f", haproxyConfigFile, "-L", tcfg.InstanceID})
 
-	c := make(chan bool)
-	defer close(c)
+	c := make(chan bool, 1)
+	stop := make(chan struct{})
+	defer close(stop)
 
 	go func() {
 		for {
+			select {
+			case <-stop:
+				return
+			default:
+			}
+
 			l, err := net.Dial("unix", tcfg.StatsSocket)
 			if err != nil {
 				continue
-- 
2.43.0


From 004334ec7509864fdad68ea9c2263a36bae1809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 21/22] fix: keep the frontend's own configuration on a line of
 its own

Without an SPOE agent the template joined the bind line with what follows.
---
 pkg/testutil/haproxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/testutil/haproxy.go b/pkg/testutil/haproxy.go
index 33dc30b..26744b5 100644
--- a/pkg/testutil/haproxy.go
+++ b/pkg/testutil/haproxy.go
@@ -32,7 +32,7 @@ frontend test
 
 {{- if .EngineConfigFile }}
     filter spoe engine e2e config {{ .EngineConfigFile }}
-{{ end -}}
+{{- end }}
 
     {{ .CustomFrontendConfig }}
 
-- 
2.43.0


From 77a83f19a93f1a2b80d192662cf4345a9798f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:42 +0000
Subject: [PATCH 22/22] fix: let a Peer with a Handler be served more than once

Serve stored the source it makes from the Handler in the Peer, so the next
call of Serve or ListenAndServe, for a second listener or after the first
one had failed, refused to run because of contradicting handlers.
---
 peers/peers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index 2a4d056..cfb3c43 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -45,8 +45,9 @@ func (a *Peer) Serve(l net.Listener) error {
 		return fmt.Errorf("cannot set Handler and HandlerSource at the same time")
 	}
 
+	source := a.HandlerSource
 	if a.Handler != nil {
-		a.HandlerSource = func() Handler {
+		source = func() Handler {
 			return a.Handler
 		}
 	}
@@ -63,7 +64,7 @@ func (a *Peer) Serve(l net.Listener) error {
 		wmu := &sync.Mutex{}
 		w := newWriter(nc, wmu)
 		ctx = context.WithValue(ctx, writerKey, w)
-		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
+		p := newProtocolClient(ctx, nc, source(), wmu, w.bufferedWriter())
 		go func() {
 			defer nc.Close()
 			defer p.Close()
-- 
2.43.0

