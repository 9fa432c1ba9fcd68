From 8d86c3165cd2d09fa150019fa0d8297155f90a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 01/34] fix: ts.Packet.Next keeps the previous packet's
 adaptation field and payload

---
 ts/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..f9b2cbc 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -112,6 +112,9 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		return
 	}
 
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	var payloadSize uint32 = MaxPayloadSize
 
 	if packet.AdaptationFieldControl == FieldOnly || packet.AdaptationFieldControl == FieldThenPayload {
-- 
2.43.0


From 262e3364288d9353495c01b3942aae3896c10d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 02/34] fix: ts.Packet.Next consumes all 188 bytes of a packet
 without payload

---
 ts/packet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index f9b2cbc..596ecd3 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -136,6 +136,11 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		} else if err != nil {
 			return
 		}
+	} else {
+		// no payload: skip to the end of the packet
+		if err = br.Skip(uint(payloadSize) * 8); err != nil {
+			return
+		}
 	}
 
 	return nil
-- 
2.43.0


From 5723a97c297466cd77ea8211f8a8a4b10f224f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 03/34] fix: adaptation field lengths beyond the packet are
 errors, not panics or huge allocations

---
 ts/adaptation_field.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..db480e1 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
@@ -18,18 +19,25 @@ const (
 	FieldThenPayload                        // 0b11
 )
 
+// ErrInvalidAdaptationField is the error returned if the length of an adaptation
+// field, or of a section inside it, exceeds the space that is available for it.
+var ErrInvalidAdaptationField = errors.New("invalid adaptation field length")
+
 type TransportPrivateData struct {
 	// length of the transport private data section excludes the length byte
 	length uint32
 	data   []byte
 }
 
-func newTransportPrivateData(br bitreader.BitReader) (*TransportPrivateData, uint32, error) {
+func newTransportPrivateData(br bitreader.BitReader, available uint32) (*TransportPrivateData, uint32, error) {
 	tpd := TransportPrivateData{}
 	var err error
 	if tpd.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if tpd.length+1 > available {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 	if tpd.length > 0 {
 		tpd.data = make([]byte, tpd.length)
 		_, err = io.ReadFull(br, tpd.data)
@@ -58,12 +66,15 @@ type AdaptationExt struct {
 	length uint32
 }
 
-func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
+func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt, uint32, error) {
 	ae := AdaptationExt{}
 	var err error
 	if ae.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if ae.length+1 > available {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 	remainLength := ae.length
 
 	if remainLength >= 1 {
@@ -153,6 +164,10 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		return nil, 0, err
 	}
 
+	if remainLength > MaxPayloadSize-1 {
+		return nil, 0, ErrInvalidAdaptationField
+	}
+
 	// parse the adaptation field flags
 	if remainLength >= 1 {
 		if af.DiscontinuityIndicator, err = br.Read1(); err != nil {
@@ -220,7 +235,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 1 && af.TransportPrivateDataFlag {
 		var length uint32
-		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
+		if af.TransportPrivateData, length, err = newTransportPrivateData(br, remainLength); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
@@ -228,7 +243,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 2 && af.AdaptationFieldExtensionFlag {
 		var length uint32
-		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
+		if af.AdapatationExtension, length, err = newAdaptationExt(br, remainLength); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
-- 
2.43.0


From 97622a849f361904ce732d6b64dab17120f9ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 04/34] fix: adaptation field extension loses its position
 after DTS_next_AU and reserved bytes

---
 ts/adaptation_field.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index db480e1..3ff33fe 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -128,6 +128,13 @@ func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt,
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		br.Skip(1)
+		remainLength -= 5
+	}
+
+	// skip the reserved bytes at the end of the extension
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From 936eda4db1d28556c3c19f283c82b7ad6785642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 05/34] fix: Demuxer delivers a fresh packet each time instead
 of overwriting delivered ones

---
 ts/demuxer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..d368478 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -57,7 +57,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -69,7 +68,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
-			err := p.Next(tsd.reader)
+			// every delivered packet belongs to its receiver
+			p, err := NewPacket(tsd.reader)
 
 			if err != nil {
 				tsd.lastErr = err
-- 
2.43.0


From 3627370d3699b6d193acf98ebc093382e8ac6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 06/34] fix: Demuxer applies the take condition to the first
 packet after skipping

---
 ts/demuxer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index d368478..31d10f1 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -79,13 +79,12 @@ func (tsd *Demuxer) Go() <-chan bool {
 			if skipping {
 				if !skipUntil(p) {
 					continue
-				} else {
-					skipping = false
-				}
-			} else {
-				if !takeWhile(p) {
-					return
 				}
+				skipping = false
+			}
+
+			if !takeWhile(p) {
+				return
 			}
 
 			for _, item := range tsd.registeredChannels {
-- 
2.43.0


From b4a5dfb77ca9d94831d576999e18c51ace905c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 07/34] fix: payload reader loses errors while skipping and
 delivers bytes outside the selected window

---
 ts/payload_reader.go | 100 +++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 52 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..ea02ee7 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -23,7 +23,9 @@ type payloadReader struct {
 	skipUntil     PacketTester
 	takeWhile     PacketTester
 	remainder     bytes.Buffer
+	skipping      bool
 	closed        bool
+	err           error
 }
 
 func (r *payloadReader) SkipUntil(skipUntil PacketTester) {
@@ -35,75 +37,69 @@ func (r *payloadReader) TakeWhile(takeWhile PacketTester) {
 }
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
+	for len(p) > 0 {
+		// Drain remainder
+		if r.remainder.Len() > 0 {
+			cn, _ := r.remainder.Read(p)
+			n += cn
+			p = p[cn:]
+			continue
+		}
 
-	if r.closed == true {
-		return 0, io.EOF
-	}
-
-	if r.currentPacket == nil {
-		r.currentPacket = new(Packet)
-		if r.skipUntil != nil {
-			err = r.realign()
-			if err != nil {
-				return
+		// Fill from packet stream
+		if err = r.fill(); err != nil {
+			if n > 0 {
+				// deliver the bytes first, then the error
+				r.err = err
+				return n, nil
 			}
-
+			return 0, err
 		}
 	}
+	return
+}
 
-	var remainder []byte
+// fill reads the payload of the next selected packet into the remainder.
+func (r *payloadReader) fill() error {
+	if r.err != nil {
+		err := r.err
+		r.err = nil
+		return err
+	}
 
-	// Drain remainder
-	for len(p) > 0 {
-		cn, err := r.remainder.Read(p)
-		n = n + cn
-		p = p[cn:]
-		if err == io.EOF {
-			break
-		} else if err != nil {
-			return n, err
-		}
+	if r.closed {
+		return io.EOF
 	}
 
-	// Fill from packet stream
-	for len(p) > 0 {
-		err = r.next()
-		if err != nil {
-			return
+	if r.currentPacket == nil {
+		r.currentPacket = new(Packet)
+		r.skipping = r.skipUntil != nil
+	}
+
+	for {
+		if err := r.next(); err != nil {
+			return err
 		}
 
-		if r.where(r.currentPacket) {
-			copied := copy(p, r.currentPacket.Payload)
-			n = n + copied
-			p = p[copied:]
-			remainder = r.currentPacket.Payload[copied:]
+		if r.skipping {
+			if !r.skipUntil(r.currentPacket) {
+				continue
+			}
+			r.skipping = false
 		}
 
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
+		if !r.takeWhile(r.currentPacket) {
 			r.closed = true
-			return n, io.EOF
+			return io.EOF
 		}
-	}
 
-	_, err = r.remainder.Write(remainder)
-	return
+		if r.where(r.currentPacket) && len(r.currentPacket.Payload) > 0 {
+			_, err := r.remainder.Write(r.currentPacket.Payload)
+			return err
+		}
+	}
 }
 
 func (r *payloadReader) next() error {
 	return r.currentPacket.Next(r.br)
 }
-
-func (r *payloadReader) realign() (err error) {
-	for {
-		r.next()
-		if err != nil {
-			return err
-		}
-		done := r.skipUntil(r.currentPacket)
-		if done {
-			r.remainder.Write(r.currentPacket.Payload)
-			return nil
-		}
-	}
-}
-- 
2.43.0


From 271e736c9af2e41484f90b467df06958539e72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 08/34] fix: payload unit reader loses the last unit and
 repeats packets at the end of the stream

---
 ts/payload_unit_reader.go | 59 ++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..0e6111b 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,34 +36,34 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 	if stream.state == drained {
-		_, ferr := stream.fill()
-		if ferr != nil {
-			return 0, ferr
+		if err = stream.fill(); err != nil {
+			return 0, err
 		}
 		stream.state = ready
 	}
 
-	for len(p) > 0 {
-		rn, rerr := stream.buffer.Read(p)
-		n += rn
-		p = p[rn:]
-
-		if rerr == io.EOF {
-			stream.state = drained
-			return n, EOP
-		} else if rerr != nil {
-			return n, rerr
-		}
+	if len(p) == 0 {
+		return 0, nil
 	}
 
-	return
+	n, err = stream.buffer.Read(p)
+	if err == io.EOF {
+		stream.state = drained
+		return 0, EOP
+	}
+	return n, err
 }
 
-func (stream *payloadUnitBuffer) fill() (n int, err error) {
+// fill buffers the next payload unit.
+func (stream *payloadUnitBuffer) fill() error {
+	if stream.err != nil {
+		return stream.err
+	}
 
 	// initialize
 	if stream.currentPacket == nil {
@@ -71,13 +71,12 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 
 		// step until first start indicator
 		for {
-			isStart := stream.startIndicator(stream.currentPacket)
-			if isStart {
-				break
+			if err := stream.next(); err != nil {
+				stream.currentPacket = nil
+				return err
 			}
-			err = stream.next()
-			if err != nil {
-				return
+			if stream.startIndicator(stream.currentPacket) {
+				break
 			}
 		}
 	}
@@ -85,24 +84,20 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 	// Read until next start indicator
 	for {
 		if stream.where(stream.currentPacket) {
-			cn, err := stream.buffer.Write(stream.currentPacket.Payload)
-			n += cn
-			if err != nil {
-				break
+			if _, err := stream.buffer.Write(stream.currentPacket.Payload); err != nil {
+				return err
 			}
 		}
 
-		err = stream.next()
-		if err != nil {
-			break
+		// the unit in the buffer is delivered before the error that ended it
+		if stream.err = stream.next(); stream.err != nil {
+			return nil
 		}
 
 		if stream.startIndicator(stream.currentPacket) {
-			break
+			return nil
 		}
 	}
-
-	return
 }
 
 func (stream *payloadUnitBuffer) next() error {
-- 
2.43.0


From e73874919e843d42d0d07335f6ac43ff1e7d4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 09/34] fix: PacketChannel.PayloadUnit never delivers a unit

---
 ts/packet_channel.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..7393328 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -1,8 +1,5 @@
 package ts
 
-import "bytes"
-import "io/ioutil"
-
 // PacketChannel is a delivery channel of TS Packets
 type PacketChannel <-chan *Packet
 
@@ -19,24 +16,25 @@ func (input PacketChannel) PayloadOnly() <-chan []byte {
 }
 
 func (input PacketChannel) PayloadUnit() <-chan []byte {
-	var buf bytes.Buffer
 	output := make(chan []byte)
 	started := false
 	go func() {
 		defer close(output)
+		var unit []byte
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
-					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
-						output <- data
-					}
-				} else {
-					started = true
+					output <- unit
+					unit = nil
 				}
+				started = true
 			}
+			if started {
+				unit = append(unit, packet.Payload...)
+			}
+		}
+		if started {
+			output <- unit
 		}
 	}()
 	return output
-- 
2.43.0


From 180f220b60049e89cd509ed5030d959a33f2b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 10/34] fix: pes.Packet.Next keeps the previous packet's header
 and payload

---
 pes/packet.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..094b054 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -54,6 +54,8 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		err error
 	)
 
+	packet.Header, packet.Payload = nil, nil
+
 	val, err = reader.Peek32(24)
 
 	if err != nil {
-- 
2.43.0


From 03c70c93579262265906a4695e4923660aeaac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 11/34] fix: pes.Packet.Next leaves the payload of stream types
 without a header in the source

---
 pes/packet.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 094b054..02eccec 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -108,6 +108,14 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		// stream types without a Header carry payload only
+		payloadLen := int(packet.PacketLength)
+		packet.Payload = make([]byte, payloadLen)
+		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From ef52e22656835e36a2244b81d5ed3dd8f167bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 12/34] fix: PES lengths too small for the header are errors,
 not panics or endless stuffing

---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..a6c3808 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -166,6 +166,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if bytesRead-minimumHeaderSize > header.HeaderDataLength {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 02eccec..2d58816 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("length too small for the header")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -87,6 +88,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if packet.PacketLength < headerLen {
+				return ErrInvalidLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 579cd20ca4607dc7806b988350b4fe212370f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 13/34] fix: PES header parts that are not decoded are skipped
 instead of panicking

---
 pes/extension.go | 26 +++++++++++++++++++++++---
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..3071a84 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -58,11 +58,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err := r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err := r.Skip(16); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -83,7 +93,17 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		if v, err := r.Read32(1); v != 1 || err != nil {
+			return nil, 0, ErrMarkerNotFound
+		}
+		length, err := r.Read32(7)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err := r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
diff --git a/pes/header.go b/pes/header.go
index a6c3808..76e901f 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -136,23 +136,38 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 	}
 
 	if header.EscrFlag {
-		panic("escr")
+		if err := reader.Skip(48); err != nil { // ESCR_base, ESCR_extension
+			return nil, 0, err
+		}
+		bytesRead += 6
 	}
 
 	if header.EsRateFlag {
-		panic("es rate")
+		if err := reader.Skip(24); err != nil { // ES_rate
+			return nil, 0, err
+		}
+		bytesRead += 3
 	}
 
 	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
+		if err := reader.Skip(8); err != nil { // trick_mode_control
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
+		if err := reader.Skip(8); err != nil { // additional_copy_info
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.CrcFlag {
-		panic("crc flag")
+		if err := reader.Skip(16); err != nil { // previous_PES_packet_CRC
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From 9263e394bd6717459ed94585baa9835a0350fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 14/34] fix: pes payload reader ends at the first payload unit
 when packets declare their length

---
 pes/payload_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..ffdbb5f 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -3,6 +3,7 @@ package pes
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/ts"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
@@ -36,6 +37,11 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 
 	// Fill from packet stream
 	for len(p) > 0 {
+		// a payload unit that ends between two packets does not end the stream
+		if _, err := r.br.Peek8(8); err == ts.EOP {
+			continue
+		}
+
 		err := r.currentPacket.Next(r.br)
 		if err != nil {
 			return n, err
-- 
2.43.0


From b3605d975cdb4b8d03f88b2c0cb3d0d65f6375cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 15/34] fix: pes payload reader hands out the last bytes before
 the error, so that a bitreader sees them

---
 pes/payload_reader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ffdbb5f..4e12b58 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -17,6 +17,7 @@ type payloadReader struct {
 	br            bitreader.BitReader
 	currentPacket *Packet
 	remainder     bytes.Buffer
+	err           error
 }
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
@@ -42,9 +43,14 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			continue
 		}
 
-		err := r.currentPacket.Next(r.br)
-		if err != nil {
-			return n, err
+		if r.err == nil {
+			r.err = r.currentPacket.Next(r.br)
+		}
+		if r.err != nil && n > 0 {
+			// the bytes first: bitreader drops those that come along with an error
+			return n, nil
+		} else if r.err != nil {
+			return 0, r.err
 		}
 
 		cn := copy(p, r.currentPacket.Payload)
-- 
2.43.0


From a4321c42d14a490673cf5424d7b94ecb89641848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 16/34] fix: ps system header stores video_bound over
 AudioBound

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From e5582c2a383db9dd6e8f3b6d14bd5e39e16cb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 17/34] fix: pack reader takes what follows an empty pack for a
 packet

---
 ps/pack_reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..38478ff 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -52,9 +52,12 @@ STEP:
 
 PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+		return n, err
 	}
 
+	// a pack can be empty
+	goto STEP
+
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-- 
2.43.0


From 72797d072cc0692bdd2e33a6d5c269658a18b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 18/34] fix: pack reader hides errors and returns empty reads
 forever

---
 ps/pack_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index 38478ff..e39ecd4 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -41,7 +41,7 @@ func (pr packreader) Read(d []byte) (int, error) {
 
 STEP:
 	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+		return n, err
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -61,7 +61,7 @@ PACK:
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return n, err
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
-- 
2.43.0


From 470a5057e8c44801648d191d2554d5481464b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 19/34] fix: pack reader hands out the last bytes before
 io.EOF, so that a bitreader sees them

---
 ps/pack_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index e39ecd4..16175bd 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -79,6 +79,10 @@ MORE_PACKETS:
 
 PROGRAM_END:
 
+	if n > 0 {
+		// the bytes first: bitreader drops those that come along with an error
+		return n, nil
+	}
 	pr.br.Skip(32)
 	return n, io.EOF
 }
-- 
2.43.0


From ab5c6f3a0e3e234c59ca7e58067403cc676b9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 20/34] fix: let temporal references wrap at 1024

---
 video/frame_store.go    | 6 +++++-
 video/video_sequence.go | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..51068cd 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -2,6 +2,9 @@ package video
 
 import "image"
 
+// temporal references are 10 bits wide: they count pictures modulo 1024.
+const temporalReferenceMask = 0x3ff
+
 type referenceFrame struct {
 	frame              *image.YCbCr
 	temporal_reference uint32
@@ -22,8 +25,9 @@ func (fs *frameStore) gop() {
 func (fs *frameStore) set(current_temporal_reference uint32) {
 	for _, ref := range fs.frames {
 		if ref.frame != nil {
+			distance := (current_temporal_reference - ref.temporal_reference) & temporalReferenceMask
 			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
+				(distance > 0 && distance <= temporalReferenceMask/2) {
 				fs.past = ref.frame
 			} else {
 				fs.future = ref.frame
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..1a19176 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -83,7 +83,7 @@ func (vs *VideoSequence) Size() (width int, height int) {
 func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
-		vs.frameCounter++
+		vs.frameCounter = (vs.frameCounter + 1) & temporalReferenceMask
 		return img, nil
 	}
 
@@ -92,7 +92,7 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 		if img, err := vs.step(); err != nil {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
-			vs.frameCounter++
+			vs.frameCounter = (vs.frameCounter + 1) & temporalReferenceMask
 			return img, nil
 		}
 	}
-- 
2.43.0


From 87641f48a3d3c0970eed94df49524309f2f794f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 21/34] fix: an invalid coded block pattern is an error

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..75050ae 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From f94945edb46683f9609b4175e354b1691270c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 22/34] fix: coefficients running past the end of a block are
 an error, not a panic

---
 video/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..a16abd0 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,10 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+var ErrInvalidRunLength = errors.New("coefficients run past the end of the block")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -93,6 +96,8 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				QFS[n] = 0
 				n = n + 1
 			}
+		} else if n+run >= blockSize {
+			return ErrInvalidRunLength
 		} else {
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
-- 
2.43.0


From 341c475bc8539a28e930e6fd2913a3f55825471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 23/34] fix: an extension after a group of pictures header is
 an error, not an endless loop

---
 video/extension_and_user_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..535ade3 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -10,6 +10,8 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			if err := br.extension_data(i); err != nil {
 				return err
 			}
+		} else if StartCode(nextbits) == ExtensionStartCode {
+			return ErrUnexpectedStartCode
 		} else if StartCode(nextbits) == UserDataStartCode {
 			if _, err := br.user_data(); err != nil {
 				return err
-- 
2.43.0


From 7e2f94c40fa08505420f982588ddc66513ade11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 24/34] fix: name the unsupported extension in the panic

---
 video/sequence_scalable_extension.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..b405a47 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -49,8 +49,6 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
-
 	/*
 		scalable_mode 2 uimsbf
 		layer_id 4 uimsbf
@@ -71,6 +69,5 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
 	panic("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From 471f170497bddd3940152ead395035a0fa7f5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 25/34] fix: quantiser matrices are transmitted in zigzag order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 11 +++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..e43e6e1 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,8 +34,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -51,8 +51,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -68,7 +68,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -84,7 +84,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.inverseScan()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..14cf904 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,17 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverseScan undoes the zigzag order in which matrices are transmitted (7.3.1).
+func (src quantisationMatrix) inverseScan() (dest quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			dest[v][u] = src[n/8][n%8]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..73f129b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From f1c07c60c22fbb20ad65d2a3ba40a173ba63015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 26/34] fix: slices of tall pictures land in their row, and
 rows outside of the picture are errors

---
 video/slice.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..cdadf56 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -4,6 +4,7 @@ import "errors"
 import "image"
 
 var ErrInvalidReservedBits = errors.New("invalid reserved bits")
+var ErrInvalidSlicePosition = errors.New("slice outside of the picture")
 
 type Slice struct {
 	slice_start_code                  StartCode // 32 bslbf
@@ -39,6 +40,18 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
+	if _, height := br.Size(); height > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+		mb_row += int(s.slice_vertical_position_extension << 7)
+	}
+
+	if mb_row*16 >= frame.Rect.Dy() {
+		return ErrInvalidSlicePosition
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
@@ -48,13 +61,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From 15db1218aa7c2bb372bed5213133d021caa86182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 27/34] fix: macroblocks outside of the picture, missing
 references and vectors out of the reference are errors, not panics

---
 video/copy_macroblocks.go    |  7 ++++--
 video/macroblock.go          | 26 ++++++++++++++++---
 video/motion_compensation.go | 48 ++++++++++++++++++++++++++++++++----
 video/picture_data.go        |  8 ++++++
 4 files changed, 79 insertions(+), 10 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..fd2350a 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -31,16 +31,19 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 	}
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, fs); err != nil {
+				return err
+			}
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 75050ae..20d83bd 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "image"
 
+var ErrInvalidMacroblockAddress = errors.New("macroblock outside of the picture")
+var ErrInvalidSkippedMacroblock = errors.New("macroblocks skipped without a prediction")
+
 var color_channel = [12]int{0, 0, 0, 0, 1, 2, 1, 2, 1, 2, 1, 2}
 
 type Macroblock struct {
@@ -43,21 +47,35 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if mb_address+mb.macroblock_address_increment >= frameSlice.Rect.Dx()>>4 {
+		return 0, ErrInvalidMacroblockAddress
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
 		case PFrame:
+			if br.frameStore.past == nil {
+				return 0, ErrMissingReference
+			}
 			pframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				frameSlice, br.frameStore.past)
 		case BFrame:
-			bframe_copy_macroblocks(
+			if mvd.previous == motionVectorsFormed_None {
+				return 0, ErrInvalidSkippedMacroblock
+			}
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
+		default:
+			return 0, ErrInvalidSkippedMacroblock
 		}
 	}
 
@@ -160,7 +178,9 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore); err != nil {
+			return 0, err
+		}
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..015ae18 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,11 @@
 package video
 
+import "errors"
+import "image"
+
+var ErrMissingReference = errors.New("missing reference picture")
+var ErrInvalidMotionVector = errors.New("motion vector points outside of the reference picture")
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -9,15 +15,13 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
 
 	bState := motionCompensationState{
-		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
-			fs.future != nil,
+		active: (motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward,
 	}
 	fState := motionCompensationState{
-		active: ((motionVectors.previous & motionVectorsFormed_FrameForward) == motionVectorsFormed_FrameForward) &&
-			fs.past != nil,
+		active: (motionVectors.previous & motionVectorsFormed_FrameForward) == motionVectorsFormed_FrameForward,
 	}
 
 	// project _future_ temporal sample _backward_...
@@ -37,6 +41,9 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		horizontal, vertical = horizontal>>1, vertical>>1
 
 		image := fs.future
+		if err := checkReference(image, i, mb_row, mb_addr, horizontal, vertical, bState.h_half, bState.v_half); err != nil {
+			return err
+		}
 
 		// channel switch
 		switch i {
@@ -79,6 +86,9 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		horizontal, vertical = horizontal>>1, vertical>>1
 
 		image := fs.past
+		if err := checkReference(image, i, mb_row, mb_addr, horizontal, vertical, fState.h_half, fState.v_half); err != nil {
+			return err
+		}
 
 		// channel switch
 		switch i {
@@ -152,4 +162,32 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			b[v*8+u] += pel >> (samples - 1)
 		}
 	}
+
+	return nil
+}
+
+// checkReference reports an error unless the displaced macroblock lies within the reference (7.6.3.8).
+func checkReference(reference *image.YCbCr, i, mb_row, mb_addr, horizontal, vertical int, h_half, v_half bool) error {
+	if reference == nil {
+		return ErrMissingReference
+	}
+
+	size, w, h := 16, reference.Rect.Dx(), reference.Rect.Dy()
+	if i >= 4 {
+		size, w, h = 8, w/2, h/2
+	}
+
+	left, top := mb_addr*size+horizontal, mb_row*size+vertical
+	right, bottom := left+size, top+size
+	if h_half {
+		right++
+	}
+	if v_half {
+		bottom++
+	}
+
+	if left < 0 || top < 0 || right > w || bottom > h {
+		return ErrInvalidMotionVector
+	}
+	return nil
 }
diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..b8fabbe 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -27,6 +27,14 @@ func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
+	// References of another size are of no use
+	if past := self.frameStore.past; past != nil && past.Rect != frame.Rect {
+		self.frameStore.past = nil
+	}
+	if future := self.frameStore.future; future != nil && future.Rect != frame.Rect {
+		self.frameStore.future = nil
+	}
+
 	for {
 		if err := self.slice(frame); err != nil {
 			return nil, err
-- 
2.43.0


From 1881575164b2b212b08935530e12bfe769d74a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 28/34] fix: motion compensation rounds half up and halves
 chroma vectors toward zero

---
 video/motion_compensation.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 015ae18..1ad141f 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -31,8 +31,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -76,8 +76,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -126,15 +126,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -146,20 +146,23 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			if samples == 2 {
+				pel = (pel + 1) / 2
+			}
+			b[v*8+u] += pel
 		}
 	}
 
-- 
2.43.0


From 854c81310289d4d38aa2f118ce39b3bd418ee4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 29/34] fix: the prediction of field coded macroblocks is
 interleaved like their residual

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 19 ++++++++++++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index fd2350a..b94c24a 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -38,7 +38,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, fs); err != nil {
+			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs); err != nil {
 				return err
 			}
 			b.clamp(&cb)
diff --git a/video/macroblock.go b/video/macroblock.go
index 20d83bd..97e63da 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -178,7 +178,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore); err != nil {
+		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore); err != nil {
 			return 0, err
 		}
 		b.clamp(&cb)
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 1ad141f..77b1d00 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -11,11 +11,12 @@ type motionCompensationState struct {
 	i       int
 	channel []uint8
 	stride  int
+	step    int // from one line of the block to the next
 	h_half  bool
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) error {
 
 	bState := motionCompensationState{
 		active: (motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward,
@@ -59,9 +60,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
+			bState.step = bState.stride
 			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			if interlaced {
+				bState.step = bState.stride * 2
+				bState.i = (((mb_row * 16) + (i&2)>>1) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			}
 		case 4, 5:
 			bState.stride = image.CStride
+			bState.step = bState.stride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
 		}
 
@@ -103,9 +110,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
+			fState.step = fState.stride
 			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			if interlaced {
+				fState.step = fState.stride * 2
+				fState.i = (((mb_row * 16) + (i&2)>>1) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			}
 		case 4, 5:
 			fState.stride = image.CStride
+			fState.step = fState.stride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
 		}
 
@@ -118,7 +131,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			var samples uint = 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * fState.step) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -138,7 +151,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * bState.step) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From f2370d9d2cf428bef711b5dd87e3e0e8f3d3598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 30/34] fix: reserved f_codes and motion types are errors, and
 concealment vectors need no motion type

---
 video/macroblock.go         | 4 ++++
 video/motion_vector_info.go | 8 ++++++++
 video/motion_vectors.go     | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/video/macroblock.go b/video/macroblock.go
index 97e63da..050fc6d 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -297,12 +297,16 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 				mb.frame_motion_type, err = br.Read32(2)
 				if err != nil {
 					return err
+				} else if mb.frame_motion_type == 0 {
+					return ErrInvalidMotionType
 				}
 			}
 		} else {
 			mb.field_motion_type, err = br.Read32(2)
 			if err != nil {
 				return err
+			} else if mb.field_motion_type == 0 {
+				return ErrInvalidMotionType
 			}
 		}
 	}
diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..6585ecc 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -19,6 +19,14 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	}
 
+	// concealment motion vectors (6.3.17.1)
+	if mb.macroblock_type.macroblock_intra {
+		if fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+			return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+	}
+
 	switch mb.frame_motion_type {
 	case 1:
 		return motionVectorInfo{2, motionVectorFormat_Field, 0}
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..88f4e7c 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -1,8 +1,12 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/huffman"
 import "github.com/32bitkid/bitreader"
 
+var ErrInvalidFCode = errors.New("invalid f_code")
+var ErrInvalidMotionType = errors.New("invalid motion type")
+
 type motionVectors [2][2][2]int
 type motionVectorPredictions motionVectors
 
@@ -126,6 +130,9 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 	mvd.info = mv_info(fp, mb)
 
 	motion_vector_part := func(r, s, t int) error {
+		if f_code[s][t] < 1 || f_code[s][t] > 9 {
+			return ErrInvalidFCode
+		}
 		if code, err := decodeMotionCode(fp); err != nil {
 			return err
 		} else {
-- 
2.43.0


From a04f2ef84f1800fd89af7683b9d2df1ba937da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 31/34] fix: picture coding types and chroma formats that
 cannot be decoded are errors, not panics

---
 video/macroblock.go   | 3 ++-
 video/picture_data.go | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 050fc6d..8f0af7d 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -3,6 +3,7 @@ package video
 import "errors"
 import "image"
 
+var ErrUnsupportedPictureCodingType = errors.New("unsupported picture coding type")
 var ErrInvalidMacroblockAddress = errors.New("macroblock outside of the picture")
 var ErrInvalidSkippedMacroblock = errors.New("macroblocks skipped without a prediction")
 
@@ -274,7 +275,7 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 	case BFrame:
 		typeDecoder = macroblockTypeDecoder.BFrame
 	default:
-		panic("not implemented: macroblock type decoder")
+		return ErrUnsupportedPictureCodingType
 	}
 
 	mb.macroblock_type, err = typeDecoder(br)
diff --git a/video/picture_data.go b/video/picture_data.go
index b8fabbe..a925668 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -1,7 +1,10 @@
 package video
 
+import "errors"
 import "image"
 
+var ErrUnsupportedChromaFormat = errors.New("unsupported chroma format")
+
 func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
@@ -24,6 +27,10 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
+	if self.SequenceExtension.chroma_format != ChromaFormat420 {
+		return nil, ErrUnsupportedChromaFormat
+	}
+
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
-- 
2.43.0


From 2fa7fcadba2b8a0139ebcf19b9b17093cf063231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 32/34] fix: a sequence header without a sequence extension is
 not resumed from

---
 video/frame_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..996c499 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -12,7 +12,7 @@ var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video st
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil {
+	if self.SequenceHeader != nil && self.SequenceExtension != nil {
 		goto RESUME
 	}
 
-- 
2.43.0


From 76a950934fb2edf91cb72d6664bc997cd8be33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 33/34] fix: PES headers report the source's error, not a
 missing marker

---
 pes/extension.go |  8 ++++++--
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 3071a84..7cabe6d 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -76,7 +76,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
@@ -93,7 +95,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		if v, err := r.Read32(1); v != 1 || err != nil {
+		if v, err := r.Read32(1); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 		length, err := r.Read32(7)
diff --git a/pes/header.go b/pes/header.go
index 76e901f..703bd55 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,7 +31,10 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
-	if val != 2 || err != nil {
+	if err != nil {
+		return nil, 0, err
+	}
+	if val != 2 {
 		return nil, 0, ErrMarkerNotFound
 	}
 
@@ -217,7 +220,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
-	if val != marker || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != marker {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -229,7 +235,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -241,7 +250,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -253,7 +265,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
-- 
2.43.0


From 0f0738bcd231ad26b66ddca2b231c1ba917ecb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 34/34] fix: a sequence after a sequence end code starts afresh

---
 video/frame_provider.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 996c499..6eef316 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -87,6 +87,11 @@ MORE_FRAMES:
 
 RESUME:
 
+	// stuffing can precede the start code
+	if err := next_start_code(self); err != nil {
+		return nil, err
+	}
+
 	if nextbits, err := self.Peek32(32); err != nil {
 		return nil, err
 	} else if StartCode(nextbits) == PictureStartCode {
@@ -102,6 +107,9 @@ RESUME:
 		if err := self.Skip(32); err != nil {
 			return nil, err
 		}
+		// nothing carries over to another sequence
+		self.frameStore = frameStore{}
+		self.frameCounter = 0
 		goto END_OF_STREAM
 	}
 
-- 
2.43.0

