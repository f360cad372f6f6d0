From 6226cd7a3f93de3402edd13a2ed0b3ad4c97b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 01/29] fix: Collector must not pool segments of unsupported
 TPDU types

Collect carried on after pduKey failed, so concatenated TPDUs other than
SMS-SUBMIT and SMS-DELIVER all shared the empty key: unrelated messages
were mixed, and differing segment counts panicked.
---
 collect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index 445585e..747482a 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
@@ -141,7 +144,7 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 			}
 		})
 	}
-	return nil, err
+	return nil, nil
 }
 
 func pduKey(pdu tpdu.TPDU, segments, concatRef int) (string, error) {
-- 
2.43.0


From 6c5d7917deab7cc708049343cdf22ce2b212b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 02/29] fix: Collector.Pipes must return a snapshot

The slices returned were the live reassembly buffers, so they changed under
the caller, and reading them raced with Collect.
---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index 747482a..bff5abd 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From 9402b83af9c39c074f3f57b17630a384b73c5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:06 +0000
Subject: [PATCH 03/29] fix: bound information elements by the UDHL

An IE longer than the remainder of the UDH was read from the user data that
follows the header, which was then also returned as user data.
---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From e97192d30fdaf03abab6432c81875d986f5ee647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 04/29] fix: locate USSD filler by bit position

Filler was detected from the value of the final octet, so final characters
that happen to leave small values there were corrupted by Pack7BitUSSD or
dropped by Unpack7BitUSSD, and filler was not added after a final '@'.
---
 encoding/gsm7/7bit.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..c72c158 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -91,9 +91,10 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 		return append(b[:0:0], b...)
 	}
 	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
+	switch bits := len(u)*7 + fillBits; {
+	case bits&0x7 == 1:
 		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
+	case bits&0x7 == 0 && u[len(u)-1] == cr:
 		b = append(b, cr)
 	}
 	return b
@@ -111,8 +112,17 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	if len(p) > 1 {
+		switch last := len(p) - 1; (len(p)*8 - fillBits) % 7 {
+		case 0: // final septet ends on the octet boundary
+			if p[last]>>1 == cr {
+				u = u[:len(u)-1]
+			}
+		case 1: // final septet starts on the octet boundary
+			if p[last] == cr && p[last-1]>>1 == cr {
+				u = u[:len(u)-1]
+			}
+		}
 	}
 	return u
 }
-- 
2.43.0


From 7f40d849999a745cfaab540ec6e3fe24a045a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:44 +0000
Subject: [PATCH 05/29] fix: encode a 5 minute relative validity period

5 minutes was encoded as 1, which is 10 minutes.
---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..f983bb8 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -215,7 +215,7 @@ func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
 		t := byte(d / (time.Minute * 5))
-		if t > 1 {
+		if t > 0 {
 			t--
 		}
 		return t
-- 
2.43.0


From 797b1d1bc890508ccf80f45e302a7d7bfa3298ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 06/29] fix: do not encode U+001B as a bare GSM7 escape

The septet 0x1b is the escape, so encoding the ESC character as itself
altered the meaning of the character following it.
---
 encoding/gsm7/gsm7.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..19af454 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -219,12 +219,12 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
 		g, ok := e.set[u]
-		if ok {
+		if ok && g != esc {
 			dst = append(dst, g)
 			continue
 		}
 		g, ok = e.ext[u]
-		if ok {
+		if ok && g != esc {
 			dst = append(dst, esc, g)
 			continue
 		}
-- 
2.43.0


From 34539b53ac6efe1f6be5e37ffccf18ec23ecd388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 07/29] fix: keep the template UDH when adding national
 language IEs

The IEs identifying the character set replaced the UDH provided by the
template rather than extending it.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 63e9d05..b0e3711 100644
--- a/encode.go
+++ b/encode.go
@@ -107,7 +107,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From a85bb49d0f2c690da719982cd75c3ce94b0033e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 08/29] fix: WithUDH must set the UDHI

Without it the UDH is marshalled but not flagged, so it is decoded as part
of the message.
---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 97e57190b99ef05b98252efc6bdc2148d8ff0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 09/29] fix: marshal the UDH of SMS-COMMAND

It was read by unmarshalCommand but dropped by marshalCommand.
---
 encoding/tpdu/tpdu.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..a81640a 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -405,12 +405,18 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		// never trips as UDH marshalling never fails...
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From a55edd61fd00bd864dd83887d418d61634b22e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 10/29] fix: Decode must not write into the UD it is decoding

The dangling surrogate aliases the UD of the previous segment, so appending
to it could overwrite whatever follows in its backing array.
---
 sms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..d5fcbcd 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,7 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 6d32531cd939e2433e226212807f7baf2e279239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 11/29] fix: lazy generation of charset tables must be safe for
 concurrent use

Concurrent encodes or decodes raced on the package level tables.
---
 encoding/gsm7/charset/charset.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..06b3df9 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,8 +5,15 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+import "sync"
+
+// mu covers the lazy generation of the mapping tables.
+var mu sync.Mutex
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultDecoder == nil {
 		defaultDecoder = generateDefaultDecoder()
 	}
@@ -16,6 +23,8 @@ func DefaultDecoder() Decoder {
 // NewDecoder returns the mapping table from GSM7 to UTF8 for the given language.
 func NewDecoder(nli int) Decoder {
 	if di, ok := decoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *di.e == nil {
 			*di.e = di.g()
 		}
@@ -39,6 +48,8 @@ func NewExtDecoder(nli int) Decoder {
 
 // DefaultEncoder returns the default mapping table from UTF8 to GSM7.
 func DefaultEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultEncoder == nil {
 		defaultEncoder = generateDefaultEncoder()
 	}
@@ -48,6 +59,8 @@ func DefaultEncoder() Encoder {
 // NewEncoder returns the mapping table from UTF8 to GSM7 for the given language.
 func NewEncoder(nli int) Encoder {
 	if ei, ok := encoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
@@ -58,6 +71,8 @@ func NewEncoder(nli int) Encoder {
 
 // DefaultExtEncoder returns the default extension mapping table from UTF8 to GSM7.
 func DefaultExtEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultExtEncoder == nil {
 		defaultExtEncoder = generateDefaultExtEncoder()
 	}
@@ -67,6 +82,8 @@ func DefaultExtEncoder() Encoder {
 // NewExtEncoder returns the extension mapping table from UTF8 to GSM7 for the given language.
 func NewExtEncoder(nli int) Encoder {
 	if ei, ok := extEncoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
-- 
2.43.0


From c6ae4fefa0de83d3353553c22d5289b236ae2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 12/29] fix: Segment must not write into the UDH of the
 template

Appending the concatenation IE to the UDH overwrote whatever follows it in
the caller's backing array, and raced when segmenting concurrently.
---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index a81640a..f3d9a15 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From b7a16ac93b80b1c2658e18e6c19ba833f3fa15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 13/29] fix: options to Encode must not be visible to
 concurrent calls

They were appended to the slice of options shared by all the calls on the
Encoder, so concurrent calls raced and could use each others options.
---
 encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encode.go b/encode.go
index b0e3711..b519d9e 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,7 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)] // not shared with other calls
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
-- 
2.43.0


From cb7d0237859110f28043d8657f9ecfde71d160cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 14/29] fix: do not split an escape following an escaped escape

An escape at the end of the block is only complete if the run of escapes
that it ends has even length.
---
 encoding/tpdu/tpdu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index f3d9a15..8edb92f 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1141,7 +1141,11 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 	bend := bs
 	for bend < len(msg) {
 		// don't split escapes
-		if msg[bend-1] == esc && msg[bend-2] != esc {
+		escs := 0
+		for bend-escs > bstart && msg[bend-escs-1] == esc {
+			escs++
+		}
+		if escs&0x1 == 0x1 {
 			bend--
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From 45e4ee9098911a738c174e551a1fd9ba1b525ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 15/29] fix: segmentation must terminate when the UDH leaves no
 room

A template UDH that fills the TPDU made Segment panic or loop forever,
appending empty segments.
---
 encode.go             | 12 ++++++++++--
 encoding/tpdu/tpdu.go | 19 +++++++++++++++++++
 error.go              |  3 +++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index b519d9e..89694c0 100644
--- a/encode.go
+++ b/encode.go
@@ -96,7 +96,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	alpha, _ := e.pdu.DCS.Alphabet()
 	switch alpha {
 	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
-		return e.pdu.Segment(msg, sopts...), nil
+		return segment(e.pdu, msg, sopts)
 	default:
 		// encode as GSM7, or failing that UCS2...
 		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
@@ -110,10 +110,18 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 		if udh != nil {
 			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
-		return e.pdu.Segment(d, sopts...), nil
+		return segment(e.pdu, d, sopts)
 	}
 }
 
+func segment(t tpdu.TPDU, msg []byte, sopts []tpdu.SegmentationOption) ([]tpdu.TPDU, error) {
+	pdus := t.Segment(msg, sopts...)
+	if len(pdus) == 0 && len(msg) != 0 {
+		return nil, ErrMessageTooLong
+	}
+	return pdus, nil
+}
+
 // Counter is an implementation of the tpdu.Counter interface.
 //
 // It also provides a Read method on the current value for diagnostic purposes.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 8edb92f..0345b40 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -186,6 +186,8 @@ type SegmentationOption func(*segmentationConfig)
 // the message.  For multi-part messages, the UDH provided in the TPDU is
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
+//
+// Returns nil if the UDH does not leave sufficient space for the message.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -210,6 +212,10 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
+	if count == 0 {
+		// UDH leaves no room for the message
+		return nil
+	}
 	pdus := make([]TPDU, count)
 	concatRef := 1
 	if cfg.cr != nil {
@@ -1116,7 +1122,12 @@ const (
 )
 
 // chunk splits a message into chunks that are not larger than bs.
+//
+// Returns nil if bs is too small to hold a character of the message.
 func chunk(msg []byte, alpha Alphabet, bs int) [][]byte {
+	if bs < 1 || (alpha == AlphaUCS2 && bs < 2) {
+		return nil
+	}
 	switch alpha {
 	default: // default to 7Bit
 		return chunk7Bit(msg, bs)
@@ -1148,6 +1159,10 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 		if escs&0x1 == 0x1 {
 			bend--
 		}
+		if bend == bstart {
+			// no room for an escaped character
+			return nil
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
@@ -1206,6 +1221,10 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 		if surrHighStart <= r && r < surrLowStart {
 			bend = bend - 2
 		}
+		if bend == bstart {
+			// no room for a surrogate pair
+			return nil
+		}
 		chunks = append(chunks, msg[bstart:bend])
 		bstart = bend
 		bend = bstart + bs
diff --git a/error.go b/error.go
index 375f432..834e53b 100644
--- a/error.go
+++ b/error.go
@@ -22,6 +22,9 @@ var (
 	// cannot be used to determine which of the two may better fit the
 	// reassembly, so the first is kept and the second discarded.
 	ErrDuplicateSegment = errors.New("duplicate segment")
+	// ErrMessageTooLong indicates the message cannot be segmented into TPDUs
+	// based on the template TPDU.
+	ErrMessageTooLong = errors.New("message too long")
 	// ErrReassemblyInconsistency indicates a segment has arrived for a
 	// reassembly that has a seqno greater than the number of segments in the
 	// reassembly.
-- 
2.43.0


From dbfc903ca8e82c86e81f473c218c123974e82c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 16/29] fix: limit concatenated messages to 255 segments

The total and sequence numbers are single octets, so they wrapped for longer
messages, and the resulting TPDUs could not be reassembled.
---
 encoding/tpdu/tpdu.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 0345b40..3a43f82 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -187,7 +187,8 @@ type SegmentationOption func(*segmentationConfig)
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
 //
-// Returns nil if the UDH does not leave sufficient space for the message.
+// Returns nil if the UDH does not leave sufficient space for the message, or
+// the message requires more segments than a concatenation IE can describe.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -212,8 +213,8 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
-	if count == 0 {
-		// UDH leaves no room for the message
+	if count == 0 || count > maxSegments {
+		// UDH leaves no room for the message, or too many segments
 		return nil
 	}
 	pdus := make([]TPDU, count)
@@ -978,6 +979,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 	return b, nil
 }
 
+// maxSegments is the maximum number of segments in a concatenated message.
+const maxSegments = 255
+
 // MaxUDL is the maximum number of octets that can be encoded into the UD.
 // Note that for 7bit encoding this can result in up to 160 septets.
 const MaxUDL = 140
-- 
2.43.0


From 8b8bef6f41c6751ee41fe4c4deae61acaa77dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 17/29] fix: IsCompleteMessage must accept missing segments

Incomplete sets, as passed to the expiry handler or returned by Pipes,
contain nil for the segments that are missing, and caused a panic.
---
 sms.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index d5fcbcd..8d6a6a5 100644
--- a/sms.go
+++ b/sms.go
@@ -63,7 +63,7 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 // IsCompleteMessage confirms that the TPDUs contain all the sgements required
 // to reassemble a complete message and are in the correct order.
 func IsCompleteMessage(segments []*tpdu.TPDU) bool {
-	if len(segments) == 0 {
+	if len(segments) == 0 || segments[0] == nil {
 		return false
 	}
 	baseSegs, _, baseConcatRef, ok := segments[0].ConcatInfo()
@@ -74,6 +74,9 @@ func IsCompleteMessage(segments []*tpdu.TPDU) bool {
 		return false
 	}
 	for i, s := range segments {
+		if s == nil {
+			return false
+		}
 		segs, seqno, concatRef, ok := s.ConcatInfo()
 		if !ok {
 			return false
-- 
2.43.0


From d2f50b9619bf63f51030407af39d81ee381e402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 18/29] fix: an unpaired surrogate must not consume the next
 character

The character following an unpaired surrogate was dropped by Decode.
---
 encoding/ucs2/ucs2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..24d36ea 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -31,9 +32,11 @@ func Decode(src []byte) ([]rune, error) {
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
+			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != unicode.ReplacementChar {
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From 16d4959a621a67d31ba2a40f46b1c4a29f776520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 19/29] fix: do not marshal fields with lengths that do not fit
 an octet

The lengths were truncated, so the resulting binary could not be decoded,
or decoded to something else.
---
 encoding/pdumode/smscaddress.go |  3 +++
 encoding/tpdu/address.go        |  3 +++
 encoding/tpdu/error.go          |  3 ++-
 encoding/tpdu/tpdu.go           | 11 +++++++++--
 encoding/tpdu/userdata.go       |  3 +++
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..08a6154 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -33,6 +33,9 @@ func (a *SMSCAddress) MarshalBinary() (dst []byte, err error) {
 		return []byte{0}, nil
 	}
 	l := len(addr) + 1 // in octets and includes the toa
+	if l > 255 {
+		return nil, tpdu.EncodeError("addr", tpdu.ErrOverlength)
+	}
 	dst = make([]byte, 2, l+1)
 	dst[0] = byte(l)
 	dst[1] = a.TOA
diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index 0f210df..ff02d29 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -64,6 +64,9 @@ func (a *Address) MarshalBinary() (dst []byte, err error) {
 		}
 		l = len(a.Addr)
 	}
+	if l > maxOctet {
+		return nil, EncodeError("addr", ErrOverlength)
+	}
 	dst = make([]byte, 0, l+2)
 	dst = append(dst, byte(l), a.TOA)
 	dst = append(dst, addr...)
diff --git a/encoding/tpdu/error.go b/encoding/tpdu/error.go
index b5d655e..7da1f8b 100644
--- a/encoding/tpdu/error.go
+++ b/encoding/tpdu/error.go
@@ -78,7 +78,8 @@ var (
 	ErrOddUCS2Length = errors.New("odd UCS2 length")
 
 	// ErrOverlength indicates the binary provided contains more bytes than
-	// expected by the TPDU decoder.
+	// expected by the TPDU decoder, or the length of a field provided to an
+	// encoder exceeds that which can be encoded.
 	ErrOverlength = errors.New("overlength")
 
 	// ErrMissing indicates a field requiored to marshal an object is missing.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 3a43f82..eaf43a9 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -414,10 +414,12 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	}
 	udh, err := t.UDH.MarshalBinary()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	cdl := len(udh) + len(t.UD)
+	if cdl > maxOctet {
+		return nil, EncodeError("cd", ErrOverlength)
+	}
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
@@ -941,7 +943,6 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 func (t *TPDU) encodeUserData() (b []byte, err error) {
 	udh, err := t.UDH.MarshalBinary()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	ud := t.UD
@@ -972,6 +973,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 		// udl is in octets
 		udl = udl + len(udh)
 	}
+	if udl > maxOctet {
+		return nil, EncodeError("sm", ErrOverlength)
+	}
 	b = make([]byte, 0, 1+len(udh)+len(ud))
 	b = append(b, byte(udl))
 	b = append(b, udh...)
@@ -979,6 +983,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 	return b, nil
 }
 
+// maxOctet is the maximum value of a field contained in a single octet.
+const maxOctet = 255
+
 // maxSegments is the maximum number of segments in a concatenated message.
 const maxSegments = 255
 
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 60fd1f1..dfd0fb8 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -50,6 +50,9 @@ func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
 		return nil, nil
 	}
 	udhl := udh.UDHL()
+	if udhl > maxOctet {
+		return nil, ErrOverlength
+	}
 	b := make([]byte, 0, udhl+1)
 	b = append(b, byte(udhl))
 	for _, ie := range udh {
-- 
2.43.0


From 594c3032672e7023c993008f593d169125df12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 20/29] fix: reject octets following an empty user data field

Octets in excess of the UDL were only detected for a non-zero UDL.
---
 encoding/tpdu/tpdu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index eaf43a9..37f147f 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -851,6 +851,9 @@ func (t *TPDU) decodeUserData(src []byte) error {
 	}
 	udl := int(src[0])
 	if udl == 0 {
+		if len(src) > 1 {
+			return NewDecodeError("ud", 1, ErrOverlength)
+		}
 		return nil
 	}
 	var udh UserDataHeader
-- 
2.43.0


From ca746652d4c1c631ef73b453d12af536f82c6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 21/29] fix: smssubmit must report marshalling errors

---
 cmd/smssubmit/smssubmit.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/smssubmit/smssubmit.go b/cmd/smssubmit/smssubmit.go
index 9b56580..6239b21 100644
--- a/cmd/smssubmit/smssubmit.go
+++ b/cmd/smssubmit/smssubmit.go
@@ -39,12 +39,20 @@ func main() {
 		return
 	}
 	if len(pdus) == 1 {
-		b, _ := pdus[0].MarshalBinary()
+		b, err := pdus[0].MarshalBinary()
+		if err != nil {
+			log.Println(err)
+			return
+		}
 		fmt.Printf("Submit TPDU:\n%s\n", hex.EncodeToString(b))
 		return
 	}
 	for i, p := range pdus {
-		b, _ := p.MarshalBinary()
+		b, err := p.MarshalBinary()
+		if err != nil {
+			log.Println(err)
+			return
+		}
 		fmt.Printf("Submit TPDU %d:\n%s\n", i+1, hex.EncodeToString(b))
 	}
 }
-- 
2.43.0


From 532c880bde95d25e93134067795f5a8ea70a26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 22/29] fix: smsdecode must include the UDH of SMS-COMMAND

---
 cmd/smsdecode/smsdecode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/smsdecode/smsdecode.go b/cmd/smsdecode/smsdecode.go
index f1c1c46..dbe02a4 100644
--- a/cmd/smsdecode/smsdecode.go
+++ b/cmd/smsdecode/smsdecode.go
@@ -102,7 +102,14 @@ func dumpCommand(w io.Writer, t *tpdu.TPDU) {
 	fmt.Fprintf(w, "TP-MN: %d\n", t.MN)
 	fmt.Fprintf(w, "TP-DA: %s\n", t.DA.Number())
 	fmt.Fprintf(w, "TP-SCTS: %s\n", t.SCTS)
-	fmt.Fprintf(w, "TP-CDL: %d\n", len(t.UD))
+	cdl := len(t.UD)
+	if t.UDH != nil {
+		cdl += t.UDHL() + 1
+	}
+	fmt.Fprintf(w, "TP-CDL: %d\n", cdl)
+	if t.UDH != nil {
+		dumpUDH(w, t.UDH)
+	}
 	dumpCD(w, t.UD)
 }
 
-- 
2.43.0


From df7de560f8ad1c54d0e7463b25c283f5a847da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 23/29] fix: reading a TPDU must leave nothing of what it held
 before

---
 encoding/tpdu/tpdu.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 37f147f..9dc7a31 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -584,6 +584,7 @@ func (t *TPDU) UnmarshalBinary(src []byte) (err error) {
 	if len(src) < 1 {
 		return NewDecodeError("tpdu.firstOctet", 0, ErrUnderflow)
 	}
+	*t = TPDU{Direction: t.Direction} // nothing remains of what it held before
 	t.FirstOctet = FirstOctet(src[0])
 	st := smsType(t.FirstOctet.MTI(), t.Direction)
 	switch st {
-- 
2.43.0


From 63b66dc522c71aeeaf090ab2d735d35663660ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 24/29] fix: reading a validity period must leave nothing of
 what it held before

---
 encoding/tpdu/validityperiod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index f983bb8..dc335af 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -96,7 +96,7 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 // Returns the number of bytes read from the src, and any error detected during
 // the unmarshalling.
 func (v *ValidityPeriod) UnmarshalBinary(src []byte, vpf ValidityPeriodFormat) (int, error) {
-	v.Format = VpfNotPresent
+	*v = ValidityPeriod{} // nothing remains of what it held before
 	switch vpf {
 	case VpfAbsolute:
 		t := Timestamp{}
-- 
2.43.0


From 23b9a9d89c24aa407c9063275d3809f8f2c0d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:30 +0000
Subject: [PATCH 25/29] fix: reading an empty SMSC address must replace the one
 held before

---
 encoding/pdumode/smscaddress.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 08a6154..5ac339b 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -53,6 +53,7 @@ func (a *SMSCAddress) UnmarshalBinary(src []byte) (int, error) {
 	}
 	l := int(src[0]) // len is octets including toa
 	if l == 0 {
+		*a = SMSCAddress{} // nothing remains of what it held before
 		return 1, nil
 	}
 	if len(src) < 2 {
-- 
2.43.0


From 590fda85e5f2c9554aec38410985d13e5982c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:44 +0000
Subject: [PATCH 26/29] fix: the user data of a report of one segment was not
 marshalled

Segment set the UD of single segment TPDUs without the PI bit that says
there is any, so it was dropped when marshalling report types.
---
 encoding/tpdu/tpdu.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 9dc7a31..52176e7 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -201,6 +201,11 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) <= bs {
 		// single segment
 		t.UD = msg
+		switch t.SmsType() {
+		case SmsDeliverReport, SmsSubmitReport, SmsStatusReport:
+			// else the UD is not marshalled
+			t.PI |= PiUDL
+		}
 		if cfg.mr != nil {
 			t.MR = byte(cfg.mr.Count())
 		}
-- 
2.43.0


From a311cbc9fb26d8fbe4947bd7bf742a87ee9b7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:25 +0000
Subject: [PATCH 27/29] fix: a PDU read from octets changed with them

UnmarshalBinary kept a reference to the octets passed in, which the
caller may use again (see encoding.BinaryUnmarshaler).
---
 encoding/pdumode/pdu.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/pdumode/pdu.go b/encoding/pdumode/pdu.go
index 8f3b69f..79853ff 100644
--- a/encoding/pdumode/pdu.go
+++ b/encoding/pdumode/pdu.go
@@ -47,7 +47,8 @@ func (p *PDU) UnmarshalBinary(src []byte) error {
 	if err != nil {
 		return err
 	}
-	p.TPDU = src[n:]
+	// copy, as the caller may reuse src
+	p.TPDU = append([]byte{}, src[n:]...)
 	return nil
 }
 
-- 
2.43.0


From 3f3dba85f2e84d0d40a46b3d67527690735835c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:02 +0000
Subject: [PATCH 28/29] fix: a surrogate dangling before a segment of another
 alphabet got into its text

---
 sms.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8d6a6a5..0668cba 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,13 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
+			if a == tpdu.AlphaUCS2 {
+				ud = append(append([]byte(nil), danglingSurrogate...), ud...)
+			} else {
+				// the other half can not be in this segment
+				ts[i-1] = append(ts[i-1], "\ufffd"...)
+				bl += len("\ufffd")
+			}
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 1de7dce5585cb1afdf706774694c79d016906324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:49 +0000
Subject: [PATCH 29/29] fix: an address with a fill digit among its digits
 instead of after them was accepted

---
 encoding/tpdu/address.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index ff02d29..9a57761 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -112,6 +112,10 @@ func (a *Address) UnmarshalBinary(src []byte) (int, error) {
 		if n != ol || len(baddr) < l {
 			return ri, NewDecodeError("addr", ri-n, ErrUnderflow)
 		}
+		if l&1 == 1 && src[ri-1]>>4 != 0xf {
+			// the fill was among the digits
+			return ri, NewDecodeError("addr", ri-n, semioctet.ErrMissingFill)
+		}
 		a.Addr = string(baddr)
 	}
 	a.TOA = toa
-- 
2.43.0

