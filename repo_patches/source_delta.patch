From 2b5c12bd9f5694819e1d2b1945f9a72a43ad9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:13 +0000
Subject: [PATCH 01/26] fix: report a truncated version 3 signature instead of
 losing it

---
 parse/tags/tag02.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..ece8753 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -48,7 +48,7 @@ func (t *tag02) Parse() (*result.Item, error) {
 		if version.Number() == 3 {
 			_, err2 := t.parseV3(rootInfo)
 			if err2 != nil {
-				return rootInfo, errs.Wrap(err)
+				return rootInfo, errs.Wrap(err2)
 			}
 		}
 	}
-- 
2.43.0


From 0dec3dba6e9614b6a05f1c2f75aa8bcdd4b843cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:14 +0000
Subject: [PATCH 02/26] fix: check the read error before decoding the v5 key
 material length

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From 9264ec6d291b6fce9d239a04d095ade9ca3d27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:14 +0000
Subject: [PATCH 03/26] fix: reject unknown plain secret key material shorter
 than its checksum

---
 parse/pubkey/parse_secplain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/pubkey/parse_secplain.go b/parse/pubkey/parse_secplain.go
index 5c3cffa..5b89d3b 100644
--- a/parse/pubkey/parse_secplain.go
+++ b/parse/pubkey/parse_secplain.go
@@ -2,6 +2,7 @@ package pubkey
 
 import (
 	"fmt"
+	"io"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
@@ -37,6 +38,9 @@ func (p *Pubkey) ParseSecPlain(parent *result.Item) error {
 		}
 	default:
 		length := p.size - 2 //last 2-octet is checksum value
+		if length < 0 {
+			return errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", p.size))
+		}
 		b, err := p.reader.ReadBytes(length)
 		if err != nil {
 			return errs.Wrap(err)
-- 
2.43.0


From ef880bbbcad53918449ff4df11bc4dd8814dfd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:14 +0000
Subject: [PATCH 04/26] fix: read the IV of a v5 secret key from its optional
 fields

---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..9ad88be 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -81,7 +81,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +192,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From e0477cc249243847bd8942f96aeb82f27a42bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:15 +0000
Subject: [PATCH 05/26] fix: take the cipher of a secret key from the usage
 octet when there is no S2K specifier

---
 parse/tags/seckey.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 9ad88be..e2929cc 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -38,7 +38,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 	} else if rOpt != nil {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
 		var symid values.SymID
-		if usage != 0 { //encrypted secret-key
+		switch usage {
+		case 0:
+		case 253, 254, 255:
 			alg, err := rOpt.ReadByte()
 			if err != nil {
 				return errs.New(
@@ -49,6 +51,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 			}
 			symid = values.SymID(alg)
 			parent.Add(symid.ToItem(p.cxt.Debug()))
+		default: //usage octet is a symmetric encryption algorithm identifier
+			symid = values.SymID(usage)
+			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
 		if usage == 253 {
-- 
2.43.0


From 5d64e1ce942c1268b6a03bc6658c4a103d1ee715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:15 +0000
Subject: [PATCH 06/26] fix: image attribute header length is little-endian and
 must fit in the subpacket

---
 parse/tags/sub01.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..e257dc8 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -3,6 +3,7 @@ package tags
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -29,7 +30,7 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := binary.LittleEndian.Uint16(l)
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
@@ -63,6 +64,9 @@ func (s *sub01) Parse() (*result.Item, error) {
 		itm.Note = values.Unknown
 		rootInfo.Add(itm)
 	}
+	if int(length) > s.reader.Len() {
+		return rootInfo, errs.New(fmt.Sprintf("illegal length of image header (length: %d bytes)", length), errs.WithCause(io.ErrUnexpectedEOF))
+	}
 	itm = result.NewItem(
 		result.Name("Image data"),
 		result.Note(fmt.Sprintf("%d bytes", s.reader.Len()-int(length))),
-- 
2.43.0


From 8c21260cda63e15a47663f9f0b6241b3b6efd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:15 +0000
Subject: [PATCH 07/26] fix: number the third and later key flag octets
 correctly

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From e205c50b6e229c2d5ecce90f4be8e62465cbfb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:16 +0000
Subject: [PATCH 08/26] fix: expiration date must not wrap around at 2106-02-07

---
 parse/values/datetime.go | 4 ++--
 parse/values/expire.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..7f1f851 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,9 +57,9 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
 	t := time.Unix(int64(ut), 0)
 	if utcFlag {
 		t = t.In(time.UTC)
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From ef4df159f51e58d253cb61cbfd3bc2c7a7038965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:04 +0000
Subject: [PATCH 09/26] fix: creation times must not leak between signatures
 and keys

---
 parse/tags/pubkey.go | 1 +
 parse/tags/sub38.go  | 4 ++++
 parse/tags/tag02.go  | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..290526e 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -28,6 +28,7 @@ func newPubkey(cxt *context.Context, reader *reader.Reader, pubVer *values.Versi
 
 //Parse Public-key packet
 func (p *pubkeyInfo) Parse(parent *result.Item) error {
+	p.cxt.KeyCreationTime = nil //time of the previous key
 	switch true {
 	case p.pubVer.IsDraft():
 		return p.parseV5(parent)
diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..441afb3 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -47,6 +47,10 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
+	//keys in the key block have nothing to do with the key being signed
+	keyTime := s.cxt.KeyCreationTime
+	s.cxt.KeyCreationTime = nil
+	defer func() { s.cxt.KeyCreationTime = keyTime }()
 	sp, err := NewPackets(s.cxt, s.reader)
 	if err != nil {
 		return errs.Wrap(err)
diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index ece8753..26ddf8f 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -25,6 +25,10 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
 	rootInfo := t.ToItem()
+	//the creation time in subpackets belongs to this signature only
+	sigTime := t.cxt.SigCreationTime
+	t.cxt.SigCreationTime = nil
+	defer func() { t.cxt.SigCreationTime = sigTime }()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
 	if err != nil {
-- 
2.43.0


From acaf63417dd2efa5a7b64944bede6e2b40aea36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 10/26] fix: AEAD encrypted data packet ends the session key
 mode

---
 parse/tags/tag20.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..5c3d61c 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -24,6 +24,7 @@ func newTag20(cxt *context.Context, tag values.TagID, body []byte) Tags {
 // Parse parsing AEAD Encrypted Data Packet Packet
 func (t *tag20) Parse() (*result.Item, error) {
 	rootInfo := t.ToItem()
+	defer t.cxt.ResetAlg()
 	//A one-octet version number.  The only currently defined value is 1.
 	v, err := t.reader.ReadByte()
 	if err != nil {
-- 
2.43.0


From 442fc21eb6ea16eca204b64c2c6ff816037f6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 11/26] fix: report a truncated IV of AEAD encrypted data
 packet

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 5c3d61c..2b398d1 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -60,7 +60,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From 6d5cf9db478ed7f98a751a7d4a05347d54a5f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:06 +0000
Subject: [PATCH 12/26] fix: nonce of OCB mode is 15 octets

---
 parse/values/aeadid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/values/aeadid.go b/parse/values/aeadid.go
index 7e60d20..f4a77be 100644
--- a/parse/values/aeadid.go
+++ b/parse/values/aeadid.go
@@ -13,7 +13,7 @@ var aeadIDNames = Msgs{
 
 var aeadIDIVLen = map[int]int{
 	1: 16, //EAX mode
-	2: 16, //OCB mode
+	2: 15, //OCB mode
 }
 
 var aeadIDTagLen = map[int]int{
-- 
2.43.0


From 3e5b7961d7e1c6e06f2f6d0ec448d6678395b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:06 +0000
Subject: [PATCH 13/26] fix: do not show a wrapped around chunk size

---
 parse/tags/tag20.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2b398d1..d5a9823 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -51,10 +51,13 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal chunk size", errs.WithCause(err))
 	}
-	chunkSize := uint64(1) << (c + 6)
+	chunkSize := values.Unknown
+	if c < 58 { //size in uint64
+		chunkSize = strconv.FormatUint(uint64(1)<<(c+6), 10)
+	}
 	rootInfo.Add(result.NewItem(
 		result.Name("Chunk size"),
-		result.Value(strconv.FormatUint(chunkSize, 10)),
+		result.Value(chunkSize),
 		result.DumpStr(values.DumpByteString(byte(c), true)),
 	))
 	//A starting initialization vector of size specified by the AEAD algorithm.
-- 
2.43.0


From b1d3543b996a960a4b2f8ee4bdd0b6cc33ce70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:06 +0000
Subject: [PATCH 14/26] fix: read the whole input before deciding that it is
 not armored

---
 parse/parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..9278d77 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -31,10 +31,12 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 	case cxt.Armor():
 		r, err = newReaderArmor(reader)
 	default:
-		buf := &bytes.Buffer{}
-		r, err = newReaderArmor(io.TeeReader(reader, buf))
-		if err != nil {
-			r, err = buf, nil
+		var data []byte
+		if data, err = io.ReadAll(reader); err != nil {
+			return nil, errs.Wrap(err)
+		}
+		if r, err = newReaderArmor(bytes.NewReader(data)); err != nil {
+			r, err = bytes.NewReader(data), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 7044938769a15c51be466a8afbdf50bff4b2dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:07 +0000
Subject: [PATCH 15/26] fix: find armor text after lines longer than 64 KiB

---
 armtext/armtext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 957941a..7ad21f2 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -22,6 +23,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	armorFlag := false
 	armorEndFlag := false
 	scn := bufio.NewScanner(r)
+	scn.Buffer(nil, math.MaxInt32) //no practical limit of line length
 	for scn.Scan() {
 		str := scn.Text()
 		if !armorFlag {
-- 
2.43.0


From c018a6f6a7a48e13a483e7c29918c5ec91200058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:07 +0000
Subject: [PATCH 16/26] fix: do not show control characters in format of
 literal data

---
 parse/tags/tag11.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/tag11.go b/parse/tags/tag11.go
index ad2e7e9..9b62cf8 100644
--- a/parse/tags/tag11.go
+++ b/parse/tags/tag11.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"fmt"
+	"unicode"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
@@ -27,7 +28,11 @@ func (t *tag11) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal format", errs.WithCause(err))
 	}
-	rootInfo.Add(values.LiteralFormat(f).ToItem())
+	format := values.LiteralFormat(f).ToItem()
+	if unicode.IsControl(rune(f)) {
+		format.Value = fmt.Sprintf("(%U)", rune(f))
+	}
+	rootInfo.Add(format)
 	flen, err := t.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal length of file name", errs.WithCause(err))
-- 
2.43.0


From 9093a19a1ef0f56fed1002d686b3395c0eebf6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:08 +0000
Subject: [PATCH 17/26] fix: Read2EOF leaves the offset at the end of the
 buffer

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..9666ab8 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From 238d5b511dcd6d8ac957bf1129e7a06a57b7caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:40 +0000
Subject: [PATCH 18/26] fix: read packets of indeterminate length in key block
 sub-packet

---
 parse/tags/sub38.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 441afb3..2c50cd3 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -51,7 +52,7 @@ func (s *sub38) parseKeyData(rootInfo *result.Item) error {
 	keyTime := s.cxt.KeyCreationTime
 	s.cxt.KeyCreationTime = nil
 	defer func() { s.cxt.KeyCreationTime = keyTime }()
-	sp, err := NewPackets(s.cxt, s.reader)
+	sp, err := NewPackets(s.cxt, bytes.NewReader(s.reader.GetBody()[s.reader.Size()-s.reader.Rest():]))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From edf6361fb7bffd617cd1a8e0cd2a91cff9900e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:41 +0000
Subject: [PATCH 19/26] fix: user name must be a single path segment of GitHub
 URL

---
 github/github.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..cb72f7b 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,8 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	return fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", url.PathEscape(username)))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
@@ -86,7 +89,7 @@ func makeURLAPI(username string, page int) (*url.URL, error) {
 	if page < 1 {
 		page = 1
 	}
-	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", username))
+	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", url.PathEscape(username)))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("page", page))
 	}
-- 
2.43.0


From fec95fe9dde0ad58deb1f1a43b3c3749e2cba648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:41 +0000
Subject: [PATCH 20/26] fix: skip null elements in key list from GitHub API

---
 github/github.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/github/github.go b/github/github.go
index cb72f7b..e8ade86 100644
--- a/github/github.go
+++ b/github/github.go
@@ -49,6 +49,9 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
+			if k == nil {
+				continue
+			}
 			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
-- 
2.43.0


From c0b5b153eade8cd984ca17b18a319d84e7a0d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:10 +0000
Subject: [PATCH 21/26] fix: debug mode of a command must not survive into the
 next one

---
 facade/facade.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facade/facade.go b/facade/facade.go
index a0769d7..64154ef 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -35,6 +35,7 @@ var (
 
 //newRootCmd returns cobra.Command instance for root command
 func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
+	debugFlag = false
 	rootCmd := &cobra.Command{
 		Use:   Name,
 		Short: "OpenPGP packet visualizer",
-- 
2.43.0


From 01cf444232be62bf8eb6e5085f8a5588b5e99467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 22/26] fix: garbled word "information" in reason for
 revocation

---
 parse/tags/sub29.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/tags/sub29.go b/parse/tags/sub29.go
index 38b57ec..d009a8f 100644
--- a/parse/tags/sub29.go
+++ b/parse/tags/sub29.go
@@ -20,7 +20,7 @@ var reasonNames = values.Msgs{
 	1:  "Key is superseded (key revocations)",
 	2:  "Key material has been compromised (key revocations)",
 	3:  "Key is retired and no longer used (key revocations)",
-	32: "User ID resultrmation is no longer valid (cert revocations)",
+	32: "User ID information is no longer valid (cert revocations)",
 }
 
 //newSub29 return sub29 instance
@@ -45,7 +45,7 @@ func (s *sub29) Parse() (*result.Item, error) {
 
 	if s.reader.Rest() > 0 {
 		b, _ := s.reader.Read2EOF()
-		rootInfo.Add(values.NewText(b, "Additional resultrmation").ToItem(s.cxt.Debug()))
+		rootInfo.Add(values.NewText(b, "Additional information").ToItem(s.cxt.Debug()))
 	}
 	return rootInfo, nil
 }
-- 
2.43.0


From 39bda59761fd1bc8928da8ca621058e932055add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:41 +0000
Subject: [PATCH 23/26] fix: reading a huge size must not overflow the offset

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 9666ab8..6bb2113 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -112,7 +112,7 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From 4fb39587443056bb3c37e73e8aa4f3963abfc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 24/26] fix: parse without a context instead of a nil pointer
 dereference

---
 parse/tags/packets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tags/packets.go b/parse/tags/packets.go
index 5edc18b..12934c9 100644
--- a/parse/tags/packets.go
+++ b/parse/tags/packets.go
@@ -22,6 +22,9 @@ func NewPackets(cxt *context.Context, reader io.Reader) (*Packets, error) {
 	if reader == nil {
 		return nil, errs.Wrap(ecode.ErrNullPointer)
 	}
+	if cxt == nil {
+		cxt = context.New()
+	}
 	return &Packets{cxt: cxt, opaqueReader: packet.NewOpaqueReader(reader), tag: nil}, nil
 }
 
-- 
2.43.0


From 26688dcb0344a39fed45c1adf28e4bc80e4833d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:36 +0000
Subject: [PATCH 25/26] fix: a missing key server has no URL instead of a nil
 pointer dereference

---
 hkp/hkp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hkp/hkp.go b/hkp/hkp.go
index d51767a..52f5a6f 100644
--- a/hkp/hkp.go
+++ b/hkp/hkp.go
@@ -75,7 +75,7 @@ func (s *Server) String() string {
 //URL returns url.URL instance
 func (s *Server) URL() *url.URL {
 	if s == nil {
-		s = nil
+		return nil
 	}
 	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
 }
@@ -86,6 +86,9 @@ func (s *Server) Fetch(ctx context.Context, cli fetch.Client, userID string) (io
 		"op":     {"get"},
 	}
 	u := s.URL()
+	if u == nil {
+		return nil, errs.Wrap(ecode.ErrNullPointer)
+	}
 	u.Path = "/pks/lookup"
 	u.RawQuery = values.Encode()
 
-- 
2.43.0


From d0a9491b4578cff9d3de687962654e91f1353bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:08 +0000
Subject: [PATCH 26/26] fix: show octets left over in the counted key material
 of a v5 key

---
 parse/tags/pubkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index 290526e..f778723 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -125,7 +125,14 @@ func (p *pubkeyInfo) parseV5(parent *result.Item) error {
 		return errs.New(fmt.Sprintf("illegal key material data (size: %d bytes)", sz64), errs.WithCause(err))
 	}
 	// [10] series of multiprecision integers comprising the key material.
-	return pubkey.New(p.cxt, p.pubID, reader.New(b)).ParsePub(parent) //TODO: new logic for key material
+	r := reader.New(b)
+	if err := pubkey.New(p.cxt, p.pubID, r).ParsePub(parent); err != nil { //TODO: new logic for key material
+		return err
+	}
+	if rest := r.Rest(); 0 < rest && rest < sz64 { //octets after the integers (unknown algorithm: already shown as a whole)
+		parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
+	}
+	return nil
 }
 
 //PubID returns pubID
-- 
2.43.0

