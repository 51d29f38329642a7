From 9e2ac2c307800745fc1e4be6e915192c1c80bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 01/35] fix: bitio: keep a byte delivered together with io.EOF

io.Reader may return the last bytes together with io.EOF. ReadBit dropped
such a byte and returned the error, so a box at the end of a stream could
not be decoded although all of its bytes were delivered.
---
 internal/bitio/read.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..b6fcce7 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,10 +59,12 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
+		// a byte may be delivered together with an error such as io.EOF
+		if n, err := r.reader.Read(buf); n != 1 {
+			if err == nil {
+				err = ErrDiscouragedReader
+			}
 			return false, err
-		} else if n != 1 {
-			return false, ErrDiscouragedReader
 		}
 		r.octet = buf[0]
 		r.width = 8
-- 
2.43.0


From 1a1e4aa3763841ab368f1ebbcf4cd46f0ae4505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 02/35] fix: util: ReadString honours the byte count of Read

ReadString ignored the number of bytes Read delivered: a byte delivered
together with io.EOF was lost, and a read delivering nothing appended a
stale byte to the string.
---
 internal/util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From 6f1d2cf6797c5e5980a740da01e5895b14d320ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 03/35] fix: sgpd: decode roll distances that carry their own
 length

RollDistancesL declared size=16 for an element of 32+16 bits, so every
version 1 roll/prol group with default_length 0 failed to decode with
"invalid alignment".
---
 box_types_iso14496_12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..bf36047 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1554,7 +1554,7 @@ type Sgpd struct {
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
 	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From 69e556559576122e93a54795db1f9547c7e6c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 04/35] fix: hdlr: read a Pascal-style name of 255 bytes

plen+1 was computed in uint8 and wrapped to 0, so the longest Pascal-style
name was taken for a C-style string including its length byte.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index bf36047..964db8e 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -648,8 +648,8 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 		return 0, false, err
 	}
 
-	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	plen := uint64(buf[0])
+	if hdlr.PreDefined != 0 && size >= 2 && size == plen+1 {
 		// Pascal-style String
 		hdlr.Name = string(buf[1 : plen+1])
 	} else {
-- 
2.43.0


From 905253a8874a7e01e6fd4f92cd14bafdf5a51393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/35] fix: probe: apply the constant sample size of stsz

---
 probe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probe.go b/probe.go
index 2ffaf7a..769735c 100644
--- a/probe.go
+++ b/probe.go
@@ -359,6 +359,11 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 	}
 
 	if stsz != nil {
+		if stsz.SampleSize != 0 {
+			for i := 0; i < len(track.Samples) && uint32(i) < stsz.SampleCount; i++ {
+				track.Samples[i].Size = stsz.SampleSize
+			}
+		}
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From e8739001d0b0f983e968cbd7c8efc0ac7d7d8732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 06/35] fix: probe: no division by zero in GetMaxBitrate when a
 window has no duration

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 769735c..5dfce59 100644
--- a/probe.go
+++ b/probe.go
@@ -644,9 +644,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From 6f65f844699d3d4a185fccad83136894e1ebda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 07/35] fix: unmarshal: a stream position behind the end has no
 bytes left

---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..b1f4c0e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -28,7 +28,7 @@ func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
 		return false
 	}
 
-	if uint64(end-pre) < size {
+	if end < pre || uint64(end-pre) < size {
 		return false
 	}
 
-- 
2.43.0


From d0ba8ebe9f38083fbd556e8c3d90e5d6e7f8f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 08/35] fix: box info: refuse sizes smaller than the header or
 beyond any offset

---
 box_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..8f86c7a 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,7 +142,7 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	if bi.Size < bi.HeaderSize || bi.Size > math.MaxInt64-bi.Offset {
 		return nil, fmt.Errorf("invalid size")
 	}
 
-- 
2.43.0


From bd4f91a91757d3315025c7682d403a7b23dd1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 09/35] fix: unmarshal: refuse an unlimited array of elements
 without size

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index b1f4c0e..ba3f872 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -461,9 +461,13 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 				break
 			}
 			slice = reflect.Append(slice, reflect.Zero(elemType))
+			rbits := u.rbits
 			if err := u.unmarshal(slice.Index(i), fi); err != nil {
 				return err
 			}
+			if fi.length == LengthUnlimited && u.rbits == rbits {
+				return fmt.Errorf("array element has no size: fieldName=\"%s\"", fi.name)
+			}
 			if u.rbits > u.size*8 {
 				return fmt.Errorf("failed to read array completely: fieldName=\"%s\"", fi.name)
 			}
-- 
2.43.0


From f20a64b2f57e9ae30ac5a6fbcf17bdafa3947930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 10/35] fix: FindIDRFrames: no overflow of the NAL unit offset

---
 probe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 5dfce59..eb5b10e 100644
--- a/probe.go
+++ b/probe.go
@@ -587,8 +587,8 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+uint64(lengthSize)+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
@@ -605,7 +605,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 					idxs = append(idxs, si)
 					break
 				}
-				nalOffset += lengthSize + length
+				nalOffset += uint64(lengthSize) + uint64(length)
 			}
 			dataOffset += uint64(sample.Size)
 		}
-- 
2.43.0


From c6c7802d09f3c28830fab98fdec24dcde0b4eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 11/35] fix: meta: do not look at bytes behind a box shorter
 than 4 bytes

---
 box_types_iso14496_12.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 964db8e..2718af7 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -895,6 +895,12 @@ func (*Meta) GetType() BoxType {
 
 func (meta *Meta) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx Context) (n uint64, override bool, err error) {
 	// for Apple Quick Time
+	if size < 4 {
+		// no room for version and flags
+		meta.Version = 0
+		meta.Flags = [3]byte{0, 0, 0}
+		return 0, true, nil
+	}
 	buf := make([]byte, 4)
 	if _, err := io.ReadFull(r, buf); err != nil {
 		return 0, false, err
-- 
2.43.0


From 2f8f918b9998f09096a930c737e6541e2dbbe2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 12/35] fix: unmarshal: do not judge a box by a version byte
 behind its end

---
 marshaller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index ba3f872..278a40b 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -401,6 +401,9 @@ func (u *unmarshaller) unmarshalStruct(v reflect.Value, fs []*field) error {
 			return err
 		}
 
+		if v.FieldByName(f.name).Type() == reflect.TypeOf(FullBox{}) && u.rbits > u.size*8 {
+			return fmt.Errorf("overrun error: type=%s, size=%d, bits=%d", u.dst.GetType().String(), u.size, u.rbits)
+		}
 		if v.FieldByName(f.name).Type() == reflect.TypeOf(FullBox{}) && !u.dst.GetType().IsSupportedVersion(u.dst.GetVersion(), u.ctx) {
 			return ErrUnsupportedBoxVersion
 		}
-- 
2.43.0


From 4ff6931230e6bd4218dd4f942bd453dcc0794b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 13/35] fix: marshal: report write errors of slice elements and
 varints

---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 278a40b..f8b742f 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From bd6c100e2a25dc79cd76d37c5200c84dc06225e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 14/35] fix: extract: decode payloads in the context of the box
 itself

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f2dd7313638a5ca986797316a5e1ab7ad65c3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 15/35] fix: unmarshal: byte arrays whose element type is a
 defined type

---
 marshaller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index f8b742f..c5fa411 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -452,7 +452,9 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 		if _, err := io.CopyN(buf, u.reader, int64(totalSize)); err != nil {
 			return err
 		}
-		slice = reflect.ValueOf(buf.Bytes())
+		// the element type may be a defined type whose underlying type is uint8
+		slice = reflect.New(v.Type()).Elem()
+		slice.SetBytes(buf.Bytes())
 		u.rbits += uint64(totalSize) * 8
 
 	} else {
-- 
2.43.0


From 4e5946874a521b34f728bb3196a4269b96dd8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 16/35] fix: marshal: write boolean fields wider than 8 bits

---
 marshaller.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index c5fa411..cafbfb7 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -225,10 +225,16 @@ func (m *marshaller) marshalBool(v reflect.Value, fi *fieldInstance) error {
 	} else {
 		val = 0x00
 	}
-	if err := m.writer.WriteBits([]byte{val}, fi.size); err != nil {
-		return err
+	for i := uint(0); i < fi.size; i += 8 {
+		size := uint(8)
+		if fi.size < i+8 {
+			size = fi.size - i
+		}
+		if err := m.writer.WriteBits([]byte{val}, size); err != nil {
+			return err
+		}
+		m.wbits += uint64(size)
 	}
-	m.wbits += uint64(fi.size)
 	return nil
 }
 
-- 
2.43.0


From f078700a82141d021d219155fd1eaca77484af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 17/35] fix: unmarshal: do not call hooks behind the end of the
 box

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index cafbfb7..a383532 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -394,6 +394,10 @@ func (u *unmarshaller) unmarshalStruct(v reflect.Value, fs []*field) error {
 			continue
 		}
 
+		if u.rbits > u.size*8 {
+			return fmt.Errorf("overrun error: type=%s, size=%d, bits=%d", u.dst.GetType().String(), u.size, u.rbits)
+		}
+
 		rbits, override, err := fi.cfo.OnReadField(f.name, u.reader, u.size*8-u.rbits, u.ctx)
 		if err != nil {
 			return err
-- 
2.43.0


From 3e1881c106d024e3443b4450faa05bb67908075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 18/35] fix: mp4tool edit: refuse to overwrite the input file

---
 cmd/mp4tool/internal/edit/edit.go |  3 ++-
 cmd/mp4tool/internal/util/util.go | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..87dc7d9 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"github.com/abema/go-mp4"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"github.com/sunfish-shogi/bufseekio"
 )
 
@@ -70,7 +71,7 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer inputFile.Close()
 
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := util.CreateOutputFile(inputFile, outputPath)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/mp4tool/internal/util/util.go b/cmd/mp4tool/internal/util/util.go
index 08825b2..3cedd41 100644
--- a/cmd/mp4tool/internal/util/util.go
+++ b/cmd/mp4tool/internal/util/util.go
@@ -1,6 +1,27 @@
 package util
 
-import "github.com/abema/go-mp4"
+import (
+	"fmt"
+	"os"
+
+	"github.com/abema/go-mp4"
+)
+
+// CreateOutputFile creates or truncates the named file unless it is the input file itself.
+func CreateOutputFile(inputFile *os.File, outputPath string) (*os.File, error) {
+	inputInfo, err := inputFile.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if outputInfo, err := os.Stat(outputPath); err == nil {
+		if os.SameFile(inputInfo, outputInfo) {
+			return nil, fmt.Errorf("output file is the input file: %s", outputPath)
+		}
+	} else if !os.IsNotExist(err) {
+		return nil, err
+	}
+	return os.Create(outputPath)
+}
 
 func ShouldHasNoChildren(boxType mp4.BoxType) bool {
 	return boxType == mp4.BoxTypeEmsg() ||
-- 
2.43.0


From c490af4fa6ab9a3e83f579f30f9196f1c4e4e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 19/35] fix: mp4tool: no crash on a position behind the end of
 the input

bufseekio panics when it is read behind the end of the file within the
last block, which every truncated file leads to.
---
 cmd/mp4tool/internal/dump/dump.go         |  7 ++++--
 cmd/mp4tool/internal/edit/edit.go         |  6 +++--
 cmd/mp4tool/internal/extract/extract.go   |  7 ++++--
 cmd/mp4tool/internal/probe/probe.go       |  8 ++++--
 cmd/mp4tool/internal/psshdump/psshdump.go |  7 ++++--
 cmd/mp4tool/internal/util/util.go         | 30 +++++++++++++++++++++++
 6 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..557e734 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 	"golang.org/x/term"
 )
 
@@ -89,7 +88,11 @@ func (m *mp4dump) dumpFile(fpath string) error {
 	}
 	defer file.Close()
 
-	return m.dump(bufseekio.NewReadSeeker(file, blockSize, blockHistorySize))
+	r, err := util.NewReadSeeker(file, blockSize, blockHistorySize)
+	if err != nil {
+		return err
+	}
+	return m.dump(r)
 }
 
 func (m *mp4dump) dump(r io.ReadSeeker) error {
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index 87dc7d9..35111e0 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -9,7 +9,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const UNoValue = math.MaxUint64
@@ -77,7 +76,10 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 128*1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 128*1024, 4)
+	if err != nil {
+		return err
+	}
 	w := mp4.NewWriter(outputFile)
 	_, err = mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if config.dropBoxes.Exists(h.BoxInfo.Type.String()) {
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..1767f50 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const (
@@ -45,7 +44,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, blockSize, blockHistorySize)
+	r, err := util.NewReadSeeker(input, blockSize, blockHistorySize)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	if err := extract(r, mp4.StrToBoxType(boxType)); err != nil {
 		fmt.Println("Error:", err)
 		return 1
diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 41568b8..70cba5c 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"gopkg.in/yaml.v2"
 )
 
@@ -34,7 +34,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, 1024, 4)
+	r, err := util.NewReadSeeker(input, 1024, 4)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	rep, err := buildReport(r)
 	if err != nil {
 		fmt.Println("Error:", err)
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..45ace6d 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -7,7 +7,7 @@ import (
 	"os"
 
 	mp4 "github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 func Main(args []string) int {
@@ -30,7 +30,10 @@ func dump(inputFilePath string) error {
 	}
 	defer inputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 1024, 4)
+	if err != nil {
+		return err
+	}
 
 	bs, err := mp4.ExtractBoxesWithPayload(r, nil, []mp4.BoxPath{
 		{mp4.BoxTypeMoov(), mp4.BoxTypePssh()},
diff --git a/cmd/mp4tool/internal/util/util.go b/cmd/mp4tool/internal/util/util.go
index 3cedd41..aedefb5 100644
--- a/cmd/mp4tool/internal/util/util.go
+++ b/cmd/mp4tool/internal/util/util.go
@@ -2,11 +2,41 @@ package util
 
 import (
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/abema/go-mp4"
+	"github.com/sunfish-shogi/bufseekio"
 )
 
+type readSeeker struct {
+	*bufseekio.ReadSeeker
+	size int64
+}
+
+// NewReadSeeker returns a buffered reader of the input, which reports io.EOF anywhere behind the end of the input.
+func NewReadSeeker(input io.ReadSeeker, blockSize, historySize int) (io.ReadSeeker, error) {
+	size, err := input.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	return &readSeeker{
+		ReadSeeker: bufseekio.NewReadSeeker(input, blockSize, historySize),
+		size:       size,
+	}, nil
+}
+
+func (r *readSeeker) Read(p []byte) (int, error) {
+	curr, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	if curr >= r.size {
+		return 0, io.EOF
+	}
+	return r.ReadSeeker.Read(p)
+}
+
 // CreateOutputFile creates or truncates the named file unless it is the input file itself.
 func CreateOutputFile(inputFile *os.File, outputPath string) (*os.File, error) {
 	inputInfo, err := inputFile.Stat()
-- 
2.43.0


From 830a30964d2c52e124caaea3dcaedbf4b46b21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 20/35] fix: mp4tool edit: copy the payloads that are not
 edited

They were encoded again from their fields, which changed for instance
Pascal-style handler names and descriptor sizes in short form.
---
 cmd/mp4tool/internal/edit/edit.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index 35111e0..5f3d549 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -3,6 +3,7 @@ package edit
 import (
 	"flag"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"strings"
@@ -98,11 +99,12 @@ func editFile(inputPath, outputPath string) error {
 			return nil, err
 		}
 		// read payload
-		box, _, err := h.ReadPayload()
+		box, n, err := h.ReadPayload()
 		if err != nil {
 			return nil, err
 		}
 		// edit some fields
+		edited := false
 		switch h.BoxInfo.Type {
 		case mp4.BoxTypeTfdt():
 			tfdt := box.(*mp4.Tfdt)
@@ -112,11 +114,21 @@ func editFile(inputPath, outputPath string) error {
 				} else {
 					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime
 				}
+				edited = true
 			}
 		}
 		// write payload
-		if _, err := mp4.Marshal(w, box, h.BoxInfo.Context); err != nil {
-			return nil, err
+		if edited {
+			if _, err := mp4.Marshal(w, box, h.BoxInfo.Context); err != nil {
+				return nil, err
+			}
+		} else {
+			if _, err := h.BoxInfo.SeekToPayload(r); err != nil {
+				return nil, err
+			}
+			if _, err := io.CopyN(w, r, int64(n)); err != nil {
+				return nil, err
+			}
 		}
 		// expand all of offsprings
 		if _, err := h.Expand(); err != nil {
-- 
2.43.0


From 3c6029ee9c0387d4bb61eeef28a20d036b8c231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 21/35] fix: mp4tool edit: report a failing close of the output
 file

---
 cmd/mp4tool/internal/edit/edit.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index 5f3d549..e701630 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -138,5 +138,8 @@ func editFile(inputPath, outputPath string) error {
 		_, err = w.EndBox()
 		return nil, err
 	})
-	return err
+	if err != nil {
+		return err
+	}
+	return outputFile.Close()
 }
-- 
2.43.0


From 14234ce0d9ae28ee1be51f710d28c22917267262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 22/35] fix: mp4tool edit: refuse a base_media_decode_time that
 does not fit

---
 cmd/mp4tool/internal/edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index e701630..dc63b05 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -110,6 +110,9 @@ func editFile(inputPath, outputPath string) error {
 			tfdt := box.(*mp4.Tfdt)
 			if config.values.BaseMediaDecodeTime != UNoValue {
 				if tfdt.GetVersion() == 0 {
+					if config.values.BaseMediaDecodeTime > math.MaxUint32 {
+						return nil, fmt.Errorf("too large base_media_decode_time for version 0 of tfdt box: %d", config.values.BaseMediaDecodeTime)
+					}
 					tfdt.BaseMediaDecodeTimeV0 = uint32(config.values.BaseMediaDecodeTime)
 				} else {
 					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime
-- 
2.43.0


From 5f9aa174888621238cb2b2c5e57721c738add0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 23/35] fix: mp4tool edit: keep the bytes behind the last child
 box

---
 cmd/mp4tool/internal/edit/edit.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index dc63b05..21a5254 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -137,6 +137,14 @@ func editFile(inputPath, outputPath string) error {
 		if _, err := h.Expand(); err != nil {
 			return nil, err
 		}
+		// copy rest of box which is not any box, for example terminator of QuickTime user data
+		end, err := r.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return nil, err
+		}
+		if _, err := io.CopyN(w, r, int64(h.BoxInfo.Offset+h.BoxInfo.Size)-end); err != nil {
+			return nil, err
+		}
 		// rewrite box size
 		_, err = w.EndBox()
 		return nil, err
-- 
2.43.0


From 9cb4e7fdda6b341c6e4761a92cc00b9517b511f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 24/35] fix: mp4tool edit: accept the largest
 base_media_decode_time

---
 cmd/mp4tool/internal/edit/edit.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index 21a5254..2f9829e 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -15,7 +15,8 @@ import (
 const UNoValue = math.MaxUint64
 
 type Values struct {
-	BaseMediaDecodeTime uint64
+	BaseMediaDecodeTime    uint64
+	HasBaseMediaDecodeTime bool
 }
 
 type Boxes []string
@@ -45,6 +46,12 @@ func Main(args []string) int {
 		flagSet.PrintDefaults()
 	}
 	flagSet.Parse(args)
+	config.values.HasBaseMediaDecodeTime = false
+	flagSet.Visit(func(f *flag.Flag) {
+		if f.Name == "base_media_decode_time" {
+			config.values.HasBaseMediaDecodeTime = true
+		}
+	})
 
 	if len(flagSet.Args()) < 2 {
 		flagSet.Usage()
@@ -108,7 +115,7 @@ func editFile(inputPath, outputPath string) error {
 		switch h.BoxInfo.Type {
 		case mp4.BoxTypeTfdt():
 			tfdt := box.(*mp4.Tfdt)
-			if config.values.BaseMediaDecodeTime != UNoValue {
+			if config.values.HasBaseMediaDecodeTime {
 				if tfdt.GetVersion() == 0 {
 					if config.values.BaseMediaDecodeTime > math.MaxUint32 {
 						return nil, fmt.Errorf("too large base_media_decode_time for version 0 of tfdt box: %d", config.values.BaseMediaDecodeTime)
-- 
2.43.0


From 2f2fd4adf34a9ec49d8cbf90794e8c92dac1e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 25/35] fix: mp4tool divide: add up the durations of all track
 runs

A fragment without any run crashed the command, further runs were not
counted and the sum could overflow.
---
 cmd/mp4tool/internal/divide/divide.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..8623be3 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -284,14 +284,16 @@ func divide(inputFilePath, outputDir string) error {
 				if err != nil {
 					return nil, err
 				}
-				trun := bs[0].Payload.(*mp4.Trun)
-
-				var duration uint32
-				for i := range trun.Entries {
-					if trun.CheckFlag(0x000100) {
-						duration += trun.Entries[i].SampleDuration
-					} else {
-						duration += defaultSampleDuration
+
+				var duration uint64
+				for _, b := range bs {
+					trun := b.Payload.(*mp4.Trun)
+					for i := range trun.Entries {
+						if trun.CheckFlag(0x000100) {
+							duration += uint64(trun.Entries[i].SampleDuration)
+						} else {
+							duration += uint64(defaultSampleDuration)
+						}
 					}
 				}
 
-- 
2.43.0


From 0209fab9d19fb3b4cc1da4001df37ad828e9dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 26/35] fix: mp4tool divide: use the default sample durations
 of the movie

---
 cmd/mp4tool/internal/divide/divide.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 8623be3..f9b0fab 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -58,6 +58,7 @@ type track struct {
 	bandwidth   uint64
 	height      uint16
 	width       uint16
+	defaultDur  uint32
 	segments    []segment
 	outputDir   string
 	initFile    *os.File
@@ -153,6 +154,18 @@ func divide(inputFilePath, outputDir string) error {
 		fmt.Printf("WARN: unsupported track type: trackID=%d\n", t.id)
 	}
 
+	// get default sample durations from Trex boxes
+	trexs, err := mp4.ExtractBoxWithPayload(inputFile, nil, mp4.BoxPath{mp4.BoxTypeMoov(), mp4.BoxTypeMvex(), mp4.BoxTypeTrex()})
+	if err != nil {
+		return err
+	}
+	for _, b := range trexs {
+		trex := b.Payload.(*mp4.Trex)
+		if t, exists := tracks[trex.TrackID]; exists {
+			t.defaultDur = trex.DefaultSampleDuration
+		}
+	}
+
 	for _, t := range tracks {
 		os.MkdirAll(t.outputDir, 0777)
 
@@ -274,7 +287,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, nil
 				}
 
-				var defaultSampleDuration uint32
+				defaultSampleDuration := tracks[currTrackID].defaultDur
 				if tfhd.CheckFlag(0x000008) {
 					defaultSampleDuration = tfhd.DefaultSampleDuration
 				}
-- 
2.43.0


From c669a5c24781193f88a6279165ad67b3428dc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 27/35] fix: mp4tool divide: report failing closes of output
 files

---
 cmd/mp4tool/internal/divide/divide.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index f9b0fab..eadfd1c 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -312,7 +312,9 @@ func divide(inputFilePath, outputDir string) error {
 
 				// close last segment file and create next
 				t := tracks[currTrackID]
-				t.segmentFile.Close()
+				if err := t.segmentFile.Close(); err != nil {
+					return nil, err
+				}
 				if t.segmentFile, err = os.Create(path.Join(t.outputDir, segmentFileName(len(t.segments)))); err != nil {
 					return nil, err
 				}
@@ -353,6 +355,15 @@ func divide(inputFilePath, outputDir string) error {
 		return err
 	}
 
+	for _, t := range tracks {
+		if err := t.initFile.Close(); err != nil {
+			return err
+		}
+		if err := t.segmentFile.Close(); err != nil {
+			return err
+		}
+	}
+
 	trackTypeMap := make(map[trackType]*track, len(tracks))
 	for _, t := range tracks {
 		trackTypeMap[t.trackType] = t
-- 
2.43.0


From 91c8b1c0b96c7491b27184ab3966a39f90848bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 28/35] fix: mp4tool divide: report failing writes of playlists

---
 cmd/mp4tool/internal/divide/divide.go | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index eadfd1c..728ef1b 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -1,6 +1,7 @@
 package divide
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -383,11 +384,7 @@ func divide(inputFilePath, outputDir string) error {
 }
 
 func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) error {
-	file, err := os.Create(filePath)
-	if err != nil {
-		return err
-	}
-	defer file.Close()
+	file := new(bytes.Buffer)
 
 	var adir string
 	var vdir string
@@ -412,7 +409,7 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		file.WriteString("#EXT-X-MEDIA:TYPE=AUDIO,URI=\"" + adir + "/" + playlistFileName + "\",GROUP-ID=\"audio\",NAME=\"audio\",AUTOSELECT=YES,CHANNELS=\"2\"\n")
 	}
 	if vdir != "" {
-		_, err = fmt.Fprintf(file, "#EXT-X-STREAM-INF:BANDWIDTH=%d,CODECS=\"avc1.64001f,mp4a.40.2\",RESOLUTION=%dx%d", // FIXME: hard coding
+		_, err := fmt.Fprintf(file, "#EXT-X-STREAM-INF:BANDWIDTH=%d,CODECS=\"avc1.64001f,mp4a.40.2\",RESOLUTION=%dx%d", // FIXME: hard coding
 			vt.bandwidth, vt.width, vt.height)
 		if err != nil {
 			return err
@@ -423,15 +420,11 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		file.WriteString("\n")
 		file.WriteString(vdir + "/" + playlistFileName + "\n")
 	}
-	return nil
+	return writeFile(filePath, file.Bytes())
 }
 
 func outputMediaPlaylist(filePath string, segments []segment) error {
-	file, err := os.Create(filePath)
-	if err != nil {
-		return err
-	}
-	defer file.Close()
+	file := new(bytes.Buffer)
 
 	var maxDur float64
 	for i := range segments {
@@ -456,5 +449,18 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 		}
 	}
 	file.WriteString("#EXT-X-ENDLIST\n")
-	return nil
+	return writeFile(filePath, file.Bytes())
+}
+
+func writeFile(filePath string, data []byte) error {
+	file, err := os.Create(filePath)
+	if err != nil {
+		return err
+	}
+	defer file.Close()
+
+	if _, err := file.Write(data); err != nil {
+		return err
+	}
+	return file.Close()
 }
-- 
2.43.0


From 5cf1c3a5d49b07dfe47998dc846998a0063fa161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 29/35] fix: mp4tool divide: refuse to overwrite the input file

---
 cmd/mp4tool/internal/divide/divide.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 728ef1b..a346555 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -9,6 +9,7 @@ import (
 	"path"
 
 	"github.com/abema/go-mp4"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 const (
@@ -170,12 +171,12 @@ func divide(inputFilePath, outputDir string) error {
 	for _, t := range tracks {
 		os.MkdirAll(t.outputDir, 0777)
 
-		if t.initFile, err = os.Create(path.Join(t.outputDir, initMP4FileName)); err != nil {
+		if t.initFile, err = util.CreateOutputFile(inputFile, path.Join(t.outputDir, initMP4FileName)); err != nil {
 			return err
 		}
 		defer t.initFile.Close()
 
-		if t.segmentFile, err = os.Create(path.Join(t.outputDir, segmentFileName(0))); err != nil {
+		if t.segmentFile, err = util.CreateOutputFile(inputFile, path.Join(t.outputDir, segmentFileName(0))); err != nil {
 			return err
 		}
 		defer func(t *track) { t.segmentFile.Close() }(t)
@@ -316,7 +317,7 @@ func divide(inputFilePath, outputDir string) error {
 				if err := t.segmentFile.Close(); err != nil {
 					return nil, err
 				}
-				if t.segmentFile, err = os.Create(path.Join(t.outputDir, segmentFileName(len(t.segments)))); err != nil {
+				if t.segmentFile, err = util.CreateOutputFile(inputFile, path.Join(t.outputDir, segmentFileName(len(t.segments)))); err != nil {
 					return nil, err
 				}
 				t.segments = append(t.segments, segment{
@@ -370,12 +371,12 @@ func divide(inputFilePath, outputDir string) error {
 		trackTypeMap[t.trackType] = t
 	}
 
-	if err := outputMasterPlaylist(path.Join(outputDir, playlistFileName), trackTypeMap); err != nil {
+	if err := outputMasterPlaylist(inputFile, path.Join(outputDir, playlistFileName), trackTypeMap); err != nil {
 		return err
 	}
 
 	for _, t := range tracks {
-		if err := outputMediaPlaylist(path.Join(t.outputDir, playlistFileName), t.segments); err != nil {
+		if err := outputMediaPlaylist(inputFile, path.Join(t.outputDir, playlistFileName), t.segments); err != nil {
 			return err
 		}
 	}
@@ -383,7 +384,7 @@ func divide(inputFilePath, outputDir string) error {
 	return nil
 }
 
-func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) error {
+func outputMasterPlaylist(inputFile *os.File, filePath string, trackTypeMap map[trackType]*track) error {
 	file := new(bytes.Buffer)
 
 	var adir string
@@ -420,10 +421,10 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		file.WriteString("\n")
 		file.WriteString(vdir + "/" + playlistFileName + "\n")
 	}
-	return writeFile(filePath, file.Bytes())
+	return writeFile(inputFile, filePath, file.Bytes())
 }
 
-func outputMediaPlaylist(filePath string, segments []segment) error {
+func outputMediaPlaylist(inputFile *os.File, filePath string, segments []segment) error {
 	file := new(bytes.Buffer)
 
 	var maxDur float64
@@ -449,11 +450,11 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 		}
 	}
 	file.WriteString("#EXT-X-ENDLIST\n")
-	return writeFile(filePath, file.Bytes())
+	return writeFile(inputFile, filePath, file.Bytes())
 }
 
-func writeFile(filePath string, data []byte) error {
-	file, err := os.Create(filePath)
+func writeFile(inputFile *os.File, filePath string, data []byte) error {
+	file, err := util.CreateOutputFile(inputFile, filePath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 683aaf40e5e8244c514ab173131e626c9fe7cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 30/35] fix: mp4tool divide: refuse tracks that overwrite each
 other's output

---
 cmd/mp4tool/internal/divide/divide.go | 30 +++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index a346555..dab40f2 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -113,7 +113,9 @@ func divide(inputFilePath, outputDir string) error {
 			t.height = avc1.Height
 			t.width = avc1.Width
 			t.outputDir = path.Join(outputDir, videoDirName)
-			tracks[t.id] = t
+			if err := addTrack(tracks, t); err != nil {
+				return err
+			}
 			continue
 		}
 
@@ -124,7 +126,9 @@ func divide(inputFilePath, outputDir string) error {
 		if len(bis) != 0 {
 			t.trackType = trackAudio
 			t.outputDir = path.Join(outputDir, audioDirName)
-			tracks[t.id] = t
+			if err := addTrack(tracks, t); err != nil {
+				return err
+			}
 			continue
 		}
 
@@ -138,7 +142,9 @@ func divide(inputFilePath, outputDir string) error {
 			t.height = encv.Height
 			t.width = encv.Width
 			t.outputDir = path.Join(outputDir, encVideoDirName)
-			tracks[t.id] = t
+			if err := addTrack(tracks, t); err != nil {
+				return err
+			}
 			continue
 		}
 
@@ -149,7 +155,9 @@ func divide(inputFilePath, outputDir string) error {
 		if len(bis) != 0 {
 			t.trackType = trackEncAudio
 			t.outputDir = path.Join(outputDir, encAudioDirName)
-			tracks[t.id] = t
+			if err := addTrack(tracks, t); err != nil {
+				return err
+			}
 			continue
 		}
 
@@ -384,6 +392,20 @@ func divide(inputFilePath, outputDir string) error {
 	return nil
 }
 
+// addTrack refuses tracks whose output files would overwrite each other.
+func addTrack(tracks map[uint32]*track, t *track) error {
+	if _, exists := tracks[t.id]; exists {
+		return fmt.Errorf("multiple tracks have the same ID: trackID=%d", t.id)
+	}
+	for _, o := range tracks {
+		if o.trackType == t.trackType {
+			return fmt.Errorf("multiple tracks of the same type are not supported: trackID=%d", t.id)
+		}
+	}
+	tracks[t.id] = t
+	return nil
+}
+
 func outputMasterPlaylist(inputFile *os.File, filePath string, trackTypeMap map[trackType]*track) error {
 	file := new(bytes.Buffer)
 
-- 
2.43.0


From 4da734f6e429ddb3ba28c2b2ec7601e85c06b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 31/35] fix: mp4tool divide: report failing creation of output
 directories

---
 cmd/mp4tool/internal/divide/divide.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index dab40f2..f14a261 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -177,7 +177,9 @@ func divide(inputFilePath, outputDir string) error {
 	}
 
 	for _, t := range tracks {
-		os.MkdirAll(t.outputDir, 0777)
+		if err := os.MkdirAll(t.outputDir, 0777); err != nil {
+			return err
+		}
 
 		if t.initFile, err = util.CreateOutputFile(inputFile, path.Join(t.outputDir, initMP4FileName)); err != nil {
 			return err
-- 
2.43.0


From 90615a67171438ffce97b47a7d6065668e34c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 32/35] fix: mp4tool divide: no crash on misplaced boxes

---
 cmd/mp4tool/internal/divide/divide.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index f14a261..984aac2 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -2,6 +2,7 @@ package divide
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -241,7 +242,10 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 				for _, val := range vals {
-					ci := val.(childInfo)
+					ci, ok := val.(childInfo)
+					if !ok {
+						return nil, errors.New("moov box has an unexpected child box")
+					}
 					for _, t := range tracks {
 						// already writeAll is true in Moov box
 						biMap[t.id].Size += ci[t.id]
@@ -340,6 +344,9 @@ func divide(inputFilePath, outputDir string) error {
 				}
 
 				t := tracks[currTrackID]
+				if len(t.segments) == 0 {
+					return nil, errors.New("mdat box must follow a moof box")
+				}
 				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
 				if bandwidth > t.bandwidth {
 					t.bandwidth = bandwidth
-- 
2.43.0


From d2c964e9c3966a60e8f0a1dcfcb40e48ebc7f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 33/35] fix: mp4tool dump: no crash on the declared size of an
 unsupported box

---
 cmd/mp4tool/internal/dump/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 557e734..4a7664f 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -159,7 +159,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From b3d4ccd345073a5bfd35bbc560ffbb2606de5ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 34/35] fix: mp4tool psshdump: no crash on the declared size of
 a box

---
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 45ace6d..a87f272 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -57,8 +58,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -69,7 +70,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From 2e7ea6325b69a3a0db17106ca337c62009518a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 35/35] fix: mp4tool extract: report failing seeks

---
 cmd/mp4tool/internal/extract/extract.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 1767f50..3cc8b78 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -59,7 +59,9 @@ func Main(args []string) int {
 func extract(r io.ReadSeeker, boxType mp4.BoxType) error {
 	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if h.BoxInfo.Type == boxType {
-			h.BoxInfo.SeekToStart(r)
+			if _, err := h.BoxInfo.SeekToStart(r); err != nil {
+				return nil, err
+			}
 			if _, err := io.CopyN(os.Stdout, r, int64(h.BoxInfo.Size)); err != nil {
 				return nil, err
 			}
-- 
2.43.0

