From 13c4fb646da944ca21453e4bfe8ec4618343f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:39 +0000
Subject: [PATCH 01/53] fix: ring block buffer overwrote held blocks when
 exactly full after wrapping

---
 collections/buffer_rb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..f3315f3 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -44,6 +44,9 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		tail = oldBlock.index + oldBlock.size
 	}
 
+	// 已经回环, 并且恰好写满
+	full := r.blocks.Size() > 1 && tail == head && head > 0
+
 	// 分配新的内存块
 	if oldBlock == nil || oldBlock.completed {
 		oldBlock = &struct {
@@ -59,7 +62,7 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		r.blocks.Push(oldBlock)
 	}
 
-	over := tail < head
+	over := tail < head || full
 	if over && head-tail >= size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
-- 
2.43.0


From 803c2503dbbfc8e8468ed2ccdf54d9a2068ddfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:39 +0000
Subject: [PATCH 02/53] fix: ring block buffer lost count of discarded blocks
 when growing twice

---
 collections/buffer_rb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index f3315f3..08d0895 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -85,10 +85,12 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		// 之前扩容丢弃的内存块可能还未释放, 需要累加
+		discard := bufio.MaxInt(r.blocks.Size()-1, 0)
+		for i := 0; i < discard; i++ {
 			r.blocks.Pop()
 		}
+		r.discardBlockCount += discard
 	}
 
 	bytes := r.data[tail : tail+size]
-- 
2.43.0


From 79d23e0fa6b01c91a5ed3757a5b802dcba6df2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:39 +0000
Subject: [PATCH 03/53] fix: ring block buffer refused to release from the back
 a block produced before a growth

---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 08d0895..493b276 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -114,6 +114,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 最新的内存块已在扩容时丢弃
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From 509938f295da52bbfdcc50c30bdc02f6911b1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:55 +0000
Subject: [PATCH 04/53] fix: split ring block buffer stayed writable and shared
 live memory with its successor

---
 collections/buffer_rb.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 493b276..ee88be9 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -22,6 +22,8 @@ func (r *RBBlockBuffer) Write(data []byte) {
 }
 
 func (r *RBBlockBuffer) Alloc(size int) []byte {
+	utils.Assert(!r.sealed)
+
 	head, tail := 0, 0
 	var oldBlock *struct {
 		index     int
@@ -136,6 +138,12 @@ func (r *RBBlockBuffer) Data() ([]byte, []byte) {
 	return nil, nil
 }
 
+// SplitOff 环形缓冲区的空闲内存不连续, 新的BlockBuffer使用独立的内存
+func (r *RBBlockBuffer) SplitOff() BlockBuffer {
+	r.sealed = true
+	return NewRBBlockBuffer(cap(r.data))
+}
+
 func (r *RBBlockBuffer) AvailableBytes() int {
 	//head, tail := 0, 0
 	//if 0 == r.blocks.Size() {
-- 
2.43.0


From 67bd9c08bd3dff00ea6419e63179f34baaccb40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:55 +0000
Subject: [PATCH 05/53] fix: buffer split off from a linear block buffer
 started at the parent's offset

---
 collections/buffer_direct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..1dda31c 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -129,7 +129,7 @@ func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
+		nextOffset: 0,
 	}
 }
 
-- 
2.43.0


From f98c287a06a4d527819d1b47dea0109d0a3a3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:12 +0000
Subject: [PATCH 06/53] fix: cleared linear block buffer could overwrite memory
 it had split off

---
 collections/buffer_direct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index 1dda31c..3ab4d25 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -122,8 +122,11 @@ func (b *DirectBlockBuffer) Size() int {
 
 func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 	b.sealed = true
+	free := b.data[b.nextOffset:]
+	// 空闲内存归新的BlockBuffer所有, Clear后不可再使用
+	b.data = b.data[:b.nextOffset:b.nextOffset]
 	return &DirectBlockBuffer{
-		data: b.data[b.nextOffset:],
+		data: free,
 		blocks: NewQueue[*struct {
 			index     int
 			size      int
-- 
2.43.0


From 8c3ff6311084df4c998b6096ded9c4d058ce09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:07 +0000
Subject: [PATCH 07/53] fix: RemoveStartCode panicked on data shorter than a
 start code

---
 avc/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..2ebc9cb 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -312,11 +312,11 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	if len(data) < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if len(data) > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
-- 
2.43.0


From 7b8d16597446c0260d3251be3bdef9a7b4e7ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 08/53] fix: SplitNalU panicked on data shorter than a start
 code

---
 avc/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 2ebc9cb..646ae00 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -300,6 +300,12 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
 	var offset int
+	// 不足以包含start code
+	if len(data) < 3 {
+		cb(data)
+		return
+	}
+
 	// +3查找第二个nalu
 	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
 		n += 3
-- 
2.43.0


From bc7345449433bdddd6d521088194072a95f294de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 09/53] fix: parameter set extraction panicked on empty NAL
 units

---
 avc/util.go  | 4 ++++
 hevc/util.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 646ae00..2535bab 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -336,6 +336,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..1297590 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From f4ff08cb327825a9404c8220774bee9a33872870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 10/53] fix: AnnexB2AVCC emitted part of a start code as a NAL
 unit after an empty unit

---
 avc/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 2535bab..256adc8 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -191,8 +191,16 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 
 	for nalStart < length {
 		// 跳过开头空包(连续0000000100000001)
+		zeros := 0
 		for nalStart < length && annexB[nalStart] == 0 {
 			nalStart++
+			zeros++
+		}
+
+		// 空包后的start code
+		if zeros > 1 && nalStart < length && annexB[nalStart] == 1 {
+			nalStart++
+			continue
 		}
 		if nalStart >= length {
 			break
-- 
2.43.0


From 7e9754bc30956e1d28f903539aa26413a83627ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:25 +0000
Subject: [PATCH 11/53] fix: H.264 SPS parser did not remove emulation
 prevention bytes

---
 avc/sps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..5696b9b 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -28,6 +28,8 @@ type SPS struct {
 
 func ParseSPS(data []byte) (s SPS, err error) {
 	data = RemoveStartCode(data)
+	// 去掉防竞争字节
+	data = bytes.Replace(data, []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}, -1)
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From 33752ccedc1de1f1a91d8531b663822518ebc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:25 +0000
Subject: [PATCH 12/53] fix: H.264 SPS parser missed the chroma fields of the
 multiview profiles

---
 avc/sps.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 5696b9b..25b1e99 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -59,7 +59,10 @@ func ParseSPS(data []byte) (s SPS, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
-- 
2.43.0


From b77cd2061c086d8b1093028a1a8fc891303f81d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:25 +0000
Subject: [PATCH 13/53] fix: H.264 SPS parser read 8 instead of 12 scaling
 lists for 4:4:4

---
 avc/sps.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 25b1e99..57c14b4 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -95,7 +95,11 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scalingListCount := 8
+			if chroma_format_idc == 3 {
+				scalingListCount = 12
+			}
+			for i := 0; i < scalingListCount; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 457114a66f7996571c09ad43aa1f614fa4d81c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:26 +0000
Subject: [PATCH 14/53] fix: H.264 SPS parser ignored chroma format and field
 coding when cropping

---
 avc/sps.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 57c14b4..b751f31 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -51,6 +51,9 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	var chroma_format_idc uint = 1
+	var separate_colour_plane_flag uint
+
 	// seq_parameter_set_id
 	if s.Id, err = r.ReadExponentialGolombCode(); err != nil {
 		return
@@ -64,14 +67,13 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
 		s.ProfileIdc == 135 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
 
 		if chroma_format_idc == 3 {
-			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			// separate_colour_plane_flag
+			if separate_colour_plane_flag, err = r.ReadBit(); err != nil {
 				return
 			}
 		}
@@ -223,8 +225,19 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位取决于色度格式和帧/场编码
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if separate_colour_plane_flag == 0 {
+		if chroma_format_idc == 1 || chroma_format_idc == 2 {
+			cropUnitX = 2
+		}
+		if chroma_format_idc == 1 {
+			cropUnitY *= 2
+		}
+	}
+
+	s.Width = int((s.MbWidth * 16) - s.CropLeft*cropUnitX - s.CropRight*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*cropUnitY - s.CropBottom*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From 6e21b224a4715da63082527a0235dc3b46dae584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:26 +0000
Subject: [PATCH 15/53] fix: H.265 SPS parser ignored the conformance window

---
 hevc/sps.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..d4e79e7 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,23 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
-		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		// left right top bottom
+		var offsets [4]uint
+		for i := range offsets {
+			if offsets[i], err = br.ReadExponentialGolombCode(); err != nil {
+				return
+			}
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+
+		subWidthC, subHeightC := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidthC = 2
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		if ctx.chromaFormat == 1 {
+			subHeightC = 2
 		}
+		ctx.Width -= int(subWidthC * (offsets[0] + offsets[1]))
+		ctx.Height -= int(subHeightC * (offsets[2] + offsets[3]))
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From 102145b5e947dc5d9614a8d071a30787305734f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:38 +0000
Subject: [PATCH 16/53] fix: AVCDecoderConfigurationRecord.Marshal wrote a
 corrupt record for too many parameter sets

---
 avc/mp4.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..c9fde97 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,6 +47,14 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
+	// 数量和长度超过字段范围
+	if len(spsList) > 0x1F {
+		return nil, fmt.Errorf("too many sps: %d", len(spsList))
+	}
+	if len(ppsList) > 0xFF {
+		return nil, fmt.Errorf("too many pps: %d", len(ppsList))
+	}
+
 	bytes := make([]byte, 1024)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
-- 
2.43.0


From 5d3f2d69f74a023a3fcf9ed3bdca7196e6b1fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:38 +0000
Subject: [PATCH 17/53] fix: AVCDecoderConfigurationRecord.Marshal panicked on
 a SPS shorter than 4 bytes

---
 avc/mp4.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index c9fde97..df57dc7 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -92,6 +92,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		}
 	}
 
+	if len(noStartCodeSps) < 4 {
+		return nil, fmt.Errorf("invalid sps")
+	}
+
 	bytes[0] = 1
 	bytes[1] = noStartCodeSps[1]
 	bytes[2] = noStartCodeSps[2]
-- 
2.43.0


From 484e5d7a68f6fb83791c26a1f1746fbfa5db2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:38 +0000
Subject: [PATCH 18/53] fix: avc.ExtraDataToAnnexB failed on records larger
 than 1024 bytes

---
 avc/mp4.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index df57dc7..e55518b 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -188,7 +188,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// 2字节长度替换为4字节start code, 最多增长一倍
+	bytes := make([]byte, len(data)*2)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.SPSList {
-- 
2.43.0


From 5279147126fbc952afdec722869f8a8a1b674b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:38 +0000
Subject: [PATCH 19/53] fix: M4VCExtraDataToAnnexB dropped the PPS of records
 with several SPS

---
 avc/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/avc/util.go b/avc/util.go
index 256adc8..5e15e91 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -278,7 +278,11 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 
 	readUint8 &= 0x3 + 1
 	unitNb, err := reader.ReadUint8()
+	if err != nil {
+		return nil, err
+	}
 	unitNb &= 0x1f
+	spsCount := int(unitNb)
 
 	spsDone := 0
 	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
@@ -298,7 +302,7 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 		}
 
 		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
+		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == spsCount {
 			unitNb, _ = reader.ReadUint8()
 		}
 	}
-- 
2.43.0


From abb9e4c44047fff1a8fea043ee8dcafdb0100731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 20/53] fix: M4VCExtraDataToAnnexB failed on records with many
 parameter sets

---
 avc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/util.go b/avc/util.go
index 5e15e91..4a2629e 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -285,7 +285,7 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 	spsCount := int(unitNb)
 
 	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
+	writer := bufio.NewBytesWriter(make([]byte, len(src)*2))
 	for unitNb != 0 {
 		unitNb--
 
-- 
2.43.0


From a95523d8375625990480f890439a624912096507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 21/53] fix: M4VCExtraDataToAnnexB panicked on truncated
 records

---
 avc/util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 4a2629e..fb43544 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -290,14 +290,15 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 		unitNb--
 
 		var size uint16
+		var unit []byte
 		size, err = reader.ReadUint16()
 		if err != nil {
 			return nil, err
-		} else if err = writer.Write(StartCode4); err != nil {
+		} else if unit, err = reader.ReadBytes(int(size)); err != nil {
 			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
+		} else if err = writer.Write(StartCode4); err != nil {
 			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
+		} else if err = writer.Write(unit); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 8165f04f891f7f4ad4e2d907cfea332c3cd2bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 22/53] fix: HEVC record parser built the SPS list from the PPS
 list

---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..fca11c2 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -189,7 +189,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From 4e49f91872484ea60ebaee65c57c4e4690be637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 23/53] fix: HEVCDecoderConfigurationRecord.Marshal panicked on
 an empty parameter set

---
 hevc/mp4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index fca11c2..18876a2 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -94,6 +94,9 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	write := func(data [][]byte) error {
 		noStartCodeData := avc.RemoveStartCode(data[0])
+		if len(noStartCodeData) == 0 {
+			return fmt.Errorf("invalid parameter set")
+		}
 		if err := writer.WriteUint8((noStartCodeData[0] >> 1) & 0x3F); err != nil {
 			return err
 		}
-- 
2.43.0


From 1a4d3f16035d9697e0eb39536911dc62276c7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:40 +0000
Subject: [PATCH 24/53] fix: hevc.ExtraDataToAnnexB failed on records larger
 than 1024 bytes

---
 hevc/mp4.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index 18876a2..e1d7361 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -217,7 +217,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// 2字节长度替换为4字节start code, 最多增长一倍
+	bytes := make([]byte, len(data)*2)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.VPSList {
-- 
2.43.0


From 5b46917b017933fdb79037dde0400f5e43cb5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:37 +0000
Subject: [PATCH 25/53] fix: AnnexBPacket2AVCC buffer was too small for packets
 with many 3-byte start codes

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..ad55f98 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -81,7 +81,8 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
 		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		// 3字节start code替换为4字节长度, 每个nalu(至少4字节)最多增长1字节
+		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 1069beb660d3a823ddd3429f1ed356326df6785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:37 +0000
Subject: [PATCH 26/53] fix: AVCCPacket2AnnexB panicked for streams without
 codec parameters or length size

---
 packet_utils.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index ad55f98..cfcb438 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -47,6 +47,12 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
 		}
 
+		// nalu长度字段大小, 没有解码配置时默认为4
+		lengthSize := 4
+		if data, ok := stream.CodecParameters.(*HEVCCodecData); ok && data.Record.LengthSizeMinusOne > 0 {
+			lengthSize = int(data.Record.LengthSizeMinusOne)
+		}
+
 		dstSize := extraDataSize + len(pkt.Data) + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
@@ -59,15 +65,16 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
-			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
+			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
 				panic(err)
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
-		n += extraDataSize
+		if extraDataSize > 0 {
+			copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+			n += extraDataSize
+		}
 		pkt.dataAnnexB = bytes[:n]
 	}
 
-- 
2.43.0


From 5bec7c7479fc9f103f779f8283f227328c4e4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:38 +0000
Subject: [PATCH 27/53] fix: AVCCPacket2AnnexB buffer was too small for H.265
 length fields under 4 bytes

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index cfcb438..eab92d2 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -53,7 +53,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 			lengthSize = int(data.Record.LengthSizeMinusOne)
 		}
 
-		dstSize := extraDataSize + len(pkt.Data) + 256
+		// 长度字段可能小于4字节start code, 每个nalu(至少2字节)最多增长3字节
+		dstSize := extraDataSize + len(pkt.Data)*2 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From eba871cfb22619dfc3addbd534e97b4dc59e105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:38 +0000
Subject: [PATCH 28/53] fix: AVCCPacket2AnnexB panicked on empty key packets or
 parameter sets

---
 packet_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index eab92d2..7545dee 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -18,9 +18,9 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			data := avc.RemoveStartCode(pkt.Data)
+			if len(extraData) > 0 && (len(data) == 0 || avc.RemoveStartCode(extraData)[0] != data[0]) {
 				size := len(extraData) + len(pkt.Data)
-				var data []byte
 				if pkt.OnBufferAlloc != nil {
 					data = pkt.OnBufferAlloc(size)
 				} else {
-- 
2.43.0


From 74be1976208c5de1f59c8bc8746836d711a7e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 29/53] fix: GetSampleRateIndex looked the rate up as an index

---
 utils/aac_util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..72e47ad 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -180,8 +180,15 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 	return i, ok
 }
 
+// GetSampleRateIndex 根据采样率查找索引, 非标准采样率返回-1
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	for index, samplingRate := range audioSamplingRates {
+		if samplingRate == rate {
+			return index
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From 408c05240afd0d41f66bf5c19e7f37dde5e3f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 30/53] fix: ParseMpeg4AudioConfig panicked on truncated data

---
 utils/aac_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 72e47ad..fa853a2 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -253,6 +253,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
 	//audio specific config
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
 	if AudioObjectType(config.ObjectType) == AotEscape {
-- 
2.43.0


From 221c7df25764c746c02e64117b5bd683831ffafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 31/53] fix: ReadADtsFixedHeader panicked on truncated data

---
 utils/aac_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index fa853a2..d9e51c2 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -224,6 +224,9 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
-- 
2.43.0


From 6972f320d586262d97490fef69be23114dd71075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 32/53] fix: ExtractAudioExtraData reported channel
 configuration 7 as 7 channels instead of 8

---
 video_stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..f32e0c1 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,17 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
+
 		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
 
 		return extraData, skip, AudioConfig{
 			SampleRate:    rate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From 591cb05418a63ae00f1c3f4b3047e4a22cf48c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:13 +0000
Subject: [PATCH 33/53] fix: GolombBitReader mishandled empty reads and data
 returned together with EOF

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..23fc3f3 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (self *GolombBitReader) ReadBit() (res uint, err error) {
 	if self.left == 0 {
-		if _, err = self.R.Read(self.buf[:]); err != nil {
+		if _, err = io.ReadFull(self.R, self.buf[:]); err != nil {
 			return
 		}
 		self.left = 8
-- 
2.43.0


From 6bea5557551f5ad5ee1110b879022da03898aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:14 +0000
Subject: [PATCH 34/53] fix: GolombBitReader.ReadSE returned wrong negative
 values

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 23fc3f3..c1f7a41 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 1139c59b4b8e73af0c708f6bb40e26f8fd2c3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:14 +0000
Subject: [PATCH 35/53] fix: BytesReader.ReadBytes panicked on a negative size

---
 bufio/bytes_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bufio/bytes_reader.go b/bufio/bytes_reader.go
index 2c5a365..07ec7a1 100644
--- a/bufio/bytes_reader.go
+++ b/bufio/bytes_reader.go
@@ -2,6 +2,7 @@ package bufio
 
 import (
 	"encoding/binary"
+	"fmt"
 )
 
 type BytesReader interface {
@@ -66,6 +67,10 @@ func (b *bytesReader) ReadUint64() (uint64, error) {
 }
 
 func (b *bytesReader) ReadBytes(size int) ([]byte, error) {
+	if size < 0 {
+		return nil, fmt.Errorf("invalid size %d", size)
+	}
+
 	tmp := b.offset
 	if err := b.peekN(size); err != nil {
 		return nil, err
-- 
2.43.0


From a262ec316648185ebfc332d0b6b71cc457511389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:03 +0000
Subject: [PATCH 36/53] fix: ConvertTs lost precision through floating point

---
 packet_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 7545dee..0a07ee3 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -7,8 +7,13 @@ import (
 )
 
 func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
-	interval := float64(dstTimeBase) / float64(srcTimeBase)
-	return int64(float64(ts) * interval)
+	if srcTimeBase == 0 {
+		return 0
+	}
+
+	// 整数运算, 避免浮点误差和溢出
+	src, dst := int64(srcTimeBase), int64(dstTimeBase)
+	return ts/src*dst + ts%src*dst/src
 }
 
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
-- 
2.43.0


From d2275652f922a796feadd3d54e85685657bebc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:49 +0000
Subject: [PATCH 37/53] fix: fetching from an empty block buffer panicked

---
 collections/buffer_direct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index 3ab4d25..5793b7f 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -68,6 +68,11 @@ func (b *DirectBlockBuffer) Alloc(size int) []byte {
 
 func (b *DirectBlockBuffer) Fetch() []byte {
 	utils.Assert(!b.sealed)
+	// 没有写入过数据
+	if b.blocks.IsEmpty() {
+		return nil
+	}
+
 	block := b.blocks.Tail()
 	if block.completed {
 		return nil
-- 
2.43.0


From f3c0b0d01ce2144fbbf66c33b16e2bf5b7c47db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:49 +0000
Subject: [PATCH 38/53] fix: StreamsBuffer panicked or mixed streams when
 indices were first used out of order

---
 streams_buffer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..ead6740 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,12 +10,17 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
+	// index不一定按顺序首次出现
+	for len(s.buffers) <= index {
+		s.buffers = append(s.buffers, nil)
+	}
+
+	exist := s.buffers[index] != nil
 	if !exist {
 		if utils.AVMediaTypeVideo == mediaType {
-			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
+			s.buffers[index] = collections.NewRBBlockBuffer(1024 * 1024 * 2)
 		} else {
-			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(48000*12))
+			s.buffers[index] = collections.NewRBBlockBuffer(48000 * 12)
 		}
 	}
 
-- 
2.43.0


From d6641fa90e667b251c43e308e788efc8b259e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 39/53] fix: demuxer filed packets under the wrong track when
 tracks started out of order

---
 demuxer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..23cd2b8 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -252,15 +252,12 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 回调AVPacket, 如果没有完成探测, 则保存到Packets中, 否则回调处理
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
-	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	// track的首个packet不一定按track的顺序到达
+	for len(s.Packets) <= packet.Index {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets := s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From 7c4985efe31986325f0819e58b7ea3a94012d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 40/53] fix: demuxer reordered buffered packets with equal dts

---
 demuxer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 23cd2b8..53e9343 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -462,8 +462,8 @@ func (s *BaseDemuxer) OnProbeComplete() {
 		}
 	}
 
-	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	// dts升序排序, dts相同的保持原有顺序
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From 4ed1a8d6f464a34dc9efe58556838c28f3699b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:43 +0000
Subject: [PATCH 41/53] fix: PCM sample rate fell back to the sample size

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 53e9343..e91c1e6 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -358,7 +358,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From 187b59375fce2563868f25acf09d65bad77e7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:43 +0000
Subject: [PATCH 42/53] fix: TryCompleteProbe ignored PCM/G726 tracks without
 packets

---
 demuxer.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e91c1e6..d93989b 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -493,14 +493,10 @@ func (s *BaseDemuxer) TryCompleteProbe() {
 			continue
 		}
 
-		for i, packets := range s.Packets {
-			if i == track.GetStream().Index && packets.Size() < 2 {
-				needMoreData = true
-				break
-			}
-		}
-
-		if needMoreData {
+		// track可能还没有收到packet
+		index := track.GetStream().Index
+		if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+			needMoreData = true
 			break
 		}
 	}
-- 
2.43.0


From a06c0216458b2fa09d718f87f4e9708f31ec2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:43 +0000
Subject: [PATCH 43/53] fix: file handler left the tail of an earlier dump in
 place

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e374151..80f528b 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 132)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 13639f704cd5d9a8661916f68473fd9a210c1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:09 +0000
Subject: [PATCH 44/53] fix: PCM rate and G726 bit rate of every track came
 from the first such track

---
 demuxer.go | 85 ++++++++++++++++++++++--------------------------------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index d93989b..18ef9d2 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -332,29 +332,14 @@ func (s *BaseDemuxer) findTrackByBufferIndex(index int) Track {
 
 // calculatePCMFrequency 计算pcm采样率
 func (s *BaseDemuxer) calculatePCMFrequency() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
+	var ok bool
+	for _, track := range s.Tracks.Tracks {
+		if track.GetStream().CodecID != utils.AVCodecIdPCMS16LE {
 			continue
 		}
 
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdPCMS16LE {
-			continue
-		}
-
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
-	}
-
-	if pktDuration < 1 {
-		return false
-	}
-
-	for _, track := range s.Tracks.Tracks {
-		if track.GetStream().CodecID != utils.AVCodecIdPCMS16LE {
+		pktDuration, pktDataSize := s.firstPacketDuration(track.GetStream().Index)
+		if pktDuration < 1 {
 			continue
 		}
 
@@ -371,55 +356,53 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 		}
 
 		track.GetStream().SampleRate = sampleRate
+		ok = true
 	}
 
-	return true
+	return ok
 }
 
 // calculateG726BitRate 计算g726比特率
 func (s *BaseDemuxer) calculateG726BitRate() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
+	var ok bool
+	for _, track := range s.Tracks.Tracks {
+		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
 			continue
 		}
 
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdADPCMG726 {
+		pktDuration, pktDataSize := s.firstPacketDuration(track.GetStream().Index)
+		if pktDuration < 1 {
 			continue
 		}
 
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
-	}
+		bitRate := pktDataSize / pktDuration * 1000 * 8
+		if bitRate <= 16000 {
+			bitRate = 16000
+		} else if bitRate <= 24000 {
+			bitRate = 24000
+		} else if bitRate <= 32000 {
+			bitRate = 32000
+		} else if bitRate <= 40000 {
+			bitRate = 40000
+		} else {
+			continue
+		}
 
-	if pktDuration < 1 {
-		return false
+		track.GetStream().BitRate = bitRate
+		ok = true
 	}
 
-	bitRate := pktDataSize / pktDuration * 1000 * 8
-	if bitRate <= 16000 {
-		bitRate = 16000
-	} else if bitRate <= 24000 {
-		bitRate = 24000
-	} else if bitRate <= 32000 {
-		bitRate = 32000
-	} else if bitRate <= 40000 {
-		bitRate = 40000
-	} else {
-		return false
-	}
+	return ok
+}
 
-	for _, track := range s.Tracks.Tracks {
-		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
-			continue
-		}
-		track.GetStream().BitRate = bitRate
+// firstPacketDuration 返回track首个packet的时长(ms)和大小
+func (s *BaseDemuxer) firstPacketDuration(index int) (int, int) {
+	if index >= len(s.Packets) || s.Packets[index].Size() < 1 {
+		return 0, 0
 	}
 
-	return true
+	pkt := s.Packets[index].Get(0)
+	return int(pkt.GetDuration(1000)), len(pkt.Data)
 }
 
 // 回调前的准备工作
-- 
2.43.0


From 939d036f00a879b0b8a3df8a16e40e6779044ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:49 +0000
Subject: [PATCH 45/53] fix: malformed HEVC packet crashed AVCCPacket2AnnexB

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 0a07ee3..062d6de 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -73,7 +73,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
-				panic(err)
+				println(err.Error())
+				return nil
 			}
 		}
 
-- 
2.43.0


From fbc11d7a44b5f719e2b87a5abd02972d76e47479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:06 +0000
Subject: [PATCH 46/53] fix: RandomIntInRange panicked on intervals wider than
 int

---
 utils/random_util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index 1d47be8..093ffb3 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -24,5 +24,15 @@ func RandomIntInRange(min, max int) int {
 	}
 
 	rand.Seed(time.Now().UnixNano())
-	return rand.Intn(max-min+1) + min
+	n := max - min + 1
+	if n > 0 {
+		return rand.Intn(n) + min
+	}
+
+	// 区间长度超出int范围
+	for {
+		if v := int(rand.Uint64()); v >= min && v <= max {
+			return v
+		}
+	}
 }
-- 
2.43.0


From 068834fe9483b2235a15272bb7694be4c20af8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:23 +0000
Subject: [PATCH 47/53] fix: file handler created dumps their owner could not
 read

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 80f528b..7ffdb92 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From f039fba9a24dc37b46a18bfeb3a57ff0f7eff520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 48/53] fix: AVCCPacket2AnnexB ignored the length size
 announced by H.264 records

---
 packet_utils.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 062d6de..f4684b9 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -1,6 +1,7 @@
 package avformat
 
 import (
+	"encoding/binary"
 	"github.com/lkmio/avformat/avc"
 	"github.com/lkmio/avformat/hevc"
 	"github.com/lkmio/avformat/utils"
@@ -16,6 +17,32 @@ func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
 	return ts/src*dst + ts%src*dst/src
 }
 
+// expandNalLength 将nalu长度字段扩展为4字节
+func expandNalLength(data []byte, lengthSize int) []byte {
+	if lengthSize == 4 {
+		return data
+	}
+
+	var dst []byte
+	for len(data) > lengthSize {
+		var size int
+		for _, b := range data[:lengthSize] {
+			size = size<<8 | int(b)
+		}
+
+		data = data[lengthSize:]
+		if size > len(data) {
+			break
+		}
+
+		dst = binary.BigEndian.AppendUint32(dst, uint32(size))
+		dst = append(dst, data[:size]...)
+		data = data[size:]
+	}
+
+	return dst
+}
+
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 	utils.Assert(utils.AVMediaTypeVideo == pkt.MediaType)
 
@@ -56,6 +83,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		lengthSize := 4
 		if data, ok := stream.CodecParameters.(*HEVCCodecData); ok && data.Record.LengthSizeMinusOne > 0 {
 			lengthSize = int(data.Record.LengthSizeMinusOne)
+		} else if data, ok := stream.CodecParameters.(*AVCCodecData); ok && data.Record.ConfigurationVersion > 0 {
+			lengthSize = int(data.Record.LengthSizeMinusOne) + 1
 		}
 
 		// 长度字段可能小于4字节start code, 每个nalu(至少2字节)最多增长3字节
@@ -67,7 +96,7 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		}
 
 		if utils.AVCodecIdH264 == pkt.CodecID {
-			n = avc.AVCC2AnnexB(bytes[extraDataSize:], pkt.Data, nil)
+			n = avc.AVCC2AnnexB(bytes[extraDataSize:], expandNalLength(pkt.Data, lengthSize), nil)
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-- 
2.43.0


From c11b175b5c6b2ee4d94a8b9cd38170ceb72e9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:55 +0000
Subject: [PATCH 49/53] fix: decoder configuration records beyond 1024 bytes
 could not be written

---
 avc/mp4.go  | 13 ++++++++++++-
 hevc/mp4.go | 17 ++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index e55518b..6562eeb 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -55,7 +55,18 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("too many pps: %d", len(ppsList))
 	}
 
-	bytes := make([]byte, 1024)
+	// 每个参数集带2字节长度
+	size := 7
+	for _, list := range [][][]byte{spsList, ppsList} {
+		for _, nalu := range list {
+			if len(RemoveStartCode(nalu)) > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too large: %d", len(nalu))
+			}
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
diff --git a/hevc/mp4.go b/hevc/mp4.go
index e1d7361..ef7050b 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,22 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	// 每个数组带3字节头, 每个参数集带2字节长度
+	size := 23
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		if len(list) > 0xFFFF {
+			return nil, fmt.Errorf("too many parameter sets: %d", len(list))
+		}
+		size += 3
+		for _, nalu := range list {
+			if len(avc.RemoveStartCode(nalu)) > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too large: %d", len(nalu))
+			}
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
-- 
2.43.0


From 0593b8e7d56f22fc7800cfa7b0428a9e263c02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:55 +0000
Subject: [PATCH 50/53] fix: HEVC records were written without profile, level
 and reserved bits

---
 hevc/mp4.go | 14 ++++++++++++++
 hevc/sps.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index ef7050b..87a587a 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -100,8 +100,22 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	bytes := make([]byte, size)
 	bytes[0] = 1
+	// 保留位
+	bytes[13] = 0xF0
+	bytes[15] = 0xFC
+	bytes[16] = 0xFC
+	bytes[17] = 0xF8
+	bytes[18] = 0xF8
 	bytes[21] = 3
 	bytes[22] = 3
+	if info, err := ParseSPS(spsList[0]); err == nil {
+		// general_profile_space...general_level_idc
+		copy(bytes[1:13], nal2rbsp(avc.RemoveStartCode(spsList[0])[2:])[1:])
+		bytes[16] |= byte(info.chromaFormat) & 0x3
+		bytes[17] |= byte(info.bitDepthLumaMinus8) & 0x7
+		bytes[18] |= byte(info.bitDepthChromaMinus8) & 0x7
+		bytes[21] |= byte(info.numTemporalLayers)&0x7<<3 | byte(info.temporalIdNested)&0x1<<2
+	}
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(23); err != nil {
 		return nil, err
diff --git a/hevc/sps.go b/hevc/sps.go
index d4e79e7..6146a65 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -105,7 +105,7 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 	if bdlm8, err = br.ReadExponentialGolombCode(); err != nil {
 		return
 	}
-	ctx.bitDepthChromaMinus8 = uint(bdlm8)
+	ctx.bitDepthLumaMinus8 = uint(bdlm8)
 	var bdcm8 uint
 	if bdcm8, err = br.ReadExponentialGolombCode(); err != nil {
 		return
-- 
2.43.0


From a12602245f818a4a647f20865b8d169dbba7b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:32 +0000
Subject: [PATCH 51/53] fix: announcing a ts stream again opened another track
 for the same buffer

---
 demuxer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 18ef9d2..0b4dc6f 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -78,7 +78,8 @@ func (s *BaseDemuxer) AddTrack(track Track) bool {
 
 func (s *BaseDemuxer) OnNewAudioTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte, config AudioConfig) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || "ts" == s.Name {
+	// ts支持多个同类型的track, 但一路流只对应一个track
+	if s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || ("ts" == s.Name && s.findTrackByBufferIndex(bufferIndex) == nil) {
 		track = s.createAudioTrack(bufferIndex, id, timebase, extraData, config)
 	}
 
@@ -133,7 +134,8 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 
 func (s *BaseDemuxer) OnNewVideoTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || "ts" == s.Name {
+	// ts支持多个同类型的track, 但一路流只对应一个track
+	if s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || ("ts" == s.Name && s.findTrackByBufferIndex(bufferIndex) == nil) {
 		track = s.createVideoTrack(bufferIndex, id, timebase, extraData)
 	}
 
-- 
2.43.0


From f8178fd3fc06fd4a6589070da9f4e1518dc470e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 52/53] fix: queues and grown buffers reported capacity 0 or
 the initial one

---
 collections/ring_buffer.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/collections/ring_buffer.go b/collections/ring_buffer.go
index ded39d1..8c9cf9a 100644
--- a/collections/ring_buffer.go
+++ b/collections/ring_buffer.go
@@ -27,12 +27,11 @@ type RingBuffer[T any] interface {
 }
 
 type ringBuffer[T any] struct {
-	data     []T
-	head     int
-	tail     int
-	size     int
-	capacity int
-	zero     T
+	data []T
+	head int
+	tail int
+	size int
+	zero T
 }
 
 func (r *ringBuffer[T]) IsEmpty() bool {
@@ -89,7 +88,7 @@ func (r *ringBuffer[T]) Size() int {
 }
 
 func (r *ringBuffer[T]) Capacity() int {
-	return r.capacity
+	return cap(r.data)
 }
 
 func (r *ringBuffer[T]) Data() ([]T, []T) {
@@ -113,11 +112,10 @@ func (r *ringBuffer[T]) Clear() {
 func NewRingBuffer[T any](capacity int) RingBuffer[T] {
 	utils.Assert(capacity > 0)
 	r := &ringBuffer[T]{
-		data:     make([]T, capacity),
-		head:     0,
-		tail:     0,
-		size:     0,
-		capacity: capacity,
+		data: make([]T, capacity),
+		head: 0,
+		tail: 0,
+		size: 0,
 	}
 
 	return r
-- 
2.43.0


From f858655e50cb5464c909066d1fd0331a045fa0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:48 +0000
Subject: [PATCH 53/53] fix: a configuration record read twice kept the
 parameter sets of the first reading

---
 avc/mp4.go  | 2 ++
 hevc/mp4.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index 6562eeb..eebd1ea 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -122,6 +122,8 @@ func (a *AVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 	var ppsCount uint8
 
 	reader := bufio.NewBytesReader(data)
+	// 重复解析时, 不保留之前的参数集
+	a.SPSList, a.PPSList = nil, nil
 
 	if err = reader.Seek(5); err != nil {
 		return err
diff --git a/hevc/mp4.go b/hevc/mp4.go
index 87a587a..a7a83da 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -164,6 +164,8 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 	reader := bufio.NewBytesReader(data)
+	// 重复解析时, 不保留之前的参数集
+	r.VPSList, r.SPSList, r.PPSList = nil, nil, nil
 	if err := reader.Seek(23); err != nil {
 		return err
 	}
-- 
2.43.0

