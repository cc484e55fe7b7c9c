From 09f898f0ee1886576fecd4824cc743a2f8c00fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 01/21] fix: nodeindex lost the first run of a block starting
 with node 0 or 1

lastId starts as MaxUint64, so lastId+1 and lastId+2 wrap to 0 and 1, and the
first node was taken as an extension of a run that did not exist.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From 32e9d23c14ae0a927d666cd9f8820cd293b109ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 02/21] fix: node sub-indexes lost the remainder and failed on
 empty passes

The last pass ended at passes*(locations/passes), so nodes beyond that were in
no pass; a pass that starts past the last element restarted at element 0; and
an empty pass or index made SubIndex panic.
---
 internal/nodeindex/nodeindex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..7cc08b6 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -73,7 +73,7 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 	endTarget := startTarget + sliceSize
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -83,7 +83,8 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
-	for i := startIndex; i < uint64(len(subIds)); i++ {
+	// The last pass also takes what the division left over
+	for i := startIndex; i < uint64(len(subIds)) && curPass+1 < countPass; i++ {
 		if runningTotal >= endTarget {
 			endIndex = i
 			break
@@ -91,11 +92,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From 5b63d9fdb54770eb96781a8846ca66c1bece8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 03/21] fix: way sub-indexes lost the remainder and failed on
 empty passes

The last pass ended at passes*(bytes/passes), so ways beyond that were in no
pass; a pass that starts past the last way restarted at way 0; and an empty
pass or index made SubIndexWithScaledPass panic.
---
 internal/wayindex/wayindex.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..1f85f26 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -69,8 +69,7 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	startTarget := int64((len(idx.Loc) / countPass) * curPass)
 	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
 
-	startIndex := 0
-
+	startIndex := len(subIds)
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= startTarget {
@@ -79,18 +78,24 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
-	for i := startIndex; i < len(subIds); i++ {
+	// The last pass also takes what the division left over
+	for i := startIndex; i < len(subIds) && curPass+1 < countPass; i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= endTarget {
 			endIndex = i
 			break
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From d55c847ec421b1c8218bd5c881a3f78b8d2502e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 04/21] fix: adding the empty string moved it away from string
 table index 0

Its frequency starts at MaxUint32 and wrapped to 0, so another string got
index 0, which ends the key/value list of a dense node.
---
 internal/t/string_table_builder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..6982231 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -27,11 +27,11 @@ func (stb *stringTableBuilder) AddMap(m map[string]string) {
 }
 
 func (stb *stringTableBuilder) AddString(s string) {
-	if _, ok := stb.stringFrequency[s]; !ok {
+	if freq, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-	} else {
-		stb.stringFrequency[s] = stb.stringFrequency[s] + 1
+	} else if freq < math.MaxUint32 { // the blank string starts at the maximum, so that it sorts first
+		stb.stringFrequency[s] = freq + 1
 	}
 }
 
-- 
2.43.0


From 76cae2c16cd2108c53e5076c047650493b6df28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 05/21] fix: NewCountOffset accepted a count that does not fit

A count of 1<<24 was stored as 0 with the offset one too high.
---
 internal/nodeindex/count_offset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
-- 
2.43.0


From 1d57ec24c5ea7a1ca37c4060f20c72f65506294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/21] fix: MakeIndexData accepted way ids and offsets that do
 not fit

1<<31 and 1<<33 (and negative values) were stored as something else.
---
 internal/wayindex/indexdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..c67af1d 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,10 +16,10 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
+	if wayID < 0 || wayID >= (1<<31) {
 		panic("wayID too large")
 	}
-	if offset > (1 << 33) {
+	if offset < 0 || offset >= (1<<33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
-- 
2.43.0


From c6d5cafc19a3c1e350721d65dcbaf6a02d7399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/21] fix: relindex failed on a file without relations

The pass file is empty then, and mapping an empty file fails.
---
 cmd/relindex/relindex.go | 6 ++++++
 internal/iio/wrappers.go | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 945b618..7344efb 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -33,6 +33,12 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 	fIn := iio.OsOpen(inputFile)
 	fOut := iio.OsCreate(outputFile)
 
+	if iio.FSize(fIn) == 0 { // no relations, and an empty file can not be mapped
+		iio.FClose(fOut)
+		iio.FClose(fIn)
+		return
+	}
+
 	m := iio.MMapMap(fIn)
 	u := iunsafe.ByteSliceAsInt64Slice(m)
 
diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 8cca215..66dbc06 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -41,6 +41,14 @@ func FClose(f *os.File) {
 	}
 }
 
+func FSize(f *os.File) int64 {
+	if fi, err := f.Stat(); err != nil {
+		panic(err)
+	} else {
+		return fi.Size()
+	}
+}
+
 func FRead(f *os.File, buf []byte) int {
 	if n, err := f.Read(buf); err != nil && err != io.EOF {
 		panic(err)
-- 
2.43.0


From 80365206611dc7cd4177a79ae4d04f08251584aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 08/21] fix: decompress wrote blobs without any data for empty
 payloads

Such a blob has neither raw nor zlib data and can not be read again.
---
 internal/t/blob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
-- 
2.43.0


From a687ca1e2416df9fbdd058c04c895a7dec047c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/21] fix: writing long ways and large dense blocks failed

A way may have 2000 refs, whose locations take up to 10 bytes each, more than
the 16383 bytes reserved; the ids, latitudes or longitudes of a dense block may
take more than 2 MiB.
---
 internal/t/dense_nodes.go     | 6 +++---
 internal/t/primitive_group.go | 2 +-
 internal/t/way.go             | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/t/dense_nodes.go b/internal/t/dense_nodes.go
index 38c6b20..66f3512 100644
--- a/internal/t/dense_nodes.go
+++ b/internal/t/dense_nodes.go
@@ -45,9 +45,9 @@ func ReadDenseNodes(buf []byte, dn *DenseNodes) {
 }
 
 func (dn *DenseNodes) Write(buf []byte) []byte {
-	buf = pb.Embed2097152(denseNodesId, pb.EncodeS64PackedDeltaFunc(dn.Id), buf)
-	buf = pb.Embed2097152(denseNodesLat, pb.EncodeS64PackedDeltaFunc(dn.Lat), buf)
-	buf = pb.Embed2097152(denseNodesLon, pb.EncodeS64PackedDeltaFunc(dn.Lon), buf)
+	buf = pb.Embed268435456(denseNodesId, pb.EncodeS64PackedDeltaFunc(dn.Id), buf)
+	buf = pb.Embed268435456(denseNodesLat, pb.EncodeS64PackedDeltaFunc(dn.Lat), buf)
+	buf = pb.Embed268435456(denseNodesLon, pb.EncodeS64PackedDeltaFunc(dn.Lon), buf)
 	if len(dn.KeyVals) > 0 {
 		buf = pb.Embed268435456(denseNodesKeyVals, pb.EncodeI32PackedFunc(dn.KeyVals), buf)
 	}
diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index dda9ac0..f73cecc 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -73,7 +73,7 @@ func (pg *PrimitiveGroup) Write(buf []byte) []byte {
 
 	if pg.Ways != nil {
 		for _, w := range pg.Ways {
-			buf = pb.Embed16384(primitiveGroupWays, w.Write, buf)
+			buf = pb.Embed2097152(primitiveGroupWays, w.Write, buf)
 		}
 	} else {
 		for _, w := range pg.RawWays {
diff --git a/internal/t/way.go b/internal/t/way.go
index 20ba3c6..a6b494e 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -47,6 +47,6 @@ func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
 	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
 	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
-	buf = pb.Embed16384(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
+	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From aa738de0246d4fd0f6af5fbd751daa6a9a1e6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/21] fix: cancelling rewritenodes with several passes failed
 and left pass files

The next pass was started on the truncated, possibly empty, pass file.
---
 cmd/rewritenodes/rewritenodes.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..f1f8a3a 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
 	wcmd "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -46,7 +47,7 @@ func main() {
 	mainUI := ui.NewUI(opts.Refresh, cancel)
 	var passTimes []time.Duration
 
-	for i := uint64(0); i < passes; i++ {
+	for i := uint64(0); i < passes && !icontext.IsCancelled(ctx); i++ {
 		passStartTime := time.Now()
 
 		if i > 1 {
@@ -79,8 +80,9 @@ func main() {
 		passTimes = append(passTimes, time.Since(passStartTime))
 	}
 
-	if passes > 1 {
-		iio.OsRemove(makePassFilename(opts.OutputFile, passes-1, passes))
+	// When cancelled, the last pass file is not necessarily that of the last pass
+	for i := uint64(1); i < passes; i++ {
+		iio.OsRemoveTry(makePassFilename(opts.OutputFile, i, passes))
 	}
 
 	mainUI.Stop()
-- 
2.43.0


From e225ad6499d1b4501447dc60b657e5d52f8b2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/21] fix: a cancelled nodeindex run left an incomplete index
 marked as valid

---
 cmd/nodeindex/indexer/nodeindexer_writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..a27b75d 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -66,8 +66,10 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
-		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-		iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+		if !icontext.IsCancelled(ctx) { // without a version, an incomplete index is refused
+			iio.FSeek(outputFileIdx, 0, io.SeekStart)
+			iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+		}
 		iio.FClose(outputFileIdx)
 	}
 }
-- 
2.43.0


From 77f6c4c507d3e4ba3b1397d574eace863c07a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 12/21] fix: progress lines lost their percent signs when not
 highlighted

The result is always taken as markup, so it must be escaped on every path.
---
 internal/ui/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..cc895f9 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -6,7 +6,7 @@ import (
 
 func MarkupAsProgress(s string, w int, pct float64) string {
 	if w == 0 {
-		return s
+		return EscapePercent(s)
 	}
 
 	if pct < 0 {
@@ -21,9 +21,9 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return s
+		return EscapePercent(s)
 	} else if pre >= len(s) {
-		return s
+		return EscapePercent(s)
 	}
 	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
 }
-- 
2.43.0


From 6af034f6660a79b09d81be7006fc67d1fab76d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 13/21] fix: progress lines broke characters outside ASCII

The line was padded and split by bytes, which cut the characters of a file name
in two.
---
 internal/ui/format.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index cc895f9..54a6614 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -15,17 +15,19 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 		pct = 1
 	}
 
-	pad := w - len(s)
+	r := []rune(s) // the split must not fall inside a character
+	pad := w - len(r)
 	if pad > 0 {
 		s = s + strings.Repeat(" ", pad)
+		r = []rune(s)
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
 		return EscapePercent(s)
-	} else if pre >= len(s) {
+	} else if pre >= len(r) {
 		return EscapePercent(s)
 	}
-	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
+	return "%S" + EscapePercent(string(r[:pre])) + "%N" + EscapePercent(string(r[pre:]))
 }
 
 func EscapePercent(s string) string {
-- 
2.43.0


From a28d897a827391ca9b5d767473e1c062b2673042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 14/21] fix: nodeindex failed on a run of more than 2^24-1
 locations

---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 43b5447..f53dbbb 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
 	"github.com/squizzling/osmindex/internal/morton"
+	"github.com/squizzling/osmindex/internal/nodeindex"
 	"github.com/squizzling/osmindex/internal/pbf"
 	"github.com/squizzling/osmindex/internal/pool"
 	"github.com/squizzling/osmindex/internal/t"
@@ -57,9 +58,10 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if firstId != notAssigned && uid == lastId+1 { // extend current block
+				canExtend := firstId != notAssigned && uid-firstId+1 < nodeindex.CountMax
+				if canExtend && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if firstId != notAssigned && uid == lastId+2 {
+				} else if canExtend && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From 0737c0a5d887d9e340265bceef3308464fd8c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 15/21] fix: writing a way or relation with many tags or
 members failed

The key and value indexes of a way or relation with more than about 5500 tags
may take more than the 16383 bytes reserved for them, and a relation with very
many members more than 2 MiB.
---
 internal/t/primitive_group.go |  2 +-
 internal/t/relation.go        | 10 +++++-----
 internal/t/way.go             |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index f73cecc..ce6fe9f 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -83,7 +83,7 @@ func (pg *PrimitiveGroup) Write(buf []byte) []byte {
 
 	if pg.Relations != nil {
 		for _, r := range pg.Relations {
-			buf = pb.Embed2097152(primitiveGroupRelations, r.Write, buf)
+			buf = pb.Embed268435456(primitiveGroupRelations, r.Write, buf)
 		}
 	} else {
 		for _, r := range pg.RawRelations {
diff --git a/internal/t/relation.go b/internal/t/relation.go
index 87726ec..fcd38ce 100644
--- a/internal/t/relation.go
+++ b/internal/t/relation.go
@@ -57,10 +57,10 @@ func ReadRelation(buf []byte, r *Relation) {
 
 func (r *Relation) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, relationId, uint64(r.ID))
-	buf = pb.Embed16384(relationKeys, pb.EncodeU32PackedFunc(r.Keys), buf)
-	buf = pb.Embed16384(relationVals, pb.EncodeU32PackedFunc(r.Vals), buf)
-	buf = pb.Embed2097152(relationRolesSID, pb.EncodeI32PackedFunc(r.RolesSID), buf)
-	buf = pb.Embed2097152(relationMemIDs, pb.EncodeS64PackedDeltaFunc(r.MemIDs), buf)
-	buf = pb.Embed2097152(relationMemberType, pb.EncodeU64Packed(r.MemberType), buf)
+	buf = pb.Embed268435456(relationKeys, pb.EncodeU32PackedFunc(r.Keys), buf)
+	buf = pb.Embed268435456(relationVals, pb.EncodeU32PackedFunc(r.Vals), buf)
+	buf = pb.Embed268435456(relationRolesSID, pb.EncodeI32PackedFunc(r.RolesSID), buf)
+	buf = pb.Embed268435456(relationMemIDs, pb.EncodeS64PackedDeltaFunc(r.MemIDs), buf)
+	buf = pb.Embed268435456(relationMemberType, pb.EncodeU64Packed(r.MemberType), buf)
 	return buf
 }
diff --git a/internal/t/way.go b/internal/t/way.go
index a6b494e..b6c979f 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -45,8 +45,8 @@ func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
 
 func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
-	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
-	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
+	buf = pb.Embed2097152(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
+	buf = pb.Embed2097152(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
 	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From d68792e344baa90680051cd8a0802e026eddbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 16/21] fix: a torn write of the node index header left a valid
 but empty index

The version and the number of elements were written together; cut off after the
version, the index claimed to be complete and to have no elements.
---
 cmd/nodeindex/indexer/nodeindexer_writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index a27b75d..566d06c 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -67,8 +67,11 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		if !icontext.IsCancelled(ctx) { // without a version, an incomplete index is refused
+			// The version goes last, so that a torn write does not make the index valid
+			iio.FSeek(outputFileIdx, 8, io.SeekStart)
+			iio.FWriteSliceU64(outputFileIdx, []uint64{indexElementCount})
 			iio.FSeek(outputFileIdx, 0, io.SeekStart)
-			iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+			iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version})
 		}
 		iio.FClose(outputFileIdx)
 	}
-- 
2.43.0


From a5dac12733a272dd7d2186d4a7f6fc457c3f4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 17/21] fix: slow lookups overflowed the timing buckets

---
 internal/nodeindex/nodesubindex.go | 3 +++
 internal/wayindex/subindex.go      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index d7f61ae..fddcca9 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -94,6 +94,9 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 			i++
 			delta /= si.parent.divFactor
 		}
+		if i > len(si.parent.lookupTimingCount) {
+			i = len(si.parent.lookupTimingCount) // the last one is for everything slower
+		}
 		atomic.AddUint64(&si.parent.lookupTimingCount[i-1], 1)
 	}
 	return l, h, ok
diff --git a/internal/wayindex/subindex.go b/internal/wayindex/subindex.go
index fb7a983..58df2e7 100644
--- a/internal/wayindex/subindex.go
+++ b/internal/wayindex/subindex.go
@@ -81,6 +81,9 @@ func (si *SubWayIndex) FindLocations(id int64, hint int) ([]int64, int, bool) {
 			i++
 			delta /= si.parent.divFactor
 		}
+		if i > len(si.parent.lookupTimingCount) {
+			i = len(si.parent.lookupTimingCount) // the last one is for everything slower
+		}
 		atomic.AddUint64(&si.parent.lookupTimingCount[i-1], 1)
 	}
 	return l, h, ok
-- 
2.43.0


From 5b87a32cfdb1ad34517035a3b45571c852ae0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 18/21] fix: option values no run can have crashed or hung the
 commands

---
 cmd/blockcount/args.go    |  4 ++++
 cmd/decompress/args.go    |  4 ++++
 cmd/dumpnodeindex/args.go |  4 ++++
 cmd/dumpwayindex/args.go  |  4 ++++
 cmd/entitycount/args.go   |  4 ++++
 cmd/entityfind/args.go    |  4 ++++
 cmd/nodeindex/args.go     |  4 ++++
 cmd/relindex/args.go      |  8 ++++++++
 cmd/rewritenodes/args.go  | 13 +++++++++++++
 cmd/tagfilter/args.go     |  5 +++++
 cmd/wayindex/args.go      |  8 ++++++++
 internal/ui/args.go       |  6 +++++-
 12 files changed, 67 insertions(+), 1 deletion(-)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..7ab5c0d 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	// Validation results
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..a9cc02a 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	// Validation results
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
diff --git a/cmd/dumpnodeindex/args.go b/cmd/dumpnodeindex/args.go
index df1fa33..18a1ab4 100644
--- a/cmd/dumpnodeindex/args.go
+++ b/cmd/dumpnodeindex/args.go
@@ -59,6 +59,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
 
+	if opts.StartElement != nil && *opts.StartElement < 0 {
+		errors = append(errors, "start-element must not be negative")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..55ff4ac 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -57,6 +57,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
 
+	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < 0 {
+		errors = append(errors, "sub-index-index must not be negative")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..babf1cc 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..1a4216b 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..81d1518 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..a7b171c 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -52,6 +52,14 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..eae443b 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -47,8 +47,21 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
+	if opts.Memory != nil && *opts.Memory < 1 {
+		errors = append(errors, "memory must be at least 1")
+	}
+
+	if opts.Timing != nil && !(*opts.Timing > 1) {
+		errors = append(errors, "timing must be above 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..090809c 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -44,8 +44,13 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..d6405d6 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -49,6 +49,14 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
+	if opts.Alignment < 0 || opts.Alignment > 30 {
+		errors = append(errors, "alignment must be from 0 to 30")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/internal/ui/args.go b/internal/ui/args.go
index f86dfa2..7d38e05 100644
--- a/internal/ui/args.go
+++ b/internal/ui/args.go
@@ -9,5 +9,9 @@ type UIOpts struct {
 }
 
 func (opts *UIOpts) Validate() []string {
-	return nil
+	var errors []string
+	if opts.Refresh < 0 {
+		errors = append(errors, "refresh must not be negative")
+	}
+	return errors
 }
-- 
2.43.0


From 2877db4c9aa70d27892b6185860e625880a8e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 19/21] fix: store and load the size of the file atomically,
 the display reads it meanwhile

---
 internal/pbf/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pbf/process.go b/internal/pbf/process.go
index ec5da67..2849f0b 100644
--- a/internal/pbf/process.go
+++ b/internal/pbf/process.go
@@ -47,7 +47,7 @@ func (pfs *ProcessFileState) At() uint64 {
 }
 
 func (pfs *ProcessFileState) Max() uint64 {
-	return pfs.max
+	return atomic.LoadUint64(&pfs.max)
 }
 
 func (pfs *ProcessFileState) Wait() {
@@ -98,7 +98,7 @@ func (pfs *ProcessFileState) processFileWork(
 	}
 
 	atomic.StoreUint64(&pfs.at, 0)
-	pfs.max = uint64(len(inputBuffer))
+	atomic.StoreUint64(&pfs.max, uint64(len(inputBuffer)))
 
 	blobIndex := uint64(0)
 
-- 
2.43.0


From cd318e6eefbdf7d241d73fd92c6cbc61c738249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 20/21] fix: a timing factor close to 1 made a lookup take
 forever

---
 internal/nodeindex/nodesubindex.go | 5 +----
 internal/wayindex/subindex.go      | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index fddcca9..b470dc8 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -89,14 +89,11 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) { // the last one is for everything slower
 			// TODO: something something log?
 			i++
 			delta /= si.parent.divFactor
 		}
-		if i > len(si.parent.lookupTimingCount) {
-			i = len(si.parent.lookupTimingCount) // the last one is for everything slower
-		}
 		atomic.AddUint64(&si.parent.lookupTimingCount[i-1], 1)
 	}
 	return l, h, ok
diff --git a/internal/wayindex/subindex.go b/internal/wayindex/subindex.go
index 58df2e7..49e4824 100644
--- a/internal/wayindex/subindex.go
+++ b/internal/wayindex/subindex.go
@@ -77,13 +77,10 @@ func (si *SubWayIndex) FindLocations(id int64, hint int) ([]int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) { // the last one is for everything slower
 			i++
 			delta /= si.parent.divFactor
 		}
-		if i > len(si.parent.lookupTimingCount) {
-			i = len(si.parent.lookupTimingCount) // the last one is for everything slower
-		}
 		atomic.AddUint64(&si.parent.lookupTimingCount[i-1], 1)
 	}
 	return l, h, ok
-- 
2.43.0


From 5588e264bd7bf01183b90c98daa30343abd35839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:09 +0000
Subject: [PATCH 21/21] fix: a huge amount of memory overflowed, and crashed
 rewritenodes

---
 cmd/rewritenodes/rewritenodes.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index f1f8a3a..0f28b7e 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -37,9 +37,8 @@ func main() {
 	passes := uint64(1)
 
 	if opts.Memory != nil {
-		memTarget := *opts.Memory * 1048576
 		memRequired := ix.LocationCount() * 8
-		passes = (memRequired / memTarget) + 1
+		passes = (memRequired / 1048576 / *opts.Memory) + 1 // the memory in bytes may not fit 64 bits
 	}
 
 	nr := &rewriter.NodeRewriter{}
-- 
2.43.0

