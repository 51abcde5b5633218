From 9028d603d8f18d65fcf73e58f6464b80ccda0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 01/22] fix: combine property bytes after widening them

ReadShort, ReadUShort, ReadUInt, ReadLong and ReadULong shifted each byte
before widening it, so every byte but the lowest was lost.
---
 flatgeobuf/prop_reader.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..34bcbcd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return int16(b[0]) | int16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return uint16(b[0]) | uint16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,8 +100,8 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
+	v := int64(b[0])<<000 | int64(b[1])<<010 | int64(b[2])<<020 | int64(b[3])<<030 |
+		int64(b[4])<<040 | int64(b[5])<<050 | int64(b[6])<<060 | int64(b[7])<<070
 	return v, nil
 }
 
@@ -111,8 +111,8 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
+	v := uint64(b[0])<<000 | uint64(b[1])<<010 | uint64(b[2])<<020 | uint64(b[3])<<030 |
+		uint64(b[4])<<040 | uint64(b[5])<<050 | uint64(b[6])<<060 | uint64(b[7])<<070
 	return v, nil
 }
 
-- 
2.43.0


From e5f23596220acdbb8fd93fba366cfbe29e7a0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 02/22] fix: report errors reading property values

ReadSchema dropped the error of reading a value and returned a made-up
value for a truncated pair.
---
 flatgeobuf/prop_reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 34bcbcd..d6dae2f 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -177,7 +177,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		if err == io.EOF {
 			return vals, nil
 		} else if err != nil {
-			return nil, fmtErr("error reading column index")
+			return nil, wrapErr("error reading column index", err)
 		}
 		i := int(col)
 		if i >= n {
@@ -220,6 +220,12 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		default:
 			fmtPanic("unknown column type: %s", val.Type)
 		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return nil, wrapErr("error reading value of column %d", err, i)
+		}
 		vals = append(vals, val)
 	}
 }
-- 
2.43.0


From db8730812ba9bd79b36df8ad31eebaf44c78cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 03/22] fix: recognise size-prefixed root tables

tableSize demanded Pos == 4, which no size-prefixed root table has (its
position is 4 plus the root offset), so the writer refused every table. It
also panicked on buffers shorter than 4 bytes, and the buffer length check
ignored the 4 bytes of the prefix itself.
---
 flatgeobuf/flatbuffers.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..538ac59 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,9 +38,6 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
 	} else {
 		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
 		return
@@ -48,9 +45,16 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 }
 
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT ||
+		t.Pos != flatbuffers.SizeUint32+flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:]) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
+	if uint64(size) > uint64(len(t.Bytes)-flatbuffers.SizeUint32) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
+	} else if uint64(size) < uint64(t.Pos) {
+		err = fmtErr("FlatBuffers size prefix ends before the root table (Pos=%d, size=%d)", t.Pos, size)
+	}
 	return
 }
-- 
2.43.0


From 68708ebe01584784664a8025ea085985c10fe284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 04/22] fix: count the size prefix in index offsets

IndexDataPtr advanced the feature offset by the table size without the
4-byte prefix that is also written, so every entry but the first pointed
into the middle of an earlier feature.
---
 flatgeobuf/file_writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..643de8b 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // FileWriter writes a FlatGeobuf file to an underlying stream.
@@ -190,7 +191,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
-- 
2.43.0


From 649eed9564863125f937f4a5471819bab79e359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 05/22] fix: index nested geometry parts

featureBounds looked only at the coordinates of the outer geometry, so
multi-part features got an empty box in the index.
---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 643de8b..ec502bd 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -316,10 +316,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From 8270ec32d8d67c5cec54a0ef8aacdbe8f2a9526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 06/22] fix: refuse out of range child nodes in a serialized
 index

A corrupt child node number made a search of the index index out of range,
or never end. Seek now fails when it meets one, and Unmarshal checks all.
---
 packedrtree/packedrtree.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..8c6741e 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -350,6 +350,8 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 				continue
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
+			} else if next := prt.levels[t.level-1]; n.Offset < int64(next.start) || n.Offset >= int64(next.end) {
+				return nil, fmtErr("node %d has child %d outside its level [%d..%d)", pos, n.Offset, next.start, next.end)
 			} else {
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
@@ -505,6 +507,16 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// Refuse child node numbers that a search could not follow.
+	for i := 1; i < len(prt.levels); i++ {
+		next := prt.levels[i-1]
+		for j := prt.levels[i].start; j < prt.levels[i].end; j++ {
+			if k := prt.nodes[j].Offset; k < int64(next.start) || k >= int64(next.end) {
+				return nil, fmtErr("node %d has child %d outside its level [%d..%d)", j, k, next.start, next.end)
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From 3a4c5874a72c67b37deb37b2d7764d3da35b5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 07/22] fix: read searched features in file order

The results of a streaming search come in index order, but IndexSearch
assumed offset order and read wrong features.
---
 flatgeobuf/file_reader.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..6ba984d 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -267,11 +267,8 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
-- 
2.43.0


From 3e59942443e94cf85ece2d9e776ec25f3b9b9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 08/22] fix: keep a malformed header error

The reader stayed in an intermediate state, so the next call panicked.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 6ba984d..f14d4fe 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(err)
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From 54537816ec1a278eb80aaf8b52425fbb8e51192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 09/22] fix: avoid overflow of the feature buffer size

A feature length of 0xFFFFFFFC or more wrapped around and panicked.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f14d4fe..54723b4 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -547,7 +547,7 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	}
 
 	// Read the feature table bytes.
-	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
+	tbl := make([]byte, flatbuffers.SizeUint32+int64(featureLen))
 	copy(tbl, b)
 	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
-- 
2.43.0


From e60d0b13efac2bab5402ed7455ccac035e89f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 10/22] fix: search the index of a source that can't seek

IndexSearch called Index after leaving the state Index expects, which
always panicked.
---
 flatgeobuf/file_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 54723b4..ffa782c 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -259,10 +259,12 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
-		if _, err := r.Index(); err != nil {
-			return nil, err
+		prt, err := packedrtree.Unmarshal(r.r, r.numFeatures, r.nodeSize)
+		if err != nil {
+			return nil, r.toErr(wrapErr("failed to read index", err))
 		}
-		sr = r.cachedIndex.Search(b)
+		r.cachedIndex = prt
+		sr = prt.Search(b)
 	} else {
 		textPanic("logic error: index should not be cached")
 	}
-- 
2.43.0


From 1ad7e70231ea296abca085f12735a801786a0a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 11/22] fix: save the data offset after reading the index

After Index and Rewind, the cached index was reused by seeking to a data
offset that had not been saved, the start of the file.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index ffa782c..23ced54 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -202,6 +202,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 		return nil, r.toErr(wrapErr("failed to read index", err))
 	}
 
+	// The reader's position is now at the start of the data section.
+	// Save it, too, for future reference after a Rewind().
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
+
 	// Cache the index for use after future Rewind().
 	r.cachedIndex = prt
 
-- 
2.43.0


From d0ac714eff93f88e094b424137ad421b00a55979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 12/22] fix: files of unknown feature count have no index

The node size defaults to 16, so reading such a file (or an empty one)
panicked on the size of an empty index, and writing one demanded an index
that could not be made.
---
 flatgeobuf/file_reader.go | 6 ++++++
 flatgeobuf/file_writer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 23ced54..f26e94e 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -131,6 +131,12 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		return hdr, r.toErr(textErr("header index node size 1 not allowed"))
 	}
 
+	// There is no index if the feature count is zero (unknown), whatever
+	// the node size.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index ec502bd..5542a24 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -112,6 +112,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 
+	// There is no index if the feature count is zero (unknown), whatever
+	// the node size.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Save cached feature count and index node size.
 	w.numFeatures = int(numFeatures)
 	w.nodeSize = nodeSize
-- 
2.43.0


From 3f6a818a16dd44c02d0456f17d798d1931f85211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 13/22] fix: check the feature count before building the index

IndexData panicked on an empty feature list.
---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 5542a24..9f377a8 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -180,6 +180,12 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
+	// Ensure feature count agrees with header parameters.
+	if w.numFeatures != len(data) {
+		err = fmtErr("feature count mismatch (header=%d, data=%d)", w.numFeatures, len(data))
+		return
+	}
+
 	// Create index.
 	refs := make([]packedrtree.Ref, len(data))
 	bounds := packedrtree.EmptyBox
-- 
2.43.0


From 97a125add5cff1f4b948e66fbb03812f7cdcb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 14/22] fix: an empty read of an uncounted file is not the end

Data with an empty slice declared the end of data when the feature count
is unknown.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f26e94e..a27091f 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -387,7 +387,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From 83e6d910eb6f9c654b2cf73547675b232e09e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 15/22] fix: refuse overlapping index entries

IndexSearch read whatever feature came next, when an entry pointed before
the end of the previous one.
---
 flatgeobuf/file_reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index a27091f..3d8c6c8 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -315,7 +315,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 	// in the search results.
 	fs := make([]flat.Feature, len(sr))
 	for i := range sr {
-		if sr[i].Offset > r.featureOffset {
+		if sr[i].Offset < r.featureOffset {
+			return nil, r.toErr(fmtErr("index entry %d has data offset %d inside an earlier feature (search result %d)", sr[i].RefIndex, sr[i].Offset, i))
+		} else if sr[i].Offset > r.featureOffset {
 			if err := skip(sr[i].Offset - r.featureOffset); err != nil {
 				return nil, r.toErr(wrapErr("failed to skip to feature %d (data offset %d) for search result %d", err, sr[i].RefIndex, sr[i].Offset, i))
 			}
-- 
2.43.0


From 0e1174839a00c536942d17f95e93d64a2ec67015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 16/22] fix: rewind files without an index

The position to rewind to was only saved when there was an index, and
nothing seeked back to it.
---
 flatgeobuf/file_reader.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 3d8c6c8..8fe582f 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -162,7 +162,7 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 	// If the node size is zero, there is no index and the reader is
 	// already pointing at the data section.
 	if r.nodeSize == 0 {
-		return nil, r.toState(beforeIndex, afterIndex)
+		return nil, r.passNoIndex()
 	}
 
 	// If we know our underlying reader is seekable, we may cache its
@@ -236,7 +236,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 	} else if err != nil {
 		return nil, err
 	} else if r.nodeSize == 0 {
-		r.state = afterIndex
+		if err = r.passNoIndex(); err != nil {
+			return nil, err
+		}
 		return nil, ErrNoIndex
 	}
 
@@ -479,11 +481,27 @@ func (r *FileReader) indexStateErr(state state) error {
 	}
 }
 
+// passNoIndex goes to the data section of a file without an index, where
+// the index would be. As in Index(), this might be after a Rewind().
+func (r *FileReader) passNoIndex() error {
+	if r.indexOffset > 0 {
+		if _, err := r.r.(io.Seeker).Seek(r.indexOffset, io.SeekStart); err != nil {
+			return r.toErr(wrapErr("failed to seek to data section", err))
+		}
+	} else if err := r.saveIndexOffset(nil); err != nil {
+		return err
+	}
+	return r.toState(beforeIndex, afterIndex)
+}
+
 func (r *FileReader) skipIndex() error {
 	// Transition into state for working with index.
 	if err := r.toState(afterHeader, beforeIndex); err != nil {
 		return err
 	}
+	if r.nodeSize == 0 {
+		return r.passNoIndex()
+	}
 
 	// Seek or read to the correct position.
 	if r.nodeSize > 0 {
-- 
2.43.0


From 7924e09ab66b1fd7b8e2a3e4da9e8a7b0762e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:43 +0000
Subject: [PATCH 17/22] fix: DataRem after a search finds no more data

It panicked because the search ends before the last feature of the file.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 8fe582f..e9212ba 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -410,7 +410,7 @@ func (r *FileReader) DataRem() ([]flat.Feature, error) {
 		if err != nil && err != io.EOF {
 			return p, err
 		}
-		if n != rem {
+		if err == nil && n != rem {
 			fmtPanic("expected %d features but read %d", rem, n)
 		}
 		return p, nil
-- 
2.43.0


From 000df6e7c8946dc81c29351456b22c4b4e984372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 18/22] fix: end of stream while skipping is an error

A stream that ends inside the index it declares made Data report the end of
data, as if the file were empty. A source may also return its last bytes
together with io.EOF (or an error), and those were refused.
---
 flatgeobuf/file_reader.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index e9212ba..c3ce75b 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -508,7 +508,7 @@ func (r *FileReader) skipIndex() error {
 		if r.dataOffset > 0 { // If we already know the data offset, seek to it.
 			s := r.r.(io.Seeker)
 			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip index", err))
 			}
 		} else if s, ok := r.r.(io.Seeker); ok { // If we can seek past the index, do so.
 			if err := r.saveIndexOffset(s); err != nil {
@@ -516,23 +516,23 @@ func (r *FileReader) skipIndex() error {
 			}
 			indexSize, err := packedrtree.Size(r.numFeatures, r.nodeSize)
 			if err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip index", err))
 			}
 			r.dataOffset = r.indexOffset + int64(indexSize)
 			if _, err = s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip index", err))
 			}
 		} else { // Our only choice is to read past the index.
 			indexSize, err := packedrtree.Size(r.numFeatures, r.nodeSize)
 			if err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip index", err))
 			}
 			bufSize := discardBufferSize
 			if indexSize < bufSize {
 				bufSize = indexSize
 			}
 			if err = discard(r.r, make([]byte, bufSize), int64(indexSize)); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip index", err))
 			}
 		}
 	}
@@ -619,10 +619,13 @@ func discard(r io.Reader, buf []byte, n int64) error {
 		} else {
 			a, err = r.Read(buf)
 		}
-		if err != nil {
+		n -= int64(a)
+		if err != nil && n > 0 {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
 			return err
 		}
-		n -= int64(a)
 	}
 	return nil
 }
-- 
2.43.0


From 1abce7c441ede7195c567d65bcbddd90ed931194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 19/22] fix: survive circular geometry parts

Geometry parts that contain each other overflowed the stack, which can't
be recovered from, in FeatureString and while building an index.
---
 flatgeobuf/stringers.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..0c01586 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -214,7 +214,23 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
+// geomBounds expands b by the coordinates of g and its nested parts.
+// Malformed parts may contain each other, so it does not recurse, and
+// panics if there are more parts than a buffer of the size can hold.
 func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+	todo := []flat.Geometry{*g}
+	for i := 0; i < len(todo); i++ {
+		h := todo[i]
+		todo = partBounds(&h, b, todo)
+		if len(todo) > len(h.Table().Bytes) {
+			textPanic("circular geometry parts")
+		}
+	}
+}
+
+// partBounds expands b by the coordinates of g and appends its parts
+// to todo.
+func partBounds(g *flat.Geometry, b *packedrtree.Box, todo []flat.Geometry) []flat.Geometry {
 	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
@@ -223,7 +239,8 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			todo = append(todo, h)
 		}
 	}
+	return todo
 }
-- 
2.43.0


From 61cdd2a35962a37d6630fa457a51f1f0ed498889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:50 +0000
Subject: [PATCH 20/22] fix: check the header before writing the magic number

A header table the writer refuses left a magic number behind. A closed or
failed writer reported the header's defects instead of its own.
---
 flatgeobuf/file_writer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 9f377a8..ef2998f 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -53,6 +53,11 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		textPanic("nil header")
 	}
 
+	// Always fail if the writer's already in the error state.
+	if w.err != nil {
+		return 0, w.err
+	}
+
 	// Cache feature count and check for overflow.
 	var numFeatures uint64
 	err = safeFlatBuffersInteraction(func() error {
@@ -64,7 +69,7 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 	if numFeatures > math.MaxInt {
-		err = wrapErr("header feature count overflows int", err)
+		err = textErr("header feature count overflows int")
 		return
 	}
 
@@ -83,6 +88,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 
+	// Check that the table can be written before writing anything.
+	if _, err = tableSize(hdr.Table()); err != nil {
+		err = wrapErr("failed to get header size", err)
+		return
+	}
+
 	// Transition into state for writing magic number.
 	if err = w.toState(uninitialized, beforeMagic); err == errUnexpectedState {
 		err = textErr(errHeaderAlreadyCalled)
-- 
2.43.0


From bf92d8561487eab866eff1e1904cb58195f07a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 21/22] fix: refuse FlatBuffers tables whose root offset
 overflows

---
 flatgeobuf/flatbuffers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index 538ac59..ebf6f40 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -46,7 +46,7 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
 	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT ||
-		t.Pos != flatbuffers.SizeUint32+flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:]) {
+		uint64(t.Pos) != flatbuffers.SizeUint32+uint64(flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:])) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
 		return
 	}
-- 
2.43.0


From 91997dab3a77a82ae93579ebe4ffa5fcfbdda0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 22/22] fix: bound the allocation for a schema's columns

---
 flatgeobuf/prop_reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index d6dae2f..62bca6f 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -170,7 +170,13 @@ type PropValue struct {
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 	n := schema.ColumnsLength()
-	vals := make([]PropValue, 0, n)
+	// Don't let a malformed schema decide how much memory to allocate:
+	// column indices are 16 bits wide, so nothing needs more columns.
+	c := n
+	if c < 0 || c > math.MaxUint16+1 {
+		c = 0
+	}
+	vals := make([]PropValue, 0, c)
 
 	for {
 		col, err := r.ReadUShort()
-- 
2.43.0

