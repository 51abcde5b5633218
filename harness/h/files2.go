package h

import (
	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// ---- C08: what is written reads back

// geoFeats are n point features on a small grid, with arbitrary properties.
func geoFeats(n int) ([][]byte, []packedrtree.Box) {
	fs := make([][]byte, n)
	bs := make([]packedrtree.Box, n)
	for i := range fs {
		x, y := float64(9*vf.Choose("x", 2)), -float64(9*vf.Choose("y", 2))
		fs[i] = root(feature(geom(flat.GeometryTypePoint, []float64{x, y}, nil), vf.Bytes("props", i), nil))
		bs[i] = packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}
	}
	return fs, bs
}

func asFeatures(fs [][]byte) []flat.Feature {
	out := make([]flat.Feature, len(fs))
	for i := range fs {
		out[i] = *asFeature(fs[i])
	}
	return out
}

// write makes a file with the writer. mode: 0 no index, count known; 1 no
// index, count unknown; 2 index supplied; 3 IndexData; 4 IndexDataPtr; 5 count
// unknown although a node size is given.
func write(mode int, fs [][]byte, boxes []packedrtree.Box, order []int, ns uint16) (*file, *sink) {
	f := &file{feats: fs, boxes: boxes, ns: ns, count: uint64(len(fs))}
	switch mode {
	case 0:
		f.ns = 0
	case 1:
		f.ns, f.count = 0, 0
	case 5:
		f.count = 0
	}
	off := 0
	for _, x := range fs {
		f.at = append(f.at, off)
		off += len(x)
	}
	f.hdr = headerBytes(f.count, f.ns)
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s)
	n, err := w.Header(asHeader(f.hdr))
	vf.Assert(err == nil && n == 8+len(f.hdr) && len(s.b) == n, "header-written")
	f.idx = len(s.b)
	f.dat = f.idx
	hasIndex := mode >= 2 && mode <= 4
	if hasIndex {
		sz, err := packedrtree.Size(len(fs), ns)
		vf.Assert(err == nil, "size")
		f.dat += sz
	}
	switch mode {
	case 2:
		refs := make([]packedrtree.Ref, len(fs))
		for i, k := range order {
			refs[i] = packedrtree.Ref{Box: boxes[k], Offset: int64(f.at[k])}
		}
		t, err := packedrtree.New(refs, ns)
		vf.Assert(err == nil, "new")
		n, err = w.Index(t)
		vf.Assert(err == nil && n == f.dat-f.idx && len(s.b) == f.dat, "index-written")
	case 3:
		n, err = w.IndexData(asFeatures(fs))
	case 4:
		p := make([]*flat.Feature, len(fs))
		for i := range fs {
			p[i] = asFeature(fs[i])
		}
		n, err = w.IndexDataPtr(p)
	}
	if mode == 3 || mode == 4 {
		vf.Assert(err == nil && n == f.dat-f.idx+off && len(s.b) == f.idx+n, "index-and-data-written")
	} else {
		for _, x := range fs {
			was := len(s.b)
			n, err = w.Data(asFeature(x))
			vf.Assert(err == nil && n == len(x) && len(s.b) == was+n, "feature-written")
		}
	}
	vf.Assert(w.Close() == nil, "close")
	f.b = s.b
	// the layout: magic, header, index, features
	vf.Assert(len(f.b) == f.dat+off, "size-of-file")
	vf.Assert(eqBytes(f.b[8:f.idx], f.hdr), "header-in-file")
	for i := range fs {
		vf.Assert(eqBytes(f.b[f.dat+f.at[i]:f.dat+f.at[i]+len(fs[i])], fs[i]), "feature-in-file")
	}
	if mode == 5 {
		f.ns = ns // as the header says, though there is no index
	}
	return f, s
}

// readBack reads the whole file in one of many ways.
func readBack(f *file) {
	m := newReader(f, vf.Choose("seekable", 2), []int{0, 1, 5}[vf.Choose("chunk", 3)], "read-")
	m.header()
	if f.count == 0 {
		f.ns = 0 // no index then
	}
	switch vf.Choose("before", 5) {
	case 0: // straight to the data
	case 1:
		m.index()
	case 2:
		vf.Assume(m.canBck)
		m.search(symQuery())
		m.rewind()
	case 3:
		vf.Assume(m.canBck)
		m.index()
		m.rewind()
		m.search(symQuery())
		m.rewind()
		m.index()
	case 4:
		vf.Assume(m.canBck)
		m.data(1)
		m.rewind()
	}
	switch vf.Choose("batches", 4) {
	case 0:
		m.dataRem()
	case 1:
		for m.st != rEnd {
			m.data(1)
		}
	case 2:
		m.data(2)
		m.dataRem()
	case 3:
		m.data(0)
		for m.st != rEnd {
			m.data(2)
		}
	}
	m.ok(m.i == len(f.feats), "all-features")
	m.data(1) // end of data, again
	m.dataRem()
	m.close()
	m.intact()
	vf.Reach("read back")
}

// Without an index, or with the index supplied; arbitrary content.
func C08_roundtrip() {
	n := vf.Choose("features", vf.Param("features up to", 3, 4)+1)
	mode := []int{0, 1, 2, 5}[vf.Choose("mode", 4)]
	vf.Assume(n > 0 || mode == 1 || mode == 5)
	f, _ := write(mode, symFeats(n), spots(n), indexOrder(n, vf.Choose("order", 3)), []uint16{2, 16}[vf.Choose("nodeSize", 2)])
	readBack(f)
}

// Index built by the writer.
func C08_roundtrip_indexed() {
	n := 1 + vf.Choose("features-1", vf.Param("features up to", 2, 3))
	fs, bs := geoFeats(n)
	f, _ := write(3+vf.Choose("ptr", 2), fs, bs, nil, 16)
	readBack(f)
}

// Larger files: hundreds of features, every way of reading.
func C08_many() {
	n := []int{17, 40}[vf.Choose("n", 2)]
	if vf.Thorough() {
		n = 1030 // beyond the batch of 1024 used for unknown counts
	}
	fs := make([][]byte, n)
	for i := range fs {
		fs[i] = blob([]byte{byte(i), byte(i >> 8), 7, 7, 7, 7, 7, 7, 7, 7, 7}[:4+i%6])
	}
	fs[n/2] = blob(vf.Bytes("feature", 5))
	f, _ := write([]int{0, 1, 2}[vf.Choose("mode", 3)], fs, spots(n), indexOrder(n, 2), 4)
	m := newReader(f, vf.Choose("seekable", 2), 0, "read-")
	m.header()
	if f.ns > 0 {
		if vf.Choose("index", 2) == 1 {
			m.index()
		}
	}
	if vf.Choose("batches", 2) == 1 {
		for m.st != rEnd {
			m.data(7)
		}
	}
	m.dataRem()
	m.data(1)
	m.intact()
	vf.Reach("read back")
}

// Unknown count, around the batch size DataRem uses.
func C08_unknown_count_batches() {
	n := []int{1023, 1024, 1025}[vf.Choose("n", 3)]
	if vf.Thorough() {
		n = []int{2047, 2048, 2049}[vf.Choose("n2", 3)]
	}
	fs := make([][]byte, n)
	for i := range fs {
		fs[i] = blob([]byte{byte(i), byte(i >> 8), 0, 0})
	}
	fs[n-1-vf.Choose("k", 2)] = blob(vf.Bytes("feature", 4))
	f := mkFile(fs, nil, nil, 0, false)
	m := newReader(f, 0, 0, "read-")
	m.header()
	if vf.Choose("first", 2) == 1 {
		m.data(1)
	}
	m.dataRem()
	m.data(1)
	m.intact()
	vf.Reach("read back")
}

// ---- C09

// All boxes, the query and the content arbitrary.
func C09_search() {
	n := 1 + vf.Choose("features-1", vf.Param("features up to (all boxes symbolic)", 3, 4))
	boxes := make([]packedrtree.Box, n)
	for i := range boxes {
		boxes[i] = box("entry")
		vf.Assume(noNaN(boxes[i]))
	}
	f := mkFile(symFeats(n), boxes, indexOrder(n, vf.Choose("order", 3)), []uint16{2, 16}[vf.Choose("nodeSize", 2)], true)
	searchWays(f)
}

func searchWays(f *file) {
	m := newReader(f, vf.Choose("seekable", 2), []int{0, 3}[vf.Choose("chunk", 2)], "")
	m.header()
	if m.canBck {
		switch vf.Choose("before", 6) {
		case 4: // index loaded, some data read
			m.index()
			m.data(1)
			m.rewind()
		case 5: // index loaded, searched
			m.index()
			m.rewind()
			m.search(packedrtree.Box{XMin: 1, YMin: 1, XMax: 2, YMax: 2})
			m.rewind()
		case 1: // index loaded
			m.index()
			m.rewind()
		case 2: // index skipped
			m.data(1)
			m.rewind()
		case 3: // searched before
			m.search(packedrtree.Box{XMin: 1, YMin: 1, XMax: 2, YMax: 2})
			m.rewind()
		}
	}
	q := symQuery()
	fs, err := m.r.IndexSearch(q)
	m.ok(err == nil, "search-succeeds")
	m.same(fs, f.expect(q), "search")
	m.st = rEnd
	m.data(1)
	m.intact()
	vf.Reach("searched")
}

// More features, separate boxes, arbitrary query.
func C09_more_features() {
	n := []int{5, 9}[vf.Choose("features", 2)]
	if vf.Thorough() {
		n = []int{17, 33}[vf.Choose("features", 2)]
	}
	f := mkFile(symFeats(n), spots(n), indexOrder(n, vf.Choose("order", 3)), []uint16{2, 3, 16}[vf.Choose("nodeSize", 3)], true)
	searchWays(f)
}

// No index: the error says so and the data is still there.
func C09_no_index() {
	n := vf.Choose("features", 4)
	f := mkFile(symFeats(n), spots(n), nil, 0, n > 0 && vf.Choose("known", 2) == 1)
	m := newReader(f, vf.Choose("seekable", 2), 0, "")
	m.header()
	m.search(symQuery())
	m.dataRem()
	m.data(1)
	vf.Reach("read")
}

// ---- C10

func C10_rewind() {
	n := 1 + vf.Choose("features-1", vf.Param("features up to", 2, 3))
	var f *file
	switch vf.Choose("shape", 4) {
	case 0:
		f = mkFile(symFeats(n), spots(n), nil, 0, false)
	case 1:
		f = mkFile(symFeats(n), spots(n), nil, 0, true)
	case 2:
		f = mkFile(symFeats(n), spots(n), indexOrder(n, 0), 16, true)
	default:
		f = mkFile(symFeats(n), spots(n), indexOrder(n, 1), 2, true)
	}
	m := newReader(f, 1, []int{0, 7}[vf.Choose("chunk", 2)], "")
	m.header()
	for d := vf.Param("calls before", 2, 3); d > 0; d-- {
		m.step(vf.Choose("before", 6), symQuery())
	}
	m.rewind()
	for d := vf.Param("calls after", 2, 2); d > 0; d-- {
		m.step(vf.Choose("after", 6), symQuery())
	}
	m.intact()
	vf.Reach("end")
}
