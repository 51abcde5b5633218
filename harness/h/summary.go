package h

import (
	"fmt"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
	"verif/harness/vf"
)

// ---- C22

func num(x float64) string { return fmt.Sprintf("%.8g", x) }

// numbers that have one text of eight digits, as far as equality goes
func plainF(name string) float64 {
	x := vf.F64(name)
	vf.Assume(notNaN(x) && !math.IsInf(x, 0) && x != 0)
	return x
}

func text(name string, n int) []byte { return vf.Bytes(name, n) }

// A header of any fields: each is shown as stored.
func C22_header() {
	const n = 20 // 14 fields, the last 6 those of the coordinate system
	on := make([]bool, n)
	c := vf.Choose("fields", 2+2*n)
	for i := range on {
		on[i] = c == 0 || c >= 2 && c < 2+n && i == c-2 || c >= 2+n && i != c-2-n
	}
	if c >= 2+14 && c < 2+n { // a field of the coordinate system needs one
		on[10] = true
	}
	// what has few values is tried out where the field is the only one
	pick := func(i, k int) int {
		if c == 2+i || i >= 3 && i <= 6 && c < 2 {
			return vf.Choose("value", k)
		}
		return k - 1
	}
	t := make(table, 14)
	want := "Header{"
	key := func(i int, k string, f fld, v string) {
		if on[i] {
			t[i] = f
			want += k + ":" + v
		}
	}
	b := text("name", 2)
	key(0, "Name", fld{sub: str(b)}, string(b))
	if on[1] {
		var v []float64
		k := 1 + pick(1, 8)
		want += ",Envelope:["
		for i := 0; i < k; i++ {
			v = append(v, plainF("env"))
			if i > 0 {
				want += ","
			}
			want += num(v[i])
		}
		want += "]"
		t[1].sub = floats(v)
	}
	typ := 0
	if on[2] {
		typ = pick(2, len(geometryNames))
		t[2].val = []byte{byte(typ)}
	}
	want += ",Type:" + geometryNames[typ]
	flags := ""
	for i, s := range []string{"Z", "M", "T", "TM"} {
		if on[3+i] {
			v := byte(pick(3+i, 2))
			t[3+i].val = []byte{v}
			if v == 1 {
				if flags != "" {
					flags += "|"
				}
				flags += s
			}
		}
	}
	if flags != "" {
		want += "," + flags
	}
	cols := 0
	if on[7] {
		cols = pick(7, 3)
		t[7].sub = columns([]flat.ColumnType{1, 2}[:cols])
	}
	want += ",NumColumns:" + fmt.Sprint(cols)
	count := uint64(0)
	if on[8] {
		count = vf.U64("count")
		t[8].val = put64(nil, count)
	}
	if count > 0 {
		want += ",NumFeatures:" + fmt.Sprint(count)
	} else {
		want += ",NumFeatures:UNKNOWN"
	}
	ns := uint16(16)
	if on[9] {
		ns = vf.U16("node size")
		t[9].val = put16(nil, ns)
	}
	if ns > 0 {
		want += ",NodeSize:" + fmt.Sprint(ns)
	} else {
		want += ",NO INDEX"
	}
	want += ",CRS:"
	if on[10] {
		crs := make(table, 6)
		want += "{"
		sub := func(i int, k string) {
			if on[14+i] {
				b := text("crs", 1+i%2)
				crs[i].sub = str(b)
				want += k + ":" + string(b)
			}
		}
		sub(0, "Org")
		code := int32(0)
		if on[14+1] {
			code = vf.I32("code")
			crs[1].val = put32(nil, uint32(code))
		}
		want += ",Code:" + fmt.Sprint(code)
		sub(2, ",Name")
		if on[14+3] {
			crs[3].sub = str(text("unused", 3))
		}
		if on[14+4] {
			k := pick(14+4, 3)
			crs[4].sub = str(text("wkt", k))
			want += ",WKT:" + fmt.Sprint(k) + " bytes"
		} else {
			want += ",WKT:<nil>"
		}
		sub(5, ",CodeString")
		want += "}"
		t[10].sub = crs
	} else {
		want += "<nil>"
	}
	for i, k := range []string{",Title", ",Desc", ",Meta"} {
		b := text("text", 1+i)
		key(11+i, k, fld{sub: str(b)}, string(b))
	}
	buf := root(t)
	var h flat.Header
	h.Init(buf, flatbuffers.UOffsetT(4+u32at(buf, 4)))
	vf.Assert(flatgeobuf.HeaderString(&h) == want+"}", "header-shown")
	vf.Reach("shown")
}

// Boxes, references and indexes as text.
func C22_boxes() {
	b := packedrtree.Box{XMin: plainF("e"), YMin: plainF("e"), XMax: plainF("e"), YMax: plainF("e")}
	edges := "[" + num(b.XMin) + "," + num(b.YMin) + "," + num(b.XMax) + "," + num(b.YMax) + "]"
	vf.Assert(b.String() == edges, "box-shown")
	r := packedrtree.Ref{Box: b, Offset: vf.I64("offset")}
	vf.Assert(r.String() == "Ref{"+edges+",Offset:"+fmt.Sprint(r.Offset)+"}", "ref-shown")
	n := 1 + vf.Choose("more", 3)
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		refs[i] = r
		if i != n/2 { // the others lie inside
			refs[i].XMin, refs[i].XMax = b.XMax, b.XMax
		}
	}
	vf.Assume(vf.And(b.XMin <= b.XMax, b.YMin <= b.YMax))
	ns := uint16(2 + vf.Choose("nodeSize", 3))
	t, err := packedrtree.New(refs, ns)
	vf.Assert(err == nil, "new")
	vf.Assert(t.String() == "PackedRTree{Bounds:"+edges+",NumRefs:"+fmt.Sprint(n)+",NodeSize:"+fmt.Sprint(ns)+"}", "index-shown")
	vf.Reach("shown")
}

// ---- C21

func sameRefs(a, b []packedrtree.Ref) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = vf.And(ok, vf.And(sameBits(a[i].Box, b[i].Box), a[i].Offset == b[i].Offset))
	}
	return ok
}

func sameResults(a, b packedrtree.Results) bool {
	ok := len(a) == len(b)
	if ok {
		for i := range a {
			ok = vf.And(ok, vf.And(a[i].Offset == b[i].Offset, a[i].RefIndex == b[i].RefIndex))
		}
	}
	return ok
}

// Searching, saving, summarising: the references given, the index, earlier
// results and the query stay what they were.
func C21_index() {
	n := 1 + vf.Choose("n", vf.Param("max refs", 6, 8))
	ns := uint16(2 + vf.Choose("nodeSize-2", 2))
	refs := symRefs(n)
	given := append([]packedrtree.Ref{}, refs...)
	t, err := packedrtree.New(given, ns)
	vf.Assert(err == nil, "new-succeeds")
	vf.Assert(sameRefs(given, refs), "refs-unchanged")
	var w sink
	_, err = t.Marshal(&w)
	vf.Assert(err == nil, "marshal-succeeds")
	first := append([]byte{}, w.b...)
	for i := range w.b { // what was written is the caller's
		w.b[i] = 7
	}
	for i := range given {
		given[i] = packedrtree.Ref{Offset: -1}
	}
	if vf.Choose("loaded", 2) == 1 {
		s := newSrc(append([]byte{}, first...), 0)
		t, err = packedrtree.Unmarshal(s, n, ns)
		vf.Assert(err == nil, "unmarshal-succeeds")
		for i := range s.b {
			s.b[i] = 9
		}
	}
	q1 := symQuery()
	rs1 := t.Search(q1)
	was := append(packedrtree.Results{}, rs1...)
	// the second query hits everything or nothing, which keeps paths apart enough
	q2 := packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}
	if vf.Choose("second", 2) == 1 {
		q2 = packedrtree.EmptyBox
	}
	rs2 := t.Search(q2)
	vf.Assert(sameResults(rs1, was), "earlier-results-unchanged")
	for i := range rs1 { // results are the caller's
		rs1[i] = packedrtree.Result{Offset: -5, RefIndex: -5}
	}
	for i := range rs2 {
		rs2[i] = packedrtree.Result{Offset: -5, RefIndex: -5}
	}
	bs := t.Bounds()
	bs.Expand(&packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)})
	_ = t.String()
	var w2 sink
	_, err = t.Marshal(&w2)
	vf.Assert(err == nil && eqBytes(w2.b, first), "index-unchanged")
	checkExact(refs, q1, t.Search(q1), "search-again")
	vf.Assert(packedrtree.EmptyBox == packedrtree.Box{XMin: math.Inf(1), YMin: math.Inf(1), XMax: math.Inf(-1), YMax: math.Inf(-1)}, "empty-box-unchanged")
	vf.Reach("done")
}

// Two searches of the stream, one after the other.
func C21_seek() {
	n := 1 + vf.Choose("n", vf.Param("max refs", 4, 5))
	ns := uint16(2 + vf.Choose("nodeSize-2", 2))
	refs := symRefs(n)
	for i := range refs {
		refs[i].Offset = int64(10 * i)
	}
	t, err := packedrtree.New(refs, ns)
	vf.Assert(err == nil, "new-succeeds")
	var w sink
	sz, err := t.Marshal(&w)
	vf.Assert(err == nil, "marshal-succeeds")
	first := append([]byte{}, w.b...)
	s := newSeekSrc(w.b, 0)
	q1 := symQuery()
	rs1, err := packedrtree.Seek(s, n, ns, q1)
	vf.Assert(err == nil && s.pos == sz, "seek-succeeds")
	was := append(packedrtree.Results{}, rs1...)
	s.pos = 0
	rs2, err := packedrtree.Seek(s, n, ns, packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)})
	vf.Assert(err == nil && s.pos == sz, "seek-again-succeeds")
	vf.Assert(sameResults(rs1, was), "earlier-results-unchanged")
	for i := range rs2 {
		rs2[i] = packedrtree.Result{Offset: -5, RefIndex: -5}
	}
	vf.Assert(eqBytes(w.b, first), "stream-unchanged")
	s.pos = 0
	rs3, err := packedrtree.Seek(s, n, ns, q1)
	vf.Assert(err == nil && sameResults(rs3, was), "same-again")
	vf.Reach("done")
}

// The writer leaves header, features, their lists and the index alone, and
// does not hold on to them.
func C21_writer() {
	n := 1 + vf.Choose("features-1", vf.Param("features up to", 2, 3))
	mode := vf.Choose("mode", 4)
	fs, bs := geoFeats(n)
	refs := make([]packedrtree.Ref, n)
	at := 0
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: bs[i], Offset: int64(at)}
		at += len(fs[i])
	}
	given := make([][]byte, n)
	fv := make([]flat.Feature, n)
	fp := make([]*flat.Feature, n)
	for i := range fs {
		given[i] = append([]byte{}, fs[i]...)
		fp[i] = asFeature(given[i])
		fv[i] = *fp[i]
	}
	ps := append([]*flat.Feature{}, fp...)
	ns := uint16(16)
	if mode == 0 {
		ns = 0
	}
	hb := headerBytes(uint64(n), ns)
	hdr := append([]byte{}, hb...)
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s)
	_, err := w.Header(asHeader(hdr))
	vf.Assert(err == nil, "header")
	for i := range hdr { // not needed any more
		vf.Assert(hdr[i] == hb[i], "header-unchanged")
		hdr[i] = 0
	}
	switch mode {
	case 0:
	case 1:
		t, err := packedrtree.New(refs, ns)
		vf.Assert(err == nil, "new")
		var a, b sink
		t.Marshal(&a)
		_, err = w.Index(t)
		vf.Assert(err == nil, "index")
		t.Marshal(&b)
		vf.Assert(eqBytes(a.b, b.b), "index-unchanged")
	case 2:
		_, err = w.IndexData(fv)
	case 3:
		_, err = w.IndexDataPtr(fp)
	}
	vf.Assert(err == nil, "index-data")
	if mode < 2 {
		for i := range fp {
			_, err = w.Data(fp[i])
			vf.Assert(err == nil, "data")
		}
	}
	vf.Assert(w.Close() == nil, "close")
	for i := range fs {
		vf.Assert(eqBytes(given[i], fs[i]), "feature-unchanged")
		vf.Assert(fp[i] == ps[i] && sameFeature(fp[i], fs[i]) && sameFeature(&fv[i], fs[i]), "list-unchanged")
	}
	// and the same input gives the same file again
	s2 := &sink{}
	w = flatgeobuf.NewFileWriter(s2)
	_, err = w.Header(asHeader(hb))
	vf.Assert(err == nil, "header-again")
	if mode >= 2 {
		_, err = w.IndexDataPtr(fp)
		vf.Assert(err == nil && eqBytes(s.b, s2.b), "same-file-again")
	}
	vf.Reach("done")
}

// Summaries leave the tables and the schema alone, and repeat themselves.
func C21_summaries() {
	hb := fullHeader()
	g := geom(flat.GeometryTypeLineString, []float64{plainF("x"), 2, plainF("x"), 3}, []node{geom(flat.GeometryTypePoint, []float64{4, plainF("x")}, nil)})
	fb := root(feature(g, []byte{0, 0, vf.U8("v"), 1, 0, 1, 0, 0, 0, 'x'}, nil))
	h0, f0 := append([]byte{}, hb...), append([]byte{}, fb...)
	var h flat.Header
	h.Init(hb, flatbuffers.UOffsetT(4+u32at(fullHeader(), 4)))
	var f flat.Feature
	f.Init(fb, flatbuffers.UOffsetT(4+u32at(fb, 4)))
	a, b := flatgeobuf.HeaderString(&h), flatgeobuf.FeatureString(&f, &h)
	vf.Assert(eqBytes(hb, h0) && eqBytes(fb, f0), "tables-unchanged")
	vf.Assert(flatgeobuf.FeatureString(&f, &h) == b && flatgeobuf.HeaderString(&h) == a, "same-text-again")
	vf.Reach("done")
}

// Property values: what is written is not changed, what is read is not shared.
func C21_properties() {
	var w sink
	p := flatgeobuf.NewPropWriter(&w)
	k := 1 + vf.Choose("len", 3)
	v := vf.Bytes("v", k)
	was := append([]byte{}, v...)
	if vf.Choose("string", 2) == 1 {
		_, err := p.WriteString(string(v))
		vf.Assert(err == nil, "write")
	} else {
		_, err := p.WriteBinary(v)
		vf.Assert(err == nil, "write")
	}
	_, err := p.WriteBinary(v)
	vf.Assert(err == nil && eqBytes(v, was), "value-unchanged")
	stream := append([]byte{}, w.b...)
	s := newSrc(stream, 0)
	r := flatgeobuf.NewPropReader(s)
	x, err := r.ReadBinary()
	vf.Assert(err == nil && eqBytes(x, was), "read")
	y, err := r.ReadBinary()
	vf.Assert(err == nil && eqBytes(y, was), "read-again")
	for i := range x {
		x[i] = ^x[i]
	}
	vf.Assert(eqBytes(y, was) && eqBytes(stream, w.b), "values-independent")
	_ = append(x, 1, 2, 3, 4)
	vf.Assert(eqBytes(y, was) && eqBytes(stream, w.b), "values-do-not-overlap")
	vf.Reach("done")
}
