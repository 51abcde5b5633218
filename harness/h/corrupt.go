package h

import (
	"io"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// ---- C11

// wayThrough reads b by one of many sequences of calls; none may panic or go on
// forever. Returned features must lie within the stream.
func wayThrough(b []byte, steps int) {
	vf.AllocSucceeds()
	s := newSeekSrc(b, 0)
	seekable := vf.Choose("seekable", 2) == 1
	r := open(s, seekable)
	q := packedrtree.Box{XMin: -1, YMin: -1, XMax: 2, YMax: 2}
	if vf.Choose("query", 2) == 1 {
		q = packedrtree.Box{XMin: 3, YMin: 3, XMax: 99, YMax: 99}
	}
	o := call(r, 0, q)
	vf.Assert(o.err != io.EOF, "header-not-end-of-data")
	refused := o.err != nil
	for i := 0; i < steps; i++ {
		k := vf.Choose("call", numCalls)
		o = call(r, k, q)
		if refused {
			vf.Assert(o.err != nil && o.err != io.EOF && len(o.feats) == 0, "no-data-after-refusal")
		}
		if !refused && o.err != nil && o.err != io.EOF {
			vf.Reach("refused")
		}
		for j := range o.feats {
			vf.Assert(len(o.feats[j].Table().Bytes) <= len(b), "feature-within-stream")
		}
		if o.err != nil && o.err != io.EOF {
			// the error stays or the call was merely out of place
			break
		}
	}
	_ = r.Close()
	vf.Reach("end")
}

func smallFeats(n int) [][]byte {
	fs := make([][]byte, n)
	for i := range fs {
		fs[i] = blob([]byte{byte(i), 1, 2, 3, 4, 5, 6}[:4+i%3])
	}
	return fs
}

func concreteShape(n, k int) *file {
	f := smallFeats(n)
	switch k {
	case 0:
		return mkFile(f, spots(n), nil, 0, false)
	case 1:
		return mkFile(f, spots(n), nil, 0, true)
	case 2:
		return mkFile(f, spots(n), indexOrder(n, 2), 16, true)
	}
	return mkFile(f, spots(n), indexOrder(n, 1), 2, true)
}

// A well-formed file with a few bytes changed anywhere, or cut anywhere.
func C11_file_damaged() {
	vf.OpaqueArithmetic()
	vf.AllocSucceeds()
	f := concreteShape(2, vf.Choose("shape", 4))
	b, w := f.b, vf.Param("damaged bytes", 2, 4)
	if at := w * vf.Choose("at", len(b)/w+1); at < len(b) {
		n := min(w, len(b)-at)
		copy(b[at:at+n], vf.Bytes("damage", n))
	} else {
		b = b[:vf.Choose("cut", len(b))]
	}
	r := open(newSeekSrc(b, 0), vf.Choose("seekable", 2) == 1)
	q := packedrtree.Box{XMin: -1, YMin: -1, XMax: 2, YMax: 2}
	if vf.Thorough() && vf.Choose("query", 2) == 1 {
		q = packedrtree.Box{XMin: 0, YMin: 0, XMax: 99, YMax: 99}
	}
	h, err := r.Header()
	o := outcome{err: err}
	if err == nil {
		// other node sizes: C04_size, C11_header_numbers
		ns := h.IndexNodeSize()
		vf.Assume(ns <= 17 || ns == 255 || ns >= 65534)
		vf.FixDivisors()
	}
	ways := [][]int{{5}, {1, 5}, {2, 6, 3}, {3, 6, 2}, {7, 6, 1}}
	for i, k := range ways[vf.Choose("way", len(ways))] {
		refused := i == 0 && o.err != nil
		o = call(r, k, q)
		if refused {
			vf.Assert(o.err != nil && o.err != io.EOF && len(o.feats) == 0, "no-data-after-refusal")
		}
		for j := range o.feats {
			vf.Assert(len(o.feats[j].Table().Bytes) <= len(b), "feature-within-stream")
		}
		if o.err != nil && o.err != io.EOF {
			vf.Reach("refused")
		}
	}
	_ = r.Close()
	vf.Reach("end")
}

// The whole index arbitrary: every child number, every offset.
func C11_index_damaged() {
	n := 2 + vf.Choose("features-2", 2)
	f := mkFile(smallFeats(n), spots(n), indexOrder(n, 0), 2, true)
	// box edges as they are; one number of any value, or all of them in part
	k := (f.dat - f.idx) / 40
	if i := vf.Choose("node", k+1); i < k {
		copy(f.b[f.idx+40*i+32:], vf.Bytes("offset", 8))
	} else {
		for at := f.idx + 32; at < f.dat; at += 40 {
			copy(f.b[at:], vf.Bytes("offset", 1))
		}
	}
	vf.Split(true)
	wayThrough(f.b, 1)
}

// Every count and node size in the header.
func C11_header_numbers() {
	f := concreteShape(2, 3*vf.Choose("shape", 2))
	count := vf.U64("count")
	ns := []uint16{0, 1, 2, 16, 65535}[vf.Choose("nodeSize", 5)]
	// larger counts: C04_size
	switch ns {
	case 2:
		vf.Assume(count < uint64(vf.Param("count below (node size 2)", 1<<12, 1<<24)))
	case 16:
		vf.Assume(count < uint64(vf.Param("count below (node size 16)", 1<<36, 1<<50)))
	}
	h := headerBytes(count, ns)
	b := put(nil, goodMagic, h, f.b[f.idx:])
	vf.Split(true)
	vf.AllocSucceeds()
	r := open(newSeekSrc(b, 0), vf.Choose("seekable", 2) == 1)
	q := packedrtree.Box{XMin: -1, YMin: -1, XMax: 2, YMax: 2}
	o := call(r, 0, q)
	vf.Assert((o.err != nil) == (ns == 1 || count > math.MaxInt64), "header-refused")
	k := []int{1, 2, 3, 5}[vf.Choose("call", 4)]
	o = call(r, k, q)
	if o.err != nil {
		vf.Reach("refused")
	}
	call(r, 6, q)
	if vf.Thorough() {
		call(r, 3, q)
	}
	vf.Reach("end")
}

// A header of arbitrary bytes.
func C11_header_bytes() {
	n := vf.Choose("length", vf.Param("header bytes below", 15, 21))
	h := vf.Bytes("header", n)
	b := put(put32(put(nil, goodMagic), uint32(n)), h, blob([]byte{1, 2, 3, 4}))
	wayThrough(b, 1)
}

// An arbitrary stream of few bytes.
func C11_bytes() {
	wayThrough(vf.Bytes("stream", vf.Choose("length", vf.Param("stream bytes below", 22, 26))), 1)
}

// The header length, in front of a stream that goes on for long.
type endless struct {
	b     []byte
	pos   int
	asked int // bytes asked for beyond b
}

func (s *endless) Read(p []byte) (int, error) {
	if s.pos == len(s.b) {
		s.asked += len(p)
		return 0, io.EOF
	}
	n := copy(p, s.b[s.pos:])
	s.pos += n
	return n, nil
}

func C11_header_length() {
	n := vf.U32("length")
	const limit = 32 << 20
	vf.MaxAlloc(limit + 4)
	s := &endless{b: put32(put(nil, goodMagic), n)}
	h, err := flatgeobuf.NewFileReader(s).Header()
	vf.Assert(h == nil && err != nil, "refused")
	vf.Assert(vf.Imp(n > limit, s.asked == 0), "long-header-refused-before-reading")
	vf.Assert(vf.Imp(vf.And(n >= 4, n <= limit), s.asked > 0), "header-up-to-limit-is-read")
	vf.Reach("end")
}

// The length of a feature, arbitrary, with some bytes after it.
func C11_feature_length() {
	vf.OpaqueArithmetic()
	known := vf.Choose("known", 2) == 1
	fs := smallFeats(2)
	f := mkFile(fs, nil, nil, 0, known)
	at := f.dat + f.at[vf.Choose("feature", 2)]
	n := vf.U32("length")
	set32(f.b, at, n)
	b := f.b
	r := open(newSeekSrc(b, 0), vf.Choose("seekable", 2) == 1)
	_, err := r.Header()
	vf.Assert(err == nil, "header")
	o := call(r, []int{3, 4, 5, 7}[vf.Choose("call", 4)], packedrtree.Box{})
	for i := range o.feats {
		t := o.feats[i].Table().Bytes
		vf.Assert(len(t) >= 8 && u32at(t, 0) == uint32(len(t)-4), "feature-has-its-length")
	}
	if o.err != nil && o.err != io.EOF {
		p := make([]flat.Feature, 1)
		k, err := r.Data(p)
		vf.Assert(k == 0 && err != nil && err != io.EOF, "stays-failed")
		vf.Reach("refused")
	}
	vf.Assert(vf.Imp(n < 4, vf.Or(o.err != nil, len(o.feats) == 1)), "short-feature-refused")
	vf.Reach("end")
}

// A stream cut anywhere is not taken for complete.
func C11_truncated() {
	n := 1 + vf.Choose("features-1", vf.Param("features up to", 3, 5))
	f := shape(n, 1+vf.Choose("shape", 3)) // the header gives the count
	cut := vf.Choose("cut", len(f.b))
	b := f.b[:cut]
	s := newSeekSrc(b, []int{0, 3}[vf.Choose("chunk", 2)])
	s.lastEOF = vf.Choose("eof together", 2) == 1
	r := open(s, vf.Choose("seekable", 2) == 1)
	h, err := r.Header()
	if cut < f.idx {
		vf.Assert(h == nil && err != nil && err != io.EOF, "header-cut")
		p := make([]flat.Feature, 1)
		k, err := r.Data(p)
		vf.Assert(k == 0 && err != nil && err != io.EOF, "no-data-without-header")
		vf.Reach("header cut")
		return
	}
	vf.Assert(h != nil && err == nil, "header-whole")
	intact := 0
	for intact < n && f.dat+f.at[intact]+len(f.feats[intact]) <= cut {
		intact++
	}
	whole := asFeatures(f.feats)
	switch vf.Choose("way", 5) {
	case 0: // everything at once
		fs, err := r.DataRem()
		vf.Assert(err != nil && err != io.EOF, "rest-cut")
		vf.Assert(prefixOf(fs, whole), "rest-intact-prefix")
	case 1: // one by one
		var got []flat.Feature
		for i := 0; i <= n; i++ {
			p := make([]flat.Feature, 1)
			k, err := r.Data(p)
			got = append(got, p[:k]...)
			vf.Assert(err != io.EOF, "data-cut-not-end")
			if err != nil {
				vf.Assert(k == 0, "nothing-with-error")
				break
			}
			vf.Assert(k == 1 && i < n, "one-feature")
		}
		vf.Assert(len(got) <= intact && prefixOf(got, whole), "data-intact-prefix")
		k, err := r.Data(make([]flat.Feature, 1))
		vf.Assert(k == 0 && err != nil && err != io.EOF, "data-still-cut")
	case 2: // more than there are
		p := make([]flat.Feature, n+1)
		k, err := r.Data(p)
		vf.Assert(err != nil && err != io.EOF, "data-cut")
		vf.Assert(prefixOf(p[:k], whole), "all-intact-prefix")
		k, err = r.Data(p)
		vf.Assert(k == 0 && err != nil && err != io.EOF, "data-still-cut")
	case 3: // the index, then the rest
		t, err := r.Index()
		if f.ns == 0 {
			vf.Assert(t == nil && err == nil, "no-index")
		} else if cut < f.dat {
			vf.Assert(t == nil && err != nil && err != io.EOF, "index-cut")
		} else {
			vf.Assert(t != nil && err == nil, "index-whole")
		}
		fs, err := r.DataRem()
		vf.Assert(err != nil && err != io.EOF, "rest-cut")
		vf.Assert(prefixOf(fs, whole), "rest-intact-prefix")
	case 4: // search
		if f.ns == 0 {
			vf.Assume(false)
		}
		q := symQuery()
		beyond := false
		for i := intact; i < n; i++ {
			beyond = vf.Or(beyond, touches(f.boxes[i], q))
		}
		fs, err := r.IndexSearch(q)
		if err == nil {
			vf.Assert(!beyond, "search-beyond-cut")
			for i := range fs {
				ok := false
				for j := 0; j < intact; j++ {
					ok = vf.Or(ok, vf.And(touches(f.boxes[j], q), sameFeature(&fs[i], f.feats[j])))
				}
				vf.Assert(ok, "search-result-intact")
			}
			vf.Reach("search before cut")
		} else {
			vf.Assert(len(fs) == 0 && err != io.EOF, "search-cut")
			vf.Reach("search cut")
		}
	}
	vf.Reach("end")
}

// Index bytes of any content.
func C11_index_bytes() {
	n := 1 + vf.Choose("refs-1", vf.Param("refs up to", 3, 4))
	ns := []uint16{2, 3, 16}[vf.Choose("nodeSize", 3)]
	sz, err := packedrtree.Size(n, ns)
	vf.Assert(err == nil, "size")
	b := make([]byte, 0, sz)
	for len(b) < sz { // left edges inside, outside and NaN; any number (any box: C05)
		b = append(b, 0, 0, 0, 0, 0, 0, 0xf8, vf.U8("edge"))
		b = put64(put64(put64(b, math.Float64bits(-9)), math.Float64bits(9)), math.Float64bits(9))
		b = append(b, vf.Bytes("number", 8)...)
	}
	vf.Split(true)
	if vf.Choose("cut", 2) == 1 {
		b = b[:vf.Choose("length", sz)]
	}
	vf.OpaqueArithmetic()
	q := []packedrtree.Box{{XMin: -1, YMin: 0, XMax: 2, YMax: 5}, {XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}}[vf.Choose("query", 2)]
	if vf.Choose("stream", 2) == 0 {
		t, err := packedrtree.Unmarshal(newSrc(b, 0), n, ns)
		vf.Assert((t == nil) != (err == nil), "index-or-error")
		vf.Assert(len(b) == sz || err != nil, "cut-index-refused")
		if err == nil {
			_ = t.Search(q)
			vf.Reach("searched")
		}
	} else {
		rs, err := packedrtree.Seek(newSeekSrc(b, 0), n, ns, q)
		vf.Assert(err == nil || rs == nil, "results-or-error")
		if err == nil {
			vf.Reach("sought")
		}
	}
	vf.Reach("end")
}
