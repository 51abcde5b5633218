package h

import (
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// Sources of more than 4 GiB, of which only some parts hold anything.

type part struct {
	at int64
	b  []byte
}

// farSrc must not be read outside its parts.
type farSrc struct {
	parts []part
	pos   int64
	end   int64
}

func (s *farSrc) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.end
	}
	if off < 0 {
		return 0, errBoom
	}
	s.pos = off
	return off, nil
}

func (s *farSrc) Read(p []byte) (int, error) {
	if s.pos >= s.end {
		return 0, io.EOF
	}
	for _, x := range s.parts {
		if s.pos >= x.at && s.pos < x.at+int64(len(x.b)) {
			n := copy(p, x.b[s.pos-x.at:])
			s.pos += int64(n)
			return n, nil
		}
	}
	vf.Assert(false, "reads-where-needed")
	return 0, errBoom
}

// farFile is an indexed file of four features at base of a source. The two in
// the middle are so long that the last one is gigabytes away.
func farFile(base int64, long uint32, order int) (s *farSrc, fs [][]byte, dat int64) {
	fs = [][]byte{blob(vf.Bytes("first", 5)), nil, nil, blob(vf.Bytes("last", 6))}
	at := []int64{0, int64(len(fs[0])), int64(len(fs[0])) + 4 + int64(long), int64(len(fs[0])) + 2*(4+int64(long))}
	boxes := spots(4)
	refs := make([]packedrtree.Ref, 4)
	for i, k := range indexOrder(4, order) {
		refs[i] = packedrtree.Ref{Box: boxes[k], Offset: at[k]}
	}
	t, err := packedrtree.New(refs, 2)
	vf.Assert(err == nil, "index")
	var w sink
	_, err = t.Marshal(&w)
	vf.Assert(err == nil, "marshal")
	head := put(nil, goodMagic, headerBytes(4, 2), w.b)
	dat = base + int64(len(head))
	lens := put32(nil, long)
	s = &farSrc{pos: base, parts: []part{{base, head}, {dat, fs[0]}, {dat + at[1], lens}, {dat + at[2], lens}, {dat + at[3], fs[3]}}}
	s.end = dat + at[3] + int64(len(fs[3]))
	return
}

var (
	farBases = []int64{0, 1<<31 - 3, 5 << 30}
	farLens  = []uint32{1<<31 - 9, 1 << 31, 1<<32 - 1}
)

func farQuery() packedrtree.Box {
	b := spots(4)
	q := symQuery()
	vf.Assume(!touches(q, b[1]) && !touches(q, b[2]))
	return q
}

func farSearch(r *flatgeobuf.FileReader, q packedrtree.Box, fs [][]byte, id string) {
	var want [][]byte
	for _, k := range []int{0, 3} {
		if touches(q, spots(4)[k]) {
			want = append(want, fs[k])
		}
	}
	got, err := r.IndexSearch(q)
	vf.Assert(err == nil, id+"-succeeds")
	vf.Assert(len(got) == len(want), id+"-number")
	for i := range want {
		vf.Assert(sameFeature(&got[i], want[i]), id+"-feature")
	}
}

func farBefore(r *flatgeobuf.FileReader, k int, q packedrtree.Box, fs [][]byte) {
	h, err := r.Header()
	vf.Assert(err == nil && h.FeaturesCount() == 4, "header")
	if k == 0 {
		return
	}
	if k == 1 || k == 3 {
		t, err := r.Index()
		vf.Assert(err == nil && t.NumRefs() == 4, "index-before")
	}
	if k >= 2 {
		if k == 4 {
			farSearch(r, q, fs, "before")
		} else {
			p := make([]flat.Feature, 1)
			n, err := r.Data(p)
			vf.Assert(n == 1 && err == nil && sameFeature(&p[0], fs[0]), "data-before")
		}
	}
	vf.Assert(r.Rewind() == nil, "rewind")
}

// Searches in files of many gigabytes, anywhere in a source.
func C09_far_apart() {
	s, fs, _ := farFile(farBases[vf.Choose("base", 3)], farLens[vf.Choose("long", 3)], vf.Choose("order", 3))
	r := flatgeobuf.NewFileReader(s)
	q := farQuery()
	farBefore(r, vf.Choose("before", 4), q, fs)
	farSearch(r, q, fs, "search")
	vf.Reach("searched")
}

// Rewinding there.
func C10_far_apart() {
	s, fs, dat := farFile(farBases[vf.Choose("base", 3)], farLens[vf.Choose("long", 3)], vf.Choose("order", 2))
	r := flatgeobuf.NewFileReader(s)
	q := farQuery()
	farBefore(r, 1+vf.Choose("before", 4), q, fs)
	switch vf.Choose("then", 3) {
	case 0:
		farSearch(r, q, fs, "search")
	case 1:
		t, err := r.Index()
		vf.Assert(err == nil && t.NumRefs() == 4, "index")
		vf.Assert(s.pos == dat, "index-leaves-source-at-data")
	}
	vf.Assert(r.Rewind() == nil, "rewind-again")
	p := make([]flat.Feature, 1)
	n, err := r.Data(p)
	vf.Assert(n == 1 && err == nil && sameFeature(&p[0], fs[0]), "data")
	vf.Reach("read")
}

// lazyFile is a file of many features of 12 bytes each, made up as it is read.
type lazyFile struct {
	head []byte
	idx  *lazyIndex // nil: no index
	n    int
	pos  int
}

func newLazyFile(n, ns int, count uint64) *lazyFile {
	s := &lazyFile{head: put(nil, goodMagic, headerBytes(count, uint16(ns))), n: n}
	if ns > 0 {
		s.idx = &lazyIndex{n: n, ns: ns, stride: 12}
		s.idx.starts, s.idx.total = levelStarts(n, ns)
	}
	return s
}

func (s *lazyFile) sections() (idx, dat, end int) {
	idx = len(s.head)
	dat = idx
	if s.idx != nil {
		dat += 40 * s.idx.total
	}
	return idx, dat, dat + 12*s.n
}

func lazyFeature(k int) []byte {
	return []byte{8, 0, 0, 0, 4, 0, 0, 0, byte(k), byte(k >> 8), byte(k >> 16), byte(k >> 24)}
}

func (s *lazyFile) Seek(o int64, whence int) (int64, error) {
	_, _, end := s.sections()
	switch whence {
	case io.SeekStart:
		s.pos = int(o)
	case io.SeekCurrent:
		s.pos += int(o)
	default:
		s.pos = end + int(o)
	}
	return int64(s.pos), nil
}

func (s *lazyFile) Read(p []byte) (int, error) {
	idx, dat, end := s.sections()
	var n int
	switch {
	case s.pos < idx:
		n = copy(p, s.head[s.pos:])
	case s.pos < dat:
		n = len(p)
		if n > dat-s.pos {
			n = dat - s.pos
		}
		s.idx.pos = s.pos - idx
		_, _ = s.idx.Read(p[:n])
	case s.pos >= end:
		return 0, io.EOF
	default:
		for n < len(p) && s.pos+n < end {
			at := s.pos + n - dat
			n += copy(p[n:], lazyFeature(at / 12)[at%12:])
		}
	}
	s.pos += n
	return n, nil
}

// More features than fit in 16 bits: all of them, in order.
func C08_many_features() {
	vf.Steps(1_000_000_000)
	n := 66000
	count := uint64(n)
	if vf.Choose("known", 2) == 0 {
		count = 0
	}
	s := newLazyFile(n, 0, count)
	r := flatgeobuf.NewFileReader(s)
	_, err := r.Header()
	vf.Assert(err == nil, "header")
	skip := []int{0, 100}[vf.Choose("read before", 2)]
	p := make([]flat.Feature, skip)
	k, err := r.Data(p)
	vf.Assert(k == skip && err == nil, "data")
	fs, err := r.DataRem()
	vf.Assert(err == nil && len(fs) == n-skip, "rem")
	for i := range fs {
		vf.Assert(sameFeature(&fs[i], lazyFeature(skip+i)), "feature")
	}
	k, err = r.Data(make([]flat.Feature, 1))
	vf.Assert(k == 0 && err == io.EOF, "end")
	vf.Reach("read")
}

// An index of gigabytes is skipped.
func C08_far_data() {
	n := []int{66000, 54_000_000, 110_000_000, 3_000_000_000}[vf.Choose("n", 4)]
	ns := []int{2, 16, 65535}[vf.Choose("nodeSize", 3)]
	s := newLazyFile(n, ns, uint64(n))
	r := flatgeobuf.NewFileReader(s)
	_, err := r.Header()
	vf.Assert(err == nil, "header")
	p := make([]flat.Feature, 2)
	for i := 0; i < 2; i++ {
		k, err := r.Data(p)
		vf.Assert(k == 2 && err == nil && sameFeature(&p[0], lazyFeature(0)) && sameFeature(&p[1], lazyFeature(1)), "data")
		vf.Assert(r.Rewind() == nil, "rewind")
	}
	vf.Reach("read")
}

// A search in a file of more features than fit in 16 bits (or whose index is
// gigabytes long).
func C09_many_features() {
	vf.Steps(1_000_000_000)
	n := []int{66000, 54_000_000}[vf.Choose("n", 2)]
	ns := []int{16, 300}[vf.Choose("nodeSize", 2)]
	s := newLazyFile(n, ns, uint64(n))
	r := flatgeobuf.NewFileReader(s)
	_, err := r.Header()
	vf.Assert(err == nil, "header")
	if vf.Choose("before", 2) == 1 {
		k, err := r.Data(make([]flat.Feature, 3))
		vf.Assert(k == 3 && err == nil, "data")
		vf.Assert(r.Rewind() == nil, "rewind")
	}
	x, lo := pointAmong(n)
	fs, err := r.IndexSearch(packedrtree.Box{XMin: x, XMax: x, YMax: 1})
	vf.Assert(err == nil, "search")
	at := -1
	for i := lo; i < lo+5; i++ {
		if x == float64(i) {
			at = i
		}
	}
	if at >= 0 {
		vf.Assert(len(fs) == 1 && sameFeature(&fs[0], lazyFeature(at)), "the-one")
		vf.Reach("hit")
	} else {
		vf.Assert(len(fs) == 0, "none")
		vf.Reach("miss")
	}
}

// countSink counts and keeps only the last bytes.
type countSink struct {
	n    int
	last []byte
}

func (s *countSink) Write(p []byte) (int, error) {
	s.n += len(p)
	s.last = append([]byte(nil), p...)
	return len(p), nil
}

// As many features as announced, and not one more.
func C13_many_features() {
	vf.Steps(1_000_000_000)
	n := []int{65535, 65536, 65537}[vf.Choose("n", 3)]
	var s countSink
	w := flatgeobuf.NewFileWriter(&s)
	h := headerBytes(uint64(n), 0)
	_, err := w.Header(asHeader(h))
	vf.Assert(err == nil, "header")
	for i := 0; i < n; i++ {
		b := lazyFeature(i)
		k, err := w.Data(asFeature(b))
		if i == 0 || i+2 >= n {
			vf.Assert(k == len(b) && err == nil && eqBytes(s.last, b), "data")
		}
		if i+2 == n && vf.Choose("stop", 2) == 1 {
			vf.Assert(w.Close() != nil, "one-too-few")
			vf.Reach("too few")
			return
		}
	}
	vf.Assert(s.n == len(h)+8+12*n, "all-written")
	k, err := w.Data(asFeature(lazyFeature(n)))
	vf.Assert(k == 0 && err != nil && s.n == len(h)+8+12*n, "one-too-many")
	vf.Assert(w.Close() == nil, "close")
	vf.Reach("all")
}

// Header and features whose lengths need more than two bytes.
func C08_long_tables() {
	vf.Steps(1_000_000_000)
	ln := []int{65519, 65531, 65536, 70001, 200000}[vf.Choose("length", 5)]
	// a few arbitrary bytes among given ones
	some := func(name string, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i >> 3)
		}
		for _, i := range []int{0, n / 2, 65535 % n, n - 1} {
			b[i] = vf.U8(name)
		}
		return b
	}
	t := make(table, 14)
	t[0].sub = str([]byte("n"))
	t[8].val = put64(nil, 2)
	t[9].val = []byte{0, 0}
	t[12].sub = str(some("description", ln))
	h := root(t)
	fs := [][]byte{root(feature(nil, some("props", ln), nil)), root(feature(nil, []byte{1, 2}, nil))}
	var s sink
	w := flatgeobuf.NewFileWriter(&s)
	k, err := w.Header(asHeader(h))
	vf.Assert(err == nil && k == len(h)+8, "header-written")
	for _, f := range fs {
		k, err = w.Data(asFeature(f))
		vf.Assert(err == nil && k == len(f), "feature-written")
	}
	vf.Assert(w.Close() == nil, "close")
	f := &file{b: s.b, hdr: h, idx: 8 + len(h), dat: 8 + len(h), count: 2, feats: fs, at: []int{0, len(fs[0])}}
	m := newReader(f, vf.Choose("seekable", 2), []int{0, 4096, 60001}[vf.Choose("chunk", 3)], "")
	m.header()
	m.dataRem()
	vf.Assert(len(m.kept) == 2 && len(m.kept[0].PropertiesBytes()) == ln, "properties-length")
	m.intact()
	vf.Reach("read")
}
