package h

import (
	"errors"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// outcome is all that a caller sees of a call on a reader.
type outcome struct {
	err   error
	feats []flat.Feature
	bytes []byte // header or index
}

const numCalls = 8

// call makes one call.
func call(r *flatgeobuf.FileReader, k int, q packedrtree.Box) (o outcome) {
	switch k {
	case 0:
		var h *flat.Header
		if h, o.err = r.Header(); h != nil {
			o.bytes = h.Table().Bytes
		}
	case 1:
		var t *packedrtree.PackedRTree
		if t, o.err = r.Index(); t != nil {
			var w sink
			_, _ = t.Marshal(&w)
			o.bytes = w.b
		}
	case 2:
		o.feats, o.err = r.IndexSearch(q)
	case 3, 4:
		p := make([]flat.Feature, k-2)
		n, err := r.Data(p)
		o.feats, o.err = p[:n], err
	case 5:
		o.feats, o.err = r.DataRem()
	case 6:
		o.err = r.Rewind()
	case 7:
		p := make([]flat.Feature, 9)
		n, err := r.Data(p)
		o.feats, o.err = p[:n], err
	}
	return
}

func sameFeats(a, b []flat.Feature) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		s, t := a[i].Table(), b[i].Table()
		same = vf.And(same, vf.And(s.Pos == t.Pos, eqBytes(s.Bytes, t.Bytes)))
	}
	return same
}

// prefixOf tells that a is an intact prefix of b.
func prefixOf(a, b []flat.Feature) bool {
	return len(a) <= len(b) && sameFeats(a, b[:len(a)])
}

// alike asserts two outcomes equal as far as a caller can tell.
func alike(a, b outcome, id string) {
	vf.Assert((a.err == nil) == (b.err == nil), id+"-success")
	vf.Assert((a.err == io.EOF) == (b.err == io.EOF), id+"-end-of-data")
	vf.Assert(errors.Is(a.err, io.ErrUnexpectedEOF) == errors.Is(b.err, io.ErrUnexpectedEOF), id+"-unexpected-end")
	vf.Assert(sameFeats(a.feats, b.feats), id+"-features")
	vf.Assert(eqBytes(a.bytes, b.bytes), id+"-bytes")
}

// ---- C15

// patchy delivers pieces of at most rest bytes (0: all), except that from
// position from on the pieces are as planned (0: a read without bytes).
type patchy struct {
	seekSrc
	rest, from int
	plan       []int
}

func (s *patchy) Read(p []byte) (int, error) {
	s.chunk = s.rest
	if s.pos >= s.from && len(s.plan) > 0 && len(p) > 0 && s.pos < len(s.b) {
		s.chunk = s.plan[0]
		s.plan = s.plan[1:]
		if s.chunk == 0 {
			return 0, nil
		}
	}
	return s.seekSrc.Read(p)
}

// noSeek hides Seek.
type noSeek struct{ r io.Reader }

func (s noSeek) Read(p []byte) (int, error) { return s.r.Read(p) }

func shape(n, k int) *file {
	switch k {
	case 0:
		return mkFile(symFeats(n), spots(n), nil, 0, false)
	case 1:
		return mkFile(symFeats(n), spots(n), nil, 0, true)
	case 2:
		return mkFile(symFeats(n), spots(n), indexOrder(n, 2), 16, true)
	}
	return mkFile(symFeats(n), spots(n), indexOrder(n, 1), 2, true)
}

// open gives a reader of s, hiding its Seek if asked to.
func open(s io.ReadSeeker, seekable bool) *flatgeobuf.FileReader {
	if seekable {
		return flatgeobuf.NewFileReader(s)
	}
	return flatgeobuf.NewFileReader(noSeek{s})
}

func newPatchy(b []byte) *patchy { return &patchy{seekSrc: *newSeekSrc(b, 0)} }

// cutFile is a whole file or one that ends early.
func cutFile(n, shp int) []byte {
	f := shape(n, shp)
	cuts := []int{len(f.b), len(f.b) - 1, f.dat + len(f.feats[0]) + 2, f.dat + len(f.feats[0]), f.dat + 5, f.dat, f.dat - 1, f.idx + 1, f.idx, f.idx - 3, 10, 7}
	return f.b[:cuts[vf.Choose("cut", len(cuts))]]
}

// Whole and truncated files, any sequence of calls, pieces of one size.
func C15_calls() {
	b := cutFile(2, vf.Choose("shape", 4))
	p := newPatchy(b)
	rests := []int{1, 2, 3, 7, 39, 0}
	p.rest = rests[vf.Choose("pieces of", len(rests))]
	p.lastEOF = vf.Choose("eof together", 2) == 1
	seekable := vf.Choose("seekable", 2) == 1
	a, c := open(newSeekSrc(b, 0), seekable), open(p, seekable)
	alike(call(a, 0, packedrtree.Box{}), call(c, 0, packedrtree.Box{}), "header")
	for d := vf.Param("calls", 2, 3); d > 0; d-- {
		k := 1 + vf.Choose("call", numCalls-1)
		q := symQuery()
		alike(call(a, k, q), call(c, k, q), "call")
	}
	vf.Reach("end")
}

// Arbitrary pieces at the start of one of the sections.
func C15_pieces() {
	f := shape(2, vf.Choose("shape", 4))
	p := newPatchy(f.b)
	p.from = []int{0, 8, f.idx, f.dat, f.dat + len(f.feats[0])}[vf.Choose("section", 5)]
	p.plan = make([]int, vf.Param("arbitrary pieces", 3, 4))
	for i := range p.plan {
		p.plan[i] = vf.Choose("piece", 6)
	}
	p.lastEOF = vf.Choose("eof together", 2) == 1
	seekable := vf.Choose("seekable", 2) == 1
	ways := [][]int{{5}, {1, 5}, {2, 5}, {3, 3, 3}}
	way := ways[vf.Choose("way", len(ways))]
	q := symQuery()
	a, c := open(newSeekSrc(f.b, 0), seekable), open(p, seekable)
	alike(call(a, 0, q), call(c, 0, q), "header")
	for _, k := range way {
		alike(call(a, k, q), call(c, k, q), "call")
	}
	vf.Reach("end")
}

// ---- C14

// faulty fails once: the read that reaches position failAt delivers the bytes
// before it and the error, or the seek number failSeek fails.
type faulty struct {
	seekSrc
	failAt   int // -1: never
	failSeek int
	fired    bool
}

func (s *faulty) Read(p []byte) (int, error) {
	if s.failAt < 0 || s.fired || s.pos > s.failAt || s.pos+len(p) <= s.failAt {
		return s.seekSrc.Read(p)
	}
	s.fired = true
	n := copy(p, s.b[s.pos:s.failAt])
	s.pos += n
	return n, errBoom
}

func (s *faulty) Seek(off int64, whence int) (int64, error) {
	s.failSeek--
	if s.failSeek == 0 {
		s.fired = true
		return 0, errBoom
	}
	return s.seekSrc.Seek(off, whence)
}

// checkFault compares a call on a reader with a failing source to the same
// call on one with a healthy source, and tells whether the fault came up.
func checkFault(bad, good *flatgeobuf.FileReader, fired *bool, k int, q packedrtree.Box) bool {
	o := call(bad, k, q)
	if *fired {
		vf.Assert(o.err != nil && o.err != io.EOF, "fault-is-error")
		vf.Assert(errors.Is(o.err, errBoom), "fault-wrapped")
		vf.Assert(prefixOf(o.feats, call(good, k, q).feats), "fault-intact-prefix")
		for j := 0; j < numCalls; j++ {
			x := call(bad, j, q)
			vf.Assert(x.err == o.err, "stays-failed")
			vf.Assert(len(x.feats) == 0 && len(x.bytes) == 0, "nothing-after-failure")
		}
		vf.Assert(bad.Close() == nil && bad.Close() == flatgeobuf.ErrClosed, "close-after-failure")
		vf.Reach("fault")
		return true
	}
	alike(call(good, k, q), o, "no-fault")
	return false
}

// The source fails at any byte.
func C14_read_fails() {
	f := shape(2, vf.Choose("shape", 4))
	s := &faulty{seekSrc: *newSeekSrc(f.b, []int{0, 3}[vf.Choose("chunk", 2)])}
	s.failAt = vf.Choose("failAt", len(f.b)+1)
	seekable := vf.Choose("seekable", 2) == 1
	bad, good := open(s, seekable), open(newSeekSrc(f.b, 0), seekable)
	q := packedrtree.Box{XMin: 0, YMin: 0, XMax: 9, YMax: 9}
	if vf.Choose("query", 2) == 1 {
		q.XMin = 3
	}
	if checkFault(bad, good, &s.fired, 0, q) {
		return
	}
	for d := vf.Param("calls", 2, 3); d > 0; d-- {
		if checkFault(bad, good, &s.fired, 1+vf.Choose("call", numCalls-1), q) {
			return
		}
	}
	vf.Reach("no fault")
}

// Any one of the seeks fails.
func C14_seek_fails() {
	f := shape(2, vf.Choose("shape", 4))
	s := &faulty{seekSrc: *newSeekSrc(f.b, 0), failAt: -1, failSeek: 1 + vf.Choose("failSeek", 8)}
	bad, good := open(s, true), open(newSeekSrc(f.b, 0), true)
	q := symQuery()
	if checkFault(bad, good, &s.fired, 0, q) {
		return
	}
	for d := vf.Param("calls", 3, 5); d > 0; d-- {
		if checkFault(bad, good, &s.fired, 1+vf.Choose("call", numCalls-1), q) {
			return
		}
	}
	vf.Reach("no fault")
}

// limited accepts so many bytes, then fails (once).
type limited struct {
	sink
	left  int
	fired bool
}

func (s *limited) Write(p []byte) (int, error) {
	if s.fired || len(p) <= s.left {
		s.left -= len(p)
		return s.sink.Write(p)
	}
	s.fired = true
	n := s.left
	s.b = append(s.b, p[:n]...)
	return n, errBoom
}

// The destination fails after any number of bytes.
func C14_write_fails() {
	n := 2
	fs, boxes := geoFeats(n)
	mode := vf.Choose("mode", 4)
	ns := uint16(0)
	if mode >= 2 {
		ns = 2
	}
	hdr := headerBytes(uint64(n), ns)
	if mode == 1 {
		hdr = headerBytes(0, 0)
	}
	whole := func(w io.Writer, s *sink, fired *bool) {
		fw := flatgeobuf.NewFileWriter(w)
		var failed error
		step := func(n int, err error, was int) bool {
			vf.Assert(n == len(s.b)-was, "count-is-bytes-accepted")
			if !*fired {
				vf.Assert(err == nil, "no-fault-no-error")
				return true
			}
			vf.Assert(err != nil && errors.Is(err, errBoom), "fault-wrapped")
			failed = err
			return false
		}
		done, retried := 0, false
		ok := step2(fw.Header(asHeader(hdr)))(step, 0)
		if ok && mode == 2 {
			refs := []packedrtree.Ref{{Box: boxes[0]}, {Box: boxes[1], Offset: int64(len(fs[0]))}}
			t, _ := packedrtree.New(refs, ns)
			was := len(s.b)
			ok = step2(fw.Index(t))(step, was)
		}
		if ok && mode == 3 {
			was := len(s.b)
			ok = step2(fw.IndexData(asFeatures(fs)))(step, was)
			sz, _ := packedrtree.Size(n, ns)
			if len(s.b) >= was+sz+len(fs[0]) {
				done = 1
			}
		} else {
			for i := 0; ok && i < n; i++ {
				was := len(s.b)
				if ok = step2(fw.Data(asFeature(fs[i])))(step, was); ok {
					done++
				}
			}
		}
		if failed == nil {
			vf.Assert(fw.Close() == nil, "close-complete")
			return
		}
		// whatever comes next, no garbage follows
		was := len(s.b)
		k := vf.Choose("next call", 4)
		var err error
		switch k {
		case 0:
			_, err = fw.Header(asHeader(hdr))
			vf.Assert(err != nil, "header-after-failure")
		case 1:
			t, _ := packedrtree.New([]packedrtree.Ref{{}, {}}, 2)
			_, err = fw.Index(t)
			vf.Assert(err != nil, "index-after-failure")
		case 2:
			_, err = fw.IndexData(asFeatures(fs))
			vf.Assert(err != nil, "index-data-after-failure")
		case 3:
			_, err = fw.Data(asFeature(fs[0]))
		}
		if err == nil {
			// only where the failed call had written nothing of its feature
			vf.Assert(k == 3 && len(s.b) == was+len(fs[0]), "retry-whole-feature")
			before := 8 + len(hdr)
			if ns > 0 {
				sz, _ := packedrtree.Size(n, ns)
				before += sz
			}
			for _, f := range fs[:done] {
				before += len(f)
			}
			vf.Assert(was == before, "no-retry-within-a-feature")
			vf.Reach("retried")
			retried = true
		} else {
			vf.Assert(len(s.b) == was, "no-output-after-failure")
		}
		// a file short of the features its header promises is not complete
		err = fw.Close()
		vf.Assert(err == nil || mode != 1 || errors.Is(err, errBoom), "close-unknown-count")
		if mode != 1 && len(s.b) >= 8+len(hdr) {
			vf.Assert((err == nil) == (k == 3 && retried && done+1 == n), "close-reports-truncation")
		}
	}
	var all sink
	no := false
	whole(&all, &all, &no)
	s := &limited{left: vf.Choose("accepts", len(all.b))}
	cut := s.left
	whole(s, &s.sink, &s.fired)
	vf.Assert(len(s.b) >= cut && eqBytes(s.b[:cut], all.b[:cut]), "output-is-prefix")
	vf.Reach("fault")
}

func step2(n int, err error) func(func(int, error, int) bool, int) bool {
	return func(f func(int, error, int) bool, was int) bool { return f(n, err, was) }
}

// The index serializer and loader on failing streams.
func C14_index_streams() {
	n := 1 + vf.Choose("refs-1", 3)
	refs := symRefs(n)
	t, err := packedrtree.New(refs, 2)
	vf.Assert(err == nil, "new")
	var all sink
	sz, err := t.Marshal(&all)
	vf.Assert(err == nil, "marshal")
	s := &limited{left: vf.Choose("accepts", sz)}
	cut := s.left
	k, err := t.Marshal(s)
	vf.Assert(k == cut && errors.Is(err, errBoom), "marshal-fault")
	vf.Assert(eqBytes(s.b, all.b[:cut]), "marshal-prefix")
	in := &faulty{seekSrc: *newSeekSrc(all.b, vf.Choose("chunk", 2)*11), failAt: cut}
	t2, err := packedrtree.Unmarshal(in, n, 2)
	vf.Assert(t2 == nil && errors.Is(err, errBoom), "unmarshal-fault")
	in = &faulty{seekSrc: *newSeekSrc(all.b, 0), failAt: cut}
	rs, err := packedrtree.Seek(in, n, 2, refs[0].Box)
	if in.fired {
		vf.Assert(rs == nil && errors.Is(err, errBoom), "seek-fault")
		vf.Reach("seek fault")
	} else {
		vf.Assert(err == nil, "seek-without-fault")
	}
	in = &faulty{seekSrc: *newSeekSrc(all.b, 0), failAt: -1, failSeek: 1 + vf.Choose("failSeek", 4)}
	rs, err = packedrtree.Seek(in, n, 2, refs[0].Box)
	if in.fired {
		vf.Assert(rs == nil && errors.Is(err, errBoom), "seek-seek-fault")
	} else {
		vf.Assert(err == nil, "seek-without-fault")
	}
	vf.Reach("end")
}

// Property values on failing streams.
func C14_property_streams() {
	v := symPval(vf.Choose("type", 15), 3)
	b := v.wire()
	s := &limited{left: vf.Choose("accepts", len(b))}
	cut := s.left
	n, err := v.write(flatgeobuf.NewPropWriter(s))
	vf.Assert(n == cut && errors.Is(err, errBoom), "write-fault")
	vf.Assert(eqBytes(s.b, b[:cut]), "write-prefix")
	in := &faulty{seekSrc: *newSeekSrc(b, 0), failAt: cut}
	_, err = readTyped(flatgeobuf.NewPropReader(in), v.t)
	vf.Assert(errors.Is(err, errBoom), "read-fault")
	pair := append(put16(nil, uint16(v.t)), b...)
	in = &faulty{seekSrc: *newSeekSrc(pair, 0), failAt: vf.Choose("failAt", len(pair)+1)}
	out, err := flatgeobuf.NewPropReader(in).ReadSchema(columnsTable(allTypes()))
	vf.Assert(len(out) == 0 && errors.Is(err, errBoom), "schema-fault")
	in = &faulty{seekSrc: *newSeekSrc(goodMagic, 0), failAt: vf.Choose("magic", 8)}
	_, err = flatgeobuf.Magic(in)
	vf.Assert(errors.Is(err, errBoom), "magic-fault")
	vf.Reach("end")
}
