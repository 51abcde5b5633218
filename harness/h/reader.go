package h

import (
	"errors"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// where the model of a reader stands
const (
	rStart = iota
	rHeader
	rData
	rEnd
)

// rmodel says what each call on a reader of a well-formed file must do.
type rmodel struct {
	f      *file
	r      *flatgeobuf.FileReader
	s      *src
	canBck bool // source can seek
	st     int
	i      int // features passed
	closed bool
	base   int            // where the file starts in the source
	buf    []flat.Feature // given to Data, again and again
	id     string

	// what was handed out so far, and what it must remain
	hdr  *flat.Header
	kept []flat.Feature
	want [][]byte
	tree *packedrtree.PackedRTree
}

// intact asserts that what was handed out still is what it was.
func (m *rmodel) intact() {
	if m.hdr != nil {
		m.ok(eqBytes(m.hdr.Table().Bytes, m.f.hdr), "header-stays-intact")
	}
	for i := range m.kept {
		m.ok(sameFeature(&m.kept[i], m.want[i]), "feature-stays-intact")
	}
	if m.tree != nil {
		var w sink
		_, err := m.tree.Marshal(&w)
		m.ok(err == nil && eqBytes(w.b, m.f.b[m.f.idx:m.f.dat]), "index-stays-intact")
	}
}

// closable sources record being closed
type closeSrc struct{ src }

func (s *closeSrc) Close() error { s.closed++; return s.closeErr }

type closeSeekSrc struct{ seekSrc }

func (s *closeSeekSrc) Close() error { s.closed++; return s.closeErr }

// newReader opens f. kind: 0 plain, 1 seekable, 2 closable, 3 both.
func newReader(f *file, kind, chunk int, id string) *rmodel {
	m := &rmodel{f: f, canBck: kind&1 == 1, id: id}
	b := f.b
	if len(f.feats)%2 == 1 { // the file starts inside the source
		m.base = 5
		b = put(nil, []byte("fgb.."), f.b)
	}
	if f.count > 0 { // and the source goes on behind it
		b = put(nil, b, []byte{8, 0, 0, 0, 4, 0, 0, 0, 1})
	}
	switch kind {
	case 0:
		s := newSrc(b, chunk)
		s.pos = m.base
		m.s, m.r = s, flatgeobuf.NewFileReader(s)
	case 1:
		s := newSeekSrc(b, chunk)
		s.pos = m.base
		m.s, m.r = &s.src, flatgeobuf.NewFileReader(s)
	case 2:
		s := &closeSrc{*newSrc(b, chunk)}
		s.pos = m.base
		m.s, m.r = &s.src, flatgeobuf.NewFileReader(s)
	default:
		s := &closeSeekSrc{*newSeekSrc(b, chunk)}
		s.pos = m.base
		m.s, m.r = &s.src, flatgeobuf.NewFileReader(s)
	}
	return m
}

func (m *rmodel) ok(c bool, id string) { vf.Assert(c, m.id+id) }

// still runs f, which must leave the source alone.
func (m *rmodel) still(f func(), id string) {
	pos, reads := m.s.pos, m.s.reads
	f()
	m.ok(m.s.pos == pos && m.s.reads == reads, id+"-consumes-nothing")
}

func (m *rmodel) header() {
	if m.closed || m.st != rStart {
		m.still(func() {
			h, err := m.r.Header()
			m.ok(err != nil && h == nil, "header-refused")
			m.ok((err == flatgeobuf.ErrClosed) == m.closed, "header-closed-error")
		}, "header")
		return
	}
	h, err := m.r.Header()
	m.ok(err == nil && h != nil, "header-succeeds")
	m.ok(eqBytes(h.Table().Bytes, m.f.hdr), "header-equal")
	m.ok(h.FeaturesCount() == m.f.count && h.IndexNodeSize() == m.f.ns, "header-fields")
	m.ok(m.s.pos == m.base+m.f.idx, "header-consumes-exactly")
	m.hdr = h
	m.st = rHeader
}

func (m *rmodel) index() {
	if m.closed || m.st != rHeader {
		m.still(func() {
			t, err := m.r.Index()
			m.ok(err != nil && t == nil, "index-refused")
			m.ok((err == flatgeobuf.ErrClosed) == m.closed, "index-closed-error")
		}, "index")
		return
	}
	t, err := m.r.Index()
	m.ok(err == nil, "index-succeeds")
	if m.f.ns == 0 {
		m.ok(t == nil, "no-index")
	} else {
		m.ok(t != nil && t.NumRefs() == len(m.f.feats) && t.NodeSize() == m.f.ns, "index-counts")
		var w sink
		_, err = t.Marshal(&w)
		m.ok(err == nil && eqBytes(w.b, m.f.b[m.f.idx:m.f.dat]), "index-content")
		m.tree = t
	}
	m.st, m.i = rData, 0
}

// expect lists, in file order, the features whose entry touches q.
func (f *file) expect(q packedrtree.Box) (want [][]byte) {
	for k := range f.feats {
		if touches(f.boxes[k], q) {
			want = append(want, f.feats[k])
		}
	}
	return
}

func (m *rmodel) same(got []flat.Feature, want [][]byte, id string) {
	m.ok(len(got) == len(want), id+"-number")
	for i := range got {
		m.ok(sameFeature(&got[i], want[i]), id+"-equal")
	}
	m.kept = append(m.kept, got...)
	m.want = append(m.want, want...)
}

func (m *rmodel) search(q packedrtree.Box) {
	if m.closed || m.st != rHeader {
		m.still(func() {
			fs, err := m.r.IndexSearch(q)
			m.ok(err != nil && len(fs) == 0, "search-refused")
			m.ok((err == flatgeobuf.ErrClosed) == m.closed, "search-closed-error")
		}, "search")
		return
	}
	fs, err := m.r.IndexSearch(q)
	if m.f.ns == 0 {
		m.ok(err == flatgeobuf.ErrNoIndex && len(fs) == 0, "search-no-index")
		m.st, m.i = rData, 0
		return
	}
	m.ok(err == nil, "search-succeeds")
	m.same(fs, m.f.expect(q), "search")
	m.st = rEnd
}

// consumed asserts that no byte behind the features was read, and all before.
func (m *rmodel) consumed() {
	if m.f.count > 0 && m.i == len(m.f.feats) {
		m.ok(m.s.pos == m.base+len(m.f.b), "consumes-exactly-the-file")
	}
}

// data reads a batch of n.
func (m *rmodel) data(n int) {
	if m.buf == nil {
		m.buf = make([]flat.Feature, 9)
	}
	p := m.buf[:n]
	if m.closed || m.st == rStart {
		m.still(func() {
			k, err := m.r.Data(p)
			m.ok(err != nil && err != io.EOF && k == 0, "data-refused")
			m.ok((err == flatgeobuf.ErrClosed) == m.closed, "data-closed-error")
		}, "data")
		return
	}
	if m.st == rEnd {
		m.still(func() {
			k, err := m.r.Data(p)
			m.ok(k == 0 && err == io.EOF, "data-at-end")
		}, "data-at-end")
		return
	}
	if m.st == rHeader {
		m.st, m.i = rData, 0
	}
	k, err := m.r.Data(p)
	rem := len(m.f.feats) - m.i
	want := n
	if want > rem {
		want = rem
	}
	m.ok(k == want, "data-number")
	m.same(p[:k], m.f.feats[m.i:m.i+want], "data")
	m.i += want
	m.consumed()
	// the end is reported with the last feature, or on its own right after it
	m.ok(err == nil || err == io.EOF, "data-no-error")
	if err == io.EOF {
		m.ok(m.i == len(m.f.feats), "data-end-only-at-end")
		m.st = rEnd
	} else {
		m.ok(n <= rem, "data-end-reported")
	}
}

func (m *rmodel) dataRem() {
	if m.closed || m.st == rStart {
		m.still(func() {
			fs, err := m.r.DataRem()
			m.ok(err != nil && err != io.EOF && len(fs) == 0, "rem-refused")
			m.ok((err == flatgeobuf.ErrClosed) == m.closed, "rem-closed-error")
		}, "rem")
		return
	}
	if m.st == rEnd {
		m.still(func() {
			fs, err := m.r.DataRem()
			m.ok(len(fs) == 0 && (err == nil || err == io.EOF), "rem-at-end")
		}, "rem-at-end")
		return
	}
	if m.st == rHeader {
		m.st, m.i = rData, 0
	}
	fs, err := m.r.DataRem()
	m.ok(err == nil, "rem-succeeds")
	m.same(fs, m.f.feats[m.i:], "rem")
	m.i, m.st = len(m.f.feats), rEnd
	m.consumed()
}

func (m *rmodel) rewind() {
	switch {
	case m.closed || m.st == rStart:
		m.still(func() {
			err := m.r.Rewind()
			m.ok(err != nil, "rewind-refused")
			m.ok((err == flatgeobuf.ErrClosed) == m.closed, "rewind-closed-error")
		}, "rewind")
	case m.canBck || m.st == rHeader:
		m.ok(m.r.Rewind() == nil, "rewind-succeeds")
		m.st, m.i = rHeader, 0
	default:
		m.still(func() {
			err := m.r.Rewind()
			m.ok(err != nil, "rewind-without-seeking-refused")
		}, "rewind")
	}
}

func (m *rmodel) close() {
	was := m.s.closed
	if !m.closed && vf.Choose("close fails", 2) == 1 {
		m.s.closeErr = errBoom
	}
	err := m.r.Close()
	if m.closed {
		m.ok(err == flatgeobuf.ErrClosed, "close-again-error")
		m.ok(m.s.closed == was, "close-once")
		return
	}
	if m.s.closed > was && m.s.closeErr != nil {
		m.ok(errors.Is(err, errBoom), "close-error-passed-on")
	} else {
		m.ok(err == nil, "close-succeeds")
	}
	m.closed = true
}

// step makes one of the calls. q is the query of searches.
const numSteps = 10

func (m *rmodel) step(k int, q packedrtree.Box) {
	switch k {
	case 0:
		m.index()
	case 1:
		m.search(q)
	case 2:
		m.data(1)
	case 3:
		m.dataRem()
	case 4:
		m.data(2)
	case 5:
		m.rewind()
	case 6:
		m.data(9)
	case 7:
		m.data(0)
	case 8:
		m.header()
	case 9:
		m.close()
	}
}

// pick is a file of one of several shapes.
func pick(maxFeats int) *file {
	n := vf.Choose("features", maxFeats+1)
	fs := symFeats(n)
	switch vf.Choose("shape", 4) {
	case 0:
		return mkFile(fs, spots(n), nil, 0, false)
	case 1:
		vf.Assume(n > 0)
		return mkFile(fs, spots(n), nil, 0, true)
	case 2:
		vf.Assume(n > 0)
		return mkFile(fs, spots(n), indexOrder(n, 0), 16, true)
	default:
		vf.Assume(n > 1)
		return mkFile(fs, spots(n), indexOrder(n, 2), 2, true)
	}
}

// Any sequence of calls, from the very start.
func C12_any_calls() {
	f := pick(vf.Param("features up to", 2, 3))
	m := newReader(f, 2+vf.Choose("seekable", 2), 0, "")
	for d := vf.Param("calls", 3, 4); d > 0; d-- {
		m.step(vf.Choose("call", numSteps), symQuery())
	}
	m.end()
}

// Any sequence of calls after the header.
func C12_after_header() {
	f := pick(vf.Param("features up to", 2, 3))
	m := newReader(f, 2+vf.Choose("seekable", 2), 0, "")
	m.header()
	for d := vf.Param("calls after the header", 4, 5); d > 0; d-- {
		m.step(vf.Choose("call", numSteps), symQuery())
	}
	m.end()
}

func (m *rmodel) end() {
	want := 0
	if m.closed {
		want = 1
	}
	m.ok(m.s.closed == want, "closed-once-iff-closed")
	m.intact()
	vf.Reach("end")
	if m.closed {
		vf.Reach("closed")
	}
}

// A defect or an early end: the call that meets it fails, and from then on
// every call gives that error, whatever it is, and reads nothing, until close.
func C12_after_failure() {
	f := shape(2, vf.Choose("shape", 4))
	b := append([]byte(nil), f.b...)
	d := vf.Choose("defect", 16)
	switch d {
	case 0: // another version
		b[3] = vf.U8("major")
		vf.Assume(b[3] != 3)
	case 1: // not the magic
		i := []int{0, 1, 2, 4, 5, 6}[vf.Choose("letter", 6)]
		was := b[i]
		b[i] = vf.U8("letter is")
		vf.Assume(b[i] != was)
	case 2: // no header length possible
		b[8], b[9], b[10], b[11] = vf.U8("len")&3, 0, 0, 0
	case 3:
		b[11] = vf.U8("len") | 4
	case 4: // a root outside the header
		set32(b, 12, uint32(len(f.hdr)))
	case 5: // node size 1
		vf.Assume(f.ns > 0)
		h := headerBytes(f.count, 1)
		vf.Assume(len(h) == len(f.hdr))
		b = put(nil, b[:8], h, b[8+len(h):])
	case 6: // no feature length possible
		set32(b, f.dat, uint32(vf.Choose("len", 4)))
	case 7: // a child outside its level
		vf.Assume(f.ns > 0)
		b[f.idx+32] = 200
	default:
		cuts := []int{3, 9, f.idx - 3, f.idx + 1, f.dat - 1, f.dat + 2, f.dat + 5, len(b) - 1}
		b = b[:cuts[d-8]]
	}
	s := &closeSeekSrc{*newSeekSrc(b, 0)}
	r := flatgeobuf.NewFileReader(s)
	if vf.Choose("seekable", 2) == 0 {
		r = flatgeobuf.NewFileReader(noSeekCloser{s})
	}
	q := spots(2)[vf.Choose("query", 2)]
	var stuck error
	for n := vf.Param("calls", 3, 4); n > 0; n-- {
		k := 0
		if n != vf.Param("calls", 3, 4) {
			k = vf.Choose("call", numCalls)
		}
		was, pos := s.reads, s.pos
		o := call(r, k, q)
		if stuck != nil {
			vf.Assert(o.err == stuck, "same-error-from-then-on")
			vf.Assert(len(o.feats) == 0 && o.bytes == nil, "nothing-returned-after-failure")
			vf.Assert(s.reads == was && s.pos == pos, "nothing-read-after-failure")
			vf.Reach("after failure")
		} else if o.err != nil && o.err != io.EOF && o.err != flatgeobuf.ErrNoIndex && s.reads > was && s.pos <= len(b) {
			// (a skip to behind the end leaves the position known)
			stuck = o.err
		}
	}
	vf.Assert(r.Close() == nil, "close-succeeds")
	vf.Assert(s.closed == 1, "closed-once")
	o := call(r, vf.Choose("call after close", numCalls), q)
	vf.Assert(o.err == flatgeobuf.ErrClosed, "closed-error")
	vf.Assert(r.Close() == flatgeobuf.ErrClosed && s.closed == 1, "closed-only-once")
	vf.Reach("closed")
}

type noSeekCloser struct{ s *closeSeekSrc }

func (c noSeekCloser) Read(p []byte) (int, error) { return c.s.Read(p) }
func (c noSeekCloser) Close() error               { return c.s.Close() }
