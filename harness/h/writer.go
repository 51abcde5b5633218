package h

import (
	"errors"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
	"verif/harness/vf"
)

// ---- C13

type closeSink struct{ sink }

func (s *closeSink) Close() error { s.closed++; return s.closeErr }

// wmodel says what each call on a writer must do.
type wmodel struct {
	w      *flatgeobuf.FileWriter
	s      *sink
	hdr    []byte
	count  int
	ns     uint16 // 0: no index
	st     int    // rStart, rHeader, rData
	i      int
	closed bool
	feats  [][]byte
	ctrl   bool // destination can be closed
}

// accept asserts that a call wrote exactly want.
func (m *wmodel) accept(n int, err error, was int, want []byte, id string) {
	vf.Assert(err == nil, id+"-succeeds")
	vf.Assert(n == len(want) && len(m.s.b) == was+n, id+"-count")
	vf.Assert(eqBytes(m.s.b[was:], want), id+"-bytes")
}

// refuse asserts that a call wrote nothing and gave an error.
func (m *wmodel) refuse(n int, err error, was int, id string) {
	vf.Assert(err != nil, id+"-refused")
	vf.Assert(n == 0 && len(m.s.b) == was, id+"-writes-nothing")
	vf.Assert((err == flatgeobuf.ErrClosed) == m.closed, id+"-closed-error")
}

func (m *wmodel) header(b []byte, count int, ns uint16) {
	was := len(m.s.b)
	n, err := m.w.Header(asHeader(b))
	if m.closed || m.st != rStart || ns == 1 {
		m.refuse(n, err, was, "header")
		return
	}
	m.accept(n, err, was, put(nil, goodMagic, b), "header")
	m.hdr, m.count, m.ns, m.st = b, count, ns, rHeader
	if count == 0 {
		m.ns = 0
	}
}

func (m *wmodel) index(refs []packedrtree.Ref, ns uint16) {
	t, err := packedrtree.New(refs, ns)
	vf.Assert(err == nil, "new")
	was := len(m.s.b)
	n, err := m.w.Index(t)
	if m.closed || m.st != rHeader || m.ns == 0 || ns != m.ns || len(refs) != m.count {
		m.refuse(n, err, was, "index")
		return
	}
	var x sink
	_, _ = t.Marshal(&x)
	m.accept(n, err, was, x.b, "index")
	m.st = rData
}

func (m *wmodel) indexData(fs [][]byte, ptr bool) {
	was := len(m.s.b)
	v := asFeatures(fs)
	var n int
	var err error
	if ptr {
		p := make([]*flat.Feature, len(v))
		for i := range v {
			p[i] = &v[i]
		}
		n, err = m.w.IndexDataPtr(p)
	} else {
		n, err = m.w.IndexData(v)
	}
	if m.closed || m.st != rHeader || m.ns == 0 || len(fs) != m.count {
		m.refuse(n, err, was, "index-data")
		return
	}
	sz, _ := packedrtree.Size(m.count, m.ns)
	data := put(nil, fs...)
	vf.Assert(err == nil && n == sz+len(data) && len(m.s.b) == was+n, "index-data-count")
	vf.Assert(eqBytes(m.s.b[was+sz:], data), "index-data-features")
	m.st, m.i = rData, m.count
}

func (m *wmodel) data(b []byte) {
	was := len(m.s.b)
	n, err := m.w.Data(asFeature(b))
	if m.closed || m.st == rStart || m.st == rHeader && m.ns > 0 || m.count > 0 && m.i == m.count {
		m.refuse(n, err, was, "data")
		return
	}
	m.accept(n, err, was, b, "data")
	m.i++
	m.st = rData
}

func (m *wmodel) bad(k int) {
	was := len(m.s.b)
	f := asFeature(m.feats[0])
	b := f.Table().Bytes
	switch k {
	case 0: // cut short
		f.Init(b[:len(b)-1], f.Table().Pos)
	case 1: // root elsewhere
		f.Init(b, f.Table().Pos+1)
	case 2: // not at the start
		f.Init(append([]byte{0}, b...), f.Table().Pos+1)
	}
	n, err := m.w.Data(f)
	m.refuse(n, err, was, "bad-data")
	if m.st == rHeader && !m.closed && m.ns == 0 {
		m.st = rData // the position is not changed, but the index is no longer due
	}
}

func (m *wmodel) close() {
	was := len(m.s.b)
	c := m.s.closed
	if m.ctrl && !m.closed && vf.Choose("close fails", 2) == 1 {
		m.s.closeErr = errBoom
	}
	err := m.w.Close()
	vf.Assert(len(m.s.b) == was, "close-writes-nothing")
	if m.closed {
		vf.Assert(err == flatgeobuf.ErrClosed && m.s.closed == c, "close-again")
		return
	}
	m.closed = true
	if m.s.closeErr != nil {
		vf.Assert(errors.Is(err, errBoom), "close-error-passed-on")
	} else {
		vf.Assert((err != nil) == (m.i < m.count), "close-reports-truncation")
	}
	vf.Assert(err != flatgeobuf.ErrClosed, "close-first")
	want := 0
	if m.ctrl {
		want = 1
	}
	vf.Assert(m.s.closed == want, "close-passed-on")
}

func (m *wmodel) step(k int) {
	fs := m.feats
	refs := []packedrtree.Ref{{Box: packedrtree.Box{XMax: 1, YMax: 1}}, {Offset: 99}}
	switch k {
	case 0:
		m.data(fs[0])
	case 1:
		m.header(headerBytes(2, 4), 2, 4)
	case 2:
		m.index(refs, 4)
	case 3:
		m.indexData(fs[:2], false)
	case 4:
		m.close()
	case 5:
		m.data(fs[1])
	case 6:
		m.bad(vf.Choose("bad", 3))
	case 7:
		m.index(refs[:1], 4)
	case 8:
		m.index(refs, 3)
	case 9:
		m.indexData(fs[:1], true)
	case 10:
		m.indexData(nil, false)
	case 11:
		m.indexData(fs[:2], true)
	}
}

func newWriter() *wmodel {
	fs, _ := geoFeatsAt()
	m := &wmodel{feats: fs}
	if vf.Choose("closable", 2) == 1 {
		s := &closeSink{}
		m.ctrl, m.s, m.w = true, &s.sink, flatgeobuf.NewFileWriter(s)
	} else {
		m.s = &sink{}
		m.w = flatgeobuf.NewFileWriter(m.s)
	}
	return m
}

// geoFeatsAt are two point features with arbitrary properties.
func geoFeatsAt() ([][]byte, []packedrtree.Box) {
	var fs [][]byte
	var bs []packedrtree.Box
	for i := 0; i < 2; i++ {
		x := float64(5 * i)
		fs = append(fs, root(feature(geom(flat.GeometryTypePoint, []float64{x, x}, nil), vf.Bytes("props", 2+i), nil)))
		bs = append(bs, packedrtree.Box{XMin: x, YMin: x, XMax: x, YMax: x})
	}
	return fs, bs
}

// Any calls in any order.
func C13_any_calls() {
	m := newWriter()
	for d := vf.Param("calls", 3, 4); d > 0; d-- {
		m.step(vf.Choose("call", 12))
	}
	vf.Reach("end")
}

// Any calls after any header.
func C13_after_header() {
	m := newWriter()
	c := []int{2, 0, 1}[vf.Choose("count", 3)]
	ns := []uint16{0, 4, 3}[vf.Choose("nodeSize", 3)]
	m.header(headerBytes(uint64(c), ns), c, ns)
	for d := vf.Param("calls after the header", 3, 4); d > 0; d-- {
		m.step(vf.Choose("call", 12))
	}
	vf.Reach("end")
	if m.closed && m.i == m.count && m.count > 0 {
		vf.Reach("complete file")
	}
}

// Any header fields: refused exactly for node size 1 and counts beyond int.
func C13_header_fields() {
	count, ns := vf.U64("count"), vf.U16("nodeSize")
	b := headerBytes(count, ns)
	var s sink
	w := flatgeobuf.NewFileWriter(&s)
	n, err := w.Header(asHeader(b))
	bad := vf.Or(ns == 1, count > 1<<63-1)
	vf.Assert((err != nil) == bad, "refused-iff-unusable")
	if err != nil {
		vf.Assert(n == 0 && len(s.b) == 0, "writes-nothing")
		vf.Reach("refused")
		return
	}
	vf.Assert(n == 8+len(b) && eqBytes(s.b, put(nil, goodMagic, b)), "written")
	// the index is due exactly when a count and a node size are given
	f := root(feature(nil, []byte{1, 2}, nil))
	n, err = w.Data(asFeature(f))
	vf.Assert((err == nil) == vf.Or(ns == 0, count == 0), "data-iff-no-index-due")
	vf.Assert(vf.Imp(err != nil, n == 0), "refused-data-writes-nothing")
	vf.Reach("written")
}

// Any buffer and any table position handed over as a feature or header.
func C13_any_table() {
	n := vf.Choose("len", vf.Param("buffer lengths below", 18, 24))
	b := vf.Bytes("b", n)
	pos := uint32(vf.Int("pos", 0, 30))
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(pos))
	var s sink
	w := flatgeobuf.NewFileWriter(&s)
	hdr := headerBytes(0, 0)
	_, err := w.Header(asHeader(hdr))
	vf.Assert(err == nil, "header")
	was := len(s.b)
	k, err := w.Data(&f)
	if err != nil {
		vf.Assert(k == 0 && len(s.b) == was, "refused-writes-nothing")
		// a complete table is not refused
		if n >= 8 {
			size := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
			at := uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24
			vf.Assert(!vf.And(vf.And(size <= uint64(n-4), size >= 8), vf.And(pos == at+4, vf.And(pos >= 8, uint64(pos)+4 <= size+4))), "complete-accepted")
		}
		vf.Reach("refused")
		return
	}
	vf.Assert(n >= 8, "accepted-has-prefix-and-root")
	size := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
	at := uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24
	vf.Assert(size <= uint64(n-4) && size >= 4, "accepted-complete")
	vf.Assert(pos == at+4, "accepted-root-at-start")
	vf.Assert(uint64(k) == size+4 && len(s.b) == was+k, "accepted-count")
	vf.Assert(eqBytes(s.b[was:], b[:k]), "accepted-bytes")
	vf.Reach("accepted")
}

// Any bytes handed over as a header: no panic, and nothing written if refused.
func C13_any_header() {
	n := vf.Choose("len", vf.Param("buffer lengths below", 18, 22))
	b := vf.Bytes("b", n)
	pos := uint32(vf.Int("pos", 0, 30))
	var h flat.Header
	h.Init(b, flatbuffers.UOffsetT(pos))
	var s sink
	w := flatgeobuf.NewFileWriter(&s)
	k, err := w.Header(&h)
	if err != nil {
		vf.Assert(k == 0 && len(s.b) == 0, "refused-writes-nothing")
		vf.Reach("refused")
		return
	}
	size := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
	vf.Assert(size <= uint64(n-4) && uint64(k) == size+12, "accepted-count")
	vf.Assert(eqBytes(s.b, put(nil, goodMagic, b[:k-8])), "accepted-bytes")
	vf.Reach("accepted")
}
