// Package h holds the harnesses: one exported function per claim, named after
// the property it decides. The symbolic engine executes them; cmd/replay runs
// them natively on a solver assignment.
package h

import (
	"encoding/binary"
	"errors"
	"io"
	"math"

	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// ---- boxes

func box(name string) packedrtree.Box {
	return packedrtree.Box{XMin: vf.F64(name), YMin: vf.F64(name), XMax: vf.F64(name), YMax: vf.F64(name)}
}

func notNaN(x float64) bool { return x == x }

func noNaN(b packedrtree.Box) bool {
	return vf.And(vf.And(notNaN(b.XMin), notNaN(b.YMin)), vf.And(notNaN(b.XMax), notNaN(b.YMax)))
}

// touches is the definition of intersection: closed rectangles share a point.
func touches(a, b packedrtree.Box) bool {
	return vf.And(vf.And(a.XMin <= b.XMax, b.XMin <= a.XMax), vf.And(a.YMin <= b.YMax, b.YMin <= a.YMax))
}

// sameBox compares numerically (zeros of either sign are equal).
func sameBox(a, b packedrtree.Box) bool {
	return vf.And(vf.And(a.XMin == b.XMin, a.YMin == b.YMin), vf.And(a.XMax == b.XMax, a.YMax == b.YMax))
}

func sameBits(a, b packedrtree.Box) bool {
	return vf.And(vf.And(bits(a.XMin) == bits(b.XMin), bits(a.YMin) == bits(b.YMin)), vf.And(bits(a.XMax) == bits(b.XMax), bits(a.YMax) == bits(b.YMax)))
}

func bits(f float64) uint64 { return math.Float64bits(f) }

// isEdge tells that e is a bound (lower if less) of all values: attained and not beaten.
func hullOf(bs []packedrtree.Box, h packedrtree.Box) bool {
	in, x0, y0, x1, y1 := true, false, false, false, false
	for _, b := range bs {
		in = vf.And(in, vf.And(vf.And(h.XMin <= b.XMin, h.YMin <= b.YMin), vf.And(h.XMax >= b.XMax, h.YMax >= b.YMax)))
		x0 = vf.Or(x0, h.XMin == b.XMin)
		y0 = vf.Or(y0, h.YMin == b.YMin)
		x1 = vf.Or(x1, h.XMax == b.XMax)
		y1 = vf.Or(y1, h.YMax == b.YMax)
	}
	return vf.And(in, vf.And(vf.And(x0, y0), vf.And(x1, y1)))
}

// ---- sources

var errBoom = errors.New("boom")

// src is a source over b. Every read returns at most chunk bytes (0: all that
// is asked for); lo and hi record which positions were handed out.
type src struct {
	b        []byte
	pos      int
	chunk    int
	lastEOF  bool // deliver the final bytes together with io.EOF
	lo, hi   int
	reads    int
	closed   int
	closeErr error // what Close answers
}

func newSrc(b []byte, chunk int) *src { return &src{b: b, chunk: chunk, lo: len(b)} }

func (s *src) Read(p []byte) (int, error) {
	s.reads++
	if s.pos >= len(s.b) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if n > len(s.b)-s.pos {
		n = len(s.b) - s.pos
	}
	n = vf.Fix(n)
	if n > 0 {
		if s.pos < s.lo {
			s.lo = s.pos
		}
		if s.pos+n > s.hi {
			s.hi = s.pos + n
		}
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.lastEOF && s.pos == len(s.b) && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

// seekSrc is src with Seek.
type seekSrc struct {
	src
	seeks int
}

func newSeekSrc(b []byte, chunk int) *seekSrc {
	return &seekSrc{src: src{b: b, chunk: chunk, lo: len(b)}}
}

func (s *seekSrc) Seek(off int64, whence int) (int64, error) {
	s.seeks++
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = int64(s.pos)
	case io.SeekEnd:
		base = int64(len(s.b))
	default:
		return 0, errBoom
	}
	if base+off < 0 {
		return 0, errBoom
	}
	s.pos = int(base + off)
	if s.pos <= len(s.b) {
		s.pos = vf.Fix(s.pos)
	}
	return base + off, nil
}

// sink collects what is written.
type sink struct {
	b        []byte
	calls    int
	closed   int
	closeErr error // what Close answers
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	s.b = append(s.b, p...)
	return len(p), nil
}

// panics runs f and reports whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vf.Stop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}

func f64at(b []byte, i int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[i:])) }
func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vf.And(r, a[i] == b[i])
	}
	return r
}
