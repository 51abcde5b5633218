package h

import (
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

// A little FlatBuffers layouter that, unlike the generated builders, does not
// leave out fields whose value happens to be the default, so that the layout
// does not depend on symbolic values; children come behind their parents.

type node interface{ emit(b []byte) ([]byte, int) }

// fld is one table field: a scalar's bytes, a reference, or absent.
type fld struct {
	val []byte
	sub node
}

type table []fld

func set32(b []byte, at int, v uint32) {
	b[at], b[at+1], b[at+2], b[at+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}

func set16(b []byte, at int, v uint16) { b[at], b[at+1] = byte(v), byte(v>>8) }

func (t table) emit(b []byte) ([]byte, int) {
	vt := len(b)
	b = append(b, make([]byte, 4+2*len(t))...)
	pos := len(b)
	b = put32(b, uint32(pos-vt))
	var refs []int
	for i, f := range t {
		switch {
		case f.sub != nil:
			set16(b, vt+4+2*i, uint16(len(b)-pos))
			refs = append(refs, i, len(b))
			b = put32(b, 0)
		case f.val != nil:
			set16(b, vt+4+2*i, uint16(len(b)-pos))
			b = append(b, f.val...)
		}
	}
	set16(b, vt, uint16(4+2*len(t)))
	set16(b, vt+2, uint16(len(b)-pos))
	for j := 0; j < len(refs); j += 2 {
		var at int
		b, at = t[refs[j]].sub.emit(b)
		set32(b, refs[j+1], uint32(at-refs[j+1]))
	}
	return b, pos
}

// vector is n elements given by their bytes.
type vector struct {
	n    int
	data []byte
}

func (v vector) emit(b []byte) ([]byte, int) {
	pos := len(b)
	return append(put32(b, uint32(v.n)), v.data...), pos
}

// list is a vector of tables.
type list []node

func (l list) emit(b []byte) ([]byte, int) {
	pos := len(b)
	b = put32(b, uint32(len(l)))
	b = append(b, make([]byte, 4*len(l))...)
	for i, n := range l {
		var at int
		b, at = n.emit(b)
		set32(b, pos+4+4*i, uint32(at-(pos+4+4*i)))
	}
	return b, pos
}

func str(s []byte) node { return vector{len(s), append(append([]byte{}, s...), 0)} }

func floats(v []float64) node {
	var b []byte
	for _, x := range v {
		b = put64(b, math.Float64bits(x))
	}
	return vector{len(v), b}
}

// root is a size-prefixed buffer with n as root table.
func root(n node) []byte {
	b := make([]byte, 8)
	b, at := n.emit(b)
	set32(b, 0, uint32(len(b)-4))
	set32(b, 4, uint32(at-4))
	return b
}

// geom is a geometry with coordinates and parts (nil: field absent).
func geom(typ flat.GeometryType, xy []float64, parts []node) node {
	t := make(table, 8)
	if xy != nil {
		t[1].sub = floats(xy)
	}
	t[6].val = []byte{byte(typ)}
	if parts != nil {
		t[7].sub = list(parts)
	}
	return t
}

// feature has a geometry, properties and columns, each possibly nil.
func feature(g node, props []byte, cols node) node {
	t := make(table, 3)
	t[0].sub = g
	if props != nil {
		t[1].sub = vector{len(props), props}
	}
	t[2].sub = cols
	return t
}

// columns are named by letters from 'a' on.
func columns(types []flat.ColumnType) node {
	l := list{}
	for i, t := range types {
		l = append(l, table{{sub: str([]byte{'a' + byte(i)})}, {val: []byte{byte(t)}}})
	}
	return l
}
