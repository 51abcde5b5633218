package h

import (
	"encoding/binary"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// ---- C20

type pts struct{ v []float64 }

// symXY are n coordinate pairs without NaN, collected in p.
func symXY(n int, p *pts) []float64 {
	v := make([]float64, 2*n)
	for i := range v {
		v[i] = vf.F64("xy")
		vf.Assume(notNaN(v[i]))
	}
	p.v = append(p.v, v...)
	return v
}

// hull is the smallest box around the points.
func (p *pts) isHull(b packedrtree.Box) bool {
	if len(p.v) == 0 {
		return sameBits(b, packedrtree.EmptyBox)
	}
	var bs []packedrtree.Box
	for i := 0; i < len(p.v); i += 2 {
		bs = append(bs, packedrtree.Box{XMin: p.v[i], YMin: p.v[i+1], XMax: p.v[i], YMax: p.v[i+1]})
	}
	return hullOf(bs, b)
}

const numGeoms = 10

// symGeom is a geometry of one of several shapes.
func symGeom(k int, p *pts) node {
	switch k {
	case 0: // a point
		return geom(flat.GeometryTypePoint, symXY(1, p), nil)
	case 1: // no geometry at all
		return nil
	case 2: // no coordinates
		return geom(flat.GeometryTypePoint, nil, nil)
	case 3: // a line
		return geom(flat.GeometryTypeLineString, symXY(3, p), nil)
	case 4: // parts only
		return geom(flat.GeometryTypeMultiPolygon, nil, []node{
			geom(flat.GeometryTypePolygon, symXY(1, p), nil),
			geom(flat.GeometryTypePolygon, symXY(2, p), nil),
		})
	case 5: // parts within parts, beside coordinates
		return geom(flat.GeometryTypeGeometryCollection, symXY(1, p), []node{
			geom(flat.GeometryTypeGeometryCollection, nil, []node{
				geom(flat.GeometryTypePoint, symXY(1, p), nil),
				geom(flat.GeometryTypeGeometryCollection, nil, []node{geom(flat.GeometryTypePoint, symXY(1, p), nil)}),
			}),
			geom(flat.GeometryTypePoint, nil, nil),
		})
	case 6: // empty list of parts
		return geom(flat.GeometryTypeMultiPolygon, nil, []node{})
	case 7: // empty list of coordinates
		return geom(flat.GeometryTypePoint, []float64{}, nil)
	case 8: // a chain of parts
		g := geom(flat.GeometryTypePoint, symXY(1, p), nil)
		for i := 0; i < 4; i++ {
			g = geom(flat.GeometryTypeGeometryCollection, nil, []node{g})
		}
		return g
	default: // several parts after one with parts
		return geom(flat.GeometryTypeGeometryCollection, nil, []node{
			geom(flat.GeometryTypeGeometryCollection, symXY(1, p), []node{geom(flat.GeometryTypePoint, symXY(1, p), nil)}),
			geom(flat.GeometryTypePoint, symXY(1, p), nil),
			geom(flat.GeometryTypePoint, symXY(1, p), nil),
		})
	}
}

// indexAndCheck writes the features with an index made by the writer and
// looks at the entries. It returns the file and, per feature, its entry box.
func indexAndCheck(fs [][]byte, ps []*pts, ns uint16, ptr bool) *file {
	n := len(fs)
	f := &file{feats: fs, boxes: make([]packedrtree.Box, n), count: uint64(n), ns: ns}
	f.hdr = headerBytes(f.count, ns)
	var s sink
	w := flatgeobuf.NewFileWriter(&s)
	_, err := w.Header(asHeader(f.hdr))
	vf.Assert(err == nil, "header")
	f.idx = len(s.b)
	data := asFeatures(fs)
	if ptr {
		p := make([]*flat.Feature, n)
		for i := range p {
			p[i] = &data[i]
		}
		_, err = w.IndexDataPtr(p)
	} else {
		_, err = w.IndexData(data)
	}
	vf.Assert(err == nil, "index-data")
	vf.Assert(w.Close() == nil, "close")
	f.b = s.b
	starts, total := levelStarts(n, int(ns))
	leaf0 := f.idx + 40*starts[len(starts)-1]
	f.dat = f.idx + 40*total
	at := f.dat
	for i, x := range fs {
		f.at = append(f.at, at-f.dat)
		vf.Assert(len(s.b) >= at+len(x) && eqBytes(s.b[at:at+len(x)], x), "feature-at-its-offset")
		at += len(x)
		// exactly one entry refers to it, with the right box
		hits := 0
		for e := 0; e < n; e++ {
			o := leaf0 + 40*e
			if int64(binary.LittleEndian.Uint64(s.b[o+32:])) == int64(f.at[i]) {
				hits++
				f.boxes[i] = packedrtree.Box{XMin: f64at(s.b, o), YMin: f64at(s.b, o+8), XMax: f64at(s.b, o+16), YMax: f64at(s.b, o+24)}
			}
		}
		vf.Assert(hits == 1, "one-entry-per-feature")
		vf.Assert(ps[i].isHull(f.boxes[i]), "entry-box-smallest")
	}
	vf.Assert(len(s.b) == at, "nothing-else")
	return f
}

// One feature of any shape, any coordinates, any query.
func C20_one_feature() {
	vf.OpaqueFloats()
	p := &pts{}
	b := root(feature(symGeom(vf.Choose("shape", numGeoms), p), vf.Bytes("props", 2), nil))
	f := indexAndCheck([][]byte{b}, []*pts{p}, []uint16{2, 16}[vf.Choose("nodeSize", 2)], vf.Choose("ptr", 2) == 1)
	m := newReader(f, vf.Choose("seekable", 2), 0, "read-")
	m.header()
	m.search(symQuery())
	vf.Reach("searched")
}

// dress adds to a geometry what has no bearing on its bounds: a type (any or
// none), ends, further coordinates. It goes for the parts too if deep.
func dress(n node, k int, deep bool) {
	t, ok := n.(table)
	if !ok {
		return
	}
	switch k {
	case 0:
		t[6].val = []byte{vf.U8("type")}
	case 1:
		t[6].val = nil
	case 2:
		t[0].sub = vector{1, vf.Bytes("ends", 4)}
	case 3:
		t[0].sub = vector{2, vf.Bytes("ends", 8)}
		t[2].sub = vector{1, vf.Bytes("z", 8)}
	case 4:
		for i := 2; i < 6; i++ {
			t[i].sub = vector{2, vf.Bytes("more", 16)}
		}
	}
	if l, ok := t[7].sub.(list); ok && deep {
		for i := range l {
			dress(l[i], k, deep)
		}
	}
}

// One feature whose geometry has other fields than coordinates and parts.
func C20_dressed() {
	vf.OpaqueFloats()
	p := &pts{}
	g := symGeom(vf.Choose("shape", numGeoms), p)
	dress(g, vf.Choose("dress", 5), vf.Choose("deep", 2) == 1)
	b := root(feature(g, nil, columns([]flat.ColumnType{1})))
	indexAndCheck([][]byte{b}, []*pts{p}, 16, true)
	vf.Reach("indexed")
}

// Several features of any shapes: the entries.
func C20_entries() {
	vf.OpaqueFloats()
	n := 2 + vf.Choose("features-2", vf.Param("features from 2", 1, 2))
	fs := make([][]byte, n)
	ps := make([]*pts, n)
	for i := range fs {
		ps[i] = &pts{}
		fs[i] = root(feature(symGeom(vf.Choose("shape", numGeoms), ps[i]), vf.Bytes("props", 1+i), nil))
	}
	indexAndCheck(fs, ps, 2, vf.Choose("ptr", 2) == 1)
	vf.Reach("indexed")
}

// Several point features and a search of the file.
func C20_search() {
	vf.OpaqueFloats()
	n := 2 + vf.Choose("features-2", vf.Param("features from 2", 1, 2))
	fs := make([][]byte, n)
	ps := make([]*pts, n)
	for i := range fs {
		ps[i] = &pts{}
		fs[i] = root(feature(symGeom(0, ps[i]), vf.Bytes("props", 1+i), nil))
	}
	f := indexAndCheck(fs, ps, 16, false)
	m := newReader(f, vf.Choose("seekable", 2), 0, "read-")
	m.header()
	m.search(symQuery())
	m.dataRem()
	vf.Reach("searched")
}

// Larger sets on a concrete scatter, any query: multi-level trees, real order.
func C20_scatter() {
	n := []int{5, 17, 40}[vf.Choose("n", 3)]
	fs := make([][]byte, n)
	ps := make([]*pts, n)
	r := uint32(12345)
	for i := range fs {
		r = r*1664525 + 1013904223
		x, y := float64(r>>24)-100, float64(r>>16&255)-50
		ps[i] = &pts{[]float64{x, y, x + 2, y + 3}}
		fs[i] = root(feature(geom(flat.GeometryTypeLineString, ps[i].v, nil), nil, nil))
	}
	f := indexAndCheck(fs, ps, []uint16{2, 4, 16}[vf.Choose("nodeSize", 3)], true)
	x := vf.F64("x")
	vf.Assume(notNaN(x))
	m := newReader(f, vf.Choose("seekable", 2), 0, "read-")
	m.header()
	m.search(packedrtree.Box{XMin: x, XMax: x, YMin: -10, YMax: 120})
	vf.Reach("searched")
}
