package h

import (
	"fmt"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
	"verif/harness/vf"
)

// ---- C18

func isText(s, kind string) {
	ok := false
	for _, p := range []string{kind + "{", "error: "} {
		ok = ok || len(s) >= len(p) && s[:len(p)] == p
	}
	vf.Assert(ok, "text-or-error")
}

// Header tables of any bytes at any position.
func C18_header_bytes() {
	vf.MaxAlloc(1 << 37)
	b := vf.Bytes("b", vf.Choose("len", vf.Param("table bytes below", 13, 17)))
	var h flat.Header
	h.Init(b, flatbuffers.UOffsetT(vf.Choose("pos", len(b)+2)))
	isText(flatgeobuf.HeaderString(&h), "Header")
	vf.Reach("printed")
}

// Feature tables of any bytes at any position.
func C18_feature_bytes() {
	vf.MaxAlloc(1 << 37)
	b := vf.Bytes("b", vf.Choose("len", vf.Param("table bytes below", 13, 17)))
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(vf.Choose("pos", len(b)+2)))
	var s flatgeobuf.Schema
	if vf.Choose("schema", 2) == 1 {
		s = columnsTable([]flat.ColumnType{flat.ColumnTypeUByte})
	}
	isText(flatgeobuf.FeatureString(&f, s), "Feature")
	vf.Reach("printed")
}

// damage makes w bytes of b arbitrary, or cuts b.
func damage(b []byte, w int) []byte {
	if at := vf.Choose("at", len(b)+1); at < len(b) {
		n := min(w, len(b)-at)
		copy(b[at:at+n], vf.Bytes("damage", n))
		return b
	}
	return b[:vf.Choose("cut", len(b))]
}

func fullHeader() []byte {
	t := make(table, 14)
	t[0].sub = str([]byte("n"))
	t[1].sub = floats([]float64{1, 2, 3, 4})
	t[2].val = []byte{1}
	t[3].val = []byte{1}
	t[6].val = []byte{1}
	t[7].sub = columns([]flat.ColumnType{flat.ColumnTypeUByte, flat.ColumnTypeString})
	t[8].val = put64(nil, 5)
	t[9].val = []byte{16, 0}
	t[10].sub = table{{sub: str([]byte("o"))}, {val: put32(nil, 4326)}, {}, {}, {sub: str([]byte("w"))}}
	t[13].sub = str([]byte("m"))
	return root(t)
}

// A header with every kind of field, damaged anywhere.
func C18_header_damaged() {
	vf.OpaqueArithmetic()
	vf.MaxAlloc(1 << 37)
	b := damage(fullHeader(), vf.Param("damaged bytes", 2, 4))
	pos := 4 + uint32(int(u32at(fullHeader(), 4)))
	var h flat.Header
	h.Init(b, flatbuffers.UOffsetT(pos))
	isText(flatgeobuf.HeaderString(&h), "Header")
	vf.Reach("printed")
}

func fullFeature() []byte {
	g := geom(flat.GeometryTypeGeometryCollection, []float64{1, 2}, []node{
		geom(flat.GeometryTypePoint, []float64{3, 4}, nil),
		geom(flat.GeometryTypeMultiPoint, nil, []node{geom(flat.GeometryTypePoint, []float64{5, 6}, nil)}),
	})
	return root(feature(g, []byte{0, 0, 7, 1, 0, 1, 0, 0, 0, 'x'}, columns([]flat.ColumnType{flat.ColumnTypeUByte, flat.ColumnTypeString})))
}

// A feature with nested parts, properties and columns, damaged anywhere.
func C18_feature_damaged() {
	vf.OpaqueArithmetic()
	vf.MaxAlloc(1 << 37)
	b := damage(fullFeature(), vf.Param("damaged feature bytes", 2, 3))
	pos := 4 + u32at(fullFeature(), 4)
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(pos))
	isText(flatgeobuf.FeatureString(&f, nil), "Feature")
	vf.Reach("printed")
}

// Geometry parts that contain themselves or each other.
func C18_circular() {
	vf.OpaqueArithmetic()
	vf.MaxAlloc(1 << 37)
	b := root(feature(geom(flat.GeometryTypeGeometryCollection, nil, []node{
		geom(flat.GeometryTypePoint, nil, nil), geom(flat.GeometryTypePoint, nil, []node{geom(flat.GeometryTypePoint, nil, nil)})}), nil, nil))
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(4+u32at(b, 4)))
	// find the parts vector of the outermost geometry
	var g flat.Geometry
	f.Geometry(&g)
	t := g.Table()
	v := int(t.Vector(flatbuffers.UOffsetT(t.Offset(18))))
	at := v + 4*vf.Choose("part", 2)
	back := vf.U32("back")
	vf.Assume(back <= uint32(at))
	set32(b, at, -back)
	isText(flatgeobuf.FeatureString(&f, nil), "Feature")
	vf.Reach("printed")
}

// Schemas of any behaviour.
type oddSchema struct {
	n   int
	how int
	col flat.Column
}

func (o *oddSchema) ColumnsLength() int {
	if o.how == 3 {
		panic("odd schema")
	}
	return o.n
}
func (o *oddSchema) Columns(c *flat.Column, j int) bool {
	switch o.how {
	case 0:
		return false
	case 1:
		return true // and leave the column without a table
	case 2:
		panic("odd schema")
	}
	*c = o.col
	return true
}

func C18_odd_schema() {
	vf.MaxAlloc(1 << 37)
	b := root(feature(nil, vf.Bytes("props", vf.Choose("len", 8)), nil))
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(4+u32at(b, 4)))
	o := &oddSchema{n: int(vf.U64("n")), how: vf.Choose("how", 5)}
	// a column of any type
	t := root(table{{sub: str([]byte("c"))}, {val: []byte{vf.U8("type")}}})
	o.col.Init(t, flatbuffers.UOffsetT(4+u32at(t, 4)))
	isText(flatgeobuf.FeatureString(&f, o), "Feature")
	vf.Reach("printed")
}

// ---- what a well-formed feature shows

func typeText(t flat.GeometryType) string { return geometryNames[t] }

func hullText(v []float64) string {
	b := packedrtree.EmptyBox
	for i := 0; i < len(v); i += 2 {
		if v[i] < b.XMin {
			b.XMin = v[i]
		}
		if v[i] > b.XMax {
			b.XMax = v[i]
		}
		if v[i+1] < b.YMin {
			b.YMin = v[i+1]
		}
		if v[i+1] > b.YMax {
			b.YMax = v[i+1]
		}
	}
	return fmt.Sprintf("[%.8g,%.8g,%.8g,%.8g]", b.XMin, b.YMin, b.XMax, b.YMax)
}

// The bounds over all coordinates of the geometry and its parts.
func C18_shows_bounds() {
	k := vf.Choose("shape", numGeoms)
	p := &pts{}
	n := symGeom(k, p)
	types := []flat.GeometryType{1, 0, 1, 2, 6, 7, 6, 1, 7, 7}
	for _, x := range p.v {
		vf.Assume(!math.IsInf(x, 0) && x != 0) // 0 has two texts
	}
	b := root(feature(n, nil, nil))
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(4+u32at(b, 4)))
	want := "<nil>"
	if k != 1 {
		want = "{Type:" + typeText(types[k]) + ",Bounds:<nil>}"
		if len(p.v) > 0 {
			want = "{Type:" + typeText(types[k]) + ",Bounds:" + hullText(p.v) + "}"
		}
	}
	vf.Assert(flatgeobuf.FeatureString(&f, nil) == "Feature{Geometry:"+want+",Properties:{}}", "bounds-shown")
	vf.Reach("printed")
}

// text of a property value as the decoded Go value prints
func (v pval) text() string {
	u := v.u
	switch v.t {
	case flat.ColumnTypeByte:
		return fmt.Sprint(int8(u))
	case flat.ColumnTypeUByte:
		return fmt.Sprint(uint8(u))
	case flat.ColumnTypeBool:
		return fmt.Sprint(u == 1)
	case flat.ColumnTypeShort:
		return fmt.Sprint(int16(u))
	case flat.ColumnTypeUShort:
		return fmt.Sprint(uint16(u))
	case flat.ColumnTypeInt:
		return fmt.Sprint(int32(u))
	case flat.ColumnTypeUInt:
		return fmt.Sprint(uint32(u))
	case flat.ColumnTypeLong:
		return fmt.Sprint(int64(u))
	case flat.ColumnTypeULong:
		return fmt.Sprint(u)
	case flat.ColumnTypeFloat:
		return fmt.Sprint(math.Float32frombits(uint32(u)))
	case flat.ColumnTypeDouble:
		return fmt.Sprint(math.Float64frombits(u))
	case flat.ColumnTypeString, flat.ColumnTypeDateTime:
		return string(v.b)
	}
	return fmt.Sprint(v.b)
}

// The properties, by the feature's own columns or else those supplied.
func C18_shows_properties() {
	own := vf.Choose("own", 3)     // no columns, an empty list, columns
	given := vf.Choose("given", 4) // no schema, an empty one, other columns, a feature's columns
	types := []flat.ColumnType{flat.ColumnType(vf.Choose("type", 15)), flat.ColumnTypeUByte}
	other := []flat.ColumnType{flat.ColumnTypeUByte, flat.ColumnTypeULong, flat.ColumnTypeUByte}
	if vf.Choose("one column", 2) == 1 {
		types, other = types[:1], other[:1]
	}
	var vals []pval
	var idx []int
	var props []byte
	use := types
	if own != 2 && given >= 2 {
		use = other
	}
	for i, n := 0, vf.Choose("values", 3); i < n; i++ {
		c := vf.Choose("column", min(len(use), 2))
		var v pval
		if use[c] == flat.ColumnTypeString || widths[use[c]] == 0 {
			v = pval{t: use[c], b: []byte("ab")}
		} else {
			v = symPval(int(use[c]), 0)
		}
		vals, idx = append(vals, v), append(idx, c)
		props = append(append(props, byte(c), 0), v.wire()...)
	}
	var cols node
	if own == 1 {
		cols = list{}
	} else if own == 2 {
		cols = columns(types)
	}
	b := root(feature(nil, props, cols))
	var f flat.Feature
	f.Init(b, flatbuffers.UOffsetT(4+u32at(b, 4)))
	var s flatgeobuf.Schema
	switch given {
	case 1:
		s = columnsTable(nil)
	case 2:
		s = columnsTable(other)
	case 3:
		o := root(feature(nil, nil, columns(other)))
		g := &flat.Feature{}
		g.Init(o, flatbuffers.UOffsetT(4+u32at(o, 4)))
		s = g
	}
	got := flatgeobuf.FeatureString(&f, s)
	if own != 2 && given < 2 && len(vals) > 0 {
		vf.Assert(len(got) >= 7 && got[:7] == "error: ", "no-columns-is-error")
		vf.Reach("no columns")
		return
	}
	want := "Feature{Geometry:<nil>,Properties:{"
	lost := false
	for i, v := range vals {
		if i > 0 {
			want += ","
		}
		want += string(rune('a'+idx[i])) + ":" + v.text()
		if v.t == flat.ColumnTypeInt {
			lost = vf.Or(lost, v.u > 255)
		}
	}
	vf.AssertKnown(got == want+"}}", "properties-shown", lost, "readint-low-byte")
	vf.Reach("printed")
}
