package h

import (
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	flatbuffers "github.com/google/flatbuffers/go"
	"verif/harness/vf"
)

// ---- C19

type fbb = flatbuffers.Builder
type uo = flatbuffers.UOffsetT

// size hands out sizes: different ones for the fields of a table, and others
// again for another base.
type size int

func (z *size) next(n int) int { *z++; return int(*z) % n }

func sizes() *size { z := size(vf.Choose("sizes", vf.Param("size patterns", 2, 6))); return &z }

// col is a field of a table under test, at the slot of its position.
type col struct {
	prep  func(b *fbb)      // build what the field refers to
	add   func(b *fbb)      // store the field
	lay   func() fld        // the field in a hand-made layout
	get   func(on bool)     // check the accessors (on: stored)
	mut   func(stored bool) // change the field in place and remember the new value
	deflt func() bool       // the value is the default, which builders leave out
}

// kid is a nested table: by the builders and by hand.
type kid struct {
	build func(b *fbb) uo
	lay   node
}

func strCol(z *size, set func(*fbb, uo), get func() []byte) col {
	v := vf.Bytes("text", z.next(3))
	byteString := z.next(2) == 1
	*z--
	var at uo
	return col{
		prep: func(b *fbb) {
			if byteString {
				at = b.CreateByteString(v)
			} else {
				at = b.CreateByteVector(v)
			}
		},
		add: func(b *fbb) { set(b, at) },
		lay: func() fld { return fld{sub: str(v)} },
		get: func(on bool) {
			g := get()
			if on {
				vf.Assert(g != nil && eqBytes(g, v), "text")
			} else {
				vf.Assert(g == nil, "text-absent")
			}
		},
	}
}

// numCol is a scalar of w bytes whose accessor is seen as 64 bits.
func numCol(w int, dflt uint64, set func(*fbb, uint64), get func() uint64, mutate func(uint64) bool) col {
	mask := uint64(1)<<(8*uint(w)) - 1
	if w == 0 { // bool
		mask = 1
	} else if w == 8 {
		mask = math.MaxUint64
	}
	v := vf.U64("num") & mask
	c := col{
		add: func(b *fbb) {
			vf.Split(true) // the layout depends on whether it is the default
			set(b, v)
			vf.Split(false)
		},
		lay: func() fld {
			var b []byte
			for i := 0; i < max(w, 1); i++ {
				b = append(b, byte(v>>(8*uint(i))))
			}
			return fld{val: b}
		},
		get: func(on bool) {
			want := dflt
			if on {
				want = v
			}
			vf.Assert(get() == want, "scalar")
		},
		deflt: func() bool { return v == dflt },
	}
	if mutate != nil {
		c.mut = func(stored bool) {
			n := vf.U64("new") & mask
			vf.Assert(mutate(n) == stored, "mutate-result")
			if stored {
				v = n
			}
		}
	}
	return c
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// vecCol is a vector of numbers of w bytes.
func vecCol(z *size, w int, start func(*fbb, int) uo, set func(*fbb, uo), n func() int, get func(int) uint64, mutate func(int, uint64) bool) col {
	k := z.next(vf.Param("vector lengths", 3, 4))
	mask := uint64(math.MaxUint64)
	if w < 8 {
		mask = 1<<(8*uint(w)) - 1
	}
	v := make([]uint64, k)
	for i := range v {
		v[i] = vf.U64("elem") & mask
	}
	var at uo
	return col{
		prep: func(b *fbb) {
			start(b, k)
			for i := k - 1; i >= 0; i-- {
				switch w {
				case 1:
					b.PrependByte(byte(v[i]))
				case 4:
					b.PrependUint32(uint32(v[i]))
				default:
					b.PrependUint64(v[i])
				}
			}
			at = b.EndVector(k)
		},
		add: func(b *fbb) { set(b, at) },
		lay: func() fld {
			var b []byte
			for _, x := range v {
				for i := 0; i < w; i++ {
					b = append(b, byte(x>>(8*uint(i))))
				}
			}
			return fld{sub: vector{k, b}}
		},
		get: func(on bool) {
			if !on {
				vf.Assert(n() == 0 && get(0) == 0 && get(1) == 0, "vector-absent")
				return
			}
			vf.Assert(n() == k, "vector-length")
			for i := range v {
				vf.Assert(get(i) == v[i], "element")
			}
		},
		mut: func(stored bool) {
			if !stored {
				vf.Assert(!mutate(0, 1), "mutate-absent")
				return
			}
			if k > 0 {
				i, x := vf.Choose("which", k), vf.U64("new")&mask
				vf.Assert(mutate(i, x), "mutate-element")
				v[i] = x
			}
		},
	}
}

// kidsCol is a vector of tables.
func kidsCol(z *size, mk func() kid, start func(*fbb, int) uo, set func(*fbb, uo), n func() int, check func(j int, l *kid) bool) col {
	k := z.next(3)
	v := make([]kid, k)
	for i := range v {
		v[i] = mk()
	}
	var at uo
	return col{
		prep: func(b *fbb) {
			os := make([]uo, k)
			for i := range v {
				os[i] = v[i].build(b)
			}
			start(b, k)
			for i := k - 1; i >= 0; i-- {
				b.PrependUOffsetT(os[i])
			}
			at = b.EndVector(k)
		},
		add: func(b *fbb) { set(b, at) },
		lay: func() fld {
			l := list{}
			for _, x := range v {
				l = append(l, x.lay)
			}
			return fld{sub: l}
		},
		get: func(on bool) {
			if !on {
				vf.Assert(n() == 0, "tables-absent")
				vf.Assert(!check(0, nil), "table-absent")
				return
			}
			vf.Assert(n() == k, "tables-length")
			for i := range v {
				vf.Assert(check(i, &v[i]), "table-present")
			}
		},
	}
}

// kidCol is a table.
func kidCol(v kid, set func(*fbb, uo), check func(l *kid) bool) col {
	var at uo
	return col{
		prep: func(b *fbb) { at = v.build(b) },
		add:  func(b *fbb) { set(b, at) },
		lay:  func() fld { return fld{sub: v.lay} },
		get: func(on bool) {
			if on {
				vf.Assert(check(&v), "table-present")
			} else {
				vf.Assert(!check(nil), "table-absent")
			}
		},
	}
}

// present chooses which of n fields are stored: all, none, one, or all but one.
func present(n int) []bool {
	on := make([]bool, n)
	c := vf.Choose("fields", 2+2*n)
	for i := range on {
		on[i] = c == 0 || c >= 2 && c < 2+n && i == c-2 || c >= 2+n && i != c-2-n
	}
	return on
}

type finisher struct {
	finish, finishSP func(*fbb, uo)
	root, rootSP     func([]byte, uo)
	pos              func() flatbuffers.Table
}

// buildTable stores the fields by the generated builders and reads them back.
func buildTable(cs []col, on []bool, start func(*fbb), end func(*fbb) uo, f finisher) {
	how := vf.Choose("how", vf.Param("ways of building", 4, 16))
	how = []int{0, 11, 6, 13, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 14, 15}[how] // the first four hold every pair
	b := flatbuffers.NewBuilder([]int{0, 512}[how&1])
	scalars := []int{-1}
	for i, c := range cs {
		if on[i] && c.deflt != nil {
			scalars = append(scalars, i)
		}
	}
	plain := scalars[vf.Choose("atDefault", len(scalars))]
	for i, c := range cs {
		if on[i] && c.deflt != nil {
			vf.Assume(c.deflt() == (i == plain))
		}
	}
	for i, c := range cs {
		if on[i] && c.prep != nil {
			c.prep(b)
		}
	}
	start(b)
	back := how&2 != 0
	for i := range cs {
		if back {
			i = len(cs) - 1 - i
		}
		if on[i] {
			cs[i].add(b)
		}
	}
	at := end(b)
	sp := how&4 != 0
	if sp {
		f.finishSP(b, at)
	} else {
		f.finish(b, at)
	}
	buf := b.FinishedBytes()
	if sp {
		vf.Assert(int(u32at(buf, 0)) == len(buf)-4, "size-prefix")
	}
	junk := 4 * (how >> 3 & 1)
	all := append(make([]byte, junk), buf...)
	if sp {
		f.rootSP(all, uo(junk))
	} else {
		f.root(all, uo(junk))
	}
	t := f.pos()
	vf.Assert(len(t.Bytes) == len(all), "table-bytes")
	for i, c := range cs {
		c.get(on[i])
	}
	vf.Reach("read")
	mutateOne(cs, func(i int) bool { return on[i] && i != plain }, on, plain)
}

// mutateOne changes one field in place; all the others stay.
func mutateOne(cs []col, stored func(int) bool, on []bool, only int) {
	var ms []int
	absent := false
	for i, c := range cs {
		if c.mut != nil && (only < 0 || i == only) {
			if !on[i] {
				if absent && !vf.Thorough() {
					continue
				}
				absent = true
			}
			ms = append(ms, i)
		}
	}
	if len(ms) == 0 {
		return
	}
	i := ms[vf.Choose("mutate", len(ms))]
	was := stored(i)
	cs[i].mut(was)
	for j, c := range cs {
		c.get(on[j])
	}
	vf.Reach("mutated")
}

// layTable lays the fields out by hand, in schema order, perhaps with a vtable
// that ends with the last field, and reads them.
func layTable(cs []col, on []bool, f finisher) {
	t := make(table, len(cs))
	last := 0
	for i, c := range cs {
		if on[i] {
			t[i] = c.lay()
			last = i + 1
		}
	}
	if vf.Choose("shortVtable", 2) == 1 {
		t = t[:last]
	}
	f.rootSP(root(t), 0)
	for i, c := range cs {
		c.get(on[i])
	}
	vf.Reach("read")
	mutateOne(cs, func(i int) bool { return on[i] }, on, -1)
}

func u32at(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
}

// ---- the tables of the schema, fields in schema order

func crsCols(x *flat.Crs) []col {
	z := sizes()
	return []col{
		strCol(z, flat.CrsAddOrg, func() []byte { return x.Org() }),
		numCol(4, 0, func(b *fbb, v uint64) { flat.CrsAddCode(b, int32(v)) }, func() uint64 { return uint64(uint32(x.Code())) }, func(v uint64) bool { return x.MutateCode(int32(v)) }),
		strCol(z, flat.CrsAddName, func() []byte { return x.Name() }),
		strCol(z, flat.CrsAddDescription, func() []byte { return x.Description() }),
		strCol(z, flat.CrsAddWkt, func() []byte { return x.Wkt() }),
		strCol(z, flat.CrsAddCodeString, func() []byte { return x.CodeString() }),
	}
}

func crsFin(x *flat.Crs) finisher {
	return finisher{flat.FinishCrsBuffer, flat.FinishSizePrefixedCrsBuffer,
		func(b []byte, o uo) { *x = *flat.GetRootAsCrs(b, o) }, func(b []byte, o uo) { *x = *flat.GetSizePrefixedRootAsCrs(b, o) },
		func() flatbuffers.Table { return x.Table() }}
}

func C19_crs_built() {
	x := &flat.Crs{}
	cs := crsCols(x)
	buildTable(cs, present(len(cs)), flat.CrsStart, flat.CrsEnd, crsFin(x))
}
func C19_crs_laid() {
	x := &flat.Crs{}
	cs := crsCols(x)
	layTable(cs, present(len(cs)), crsFin(x))
}

func columnCols(x *flat.Column) []col {
	z := sizes()
	i32 := func(set func(*fbb, int32), get func() int32, mut func(int32) bool) col {
		return numCol(4, math.MaxUint32, func(b *fbb, v uint64) { set(b, int32(v)) }, func() uint64 { return uint64(uint32(get())) }, func(v uint64) bool { return mut(int32(v)) })
	}
	bit := func(d uint64, set func(*fbb, bool), get func() bool, mut func(bool) bool) col {
		return numCol(0, d, func(b *fbb, v uint64) { set(b, v == 1) }, func() uint64 { return b2u(get()) }, func(v uint64) bool { return mut(v == 1) })
	}
	return []col{
		strCol(z, flat.ColumnAddName, func() []byte { return x.Name() }),
		numCol(1, 0, func(b *fbb, v uint64) { flat.ColumnAddType(b, flat.ColumnType(v)) }, func() uint64 { return uint64(x.Type()) }, func(v uint64) bool { return x.MutateType(flat.ColumnType(v)) }),
		strCol(z, flat.ColumnAddTitle, func() []byte { return x.Title() }),
		strCol(z, flat.ColumnAddDescription, func() []byte { return x.Description() }),
		i32(flat.ColumnAddWidth, func() int32 { return x.Width() }, func(v int32) bool { return x.MutateWidth(v) }),
		i32(flat.ColumnAddPrecision, func() int32 { return x.Precision() }, func(v int32) bool { return x.MutatePrecision(v) }),
		i32(flat.ColumnAddScale, func() int32 { return x.Scale() }, func(v int32) bool { return x.MutateScale(v) }),
		bit(1, flat.ColumnAddNullable, func() bool { return x.Nullable() }, func(v bool) bool { return x.MutateNullable(v) }),
		bit(0, flat.ColumnAddUnique, func() bool { return x.Unique() }, func(v bool) bool { return x.MutateUnique(v) }),
		bit(0, flat.ColumnAddPrimaryKey, func() bool { return x.PrimaryKey() }, func(v bool) bool { return x.MutatePrimaryKey(v) }),
		strCol(z, flat.ColumnAddMetadata, func() []byte { return x.Metadata() }),
	}
}

func columnFin(x *flat.Column) finisher {
	return finisher{flat.FinishColumnBuffer, flat.FinishSizePrefixedColumnBuffer,
		func(b []byte, o uo) { *x = *flat.GetRootAsColumn(b, o) }, func(b []byte, o uo) { *x = *flat.GetSizePrefixedRootAsColumn(b, o) },
		func() flatbuffers.Table { return x.Table() }}
}

func C19_column_built() {
	x := &flat.Column{}
	cs := columnCols(x)
	buildTable(cs, present(len(cs)), flat.ColumnStart, flat.ColumnEnd, columnFin(x))
}
func C19_column_laid() {
	x := &flat.Column{}
	cs := columnCols(x)
	layTable(cs, present(len(cs)), columnFin(x))
}

// a named column, recognised by its type and width
type wantColumn struct {
	kid
	typ   byte
	width int32
}

func symColumn() *wantColumn {
	w := &wantColumn{typ: vf.U8("type"), width: int32(vf.U32("width"))}
	w.build = func(b *fbb) uo {
		n := b.CreateString("n")
		vf.Split(true)
		defer vf.Split(false)
		flat.ColumnStart(b)
		flat.ColumnAddName(b, n)
		flat.ColumnAddType(b, flat.ColumnType(w.typ))
		flat.ColumnAddWidth(b, w.width)
		return flat.ColumnEnd(b)
	}
	w.lay = table{{sub: str([]byte("n"))}, {val: []byte{w.typ}}, {}, {}, {val: put32(nil, uint32(w.width))}}
	return w
}

// columnsCol checks a vector of columns of a header or feature.
func columnsCol(z *size, start func(*fbb, int) uo, set func(*fbb, uo), n func() int, get func(*flat.Column, int) bool) col {
	ws := []*wantColumn{}
	return kidsCol(z, func() kid { w := symColumn(); ws = append(ws, w); return w.kid }, start, set, n, func(j int, l *kid) bool {
		var c flat.Column
		if !get(&c, j) {
			return false
		}
		if l != nil {
			vf.Assert(string(c.Name()) == "n" && byte(c.Type()) == ws[j].typ && c.Width() == ws[j].width, "column")
		}
		return true
	})
}

func symCrs() (kid, int32) {
	code := int32(vf.U32("code"))
	return kid{func(b *fbb) uo {
		n := b.CreateString("crs")
		vf.Split(true)
		defer vf.Split(false)
		flat.CrsStart(b)
		flat.CrsAddName(b, n)
		flat.CrsAddCode(b, code)
		return flat.CrsEnd(b)
	}, table{{}, {val: put32(nil, uint32(code))}, {sub: str([]byte("crs"))}}}, code
}

func headerCols(x *flat.Header) []col {
	z := sizes()
	bit := func(set func(*fbb, bool), get func() bool, mut func(bool) bool) col {
		return numCol(0, 0, func(b *fbb, v uint64) { set(b, v == 1) }, func() uint64 { return b2u(get()) }, func(v uint64) bool { return mut(v == 1) })
	}
	crs, code := symCrs()
	return []col{
		strCol(z, flat.HeaderAddName, func() []byte { return x.Name() }),
		vecCol(z, 8, flat.HeaderStartEnvelopeVector, flat.HeaderAddEnvelope, func() int { return x.EnvelopeLength() },
			func(i int) uint64 { return math.Float64bits(x.Envelope(i)) }, func(i int, v uint64) bool { return x.MutateEnvelope(i, math.Float64frombits(v)) }),
		numCol(1, 0, func(b *fbb, v uint64) { flat.HeaderAddGeometryType(b, flat.GeometryType(v)) }, func() uint64 { return uint64(x.GeometryType()) }, func(v uint64) bool { return x.MutateGeometryType(flat.GeometryType(v)) }),
		bit(flat.HeaderAddHasZ, func() bool { return x.HasZ() }, func(v bool) bool { return x.MutateHasZ(v) }),
		bit(flat.HeaderAddHasM, func() bool { return x.HasM() }, func(v bool) bool { return x.MutateHasM(v) }),
		bit(flat.HeaderAddHasT, func() bool { return x.HasT() }, func(v bool) bool { return x.MutateHasT(v) }),
		bit(flat.HeaderAddHasTm, func() bool { return x.HasTm() }, func(v bool) bool { return x.MutateHasTm(v) }),
		columnsCol(z, flat.HeaderStartColumnsVector, flat.HeaderAddColumns, func() int { return x.ColumnsLength() }, func(c *flat.Column, j int) bool { return x.Columns(c, j) }),
		numCol(8, 0, flat.HeaderAddFeaturesCount, func() uint64 { return x.FeaturesCount() }, func(v uint64) bool { return x.MutateFeaturesCount(v) }),
		numCol(2, 16, func(b *fbb, v uint64) { flat.HeaderAddIndexNodeSize(b, uint16(v)) }, func() uint64 { return uint64(x.IndexNodeSize()) }, func(v uint64) bool { return x.MutateIndexNodeSize(uint16(v)) }),
		kidCol(crs, flat.HeaderAddCrs, func(l *kid) bool {
			var mine flat.Crs
			c, d := x.Crs(nil), x.Crs(&mine)
			vf.Assert((c == nil) == (d == nil), "crs-given-or-new")
			if c == nil {
				return false
			}
			vf.Assert(d == &mine, "crs-object-given")
			vf.Assert(c.Code() == code && d.Code() == code && string(c.Name()) == "crs" && string(d.Name()) == "crs", "crs")
			return true
		}),
		strCol(z, flat.HeaderAddTitle, func() []byte { return x.Title() }),
		strCol(z, flat.HeaderAddDescription, func() []byte { return x.Description() }),
		strCol(z, flat.HeaderAddMetadata, func() []byte { return x.Metadata() }),
	}
}

func headerFin(x *flat.Header) finisher {
	return finisher{flat.FinishHeaderBuffer, flat.FinishSizePrefixedHeaderBuffer,
		func(b []byte, o uo) { *x = *flat.GetRootAsHeader(b, o) }, func(b []byte, o uo) { *x = *flat.GetSizePrefixedRootAsHeader(b, o) },
		func() flatbuffers.Table { return x.Table() }}
}

func C19_header_built() {
	x := &flat.Header{}
	cs := headerCols(x)
	buildTable(cs, present(len(cs)), flat.HeaderStart, flat.HeaderEnd, headerFin(x))
}
func C19_header_laid() {
	x := &flat.Header{}
	cs := headerCols(x)
	layTable(cs, present(len(cs)), headerFin(x))
}

// a geometry recognised by its type and a coordinate
func symPart(typ *byte, z *uint64) kid {
	*typ, *z = vf.U8("gtype"), vf.U64("z")
	return kid{func(b *fbb) uo {
		flat.GeometryStartZVector(b, 1)
		b.PrependUint64(*z)
		v := b.EndVector(1)
		vf.Split(true)
		defer vf.Split(false)
		flat.GeometryStart(b)
		flat.GeometryAddZ(b, v)
		flat.GeometryAddType(b, flat.GeometryType(*typ))
		return flat.GeometryEnd(b)
	}, table{{}, {}, {sub: vector{1, put64(nil, *z)}}, {}, {}, {}, {val: []byte{*typ}}}}
}

func geometryCols(x *flat.Geometry) []col {
	z := sizes()
	f64s := func(start func(*fbb, int) uo, set func(*fbb, uo), n func() int, get func(int) float64, mut func(int, float64) bool) col {
		return vecCol(z, 8, start, set, n, func(i int) uint64 { return math.Float64bits(get(i)) }, func(i int, v uint64) bool { return mut(i, math.Float64frombits(v)) })
	}
	var typ [2]byte
	var zs [2]uint64
	k := -1
	return []col{
		vecCol(z, 4, flat.GeometryStartEndsVector, flat.GeometryAddEnds, func() int { return x.EndsLength() }, func(i int) uint64 { return uint64(x.Ends(i)) }, func(i int, v uint64) bool { return x.MutateEnds(i, uint32(v)) }),
		f64s(flat.GeometryStartXyVector, flat.GeometryAddXy, func() int { return x.XyLength() }, func(i int) float64 { return x.Xy(i) }, func(i int, v float64) bool { return x.MutateXy(i, v) }),
		f64s(flat.GeometryStartZVector, flat.GeometryAddZ, func() int { return x.ZLength() }, func(i int) float64 { return x.Z(i) }, func(i int, v float64) bool { return x.MutateZ(i, v) }),
		f64s(flat.GeometryStartMVector, flat.GeometryAddM, func() int { return x.MLength() }, func(i int) float64 { return x.M(i) }, func(i int, v float64) bool { return x.MutateM(i, v) }),
		f64s(flat.GeometryStartTVector, flat.GeometryAddT, func() int { return x.TLength() }, func(i int) float64 { return x.T(i) }, func(i int, v float64) bool { return x.MutateT(i, v) }),
		vecCol(z, 8, flat.GeometryStartTmVector, flat.GeometryAddTm, func() int { return x.TmLength() }, func(i int) uint64 { return x.Tm(i) }, func(i int, v uint64) bool { return x.MutateTm(i, v) }),
		numCol(1, 0, func(b *fbb, v uint64) { flat.GeometryAddType(b, flat.GeometryType(v)) }, func() uint64 { return uint64(x.Type()) }, func(v uint64) bool { return x.MutateType(flat.GeometryType(v)) }),
		kidsCol(z, func() kid { k++; return symPart(&typ[k], &zs[k]) }, flat.GeometryStartPartsVector, flat.GeometryAddParts, func() int { return x.PartsLength() }, func(j int, l *kid) bool {
			var g flat.Geometry
			if !x.Parts(&g, j) {
				return false
			}
			if l != nil {
				vf.Assert(byte(g.Type()) == typ[j] && g.ZLength() == 1 && math.Float64bits(g.Z(0)) == zs[j], "part")
			}
			return true
		}),
	}
}

func geometryFin(x *flat.Geometry) finisher {
	return finisher{flat.FinishGeometryBuffer, flat.FinishSizePrefixedGeometryBuffer,
		func(b []byte, o uo) { *x = *flat.GetRootAsGeometry(b, o) }, func(b []byte, o uo) { *x = *flat.GetSizePrefixedRootAsGeometry(b, o) },
		func() flatbuffers.Table { return x.Table() }}
}

func C19_geometry_built() {
	x := &flat.Geometry{}
	cs := geometryCols(x)
	buildTable(cs, present(len(cs)), flat.GeometryStart, flat.GeometryEnd, geometryFin(x))
}
func C19_geometry_laid() {
	x := &flat.Geometry{}
	cs := geometryCols(x)
	layTable(cs, present(len(cs)), geometryFin(x))
}

func featureCols(x *flat.Feature) []col {
	z := sizes()
	var typ byte
	var zv uint64
	cs := []col{
		kidCol(symPart(&typ, &zv), flat.FeatureAddGeometry, func(l *kid) bool {
			var mine flat.Geometry
			g, h := x.Geometry(nil), x.Geometry(&mine)
			vf.Assert((g == nil) == (h == nil), "geometry-given-or-new")
			if g == nil {
				return false
			}
			vf.Assert(h == &mine, "geometry-object-given")
			for _, g := range []*flat.Geometry{g, h} {
				vf.Assert(byte(g.Type()) == typ && g.ZLength() == 1 && math.Float64bits(g.Z(0)) == zv, "geometry")
			}
			return true
		}),
		vecCol(z, 1, flat.FeatureStartPropertiesVector, flat.FeatureAddProperties, func() int { return x.PropertiesLength() }, func(i int) uint64 { return uint64(x.Properties(i)) }, func(i int, v uint64) bool { return x.MutateProperties(i, byte(v)) }),
		columnsCol(z, flat.FeatureStartColumnsVector, flat.FeatureAddColumns, func() int { return x.ColumnsLength() }, func(c *flat.Column, j int) bool { return x.Columns(c, j) }),
	}
	get := cs[1].get
	cs[1].get = func(on bool) {
		get(on)
		b := x.PropertiesBytes()
		vf.Assert((b != nil) == on && len(b) == x.PropertiesLength(), "properties-bytes")
		for i := range b {
			vf.Assert(b[i] == x.Properties(i), "properties-byte")
		}
	}
	return cs
}

func featureFin(x *flat.Feature) finisher {
	return finisher{flat.FinishFeatureBuffer, flat.FinishSizePrefixedFeatureBuffer,
		func(b []byte, o uo) { *x = *flat.GetRootAsFeature(b, o) }, func(b []byte, o uo) { *x = *flat.GetSizePrefixedRootAsFeature(b, o) },
		func() flatbuffers.Table { return x.Table() }}
}

func C19_feature_built() {
	x := &flat.Feature{}
	cs := featureCols(x)
	buildTable(cs, present(len(cs)), flat.FeatureStart, flat.FeatureEnd, featureFin(x))
}
func C19_feature_laid() {
	x := &flat.Feature{}
	cs := featureCols(x)
	layTable(cs, present(len(cs)), featureFin(x))
}

// The names of the enumeration values are those of the format.
var columnNames = []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}
var geometryNames = []string{"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection",
	"CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve", "Surface", "PolyhedralSurface", "TIN", "Triangle"}

func C19_enumerations() {
	v := vf.U8("value")
	v = byte(vf.Fix(int(v)))
	cn, ok := flat.EnumNamesColumnType[flat.ColumnType(v)]
	vf.Assert(ok == (int(v) < len(columnNames)), "column-name-known")
	if ok {
		vf.Assert(cn == columnNames[v] && flat.ColumnType(v).String() == cn && flat.EnumValuesColumnType[cn] == flat.ColumnType(v), "column-name")
	} else {
		vf.Assert(flat.ColumnType(v).String() != "", "column-unknown-name")
	}
	gn, ok := flat.EnumNamesGeometryType[flat.GeometryType(v)]
	vf.Assert(ok == (int(v) < len(geometryNames)), "geometry-name-known")
	if ok {
		vf.Assert(gn == geometryNames[v] && flat.GeometryType(v).String() == gn && flat.EnumValuesGeometryType[gn] == flat.GeometryType(v), "geometry-name")
	} else {
		vf.Assert(flat.GeometryType(v).String() != "", "geometry-unknown-name")
	}
	vf.Assert(len(flat.EnumValuesColumnType) == len(columnNames) && len(flat.EnumValuesGeometryType) == len(geometryNames), "no-more-names")
	vf.Reach("named")
}
