package h

import (
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	flatbuffers "github.com/google/flatbuffers/go"
	"verif/harness/vf"
)

// A property value of any of the 15 types. u holds numbers (bits), b strings
// and binaries.
type pval struct {
	t flat.ColumnType
	u uint64
	b []byte
}

// widths in bytes; 0 for strings and binaries
var widths = []int{1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 0, 0, 0, 0}

func symPval(t, maxLen int) pval {
	v := pval{t: flat.ColumnType(t)}
	switch widths[t] {
	case 1:
		if v.t == flat.ColumnTypeBool {
			if vf.Bool("v") {
				v.u = 1
			}
		} else {
			v.u = uint64(vf.U8("v"))
		}
	case 2:
		v.u = uint64(vf.U16("v"))
	case 4:
		v.u = uint64(vf.U32("v"))
	case 8:
		v.u = vf.U64("v")
	default:
		v.b = vf.Bytes("s", vf.Choose("len", maxLen+1))
	}
	return v
}

// wire is the format: little-endian numbers, length-prefixed bytes.
func (v pval) wire() []byte {
	var b []byte
	if widths[v.t] == 0 {
		return append(put32(b, uint32(len(v.b))), v.b...)
	}
	for i := 0; i < widths[v.t]; i++ {
		b = append(b, byte(v.u>>(8*i)))
	}
	return b
}

func (v pval) write(w *flatgeobuf.PropWriter) (int, error) {
	switch v.t {
	case flat.ColumnTypeByte:
		return w.WriteByte(int8(v.u))
	case flat.ColumnTypeUByte:
		return w.WriteUByte(uint8(v.u))
	case flat.ColumnTypeBool:
		return w.WriteBool(v.u == 1)
	case flat.ColumnTypeShort:
		return w.WriteShort(int16(v.u))
	case flat.ColumnTypeUShort:
		return w.WriteUShort(uint16(v.u))
	case flat.ColumnTypeInt:
		return w.WriteInt(int32(v.u))
	case flat.ColumnTypeUInt:
		return w.WriteUInt(uint32(v.u))
	case flat.ColumnTypeLong:
		return w.WriteLong(int64(v.u))
	case flat.ColumnTypeULong:
		return w.WriteULong(v.u)
	case flat.ColumnTypeFloat:
		return w.WriteFloat(math.Float32frombits(uint32(v.u)))
	case flat.ColumnTypeDouble:
		return w.WriteDouble(math.Float64frombits(v.u))
	case flat.ColumnTypeString, flat.ColumnTypeDateTime:
		return w.WriteString(string(v.b))
	}
	return w.WriteBinary(v.b)
}

// read reads one value of type t with the typed reader.
func readTyped(r *flatgeobuf.PropReader, t flat.ColumnType) (x interface{}, err error) {
	switch t {
	case flat.ColumnTypeByte:
		x, err = r.ReadByte()
	case flat.ColumnTypeUByte:
		x, err = r.ReadUByte()
	case flat.ColumnTypeBool:
		x, err = r.ReadBool()
	case flat.ColumnTypeShort:
		x, err = r.ReadShort()
	case flat.ColumnTypeUShort:
		x, err = r.ReadUShort()
	case flat.ColumnTypeInt:
		x, err = r.ReadInt()
	case flat.ColumnTypeUInt:
		x, err = r.ReadUInt()
	case flat.ColumnTypeLong:
		x, err = r.ReadLong()
	case flat.ColumnTypeULong:
		x, err = r.ReadULong()
	case flat.ColumnTypeFloat:
		x, err = r.ReadFloat()
	case flat.ColumnTypeDouble:
		x, err = r.ReadDouble()
	case flat.ColumnTypeString, flat.ColumnTypeDateTime:
		x, err = r.ReadString()
	default:
		x, err = r.ReadBinary()
	}
	return
}

// is tells that x is the value v, of the Go type that belongs to it.
func (v pval) is(x interface{}) bool {
	switch y := x.(type) {
	case int8:
		return vf.And(v.t == flat.ColumnTypeByte, uint8(y) == uint8(v.u))
	case uint8:
		return vf.And(v.t == flat.ColumnTypeUByte, uint64(y) == v.u)
	case bool:
		return vf.And(v.t == flat.ColumnTypeBool, y == (v.u != 0))
	case int16:
		return vf.And(v.t == flat.ColumnTypeShort, uint16(y) == uint16(v.u))
	case uint16:
		return vf.And(v.t == flat.ColumnTypeUShort, uint64(y) == v.u)
	case int32:
		return vf.And(v.t == flat.ColumnTypeInt, uint32(y) == uint32(v.u))
	case uint32:
		return vf.And(v.t == flat.ColumnTypeUInt, uint64(y) == v.u)
	case int64:
		return vf.And(v.t == flat.ColumnTypeLong, uint64(y) == v.u)
	case uint64:
		return vf.And(v.t == flat.ColumnTypeULong, y == v.u)
	case float32:
		return vf.And(v.t == flat.ColumnTypeFloat, uint64(math.Float32bits(y)) == v.u)
	case float64:
		return vf.And(v.t == flat.ColumnTypeDouble, math.Float64bits(y) == v.u)
	case string:
		return vf.And(vf.Or(v.t == flat.ColumnTypeString, v.t == flat.ColumnTypeDateTime), eqBytes([]byte(y), v.b))
	case []byte:
		return vf.And(vf.Or(v.t == flat.ColumnTypeJson, v.t == flat.ColumnTypeBinary), eqBytes(y, v.b))
	}
	return false
}

// checkValue asserts v.is(x), the listed ReadInt defect aside: there only the
// lowest byte survives.
func checkValue(v pval, x interface{}, id string) {
	if v.t == flat.ColumnTypeInt {
		y, ok := x.(int32)
		vf.Assert(ok, id+"-type")
		vf.AssertKnown(uint32(y) == uint32(v.u), id, y == int32(uint8(v.u)), "readint-low-byte")
		return
	}
	vf.Assert(v.is(x), id)
}

// One value of each type, with more behind it in the stream.
func C16_each_type() {
	t := vf.Choose("type", 15)
	v := symPval(t, vf.Param("longest symbolic string", 12, 40))
	var s sink
	n, err := v.write(flatgeobuf.NewPropWriter(&s))
	vf.Assert(err == nil, "write-succeeds")
	vf.Assert(n == len(s.b), "count-is-bytes-written")
	vf.Assert(eqBytes(s.b, v.wire()), "wire-format")
	in := newSrc(append(append([]byte{}, s.b...), 0xEE, 0xEE, 0xEE), vf.Choose("chunk", 4))
	x, err := readTyped(flatgeobuf.NewPropReader(in), v.t)
	vf.Assert(err == nil, "read-succeeds")
	vf.Assert(in.pos == n, "consumes-exactly")
	checkValue(v, x, "identical")
	vf.Reach("read")
}

// Lengths around the byte boundaries of the length prefix.
func C16_long_binaries() {
	ls := []int{255, 256, 257, 511, 512, 4096}
	if vf.Thorough() {
		ls = append(ls, 65535, 65536, 65537)
	}
	l := ls[vf.Choose("len", len(ls))]
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(i) ^ byte(i>>8)
	}
	b[0], b[l/2], b[l-1] = vf.U8("v"), vf.U8("v"), vf.U8("v")
	v := pval{t: flat.ColumnTypeBinary, b: b}
	if vf.Choose("string", 2) == 1 {
		v.t = flat.ColumnTypeString
	}
	var s sink
	n, err := v.write(flatgeobuf.NewPropWriter(&s))
	vf.Assert(err == nil && n == l+4 && len(s.b) == l+4, "count-is-bytes-written")
	vf.Assert(eqBytes(s.b, v.wire()), "wire-format")
	in := newSrc(append(append([]byte{}, s.b...), 0xEE), 0)
	x, err := readTyped(flatgeobuf.NewPropReader(in), v.t)
	vf.Assert(err == nil && in.pos == n, "consumes-exactly")
	checkValue(v, x, "identical")
	vf.Reach("read")
}

// Sequences: values read earlier stay as they were while reading goes on,
// and values written earlier are not disturbed by later writes.
func C16_sequence() {
	k := vf.Param("values in a sequence", 2, 3)
	vs := make([]pval, k)
	var s sink
	w := flatgeobuf.NewPropWriter(&s)
	var want []byte
	for i := range vs {
		vs[i] = symPval(vf.Choose("type", 15), vf.Param("longest string in a sequence", 3, 3))
		orig := append([]byte{}, vs[i].b...)
		n, err := vs[i].write(w)
		vf.Assert(err == nil && n == len(vs[i].wire()), "count-is-bytes-written")
		vf.Assert(eqBytes(orig, vs[i].b), "argument-unchanged")
		want = append(want, vs[i].wire()...)
		for j := range vs[i].b { // the caller may reuse its buffer
			vs[i].b[j] = 0
		}
		vs[i].b = orig
	}
	vf.Assert(eqBytes(s.b, want), "wire-format")
	in := newSrc(append([]byte{}, s.b...), 0)
	r := flatgeobuf.NewPropReader(in)
	got := make([]interface{}, k)
	for i := range vs {
		x, err := readTyped(r, vs[i].t)
		vf.Assert(err == nil, "read-succeeds")
		got[i] = x
	}
	vf.Assert(in.pos == len(want), "consumes-exactly")
	for i := range vs {
		checkValue(vs[i], got[i], "identical-at-end")
	}
	vf.Reach("read")
}

// A stream that ends inside a value is an error.
func C16_truncated() {
	t := vf.Choose("type", 15)
	v := symPval(t, 3)
	b := v.wire()
	cut := vf.Choose("cut", len(b))
	in := newSrc(b[:cut], vf.Choose("chunk", 3))
	in.lastEOF = vf.Choose("eof with last bytes", 2) == 1
	_, err := readTyped(flatgeobuf.NewPropReader(in), v.t)
	vf.Assert(err != nil, "error")
	vf.Assert(in.pos == cut, "nothing-left")
	vf.Reach("done")
}

// ---- C17

// columnsTable is a header whose columns have the types given; column i is
// named by the letter 'a'+i.
func columnsTable(types []flat.ColumnType) *flat.Header {
	b := flatbuffers.NewBuilder(256)
	cols := make([]flatbuffers.UOffsetT, len(types))
	for i, t := range types {
		name := b.CreateString(string([]byte{'a' + byte(i)}))
		flat.ColumnStart(b)
		flat.ColumnAddName(b, name)
		flat.ColumnAddType(b, t)
		cols[i] = flat.ColumnEnd(b)
	}
	flat.HeaderStartColumnsVector(b, len(cols))
	for i := len(cols) - 1; i >= 0; i-- {
		b.PrependUOffsetT(cols[i])
	}
	v := b.EndVector(len(cols))
	flat.HeaderStart(b)
	flat.HeaderAddColumns(b, v)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	return flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
}

func allTypes() []flat.ColumnType {
	ts := make([]flat.ColumnType, 15)
	for i := range ts {
		ts[i] = flat.ColumnType(i)
	}
	return ts
}

func checkEntry(v flatgeobuf.PropValue, col int, want pval, id string) {
	vf.Assert(int(v.ColIndex) == col, id+"-column-number")
	vf.Assert(v.Type == want.t, id+"-type")
	vf.Assert(v.Col.Type() == want.t, id+"-column-type")
	vf.Assert(eqBytes(v.Col.Name(), []byte{'a' + byte(col)}), id+"-column")
	checkValue(want, v.Value, id+"-value")
}

// Sequences of pairs, any columns (repeats included), any values.
func C17_pairs() {
	h := columnsTable(allTypes())
	k := vf.Choose("pairs", vf.Param("pairs up to", 2, 3)+1)
	var stream []byte
	cols := make([]int, k)
	vals := make([]pval, k)
	for i := range vals {
		cols[i] = vf.Choose("column", 15)
		vals[i] = symPval(cols[i], vf.Param("longest string", 2, 3))
		stream = put(put16(stream, uint16(cols[i])), vals[i].wire())
	}
	in := newSrc(stream, vf.Choose("chunk", 3))
	out, err := flatgeobuf.NewPropReader(in).ReadSchema(h)
	vf.Assert(err == nil, "succeeds")
	vf.Assert(len(out) == k, "one-entry-per-pair")
	for i := range out {
		checkEntry(out[i], cols[i], vals[i], "pair")
	}
	vf.Assert(in.pos == len(stream), "consumes-all")
	vf.Reach("decoded")
}

// Long schemas: column numbers beyond one byte.
func C17_wide_schema() {
	ns := []int{257}
	if vf.Thorough() {
		ns = []int{255, 256, 257, 300}
	}
	n := ns[vf.Choose("columns", len(ns))]
	types := make([]flat.ColumnType, n)
	for i := range types {
		types[i] = flat.ColumnTypeUByte
	}
	types[n-1] = flat.ColumnTypeUShort
	h := columnsTable(types)
	c := vf.U16("column")
	b := append(put16(nil, c), vf.Bytes("v", 2)...)
	out, err := flatgeobuf.NewPropReader(newSrc(b, 0)).ReadSchema(h)
	switch {
	case int(c) >= n:
		vf.Assert(err != nil, "unknown-column-is-error")
		vf.Reach("unknown")
	case int(c) == n-1:
		vf.Assert(err == nil && len(out) == 1, "short-decoded")
		x, ok := out[0].Value.(uint16)
		vf.Assert(ok && x == uint16(b[2])|uint16(b[3])<<8, "short-value")
		vf.Assert(out[0].ColIndex == c, "short-column")
		vf.Reach("last column")
	default:
		vf.Assert(err != nil, "partial-pair-is-error") // one byte left behind the first pair
		vf.Reach("byte column")
	}
}

// decode is the definition of the format. ok is false when the input ends
// inside a pair or names an unknown column.
func decode(types []flat.ColumnType, b []byte) (cols []int, vals []pval, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 {
			return nil, nil, false
		}
		c := vf.Fix(vf.IteInt(int(b[0])|int(b[1])<<8 < len(types), int(b[0])|int(b[1])<<8, len(types)))
		if c == len(types) {
			return nil, nil, false
		}
		b[0], b[1] = byte(c), 0 // the value they have on this path
		b = b[2:]
		v := pval{t: types[c]}
		w := widths[v.t]
		if w == 0 {
			if len(b) < 4 {
				return nil, nil, false
			}
			n := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
			l := b[:4]
			b = b[4:]
			if uint64(n) > uint64(len(b)) {
				return nil, nil, false
			}
			k := vf.Fix(int(n))
			l[0], l[1], l[2], l[3] = byte(k), 0, 0, 0 // likewise
			v.b, b = b[:k], b[k:]
		} else {
			if len(b) < w {
				return nil, nil, false
			}
			for i := 0; i < w; i++ {
				v.u |= uint64(b[i]) << (8 * i)
			}
			if v.t == flat.ColumnTypeBool && v.u > 1 {
				v.u = 1
			}
			b = b[w:]
		}
		cols = append(cols, c)
		vals = append(vals, v)
	}
	return cols, vals, true
}

// Every byte string, against small schemas: exactly what the format says or an error.
func C17_any_bytes() {
	schemas := [][]flat.ColumnType{
		{},
		{flat.ColumnTypeUByte},
		{flat.ColumnTypeString, flat.ColumnTypeByte},
		{flat.ColumnTypeBool, flat.ColumnTypeShort, flat.ColumnTypeBinary},
		{flat.ColumnTypeInt, flat.ColumnTypeDateTime, flat.ColumnTypeFloat},
		{flat.ColumnTypeDouble, flat.ColumnTypeJson},
		allTypes(),
		{flat.ColumnTypeLong, flat.ColumnTypeUInt, flat.ColumnTypeUShort, flat.ColumnTypeULong},
	}
	types := schemas[vf.Choose("schema", len(schemas))]
	h := columnsTable(types)
	n := vf.Choose("len", vf.Param("stream lengths below", 15, 19))
	if len(types) == 15 {
		vf.Assume(n <= vf.Param("stream lengths for the schema of all types up to", 9, 12))
	}
	b := vf.Bytes("b", n)
	cols, vals, ok := decode(types, b)
	out, err := flatgeobuf.NewPropReader(newSrc(b, 0)).ReadSchema(h)
	vf.Assert((err == nil) == ok, "error-iff-malformed")
	if err != nil {
		vf.Assert(len(out) == 0, "no-made-up-values")
		vf.Reach("malformed")
		return
	}
	vf.Assert(len(out) == len(vals), "one-entry-per-pair")
	for i := range out {
		checkEntry(out[i], cols[i], vals[i], "pair")
	}
	vf.Reach("decoded")
}
