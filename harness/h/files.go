package h

import (
	"encoding/binary"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// ---- tables, laid out by hand so that values may be symbolic without
// influencing the layout (the builders leave out fields with default values)

func put16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func put32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func put64(b []byte, v uint64) []byte { return put32(put32(b, uint32(v)), uint32(v>>32)) }
func put(b []byte, s ...[]byte) []byte {
	for _, x := range s {
		b = append(b, x...)
	}
	return b
}

// headerBytes is a size-prefixed header with the two fields given and a name.
func headerBytes(count uint64, nodeSize uint16) []byte {
	var b []byte
	b = put32(b, 0)  // size, below
	b = put32(b, 28) // root
	// vtable at 8: 4+2*10 = 24 bytes would end at 32; the table has 10 fields
	// (name 0, envelope 1, type 2, z 3, m 4, t 5, tm 6, columns 7, count 8, node size 9)
	vt := []uint16{24, 20, 16, 0, 0, 0, 0, 0, 0, 0, 4, 12}
	for _, x := range vt {
		b = put16(b, x)
	}
	// table at 32 (root counts from 4)
	b = put32(b, 24) // distance back to the vtable
	b = put64(b, count)
	b = put16(b, nodeSize)
	b = put16(b, 0)
	b = put32(b, 4) // name: reference to the string 4 bytes on
	b = put32(b, 2)
	b = append(b, 'h', 'd', 0, 0)
	binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

func asHeader(b []byte) *flat.Header { return flat.GetSizePrefixedRootAsHeader(b, 0) }
func asFeature(b []byte) *flat.Feature {
	return flat.GetSizePrefixedRootAsFeature(b, 0)
}

// blob is a complete size-prefixed root table whose content behind the root
// reference is the given bytes.
func blob(content []byte) []byte {
	b := put32(nil, uint32(4+len(content)))
	b = put32(b, 4)
	return append(b, content...)
}

// ---- whole files, laid out by hand

var goodMagic = []byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 1}

// file is a well-formed file and what a reader must make of it.
type file struct {
	b     []byte
	hdr   []byte
	idx   int // where the index starts
	dat   int // where the features start
	count uint64
	ns    uint16
	feats [][]byte          // in file order
	at    []int             // offset of each feature in the data section
	boxes []packedrtree.Box // index box of each feature, by file order
}

// mkFile lays out a file. order lists the features in the order in which the
// index holds them; nil means no index, and known tells whether the header
// then gives the count.
func mkFile(feats [][]byte, boxes []packedrtree.Box, order []int, ns uint16, known bool) *file {
	f := &file{feats: feats, boxes: boxes, ns: ns}
	if known || order != nil {
		f.count = uint64(len(feats))
	}
	if order == nil {
		f.ns = 0
	}
	f.hdr = headerBytes(f.count, f.ns)
	f.b = put(nil, goodMagic, f.hdr)
	f.idx = len(f.b)
	off := 0
	for _, x := range feats {
		f.at = append(f.at, off)
		off += len(x)
	}
	if order != nil {
		refs := make([]packedrtree.Ref, len(order))
		for i, k := range order {
			refs[i] = packedrtree.Ref{Box: boxes[k], Offset: int64(f.at[k])}
		}
		t, err := packedrtree.New(refs, ns)
		if err != nil {
			panic(err)
		}
		var w sink
		if _, err = t.Marshal(&w); err != nil {
			panic(err)
		}
		f.b = append(f.b, w.b...)
	}
	f.dat = len(f.b)
	for _, x := range feats {
		f.b = append(f.b, x...)
	}
	return f
}

// symFeats are n features of different lengths with arbitrary content.
func symFeats(n int) [][]byte {
	fs := make([][]byte, n)
	for i := range fs {
		fs[i] = blob(vf.Bytes("feature", 4+(i*5)%7))
	}
	return fs
}

// spots are n separate unit squares along the diagonal.
func spots(n int) []packedrtree.Box {
	bs := make([]packedrtree.Box, n)
	for i := range bs {
		x := float64(4 * i)
		bs[i] = packedrtree.Box{XMin: x, YMin: x, XMax: x + 1, YMax: x + 1}
	}
	return bs
}

// orders of the features in the index
func indexOrder(n, k int) []int {
	o := make([]int, n)
	for i := range o {
		switch k {
		case 0:
			o[i] = i
		case 1:
			o[i] = n - 1 - i
		default:
			o[i] = (i + n/2) % n
		}
	}
	return o
}

func sameFeature(f *flat.Feature, b []byte) bool {
	t := f.Table()
	return vf.And(uint32(t.Pos) == 4+binary.LittleEndian.Uint32(b[4:]), eqBytes(t.Bytes, b))
}
