package h

import (
	"math"

	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

// refHilbert is the position of cell (x, y) on the order-16 Hilbert curve,
// computed digit by digit from the definition: each quadrant of the square is
// visited in the order given by the current orientation of the curve. The
// orientation is a swap of the axes and a complement of both.
func refHilbert(x, y uint32) uint32 {
	d := uint32(0)
	for s := 15; s >= 0; s-- {
		rx, ry := x>>uint(s)&1, y>>uint(s)&1
		d = d<<2 | (3*rx ^ ry)
		// rotate the rest of the coordinates into the quadrant
		if ry == 0 {
			m := -rx // all ones when rx is 1
			x, y = y^m, x^m
		}
	}
	return d
}

// refCell inverts refHilbert.
func refCell(d uint32) (x, y uint32) {
	for s := uint(0); s < 16; s++ {
		rx := d >> (2*s + 1) & 1
		ry := (d>>(2*s) ^ rx) & 1
		if ry == 0 {
			m := -rx & (1<<s - 1)
			x, y = y^m, x^m
		}
		x |= rx << s
		y |= ry << s
	}
	return x, y
}

func cellOf(lo, hi, b0, size float64) uint32 {
	if size == 0 {
		return 0
	}
	mid := (lo + hi) / 2
	return uint32(math.Floor(65535 * ((mid - b0) / size)))
}

// grid is a bounding box whose cells are the unit squares: the centre of
// point (x+.5, y+.5) scaled into it falls into cell (x, y).
var grid = packedrtree.Box{XMin: 0, YMin: 0, XMax: 65535, YMax: 65535}

func pointIn(x, y uint32) packedrtree.Box {
	fx, fy := float64(int32(x))+.5, float64(int32(y))+.5
	return packedrtree.Box{XMin: fx, YMin: fy, XMax: fx, YMax: fy}
}

// inGrid is a point of the grid that scales into its cell (C06_pair_any has no
// such restriction).
func inGrid(x, y uint32) packedrtree.Box {
	p := pointIn(x, y)
	vf.Assume(vf.And(x < 65535, y < 65535))
	vf.Assume(cellOf(p.XMin, p.XMax, 0, 65535) == x)
	vf.Assume(cellOf(p.YMin, p.YMax, 0, 65535) == y)
	return p
}

// Any two cells: the one with the higher curve position is sorted first.
func C06_pair_of_cells() {
	vf.OpaqueArithmetic()
	var refs []packedrtree.Ref
	var hs [2]uint32
	for i := range hs {
		x, y := vf.U32("x"), vf.U32("y")
		refs = append(refs, packedrtree.Ref{Box: inGrid(x, y), Offset: int64(i)})
		hs[i] = refHilbert(x, y)
	}
	packedrtree.HilbertSort(refs, grid)
	checkPair(refs, hs)
	if refs[0].Offset == 0 {
		vf.Reach("kept")
	} else {
		vf.Reach("swapped")
	}
}

func checkPair(refs []packedrtree.Ref, hs [2]uint32) {
	if refs[0].Offset == 0 {
		vf.Assert(refs[1].Offset == 1, "permutation")
		vf.Assert(hs[0] >= hs[1], "descending")
	} else {
		vf.Assert(vf.And(refs[0].Offset == 1, refs[1].Offset == 0), "permutation")
		vf.Assert(hs[1] >= hs[0], "descending")
	}
}

// Any two boxes and bounds, the scaled centres falling inside the grid.
func C06_pair_any() {
	vf.OpaqueArithmetic()
	bounds := box("bounds")
	zero := vf.Choose("axes of zero extent", 4)
	vf.Assume((bounds.XMax-bounds.XMin == 0) == (zero&1 != 0))
	vf.Assume((bounds.YMax-bounds.YMin == 0) == (zero&2 != 0))
	refs := make([]packedrtree.Ref, 2)
	var hs [2]uint32
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: box("b"), Offset: int64(i)}
		h, ok := hilbertOf(refs[i].Box, bounds)
		vf.Assume(ok)
		hs[i] = h
	}
	packedrtree.HilbertSort(refs, bounds)
	checkPair(refs, hs)
}

// hilbertOf is the position of the centre of b scaled into bounds; ok is
// false if the centre is outside.
func hilbertOf(b, bounds packedrtree.Box) (uint32, bool) {
	x := cellOf(b.XMin, b.XMax, bounds.XMin, bounds.XMax-bounds.XMin)
	y := cellOf(b.YMin, b.YMax, bounds.YMin, bounds.YMax-bounds.YMin)
	return refHilbert(x, y), vf.And(x <= 65535, y <= 65535)
}

// Boxes with small integer edges in bounds that need scaling.
func C06_scaling() {
	vf.OpaqueArithmetic()
	list := []packedrtree.Box{
		{XMin: -128, YMin: -128, XMax: 127, YMax: 127},
		{XMin: -1000, YMin: -200, XMax: 200, YMax: 1000},
		{XMin: -180, YMin: 0, XMax: 180, YMax: 0},
		{XMin: 0, YMin: -180, XMax: 0, YMax: 180},
		{XMin: -128, YMin: -1e6, XMax: 1e9, YMax: 127.25},
	}
	bounds := list[vf.Choose("bounds", len(list))]
	e := func(n string) float64 { return float64(vf.I8(n)) }
	refs := make([]packedrtree.Ref, 2)
	var hs [2]uint32
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: e("xmin"), YMin: e("ymin"), XMax: e("xmax"), YMax: e("ymax")}, Offset: int64(i)}
		h, ok := hilbertOf(refs[i].Box, bounds)
		vf.Assume(ok)
		hs[i] = h
	}
	packedrtree.HilbertSort(refs, bounds)
	checkPair(refs, hs)
}

// Several references in any cells: the same ones come out, in descending order.
func C06_several() {
	vf.OpaqueArithmetic()
	n := vf.Choose("n", vf.Param("max refs", 4, 5)+1)
	refs := make([]packedrtree.Ref, n)
	tag := make([]uint64, n)
	for i := range refs {
		x, y := vf.U32("x"), vf.U32("y")
		refs[i] = packedrtree.Ref{Box: inGrid(x, y), Offset: int64(i)}
		tag[i] = uint64(x)<<32 | uint64(y)
	}
	packedrtree.HilbertSort(refs, grid)
	seen := make([]bool, n)
	var last uint32
	for i := range refs {
		k := vf.Fix(int(refs[i].Offset))
		vf.Assert(k >= 0 && k < n && !seen[k], "permutation")
		seen[k] = true
		x, y := uint32(tag[k]>>32), uint32(tag[k])
		vf.Assert(sameBits(refs[i].Box, pointIn(x, y)), "box-with-its-offset")
		h := refHilbert(x, y)
		vf.Assert(vf.Or(i == 0, last >= h), "descending")
		last = h
	}
	vf.Reach("sorted")
}

// Longer lists (past the simple sorts of small slices): all but one reference
// in given cells.
func C06_long() {
	vf.OpaqueArithmetic()
	ns := []int{13, 40}
	if vf.Thorough() {
		ns = []int{13, 25, 40, 51, 90, 200}
	}
	n := ns[vf.Choose("n", len(ns))]
	pos := []int{0, n / 2, n - 1}[vf.Choose("pos", 3)]
	pat := vf.Choose("pattern", 3)
	refs := make([]packedrtree.Ref, n)
	hs := make([]uint32, n)
	for i := range refs {
		var d uint32
		switch pat {
		case 0:
			d = uint32(i) * 2654435761
		case 1:
			d = uint32(i) << 25
		case 2:
			d = -uint32(i%7) << 20
		}
		x, y := refCell(d)
		if x == 65535 || y == 65535 {
			x, y = 7, 9
		}
		if i == pos {
			x, y = vf.U32("x"), vf.U32("y")
		}
		refs[i] = packedrtree.Ref{Box: inGrid(x, y), Offset: int64(i)}
		hs[i] = refHilbert(x, y)
	}
	packedrtree.HilbertSort(refs, grid)
	seen := make([]bool, n)
	last := -1
	for i := range refs {
		k := vf.Fix(int(refs[i].Offset))
		vf.Assert(k >= 0 && k < n && !seen[k], "permutation")
		seen[k] = true
		vf.Assert(last < 0 || hs[last] >= hs[k], "descending")
		last = k
	}
	vf.Reach("sorted")
}

// The reference curve is a Hilbert curve: position and cell are inverse to
// each other, and successive positions are neighbouring cells.
func C06_oracle() {
	vf.OpaqueArithmetic()
	d := vf.U32("d")
	x, y := refCell(d)
	vf.Assert(vf.And(x <= 65535, y <= 65535), "in-grid")
	vf.Assert(refHilbert(x, y) == d, "bijective")
	x2, y2 := refCell(d + 1)
	step := vf.Or(vf.And(x == x2, vf.Or(y+1 == y2, y2+1 == y)), vf.And(y == y2, vf.Or(x+1 == x2, x2+1 == x)))
	vf.Assert(vf.Imp(d != math.MaxUint32, step), "neighbours")
	vf.Reach("end")
}
