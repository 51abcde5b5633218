package h

import (
	"math"

	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

func isMin(r, a, b float64) bool { return vf.And(vf.And(r <= a, r <= b), vf.Or(r == a, r == b)) }
func isMax(r, a, b float64) bool { return vf.And(vf.And(r >= a, r >= b), vf.Or(r == a, r == b)) }

func C05_expand() {
	a, b := box("a"), box("b")
	vf.Assume(noNaN(a))
	vf.Assume(noNaN(b))
	c, d := a, b
	c.Expand(&d)
	vf.Assert(isMin(c.XMin, a.XMin, b.XMin), "xmin")
	vf.Assert(isMin(c.YMin, a.YMin, b.YMin), "ymin")
	vf.Assert(isMax(c.XMax, a.XMax, b.XMax), "xmax")
	vf.Assert(isMax(c.YMax, a.YMax, b.YMax), "ymax")
	vf.Assert(sameBits(d, b), "argument-unchanged")
	vf.Obs("xmin", bits(c.XMin))
	vf.Obs("ymax", bits(c.YMax))
	e := a
	e.Expand(&e)
	vf.Assert(sameBits(e, a), "self")
	vf.Reach("end")
}

func C05_expandxy() {
	a := box("a")
	vf.Assume(noNaN(a))
	x, y := vf.F64("x"), vf.F64("y")
	vf.Assume(vf.And(notNaN(x), notNaN(y)))
	c := a
	c.ExpandXY(x, y)
	vf.Assert(isMin(c.XMin, a.XMin, x), "xmin")
	vf.Assert(isMin(c.YMin, a.YMin, y), "ymin")
	vf.Assert(isMax(c.XMax, a.XMax, x), "xmax")
	vf.Assert(isMax(c.YMax, a.YMax, y), "ymax")
	vf.Obs("xmax", bits(c.XMax))
	vf.Reach("end")
}

func C05_empty_neutral() {
	a := box("a")
	vf.Assume(noNaN(a))
	inf := math.Inf(1)
	e := packedrtree.EmptyBox
	vf.Assert(sameBits(e, packedrtree.Box{XMin: inf, YMin: inf, XMax: -inf, YMax: -inf}), "empty-definition")
	e.Expand(&a)
	vf.Assert(sameBox(e, a), "empty-then-a")
	c := a
	e = packedrtree.EmptyBox
	c.Expand(&e)
	vf.Assert(sameBits(c, a), "a-then-empty")
	x, y := vf.F64("x"), vf.F64("y")
	vf.Assume(vf.And(notNaN(x), notNaN(y)))
	e = packedrtree.EmptyBox
	e.ExpandXY(x, y)
	vf.Assert(sameBox(e, packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}), "empty-then-point")
	vf.Assert(sameBits(packedrtree.EmptyBox, packedrtree.Box{XMin: inf, YMin: inf, XMax: -inf, YMax: -inf}), "empty-unchanged")
	vf.Reach("end")
}

// A chain of expansions is the hull of everything, in any order.
func C05_chain() {
	n := 2 + vf.Choose("n-2", vf.Param("boxes in a chain from 2", 3, 6))
	bs := make([]packedrtree.Box, n)
	acc := packedrtree.EmptyBox
	for i := range bs {
		bs[i] = box("b")
		vf.Assume(noNaN(bs[i]))
		acc.Expand(&bs[i])
	}
	vf.Assert(hullOf(bs, acc), "hull")
	rev := packedrtree.EmptyBox
	for i := n - 1; i >= 0; i-- {
		rev.Expand(&bs[i])
	}
	vf.Assert(sameBox(rev, acc), "order-free")
	vf.Reach("end")
}

func C05_width_height() {
	a := box("a")
	c := a
	w, h := c.Width(), c.Height()
	ew, eh := a.XMax-a.XMin, a.YMax-a.YMin
	vf.Assert(vf.Or(bits(w) == bits(ew), vf.And(w != w, ew != ew)), "width")
	vf.Assert(vf.Or(bits(h) == bits(eh), vf.And(h != h, eh != eh)), "height")
	vf.Assert(sameBits(c, a), "unchanged")
	vf.Reach("end")
}
