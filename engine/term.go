package main

// Hash-consed bit-vector / boolean / IEEE-float terms with local simplification.
// Width 0 is Bool.  Floats are carried as their IEEE bit patterns (width 32/64).

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	// IEEE comparisons on bit patterns (operands 32 or 64 wide)
	OFlt
	OFle
	OFeq
	// IEEE arithmetic, result is a bit pattern
	OFadd
	OFsub
	OFmul
	OFdiv
	OFrti // round to integral; val = mode (0 floor,1 ceil,2 trunc,3 nearest-even, 4 ties-away)
	OFcvt // float width conversion
	OFtoS // float -> signed int of width w, truncating; out of range gives 1<<(w-1)
	OSToF // signed int -> float
	OUToF // unsigned int -> float
	OFsqrt
)

var opNames = map[Op]string{OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", ONot: "not"}

type Term struct {
	op   Op
	w    uint8
	n    uint8
	id   uint32
	val  uint64
	a    [3]*Term
	name string
	hasC bool   // contains float comparisons
	hasF bool   // contains float arithmetic
	h    uint64 // structural hash: orders commutative operands independently of creation order
	lo   uint64
	hi   uint64
	rng  bool
	mark uint32
	mval uint64
}

type tkey struct {
	op         Op
	w          uint8
	a0, a1, a2 uint32
	val        uint64
}

type Ctx struct {
	tab   map[tkey]*Term
	vars  map[string]*Term
	lift  map[tkey]*Term
	next  uint32
	T, F  *Term
	epoch uint32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, lift: map[tkey]*Term{}, vars: map[string]*Term{}, next: 1}
	c.T = c.mk(OConst, 0, 1)
	c.F = c.mk(OConst, 0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, val uint64, args ...*Term) *Term {
	k := tkey{op: op, w: w, val: val}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, n: uint8(len(args)), id: c.next, val: val}
	c.next++
	copy(t.a[:], args)
	h := mix64(uint64(op)<<8|uint64(w)) ^ mix64(val+0x9e3779b97f4a7c15)
	for _, x := range args {
		h = mix64(h*31 + x.h)
		if x.hasF {
			t.hasF = true
		}
		if x.hasC {
			t.hasC = true
		}
	}
	t.h = h
	if op >= OFadd {
		t.hasF = true
	}
	if op == OFlt || op == OFle || op == OFeq {
		t.hasC = true
	}
	c.tab[k] = t
	return t
}

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}
func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	return c.mk(OConst, w, v&mask(w))
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	t := &Term{op: OVar, w: w, id: c.next, name: name, h: hashStr(name)}
	c.next++
	c.vars[name] = t
	return t
}

func (t *Term) isC() bool  { return t.op == OConst }
func (t *Term) isT() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isF() bool  { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) ones() bool { return t.op == OConst && t.val == mask(t.w) }
func (t *Term) zero() bool { return t.op == OConst && t.val == 0 }
func sx(w uint8, v uint64) int64 {
	return int64(v<<(64-w)) >> (64 - w)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.isC() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, 0, 0, a)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return c.F
	}
	if b.op == OAnd && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if a.op == OAnd && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, a, b)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return c.T
	}
	if b.op == OOr && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if a.op == OOr && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, a, b)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if k.isC() {
		if k.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.op == ONot {
		return c.Ite(k.a[0], b, a)
	}
	if a.op == OIte && a.a[0] == k {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == k {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isT() {
			return c.Or(k, b)
		}
		if a.isF() {
			return c.And(c.Not(k), b)
		}
		if b.isT() {
			return c.Or(c.Not(k), a)
		}
		if b.isF() {
			return c.And(k, a)
		}
		if k == a {
			return c.Or(k, b)
		}
		if k == b {
			return c.And(k, a)
		}
	}
	return c.mk(OIte, a.w, 0, k, a, b)
}

// ---- unsigned ranges (cheap interval analysis)

func (t *Term) urange() (uint64, uint64) {
	if t.rng {
		return t.lo, t.hi
	}
	m := mask(t.w)
	lo, hi := uint64(0), m
	switch t.op {
	case OConst:
		lo, hi = t.val, t.val
	case OIte:
		l1, h1 := t.a[1].urange()
		l2, h2 := t.a[2].urange()
		lo, hi = min(l1, l2), max(h1, h2)
	case OBand:
		_, h1 := t.a[0].urange()
		_, h2 := t.a[1].urange()
		lo, hi = 0, min(h1, h2)
	case OBor, OBxor:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		n := bits.Len64(h1 | h2)
		hi = min(m, mask(uint8(max(n, 1))))
		if t.op == OBor {
			lo = max(l1, l2)
		}
	case OAdd:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		if h1+h2 >= h1 && h1+h2 <= m {
			lo, hi = l1+l2, h1+h2
		}
	case OMul:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		if x, y := bits.Mul64(h1, h2); x == 0 && y <= m {
			lo, hi = l1*l2, y
		}
	case OUdiv:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		if l2 > 0 {
			lo, hi = l1/h2, h1/l2
		}
	case OUrem:
		l2, h2 := t.a[1].urange()
		if l2 > 0 {
			hi = h2 - 1
		}
	case OConcat:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		s := t.a[1].w
		lo, hi = l1<<s|l2, h1<<s|h2
	case OExtract:
		e := t.val & 0xff
		_, h1 := t.a[0].urange()
		l1, _ := t.a[0].urange()
		if e == 0 && h1 <= m {
			lo, hi = l1, h1
		} else if h1>>e <= m {
			lo, hi = l1>>e, h1>>e
		}
	case OLshr:
		if t.a[1].isC() && t.a[1].val < uint64(t.w) {
			l1, h1 := t.a[0].urange()
			lo, hi = l1>>t.a[1].val, h1>>t.a[1].val
		} else {
			_, hi = t.a[0].urange()
		}
	}
	t.lo, t.hi, t.rng = lo, hi, true
	return lo, hi
}

// ---- comparisons

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return c.Bool(a.val == b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isT() {
			return a
		}
		if b.isF() {
			return c.Not(a)
		}
	}
	if b.isC() {
		l, h := a.urange()
		if b.val < l || b.val > h {
			return c.F
		}
		switch a.op {
		case OIte:
			if a.a[1].isC() || a.a[2].isC() {
				e1, e2 := c.Eq(a.a[1], b), c.Eq(a.a[2], b)
				if e1.isC() || e2.isC() {
					return c.Ite(a.a[0], e1, e2)
				}
			}
		case OAdd:
			if a.a[1].isC() {
				return c.Eq(a.a[0], c.Const(a.w, b.val-a.a[1].val))
			}
		case OBnot:
			return c.Eq(a.a[0], c.Const(a.w, ^b.val))
		case OBxor:
			if a.a[1].isC() {
				return c.Eq(a.a[0], c.Const(a.w, b.val^a.a[1].val))
			}
		case OConcat:
			s := a.a[1].w
			return c.And(c.Eq(a.a[0], c.Const(a.a[0].w, b.val>>s)), c.Eq(a.a[1], c.Const(s, b.val)))
		case OSext:
			x := a.a[0]
			if uint64(sx(x.w, b.val&mask(x.w)))&mask(a.w) != b.val {
				return c.F
			}
			return c.Eq(x, c.Const(x.w, b.val))
		}
	} else {
		l1, h1 := a.urange()
		l2, h2 := b.urange()
		if h1 < l2 || h2 < l1 {
			return c.F
		}
		if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
			return c.And(c.Eq(a.a[0], b.a[0]), c.Eq(a.a[1], b.a[1]))
		}
		if a.op == OAdd && b.op == OAdd && a.a[1] == b.a[1] {
			return c.Eq(a.a[0], b.a[0])
		}
		if a.op == OAdd && a.a[0] == b && a.a[1].isC() {
			return c.F // x+k = x, k != 0
		}
		if b.op == OAdd && b.a[0] == a && b.a[1].isC() {
			return c.F
		}
		if a.op == OIte && (a.a[1] == b || a.a[2] == b) {
			return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
		}
		if b.op == OIte && (b.a[1] == a || b.a[2] == a) {
			return c.Ite(b.a[0], c.Eq(b.a[1], a), c.Eq(b.a[2], a))
		}
		if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
			return c.Ite(a.a[0], c.Eq(a.a[1], b.a[1]), c.Eq(a.a[2], b.a[2]))
		}
		if a.h > b.h {
			a, b = b, a
		}
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isC() && b.isC() {
		return c.Bool(a.val < b.val)
	}
	l1, h1 := a.urange()
	l2, h2 := b.urange()
	if h1 < l2 {
		return c.T
	}
	if l1 >= h2 {
		return c.F
	}
	if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w && a.a[0] == b.a[0] {
		return c.Ult(a.a[1], b.a[1])
	}
	if a.op == OConcat && a.a[0].zero() && b.isC() {
		return c.Ult(a.a[1], c.Const(a.a[1].w, b.val)) // b.val in range by urange
	}
	if b.op == OConcat && b.a[0].zero() && a.isC() {
		return c.Ult(c.Const(b.a[1].w, a.val), b.a[1])
	}
	if b.isC() && b.val == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.op == OIte && b.isC() && (a.a[1].isC() || a.a[2].isC()) {
		return c.Ite(a.a[0], c.Ult(a.a[1], b), c.Ult(a.a[2], b))
	}
	return c.mk(OUlt, 0, 0, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isC() && b.isC() {
		return c.Bool(sx(a.w, a.val) < sx(b.w, b.val))
	}
	_, h1 := a.urange()
	_, h2 := b.urange()
	half := uint64(1) << (a.w - 1)
	if h1 < half && h2 < half {
		return c.Ult(a, b)
	}
	if a.isC() && a.val == half-1 || b.isC() && b.val == half {
		return c.F
	}
	if h2 < half && b.isC() && b.val == 0 { // a < 0: sign bit
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	}
	if h1 < half && b.op == OConst && sx(b.w, b.val) < 0 {
		return c.F
	}
	if h2 < half && a.isC() && sx(a.w, a.val) < 0 {
		return c.T
	}
	if a.op == OIte && b.isC() && (a.a[1].isC() || a.a[2].isC()) {
		return c.Ite(a.a[0], c.Slt(a.a[1], b), c.Slt(a.a[2], b))
	}
	return c.mk(OSlt, 0, 0, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- arithmetic

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return c.Const(a.w, a.val+b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.zero() {
		return a
	}
	if b.isC() {
		if a.op == OAdd && a.a[1].isC() {
			return c.Add(a.a[0], c.Const(a.w, a.a[1].val+b.val))
		}
		if a.op == OIte && (a.a[1].isC() && a.a[2].isC()) {
			return c.Ite(a.a[0], c.Add(a.a[1], b), c.Add(a.a[2], b))
		}
		return c.mk(OAdd, a.w, 0, a, b)
	}
	if a.op == OAdd && a.a[1].isC() {
		return c.Add(c.Add(a.a[0], b), a.a[1])
	}
	if b.op == OAdd && b.a[1].isC() {
		return c.Add(c.Add(a, b.a[0]), b.a[1])
	}
	if a.op == OSub && a.a[1] == b {
		return a.a[0]
	}
	if b.op == OSub && b.a[1] == a {
		return b.a[0]
	}
	if r := c.piecewiseOr(a, b); r != nil {
		return r
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.mk(OAdd, a.w, 0, a, b)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isC() {
		return c.Add(a, c.Const(a.w, -b.val))
	}
	if a.op == OAdd {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
		if a.a[1].isC() {
			return c.Add(c.Sub(a.a[0], b), a.a[1])
		}
	}
	if b.op == OAdd {
		if b.a[0] == a {
			return c.Sub(c.Const(a.w, 0), b.a[1])
		}
		if b.a[1] == a {
			return c.Sub(c.Const(a.w, 0), b.a[0])
		}
		if b.a[1].isC() {
			return c.Add(c.Sub(a, b.a[0]), c.Const(a.w, -b.a[1].val))
		}
	}
	return c.mk(OSub, a.w, 0, a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return c.Const(a.w, a.val*b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case b.val&(b.val-1) == 0:
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OAdd && a.a[1].isC() {
			return c.Add(c.Mul(a.a[0], b), c.Const(a.w, a.a[1].val*b.val))
		}
		if a.op == OIte && (a.a[1].isC() && a.a[2].isC()) {
			return c.Ite(a.a[0], c.Mul(a.a[1], b), c.Mul(a.a[2], b))
		}
		if a.op == OMul && a.a[1].isC() {
			return c.Mul(a.a[0], c.Const(a.w, a.a[1].val*b.val))
		}
		return c.mk(OMul, a.w, 0, a, b)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, a, b)
}
func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.isC() && b.val != 0 {
		if a.isC() {
			return c.Const(a.w, a.val/b.val)
		}
		if b.val&(b.val-1) == 0 {
			return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if _, h := a.urange(); h < b.val {
			return c.Const(a.w, 0)
		}
	}
	return c.mk(OUdiv, a.w, 0, a, b)
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if b.isC() && b.val != 0 {
		if a.isC() {
			return c.Const(a.w, a.val%b.val)
		}
		if b.val&(b.val-1) == 0 {
			return c.Band(a, c.Const(a.w, b.val-1))
		}
		if _, h := a.urange(); h < b.val {
			return a
		}
	}
	return c.mk(OUrem, a.w, 0, a, b)
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	if b.isC() && b.val != 0 && a.isC() {
		x, y := sx(a.w, a.val), sx(b.w, b.val)
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	half := uint64(1) << (a.w - 1)
	_, h1 := a.urange()
	_, h2 := b.urange()
	if h1 < half && h2 < half {
		return c.Udiv(a, b)
	}
	return c.mk(OSdiv, a.w, 0, a, b)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if b.isC() && b.val != 0 && a.isC() {
		x, y := sx(a.w, a.val), sx(b.w, b.val)
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	half := uint64(1) << (a.w - 1)
	_, h1 := a.urange()
	_, h2 := b.urange()
	if h1 < half && h2 < half {
		return c.Urem(a, b)
	}
	return c.mk(OSrem, a.w, 0, a, b)
}

// piecewiseOr combines two words whose non-zero bit ranges are disjoint at
// segment granularity (byte packing); nil if not applicable.
func (c *Ctx) piecewiseOr(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	if !(a.op == OConcat || a.isC()) || !(b.op == OConcat || b.isC()) {
		return nil
	}
	r, ok := c.pw(a, b, 0)
	if !ok {
		return nil
	}
	return r
}
func (c *Ctx) pw(a, b *Term, depth int) (*Term, bool) {
	if a.zero() {
		return b, true
	}
	if b.zero() {
		return a, true
	}
	if depth > 16 {
		return nil, false
	}
	var s uint8
	if a.op == OConcat && b.op == OConcat {
		s = a.a[1].w
		if b.a[1].w < s {
			s = b.a[1].w
		}
	} else if a.op == OConcat && b.isC() {
		s = a.a[1].w
	} else if b.op == OConcat && a.isC() {
		s = b.a[1].w
	} else {
		return nil, false
	}
	w := a.w
	lo, ok := c.pw(c.Extract(a, s-1, 0), c.Extract(b, s-1, 0), depth+1)
	if !ok {
		return nil, false
	}
	hi, ok := c.pw(c.Extract(a, w-1, s), c.Extract(b, w-1, s), depth+1)
	if !ok {
		return nil, false
	}
	return c.Concat(hi, lo), true
}

func (c *Ctx) Band(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() && b.isC() {
		return c.Const(a.w, a.val&b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.val == 0 {
			return b
		}
		if b.ones() {
			return a
		}
		// contiguous run of ones
		tz := uint8(bits.TrailingZeros64(b.val))
		run := b.val >> tz
		if run&(run+1) == 0 {
			n := uint8(bits.Len64(run))
			mid := c.Extract(a, tz+n-1, tz)
			r := mid
			if tz > 0 {
				r = c.Concat(r, c.Const(tz, 0))
			}
			return c.Zext(r, a.w)
		}
		if a.op == OBand && a.a[1].isC() {
			return c.Band(a.a[0], c.Const(a.w, a.a[1].val&b.val))
		}
		return c.mk(OBand, a.w, 0, a, b)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.mk(OBand, a.w, 0, a, b)
}
func (c *Ctx) Bor(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() && b.isC() {
		return c.Const(a.w, a.val|b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if b.ones() {
			return b
		}
	}
	if r := c.piecewiseOr(a, b); r != nil {
		return r
	}
	if !b.isC() && a.h > b.h {
		a, b = b, a
	}
	return c.mk(OBor, a.w, 0, a, b)
}
func (c *Ctx) Bxor(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.isC() && b.isC() {
		return c.Const(a.w, a.val^b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if b.ones() {
			return c.Bnot(a)
		}
		if a.op == OBxor && a.a[1].isC() {
			return c.Bxor(a.a[0], c.Const(a.w, a.a[1].val^b.val))
		}
		if a.op == OConcat {
			s := a.a[1].w
			return c.Concat(c.Bxor(a.a[0], c.Const(a.a[0].w, b.val>>s)), c.Bxor(a.a[1], c.Const(s, b.val)))
		}
		return c.mk(OBxor, a.w, 0, a, b)
	}
	if r := c.piecewiseOr(a, b); r != nil {
		return r
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.mk(OBxor, a.w, 0, a, b)
}
func (c *Ctx) Bnot(a *Term) *Term {
	if a.isC() {
		return c.Const(a.w, ^a.val)
	}
	if a.op == OBnot {
		return a.a[0]
	}
	return c.mk(OBnot, a.w, 0, a)
}
func (c *Ctx) Shl(a, b *Term) *Term { // same width
	if b.isC() {
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.isC() {
			return c.Const(a.w, a.val<<b.val)
		}
		k := uint8(b.val)
		return c.Concat(c.Extract(a, a.w-1-k, 0), c.Const(k, 0))
	}
	return c.mk(OShl, a.w, 0, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.isC() {
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.isC() {
			return c.Const(a.w, a.val>>b.val)
		}
		k := uint8(b.val)
		return c.Zext(c.Extract(a, a.w-1, k), a.w)
	}
	return c.mk(OLshr, a.w, 0, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.isC() {
		k := b.val
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		if a.isC() {
			return c.Const(a.w, uint64(sx(a.w, a.val)>>k))
		}
		return c.Sext(c.Extract(a, a.w-1, uint8(k)), a.w)
	}
	return c.mk(OAshr, a.w, 0, a, b)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if w > 64 {
		panic("concat > 64")
	}
	if hi.isC() && lo.isC() {
		return c.Const(w, hi.val<<lo.w|lo.val)
	}
	// right-nested normal form: (concat a (concat b ...)): keep hi atomic
	if hi.op == OConcat {
		return c.Concat(hi.a[0], c.Concat(hi.a[1], lo))
	}
	// adjacent extracts / constants at the head of lo
	head, rest := lo, (*Term)(nil)
	if lo.op == OConcat {
		head, rest = lo.a[0], lo.a[1]
	}
	var m *Term
	if hi.isC() && head.isC() {
		m = c.Const(hi.w+head.w, hi.val<<head.w|head.val)
	} else if hi.op == OExtract && head.op == OExtract && hi.a[0] == head.a[0] && (hi.val&0xff) == (head.val>>8)+1 {
		m = c.Extract(hi.a[0], uint8(hi.val>>8), uint8(head.val&0xff))
	} else if hi.op == OIte && head.op == OIte && hi.a[0] == head.a[0] {
		m = c.Ite(hi.a[0], c.Concat(hi.a[1], head.a[1]), c.Concat(hi.a[2], head.a[2]))
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return c.Concat(m, rest)
	}
	return c.mk(OConcat, w, 0, hi, lo)
}
func (c *Ctx) Extract(a *Term, h, l uint8) *Term {
	if l == 0 && h == a.w-1 {
		return a
	}
	w := h - l + 1
	switch a.op {
	case OConst:
		return c.Const(w, a.val>>l)
	case OExtract:
		b := uint8(a.val & 0xff)
		return c.Extract(a.a[0], h+b, l+b)
	case OConcat:
		s := a.a[1].w
		if h < s {
			return c.Extract(a.a[1], h, l)
		}
		if l >= s {
			return c.Extract(a.a[0], h-s, l-s)
		}
		return c.Concat(c.Extract(a.a[0], h-s, 0), c.Extract(a.a[1], s-1, l))
	case OSext:
		x := a.a[0]
		if h < x.w {
			return c.Extract(x, h, l)
		}
		if l < x.w {
			return c.Sext(c.Extract(x, x.w-1, l), w)
		}
	case OIte:
		if a.a[1].isC() || a.a[2].isC() || a.a[1].op == OConcat || a.a[2].op == OConcat {
			return c.Ite(a.a[0], c.Extract(a.a[1], h, l), c.Extract(a.a[2], h, l))
		}
	case OBxor, OBand, OBor:
		if a.a[1].isC() {
			x, y := c.Extract(a.a[0], h, l), c.Extract(a.a[1], h, l)
			switch a.op {
			case OBxor:
				return c.Bxor(x, y)
			case OBand:
				return c.Band(x, y)
			default:
				return c.Bor(x, y)
			}
		}
	case OAdd:
		if l == 0 {
			return c.Add(c.Extract(a.a[0], h, 0), c.Extract(a.a[1], h, 0))
		}
	case OSub:
		if l == 0 {
			return c.Sub(c.Extract(a.a[0], h, 0), c.Extract(a.a[1], h, 0))
		}
	case OMul:
		if l == 0 {
			return c.Mul(c.Extract(a.a[0], h, 0), c.Extract(a.a[1], h, 0))
		}
	}
	return c.mk(OExtract, w, uint64(h)<<8|uint64(l), a)
}
func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if a.op == OIte && a.a[1].isC() && a.a[2].isC() {
		return c.Ite(a.a[0], c.Zext(a.a[1], w), c.Zext(a.a[2], w))
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}
func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if a.isC() {
		return c.Const(w, uint64(sx(a.w, a.val)))
	}
	if _, h := a.urange(); h < uint64(1)<<(a.w-1) {
		return c.Zext(a, w)
	}
	if a.op == OIte && a.a[1].isC() && a.a[2].isC() {
		return c.Ite(a.a[0], c.Sext(a.a[1], w), c.Sext(a.a[2], w))
	}
	if a.op == OSext {
		return c.Sext(a.a[0], w)
	}
	return c.mk(OSext, w, 0, a)
}

// ---- floats

func fbits(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func bitsf(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (c *Ctx) fcmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := fbits(a.w, a.val), fbits(b.w, b.val)
		switch op {
		case OFlt:
			return c.Bool(x < y)
		case OFle:
			return c.Bool(x <= y)
		default:
			return c.Bool(x == y)
		}
	}
	if a.isC() && fbits(a.w, a.val) != fbits(a.w, a.val) || b.isC() && fbits(b.w, b.val) != fbits(b.w, b.val) {
		return c.F
	}
	if op == OFlt && a == b {
		return c.F
	}
	if op == OFlt && a.isC() && math.IsInf(fbits(a.w, a.val), 1) {
		return c.F
	}
	if op == OFlt && b.isC() && math.IsInf(fbits(b.w, b.val), -1) {
		return c.F
	}
	if op == OFeq && a.h > b.h {
		a, b = b, a
	}
	if a.op == OIte && b.isC() && a.a[1].isC() && a.a[2].isC() {
		return c.Ite(a.a[0], c.fcmp(op, a.a[1], b), c.fcmp(op, a.a[2], b))
	}
	if b.op == OIte && a.isC() && b.a[1].isC() && b.a[2].isC() {
		return c.Ite(b.a[0], c.fcmp(op, a, b.a[1]), c.fcmp(op, a, b.a[2]))
	}
	return c.mk(op, 0, 0, a, b)
}
func (c *Ctx) FIsNaN(a *Term) *Term { return c.Not(c.fcmp(OFeq, a, a)) }

// Fminmax is the lesser or greater of two floats: NaN if either is, negative
// zero below positive. math.Min and math.Max let infinities win over NaN.
func (c *Ctx) Fminmax(a, b *Term, max, infWins bool) *Term {
	lt := c.fcmp(OFlt, a, b)
	gt := c.fcmp(OFlt, b, a)
	sign := c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	x, y := a, b
	if max {
		x, y = b, a
	}
	r := c.Ite(lt, x, c.Ite(gt, y, c.Ite(sign, x, y)))
	nan, inf := uint64(0x7FF8000000000001), uint64(0x7FF)<<52
	if a.w == 32 {
		nan, inf = 0x7FC00000, uint64(0xFF)<<23
	}
	if !max {
		inf |= uint64(1) << (a.w - 1)
	}
	anyNaN := c.Or(c.FIsNaN(a), c.FIsNaN(b))
	r = c.Ite(anyNaN, c.Const(a.w, nan), r)
	if infWins {
		i := c.Const(a.w, inf)
		r = c.Ite(c.Or(c.fcmp(OFeq, a, i), c.fcmp(OFeq, b, i)), i, r)
	}
	return r
}
func (c *Ctx) Fneg(a *Term) *Term   { return c.Bxor(a, c.Const(a.w, uint64(1)<<(a.w-1))) }
func (c *Ctx) Fabs(a *Term) *Term {
	return c.Concat(c.Const(1, 0), c.Extract(a, a.w-2, 0))
}

func (c *Ctx) farith(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		var r float64
		if a.w == 32 {
			x, y := float32(fbits(32, a.val)), float32(fbits(32, b.val))
			var q float32
			switch op {
			case OFadd:
				q = x + y
			case OFsub:
				q = x - y
			case OFmul:
				q = x * y
			case OFdiv:
				q = x / y
			}
			r = float64(q)
		} else {
			x, y := fbits(64, a.val), fbits(64, b.val)
			switch op {
			case OFadd:
				r = x + y
			case OFsub:
				r = x - y
			case OFmul:
				r = x * y
			case OFdiv:
				r = x / y
			}
		}
		return c.Const(a.w, bitsf(a.w, r))
	}
	// x / 2^k == x * 2^-k exactly
	if op == OFdiv && b.isC() && b.w == 64 {
		f := fbits(64, b.val)
		if fr, e := math.Frexp(f); math.Abs(fr) == 0.5 && e > -1000 && e < 1000 {
			return c.farith(OFmul, a, c.Const(64, bitsf(64, 1/f)))
		}
	}
	if op == OFmul && b.isC() && fbits(b.w, b.val) == 1 {
		return a
	}
	if op == OFmul && a.isC() && fbits(a.w, a.val) == 1 {
		return b
	}
	if (op == OFadd || op == OFmul) && a.h > b.h {
		a, b = b, a
	}
	switch {
	case a.op == OIte && b.op == OIte && a.a[0] == b.a[0]:
		return c.lifted(op, 0, a, b, func() *Term {
			return c.Ite(a.a[0], c.farith(op, a.a[1], b.a[1]), c.farith(op, a.a[2], b.a[2]))
		})
	case a.op == OIte && b.isC():
		return c.lifted(op, 0, a, b, func() *Term { return c.Ite(a.a[0], c.farith(op, a.a[1], b), c.farith(op, a.a[2], b)) })
	case b.op == OIte && a.isC():
		return c.lifted(op, 0, a, b, func() *Term { return c.Ite(b.a[0], c.farith(op, a, b.a[1]), c.farith(op, a, b.a[2])) })
	}
	return c.mk(op, a.w, 0, a, b)
}

// lifted remembers the result of moving a float operation into the branches of
// its operands, so that shared branches are done once.
func (c *Ctx) lifted(op Op, val uint64, a, b *Term, f func() *Term) *Term {
	k := tkey{op: op, a0: a.id, val: val}
	if b != nil {
		k.a1 = b.id
	}
	if t := c.lift[k]; t != nil {
		return t
	}
	t := f()
	c.lift[k] = t
	return t
}
func (c *Ctx) Frti(a *Term, mode uint64) *Term {
	if a.isC() {
		x := fbits(a.w, a.val)
		switch mode {
		case 0:
			x = math.Floor(x)
		case 1:
			x = math.Ceil(x)
		case 2:
			x = math.Trunc(x)
		case 3:
			x = math.RoundToEven(x)
		case 4:
			x = math.Round(x)
		}
		return c.Const(a.w, bitsf(a.w, x))
	}
	if a.op == OIte {
		return c.lifted(OFrti, mode, a, nil, func() *Term { return c.Ite(a.a[0], c.Frti(a.a[1], mode), c.Frti(a.a[2], mode)) })
	}
	return c.mk(OFrti, a.w, mode, a)
}
func (c *Ctx) Fsqrt(a *Term) *Term {
	if a.isC() {
		return c.Const(a.w, bitsf(a.w, math.Sqrt(fbits(a.w, a.val))))
	}
	return c.mk(OFsqrt, a.w, 0, a)
}
func (c *Ctx) Fcvt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, bitsf(w, fbits(a.w, a.val)))
	}
	return c.mk(OFcvt, w, 0, a)
}
func ftos(w uint8, f float64) uint64 {
	lim := math.Ldexp(1, int(w)-1)
	if !(f > -lim-1 && f < lim) || (w == 64 && f < -lim) {
		return uint64(1) << (w - 1)
	}
	return uint64(int64(f)) & mask(w)
}
func (c *Ctx) FtoS(a *Term, w uint8) *Term { // w = 32 or 64
	if a.isC() {
		return c.Const(w, ftos(w, fbits(a.w, a.val)))
	}
	if a.op == OIte {
		return c.lifted(OFtoS, uint64(w), a, nil, func() *Term { return c.Ite(a.a[0], c.FtoS(a.a[1], w), c.FtoS(a.a[2], w)) })
	}
	return c.mk(OFtoS, w, 0, a)
}
func (c *Ctx) StoF(a *Term, w uint8, signed bool) *Term {
	if a.isC() {
		if w == 32 {
			if signed {
				return c.Const(32, uint64(math.Float32bits(float32(sx(a.w, a.val)))))
			}
			return c.Const(32, uint64(math.Float32bits(float32(a.val))))
		}
		if signed {
			return c.Const(64, math.Float64bits(float64(sx(a.w, a.val))))
		}
		return c.Const(64, math.Float64bits(float64(a.val)))
	}
	if signed {
		return c.mk(OSToF, w, 0, a)
	}
	return c.mk(OUToF, w, 0, a)
}

// ---- evaluation under an assignment (missing variables are 0)

func (c *Ctx) newEpoch() uint32 { c.epoch++; return c.epoch }

func (c *Ctx) Eval(t *Term, ep uint32, m map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.mark == ep {
		return t.mval
	}
	var r uint64
	g := func(i int) uint64 { return c.Eval(t.a[i], ep, m) }
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	aw := uint8(0)
	if t.n > 0 {
		aw = t.a[0].w
	}
	switch t.op {
	case OVar:
		r = m[t]
	case ONot:
		r = 1 - g(0)
	case OAnd:
		if g(0) == 0 {
			r = 0
		} else {
			r = g(1)
		}
	case OOr:
		if g(0) == 1 {
			r = 1
		} else {
			r = g(1)
		}
	case OIte:
		if g(0) == 1 {
			r = g(1)
		} else {
			r = g(2)
		}
	case OEq:
		r = b2(g(0) == g(1))
	case OUlt:
		r = b2(g(0) < g(1))
	case OSlt:
		r = b2(sx(aw, g(0)) < sx(aw, g(1)))
	case OAdd:
		r = g(0) + g(1)
	case OSub:
		r = g(0) - g(1)
	case OMul:
		r = g(0) * g(1)
	case OUdiv:
		if g(1) == 0 {
			r = ^uint64(0)
		} else {
			r = g(0) / g(1)
		}
	case OUrem:
		if g(1) == 0 {
			r = g(0)
		} else {
			r = g(0) % g(1)
		}
	case OSdiv:
		x, y := sx(aw, g(0)), sx(aw, g(1))
		if y == 0 {
			if x < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSrem:
		x, y := sx(aw, g(0)), sx(aw, g(1))
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OBand:
		r = g(0) & g(1)
	case OBor:
		r = g(0) | g(1)
	case OBxor:
		r = g(0) ^ g(1)
	case OBnot:
		r = ^g(0)
	case OShl:
		if g(1) >= uint64(t.w) {
			r = 0
		} else {
			r = g(0) << g(1)
		}
	case OLshr:
		if g(1) >= uint64(t.w) {
			r = 0
		} else {
			r = g(0) >> g(1)
		}
	case OAshr:
		k := g(1)
		if k >= uint64(t.w) {
			k = uint64(t.w) - 1
		}
		r = uint64(sx(t.w, g(0)) >> k)
	case OConcat:
		r = g(0)<<t.a[1].w | g(1)
	case OExtract:
		r = g(0) >> (t.val & 0xff)
	case OSext:
		r = uint64(sx(aw, g(0)))
	case OFlt:
		r = b2(fbits(aw, g(0)) < fbits(aw, g(1)))
	case OFle:
		r = b2(fbits(aw, g(0)) <= fbits(aw, g(1)))
	case OFeq:
		r = b2(fbits(aw, g(0)) == fbits(aw, g(1)))
	case OFadd, OFsub, OFmul, OFdiv:
		r = c.farith(t.op, c.Const(aw, g(0)), c.Const(aw, g(1))).val
	case OFrti:
		r = c.Frti(c.Const(aw, g(0)), t.val).val
	case OFsqrt:
		r = c.Fsqrt(c.Const(aw, g(0))).val
	case OFcvt:
		r = c.Fcvt(c.Const(aw, g(0)), t.w).val
	case OFtoS:
		r = ftos(t.w, fbits(aw, g(0)))
	case OSToF:
		r = c.StoF(c.Const(aw, g(0)), t.w, true).val
	case OUToF:
		r = c.StoF(c.Const(aw, g(0)), t.w, false).val
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	r &= mask(t.w)
	t.mark, t.mval = ep, r
	return r
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return t.name
	}
	s := fmt.Sprintf("(%d", t.op)
	if n, ok := opNames[t.op]; ok {
		s = "(" + n
	}
	if t.op == OExtract {
		s = fmt.Sprintf("(x%d:%d", t.val>>8, t.val&0xff)
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].String()
		if len(s) > 4000 {
			return s + "..."
		}
	}
	return s + ")"
}
