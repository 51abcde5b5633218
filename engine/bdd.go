package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

// A second decision procedure for bit-level queries: the conjunction is built
// as an ordered binary decision diagram (bits interleaved, most significant
// first). Float arithmetic and comparisons are uninterpreted leaves, so
// "unsatisfiable" is exact and a model has to be verified by evaluation.

type bddNode struct{ lvl, lo, hi int32 }
type bdd struct {
	n     []bddNode
	uniq  []int32
	cache []bddCache
	limit int
	until time.Time
	leaf  map[*Term][]int32 // bits, least significant first
	memo  map[*Term][]int32
	lvlOf []bddBit
	fact  []int32
	steps int
	base  []*Term        // path condition whose facts are substituted
	seen  map[*Term]bool // terms whose leaves are all known
}
type bddBit struct {
	t *Term
	b int
}
type bddCache struct{ f, g, h, r int32 }
type bddFull struct{}

func newBDD(limit int) *bdd {
	d := &bdd{limit: limit, seen: map[*Term]bool{}, leaf: map[*Term][]int32{}, memo: map[*Term][]int32{}}
	d.n = append(d.n, bddNode{1 << 30, 0, 0}, bddNode{1 << 30, 1, 1})
	d.uniq = make([]int32, 1<<12)
	d.cache = make([]bddCache, 1<<12)
	return d
}

func bddHash(a, b, c int32) uint64 {
	h := uint64(uint32(a))*0x9E3779B97F4A7C15 ^ uint64(uint32(b))*0xC2B2AE3D27D4EB4F ^ uint64(uint32(c))*0x165667B19E3779F9
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return h ^ h>>32
}

func (d *bdd) mk(l, lo, hi int32) int32 {
	if lo == hi {
		return lo
	}
	m := uint64(len(d.uniq) - 1)
	for i := bddHash(l, lo, hi) & m; ; i = (i + 1) & m {
		k := d.uniq[i]
		if k == 0 {
			if len(d.n) > d.limit || len(d.n)&0xffff == 0 && time.Now().After(d.until) {
				panic(bddFull{})
			}
			k = int32(len(d.n))
			d.n = append(d.n, bddNode{l, lo, hi})
			d.uniq[i] = k
			if len(d.n)*2 > len(d.uniq) {
				u := make([]int32, 2*len(d.uniq))
				m := uint64(len(u) - 1)
				for k := 2; k < len(d.n); k++ {
					x := d.n[k]
					j := bddHash(x.lvl, x.lo, x.hi) & m
					for u[j] != 0 {
						j = (j + 1) & m
					}
					u[j] = int32(k)
				}
				d.uniq = u
				if len(d.cache) < 1<<22 {
					d.cache = make([]bddCache, len(u))
				}
			}
			return k
		}
		if x := d.n[k]; x.lvl == l && x.lo == lo && x.hi == hi {
			return k
		}
	}
}

func (d *bdd) ite(f, g, h int32) int32 {
	switch {
	case f == 1 || g == h:
		return g
	case f == 0:
		return h
	case g == 1 && h == 0:
		return f
	}
	d.steps++
	if d.steps&0xfffff == 0 && time.Now().After(d.until) {
		panic(bddFull{})
	}
	if f == g {
		g = 1
	}
	if f == h {
		h = 0
	}
	c := &d.cache[bddHash(f, g, h)&uint64(len(d.cache)-1)]
	if c.f == f && c.g == g && c.h == h && f > 1 {
		return c.r
	}
	l := d.n[f].lvl
	if x := d.n[g].lvl; x < l {
		l = x
	}
	if x := d.n[h].lvl; x < l {
		l = x
	}
	co := func(x int32, hi bool) int32 {
		n := &d.n[x]
		if n.lvl != l {
			return x
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	lo := d.ite(co(f, false), co(g, false), co(h, false))
	hi := d.ite(co(f, true), co(g, true), co(h, true))
	r := d.mk(l, lo, hi)
	*c = bddCache{f, g, h, r}
	return r
}
func (d *bdd) not(a int32) int32    { return d.ite(a, 0, 1) }
func (d *bdd) and(a, b int32) int32 { return d.ite(a, b, 0) }
func (d *bdd) or(a, b int32) int32  { return d.ite(a, 1, b) }
func (d *bdd) xor(a, b int32) int32 { return d.ite(a, d.not(b), b) }

func bddLeaf(t *Term) bool {
	switch t.op {
	case OFlt, OFle, OFeq:
		return t.hasF
	case OVar, OFadd, OFsub, OFmul, OFdiv, OFrti, OFcvt, OFtoS, OSToF, OUToF, OFsqrt, OUdiv, OUrem, OSdiv, OSrem:
		return true
	}
	return false
}

func (d *bdd) order(ts []*Term) {
	seen := map[*Term]bool{}
	var leaves []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if bddLeaf(t) {
			leaves = append(leaves, t)
			return
		}
		for i := 0; i < int(t.n); i++ {
			walk(t.a[i])
		}
	}
	for _, t := range ts {
		walk(t)
	}
	sort.SliceStable(leaves, func(i, j int) bool { return leaves[i].id < leaves[j].id })
	for _, t := range leaves {
		d.leaf[t] = make([]int32, bw(t))
	}
	for b := 64; b >= 0; b-- {
		for _, t := range leaves {
			k := b
			if t.w == 0 {
				k = b - 64
			}
			if k >= 0 && k < bw(t) {
				l := int32(len(d.lvlOf))
				d.lvlOf = append(d.lvlOf, bddBit{t, k})
				d.leaf[t][k] = l
			}
		}
	}
	for _, t := range leaves {
		for i, l := range d.leaf[t] {
			d.leaf[t][i] = d.mk(l, 0, 1)
		}
	}
}

// facts substitutes leaf bits that t fixes or makes equal to another bit.
func (d *bdd) facts(t *Term, limit int) (ok bool) {
	ok = true
	d.limit = min(limit, len(d.n)+100000)
	defer func() {
		d.limit = limit
		if r := recover(); r != nil {
			if _, full := r.(bddFull); !full || len(d.n) >= limit || time.Now().After(d.until) {
				panic(r)
			}
		}
	}()
	r := d.bits(t)[0]
	if r == 0 {
		return false
	}
	sup := map[int32]bool{}
	seen := map[int32]bool{}
	var walk func(x int32)
	walk = func(x int32) {
		if x > 1 && !seen[x] {
			seen[x] = true
			sup[d.n[x].lvl] = true
			walk(d.n[x].lo)
			walk(d.n[x].hi)
		}
	}
	walk(r)
	var lv []int32
	for l := range sup {
		lv = append(lv, l)
	}
	sort.Slice(lv, func(i, j int) bool { return lv[i] < lv[j] })
	sub := map[int32]int32{} // level -> replacement
	for i, l := range lv {
		v := d.mk(l, 0, 1)
		switch {
		case d.and(r, v) == 0:
			sub[l] = 0
		case d.and(r, d.not(v)) == 0:
			sub[l] = 1
		default:
			for j := i - 1; j >= 0 && j > i-8; j-- {
				if _, done := sub[lv[j]]; done || d.lvlOf[lv[j]].b != d.lvlOf[l].b {
					continue
				}
				if w := d.mk(lv[j], 0, 1); d.and(r, d.xor(v, w)) == 0 {
					sub[l] = w
					break
				}
			}
		}
	}
	if len(sub) == 0 {
		return
	}
	for _, bs := range d.leaf {
		for i, x := range bs {
			if x > 1 {
				if y, ok := sub[d.n[x].lvl]; ok {
					bs[i] = y
				}
			}
		}
	}
	d.fact = append(d.fact, r) // must hold as well
	d.memo = map[*Term][]int32{}
	return
}

func bw(t *Term) int {
	if t.w == 0 {
		return 1
	}
	return int(t.w)
}

func (d *bdd) bits(t *Term) []int32 {
	if r, ok := d.memo[t]; ok {
		return r
	}
	r := d.calc(t)
	d.memo[t] = r
	return r
}

func (d *bdd) ult(a, b []int32, signed bool) int32 {
	lt := int32(0)
	for i := range a {
		x, y := a[i], b[i]
		if signed && i == len(a)-1 {
			x, y = y, x
		}
		// differ: y decides, else keep
		lt = d.ite(d.xor(x, y), y, lt)
	}
	return lt
}

func (d *bdd) add(a, b []int32, c int32) []int32 {
	r := make([]int32, len(a))
	for i := range a {
		x := d.xor(a[i], b[i])
		r[i] = d.xor(x, c)
		c = d.ite(x, c, a[i])
	}
	return r
}

func (d *bdd) calc(t *Term) []int32 {
	n := bw(t)
	if t.op == OConst {
		r := make([]int32, n)
		for i := range r {
			r[i] = int32(t.val >> uint(i) & 1)
		}
		return r
	}
	if bddLeaf(t) {
		return d.leaf[t]
	}
	var a [3][]int32
	for i := 0; i < int(t.n); i++ {
		a[i] = d.bits(t.a[i])
	}
	pw := func(f func(x, y int32) int32) []int32 {
		r := make([]int32, n)
		for i := range r {
			r[i] = f(a[0][i], a[1][i])
		}
		return r
	}
	neg := func(x []int32) []int32 {
		r := make([]int32, len(x))
		for i := range x {
			r[i] = d.not(x[i])
		}
		return r
	}
	switch t.op {
	case ONot, OBnot:
		return neg(a[0])
	case OAnd, OBand:
		return pw(d.and)
	case OOr, OBor:
		return pw(d.or)
	case OBxor:
		return pw(d.xor)
	case OIte:
		r := make([]int32, n)
		for i := range r {
			r[i] = d.ite(a[0][0], a[1][i], a[2][i])
		}
		return r
	case OEq:
		r := int32(1)
		for i := range a[0] {
			r = d.and(r, d.not(d.xor(a[0][i], a[1][i])))
		}
		return []int32{r}
	case OFlt, OFle, OFeq:
		x, y := a[0], a[1]
		top := len(x) - 1
		man := 52
		if top == 31 {
			man = 23
		}
		nan := func(x []int32) int32 {
			e, m := int32(1), int32(0)
			for i := 0; i < man; i++ {
				m = d.or(m, x[i])
			}
			for i := man; i < top; i++ {
				e = d.and(e, x[i])
			}
			return d.and(e, m)
		}
		zero := func(x []int32) int32 {
			z := int32(1)
			for i := 0; i < top; i++ {
				z = d.and(z, d.not(x[i]))
			}
			return z
		}
		key := func(x []int32) []int32 { // order of the numbers as unsigned integers
			r := make([]int32, len(x))
			for i := range r {
				r[i] = d.xor(x[i], x[top])
			}
			r[top] = d.not(x[top])
			return r
		}
		ok := d.and(d.not(nan(x)), d.not(nan(y)))
		zz := d.and(zero(x), zero(y))
		eq := int32(1)
		for i := range x {
			eq = d.and(eq, d.not(d.xor(x[i], y[i])))
		}
		eq = d.or(eq, zz)
		if t.op == OFeq {
			return []int32{d.and(ok, eq)}
		}
		lt := d.and(d.ult(key(x), key(y), false), d.not(zz))
		if t.op == OFle {
			lt = d.or(lt, eq)
		}
		return []int32{d.and(ok, lt)}
	case OUlt:
		return []int32{d.ult(a[0], a[1], false)}
	case OSlt:
		return []int32{d.ult(a[0], a[1], true)}
	case OAdd:
		return d.add(a[0], a[1], 0)
	case OMul:
		x, y := a[0], a[1]
		if t.a[0].op == OConst {
			x, y = y, x
		}
		r := make([]int32, n)
		for k := 0; k < n; k++ {
			if y[k] == 0 {
				continue
			}
			s := make([]int32, n)
			for i := k; i < n; i++ {
				s[i] = d.and(x[i-k], y[k])
			}
			r = d.add(r, s, 0)
		}
		return r
	case OSub:
		return d.add(a[0], neg(a[1]), 1)
	case OConcat:
		return append(append([]int32{}, a[1]...), a[0]...)
	case OExtract:
		return a[0][t.val&0xff : t.val>>8+1]
	case OSext:
		r := append([]int32{}, a[0]...)
		for len(r) < n {
			r = append(r, a[0][len(a[0])-1])
		}
		return r
	case OShl, OLshr, OAshr:
		fill := int32(0)
		if t.op == OAshr {
			fill = a[0][n-1]
		}
		r := append([]int32{}, a[0]...)
		for k := 0; k < n; k++ { // bits of the amount
			s := a[1][k]
			if s == 0 {
				continue
			}
			x := make([]int32, n)
			for i := range x {
				from := i + 1<<min(k, 8)
				if t.op == OShl {
					from = i - 1<<min(k, 8)
				}
				v := fill
				if from >= 0 && from < n {
					v = r[from]
				}
				x[i] = d.ite(s, v, r[i])
			}
			r = x
		}
		return r
	}
	panic(bddFull{})
}

// bddCheck decides the conjunction; Sat comes with an unverified model.
func (s *Solver) bddCheck(pc []*Term, extra *Term, limit int, budget time.Duration) (res Res, m Model) {
	d := s.dd
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(bddFull); !ok {
				panic(r)
			}
			res, m = Unknown, nil
			s.dd = nil
		}
		if bddDebug {
			fmt.Fprintf(os.Stderr, "bdd: %v nodes %d leaves %d\n", res, len(d.n), len(d.leaf))
		}
	}()
	ts := append([]*Term{}, pc...)
	if extra != nil {
		ts = append(ts, extra)
	}
	if d == nil || !d.fits(pc, ts, limit) {
		d = newBDD(limit)
		d.until = time.Now().Add(budget)
		s.dd = d
		d.order(ts)
		d.base = append([]*Term{}, pc...)
		for i := 0; i < 2; i++ {
			for _, t := range pc {
				if !d.facts(t, limit) {
					s.dd = nil
					return Unsat, nil
				}
			}
		}
	}
	d.until = time.Now().Add(budget)
	r := int32(1)
	for _, f := range d.fact {
		r = d.and(r, f)
	}
	for _, t := range ts {
		if r = d.and(r, d.bits(t)[0]); r == 0 {
			return Unsat, nil
		}
	}
	m = Model{}
	for t := range d.leaf {
		if t.op == OVar {
			m[t] = 0
		}
	}
	for r > 1 {
		n := d.n[r]
		b := d.lvlOf[n.lvl]
		v := uint64(0)
		if n.lo != 0 {
			r = n.lo
		} else {
			r, v = n.hi, 1
		}
		if b.t.op == OVar {
			m[b.t] |= v << uint(b.b)
		}
	}
	return Sat, m
}

// fits tells that d can be used for one more query.
func (d *bdd) fits(pc, ts []*Term, limit int) bool {
	if len(d.n) > limit/3 || len(pc) < len(d.base) {
		return false
	}
	for i, t := range d.base {
		if pc[i] != t {
			return false
		}
	}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if !ok || t.op == OConst || d.seen[t] {
			return
		}
		if bddLeaf(t) {
			if d.leaf[t] == nil {
				ok = false
			}
			return
		}
		for i := 0; i < int(t.n); i++ {
			walk(t.a[i])
		}
		if ok {
			d.seen[t] = true
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return ok
}

var bddDebug = os.Getenv("BDD_DEBUG") != ""
