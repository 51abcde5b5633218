package main

// Values and byte-addressed symbolic memory.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Agg []Value   // struct or array value
type Tuple []Value // multiple results

// Ptr addresses byte off + idx*stride of an object (idx nil: constant address).
type Ptr struct {
	o      *Obj
	off    int
	idx    *Term
	stride int
}
type Slice struct {
	p        Ptr
	len, cap *Term
}
type Str struct {
	s   string
	mem bool
	p   Ptr
	n   *Term
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type MapObj struct {
	keys []Value
	vals []Value
	base bool
}
type MapIter struct {
	m *MapObj
	i int
	// string iteration
	s   string
	str bool
}

type leafKind uint8

const (
	kTerm leafKind = iota
	kPtr
	kSlice
	kStr
	kIface
	kFunc
	kMap
	kChan
)

type Leaf struct {
	off, size int
	kind      leafKind
	w         uint8
}
type Layout struct {
	size   int
	leaves []Leaf
	at     []int32
}

type Obj struct {
	id    int
	lay   *Layout
	n     int // elements; -1 if symbolic
	cells []Value
	sp    map[int]Value
	base  bool
	name  string
}

var sizes = types.SizesFor("gc", "amd64")
var layCache sync.Map

func leafOf(t types.Type) (leafKind, uint8, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kTerm, 0, true
		case types.Int8, types.Uint8:
			return kTerm, 8, true
		case types.Int16, types.Uint16:
			return kTerm, 16, true
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			return kTerm, 32, true
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64, types.Uintptr, types.UntypedInt, types.UntypedFloat:
			return kTerm, 64, true
		case types.String, types.UntypedString:
			return kStr, 0, true
		case types.UnsafePointer, types.UntypedNil:
			return kPtr, 0, true
		}
	case *types.Pointer:
		return kPtr, 0, true
	case *types.Slice:
		return kSlice, 0, true
	case *types.Interface:
		return kIface, 0, true
	case *types.Signature:
		return kFunc, 0, true
	case *types.Map:
		return kMap, 0, true
	case *types.Chan:
		return kChan, 0, true
	}
	return 0, 0, false
}

func sizeof(t types.Type) int { return int(sizes.Sizeof(t)) }

func flatten(t types.Type, off int, out *[]Leaf) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := fieldsOf(u)
		o := sizes.Offsetsof(fs)
		for i, f := range fs {
			flatten(f.Type(), off+int(o[i]), out)
		}
		return
	case *types.Array:
		es := sizeof(u.Elem())
		if u.Len() > 1<<20 {
			unsupported("huge array inside a struct")
		}
		for i := 0; i < int(u.Len()); i++ {
			flatten(u.Elem(), off+i*es, out)
		}
		return
	}
	k, w, ok := leafOf(t)
	if !ok {
		unsupported("memory of type " + t.String())
	}
	*out = append(*out, Leaf{off, sizeof(t), k, w})
}

func fieldsOf(u *types.Struct) []*types.Var {
	fs := make([]*types.Var, u.NumFields())
	for i := range fs {
		fs[i] = u.Field(i)
	}
	return fs
}

type soffs struct{ offs []int }

var offCache sync.Map

func fieldOffset(t *types.Struct, i int) int {
	if v, ok := offCache.Load(t); ok {
		return v.(*soffs).offs[i]
	}
	o := sizes.Offsetsof(fieldsOf(t))
	s := &soffs{}
	for _, x := range o {
		s.offs = append(s.offs, int(x))
	}
	offCache.Store(t, s)
	return s.offs[i]
}

func layoutOf(t types.Type) *Layout {
	if v, ok := layCache.Load(t); ok {
		return v.(*Layout)
	}
	l := &Layout{size: sizeof(t)}
	flatten(t, 0, &l.leaves)
	l.at = make([]int32, l.size)
	for i := range l.at {
		l.at[i] = -1
	}
	for i, f := range l.leaves {
		for k := 0; k < f.size; k++ {
			l.at[f.off+k] = int32(i)
		}
	}
	layCache.Store(t, l)
	return l
}

// ---- allocation

func (in *Interp) newObj(t types.Type, n int) *Obj {
	// strip arrays so that element access is uniform
	for {
		a, ok := t.Underlying().(*types.Array)
		if !ok {
			break
		}
		n *= int(a.Len())
		t = a.Elem()
	}
	in.nobj++
	o := &Obj{id: in.nobj, lay: layoutOf(t), n: n, base: in.initing}
	tot := n * len(o.lay.leaves)
	if n < 0 || tot > 1<<15 {
		o.sp = map[int]Value{}
	} else {
		o.cells = make([]Value, tot)
	}
	return o
}

func (in *Interp) zeroLeaf(l *Leaf) Value {
	switch l.kind {
	case kTerm:
		return in.c.Const(l.w, 0)
	case kPtr:
		return Ptr{}
	case kSlice:
		return in.nilSlice()
	case kStr:
		return Str{}
	case kIface:
		return Iface{}
	case kFunc:
		return (*Closure)(nil)
	case kMap:
		return (*MapObj)(nil)
	}
	unsupported("zero value")
	return nil
}
func (in *Interp) nilSlice() Slice { z := in.c.Const(64, 0); return Slice{Ptr{}, z, z} }

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = in.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = in.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = in.zero(u.At(i).Type())
		}
		return a
	}
	k, w, ok := leafOf(t)
	if !ok {
		unsupported("zero of " + t.String())
	}
	return in.zeroLeaf(&Leaf{kind: k, w: w})
}

func (o *Obj) size() int {
	if o.n < 0 {
		return 1 << 62
	}
	return o.n * o.lay.size
}

func (in *Interp) getCell(o *Obj, ci int) Value {
	var v Value
	if o.cells != nil {
		v = o.cells[ci]
	} else {
		v = o.sp[ci]
	}
	if v == nil {
		return in.zeroLeaf(&o.lay.leaves[ci%len(o.lay.leaves)])
	}
	return v
}

type jent struct {
	o    *Obj
	ci   int
	old  Value
	undo func()
}

func (in *Interp) setCell(o *Obj, ci int, v Value) {
	if o.cells != nil {
		if o.base || in.spec > 0 {
			in.journal = append(in.journal, jent{o: o, ci: ci, old: o.cells[ci]})
		}
		o.cells[ci] = v
		return
	}
	if o.base || in.spec > 0 {
		in.journal = append(in.journal, jent{o: o, ci: ci, old: o.sp[ci]})
	}
	o.sp[ci] = v
}
func (in *Interp) undoTo(m int) {
	for i := len(in.journal) - 1; i >= m; i-- {
		j := &in.journal[i]
		if j.undo != nil {
			j.undo()
		} else if j.o.cells != nil {
			j.o.cells[j.ci] = j.old
		} else if j.old == nil {
			delete(j.o.sp, j.ci)
		} else {
			j.o.sp[j.ci] = j.old
		}
	}
	in.journal = in.journal[:m]
}

// cellAt finds the leaf covering byte off.
func (o *Obj) cellAt(off int) (ci int, lf *Leaf, start int) {
	if off < 0 || off >= o.size() {
		unsupported(fmt.Sprintf("access outside object (off %d size %d)", off, o.size()))
	}
	e, r := off/o.lay.size, off%o.lay.size
	li := o.lay.at[r]
	if li < 0 {
		return -1, nil, 0
	}
	lf = &o.lay.leaves[li]
	return e*len(o.lay.leaves) + int(li), lf, e*o.lay.size + lf.off
}

func (in *Interp) asBV(t *Term) *Term { // bool -> bv8
	if t.w == 0 {
		return in.c.Ite(t, in.c.Const(8, 1), in.c.Const(8, 0))
	}
	return t
}

func (in *Interp) getByte(o *Obj, off int) *Term {
	ci, lf, st := o.cellAt(off)
	if lf == nil {
		return in.c.Const(8, 0)
	}
	v := in.getCell(o, ci)
	t, ok := v.(*Term)
	if !ok {
		unsupported("byte view of a pointer-like value")
	}
	t = in.asBV(t)
	k := uint8(off-st) * 8
	return in.c.Extract(t, k+7, k)
}

func (in *Interp) loadLeaf(o *Obj, off int, size int, kind leafKind, w uint8) Value {
	ci, lf, st := o.cellAt(off)
	if lf != nil && st == off && lf.size == size && lf.kind == kind {
		v := in.getCell(o, ci)
		if kind == kTerm && lf.w != w {
			t := v.(*Term)
			if w == 0 {
				return in.c.Not(in.c.Eq(t, in.c.Const(t.w, 0)))
			}
			return in.asBV(t)
		}
		return v
	}
	if kind != kTerm {
		unsupported("reinterpreting memory as a pointer-like value")
	}
	r := in.getByte(o, off)
	for i := 1; i < size; i++ {
		r = in.c.Concat(in.getByte(o, off+i), r)
	}
	if w == 0 {
		return in.c.Not(in.c.Eq(r, in.c.Const(8, 0)))
	}
	return r
}

func (in *Interp) storeLeaf(o *Obj, off int, size int, v Value) {
	ci, lf, st := o.cellAt(off)
	t, isT := v.(*Term)
	if lf != nil && st == off && lf.size == size && (lf.kind == kTerm) == isT {
		if isT && t.w != lf.w {
			if lf.w == 0 {
				t = in.c.Not(in.c.Eq(t, in.c.Const(t.w, 0)))
			} else {
				t = in.asBV(t)
			}
			v = t
		}
		in.setCell(o, ci, v)
		return
	}
	if !isT {
		unsupported("storing a pointer-like value into scalar memory")
	}
	t = in.asBV(t)
	for i := 0; i < size; {
		ci, lf, st := o.cellAt(off + i)
		if lf == nil {
			i++
			continue
		}
		old, ok := in.getCell(o, ci).(*Term)
		if !ok {
			unsupported("overwriting a pointer-like value bytewise")
		}
		old = in.asBV(old)
		// bytes [a,b) of the leaf are replaced
		a := off + i - st
		b := min(lf.size, off+size-st)
		src := in.c.Extract(t, uint8(i+b-a)*8-1, uint8(i)*8)
		nv := src
		if a > 0 {
			nv = in.c.Concat(nv, in.c.Extract(old, uint8(a)*8-1, 0))
		}
		if b < lf.size {
			nv = in.c.Concat(in.c.Extract(old, uint8(lf.size)*8-1, uint8(b)*8), nv)
		}
		if lf.w == 0 {
			nv = in.c.Not(in.c.Eq(nv, in.c.Const(8, 0)))
		}
		in.setCell(o, ci, nv)
		i += b - a
	}
}

// normIdx folds a constant index into the offset.
func (p Ptr) norm() Ptr {
	if p.idx != nil && p.idx.isC() {
		p.off += int(p.idx.val) * p.stride
		p.idx = nil
	}
	return p
}

func (in *Interp) concretePtr(p Ptr) Ptr {
	p = p.norm()
	if p.idx != nil {
		k := in.concretize(p.idx)
		p.off += int(k) * p.stride
		p.idx = nil
	}
	return p
}

const symRange = 3000

// candidates returns the element numbers a symbolic pointer may denote.
func (in *Interp) candidates(p Ptr, size int) ([]int, bool) {
	lo, hi := p.idx.urange()
	o := p.o
	if o.n >= 0 {
		room := o.size() - p.off - size
		if room < 0 {
			return nil, false
		}
		if m := uint64(room / p.stride); hi > m {
			hi = m
		}
		if hi < lo {
			return nil, false
		}
		if hi-lo <= symRange {
			r := make([]int, 0, hi-lo+1)
			for k := lo; k <= hi; k++ {
				r = append(r, int(k))
			}
			return r, false
		}
	}
	if o.sp != nil && len(o.sp) <= symRange {
		// only cells that were written differ from zero
		set := map[int]bool{}
		nl := len(o.lay.leaves)
		for ci := range o.sp {
			a := ci/nl*o.lay.size + o.lay.leaves[ci%nl].off
			b := a + o.lay.leaves[ci%nl].size
			// k with [off+k*stride, +size) overlapping [a,b)
			k := (a - p.off - size + 1) / p.stride
			if k < 0 {
				k = 0
			}
			for ; p.off+k*p.stride < b; k++ {
				if p.off+k*p.stride+size > a {
					set[k] = true
				}
			}
		}
		r := make([]int, 0, len(set))
		for k := range set {
			if uint64(k) >= lo && uint64(k) <= hi {
				r = append(r, k)
			}
		}
		sort.Ints(r)
		return r, true
	}
	return nil, false
}

func (in *Interp) loadPtrLeaf(p Ptr, size int, kind leafKind, w uint8) Value {
	p = p.norm()
	if p.o == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p.idx == nil {
		return in.loadLeaf(p.o, p.off, size, kind, w)
	}
	ks, sparse := in.candidates(p, size)
	if ks == nil && !sparse {
		return in.loadPtrLeaf(in.concretePtr(p), size, kind, w)
	}
	var r Value
	if sparse {
		r = in.zeroLeaf(&Leaf{kind: kind, w: w})
	}
	type grp struct {
		cond *Term
		v    Value
	}
	var gs []grp
	for _, k := range ks {
		v := in.loadLeaf(p.o, p.off+k*p.stride, size, kind, w)
		if r == nil {
			r = v
			continue
		}
		if t, ok := v.(*Term); ok {
			if t == r.(*Term) {
				continue
			}
			c := in.c.Eq(p.idx, in.c.Const(64, uint64(k)))
			found := false
			for i := range gs {
				if gs[i].v == v {
					gs[i].cond = in.c.Or(gs[i].cond, c)
					found = true
					break
				}
			}
			if !found {
				gs = append(gs, grp{c, v})
			}
			continue
		}
		gs = append(gs, grp{in.c.Eq(p.idx, in.c.Const(64, uint64(k))), v})
	}
	for _, g := range gs {
		m, ok := in.merge(g.cond, g.v, r)
		if !ok {
			return in.loadPtrLeaf(in.concretePtr(p), size, kind, w)
		}
		r = m
	}
	if r == nil {
		return in.loadPtrLeaf(in.concretePtr(p), size, kind, w)
	}
	return r
}

func (in *Interp) storePtrLeaf(p Ptr, size int, v Value) {
	p = p.norm()
	if p.o == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p.idx == nil {
		in.storeLeaf(p.o, p.off, size, v)
		return
	}
	ks, sparse := in.candidates(p, size)
	_, isT := v.(*Term)
	if sparse || ks == nil || !isT || len(ks) > 300 {
		in.storePtrLeaf(in.concretePtr(p), size, v)
		return
	}
	for _, k := range ks {
		off := p.off + k*p.stride
		w := v.(*Term).w
		old := in.loadLeaf(p.o, off, size, kTerm, w).(*Term)
		in.storeLeaf(p.o, off, size, in.c.Ite(in.c.Eq(p.idx, in.c.Const(64, uint64(k))), v.(*Term), old))
	}
}

func (p Ptr) add(n int) Ptr { p.off += n; return p }

func (in *Interp) load(p Ptr, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = in.load(p.add(fieldOffset(u, i)), u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		es := sizeof(u.Elem())
		for i := range a {
			a[i] = in.load(p.add(i*es), u.Elem())
		}
		return a
	}
	k, w, ok := leafOf(t)
	if !ok {
		unsupported("load of " + t.String())
	}
	return in.loadPtrLeaf(p, sizeof(t), k, w)
}

func (in *Interp) store(p Ptr, t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := v.(Agg)
		for i := range a {
			in.store(p.add(fieldOffset(u, i)), u.Field(i).Type(), a[i])
		}
		if len(a) == 0 && p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return
	case *types.Array:
		a := v.(Agg)
		es := sizeof(u.Elem())
		for i := range a {
			in.store(p.add(i*es), u.Elem(), a[i])
		}
		return
	}
	in.storePtrLeaf(p, sizeof(t), v)
}

// index displaces p by i elements of es bytes.
func (in *Interp) index(p Ptr, i *Term, es int) Ptr {
	p = p.norm()
	if i.isC() {
		p.off += int(sx(64, i.val)) * es
		return p
	}
	if es == 0 {
		return p
	}
	if p.idx == nil {
		return Ptr{p.o, p.off, i, es}
	}
	if p.stride == es {
		return Ptr{p.o, p.off, in.c.Add(p.idx, i), es}
	}
	if p.stride%es == 0 {
		q := in.c.Mul(p.idx, in.c.Const(64, uint64(p.stride/es)))
		return Ptr{p.o, p.off, in.c.Add(q, i), es}
	}
	p = in.concretePtr(p)
	return Ptr{p.o, p.off, i, es}
}

func (in *Interp) ptrEq(a, b Ptr) *Term {
	a, b = a.norm(), b.norm()
	if a.o != b.o {
		return in.c.F
	}
	if a.o == nil {
		return in.c.T
	}
	addr := func(p Ptr) *Term {
		r := in.c.Const(64, uint64(p.off))
		if p.idx != nil {
			r = in.c.Add(r, in.c.Mul(p.idx, in.c.Const(64, uint64(p.stride))))
		}
		return r
	}
	return in.c.Eq(addr(a), addr(b))
}

// ---- merging (if-conversion)

func (in *Interp) merge(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return in.c.Ite(c, x, y), true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		return in.mergePtr(c, x, y)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return nil, false
		}
		p, ok := in.mergePtr(c, x.p, y.p)
		if !ok {
			return nil, false
		}
		return Slice{p, in.c.Ite(c, x.len, y.len), in.c.Ite(c, x.cap, y.cap)}, true
	case Str:
		y, ok := b.(Str)
		if !ok {
			return nil, false
		}
		if !x.mem && !y.mem {
			if x.s == y.s {
				return x, true
			}
			return nil, false
		}
		if x.mem && y.mem {
			p, ok := in.mergePtr(c, x.p, y.p)
			if !ok {
				return nil, false
			}
			return Str{mem: true, p: p, n: in.c.Ite(c, x.n, y.n)}, true
		}
		return nil, false
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := in.merge(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			if r[i], ok = in.merge(c, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			if r[i], ok = in.merge(c, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x != nil && y != nil && x.fn == y.fn && len(x.env) == 0 {
			return x, true
		}
		return nil, false
	case *MapObj:
		if y, ok := b.(*MapObj); ok && x == y {
			return x, true
		}
	case nil:
		if b == nil {
			return nil, true
		}
	case *ssa.Builtin:
		if a == b {
			return a, true
		}
	}
	return nil, false
}

func (in *Interp) mergePtr(c *Term, x, y Ptr) (Ptr, bool) {
	x, y = x.norm(), y.norm()
	if x.o != y.o {
		return Ptr{}, false
	}
	if x == y {
		return x, true
	}
	if x.idx == nil && y.idx == nil {
		st := x.o.lay.size
		if st == 0 || x.off%st != y.off%st {
			st = 1
		}
		b := x.off % st
		return Ptr{x.o, b, in.c.Ite(c, in.c.Const(64, uint64((x.off-b)/st)), in.c.Const(64, uint64((y.off-b)/st))), st}, true
	}
	if x.idx != nil && y.idx != nil && x.stride == y.stride && x.off == y.off {
		return Ptr{x.o, x.off, in.c.Ite(c, x.idx, y.idx), x.stride}, true
	}
	// one symbolic, one constant with compatible displacement
	f := func(p, q Ptr, c *Term) (Ptr, bool) { // p symbolic, q constant
		d := q.off - p.off
		if d < 0 || d%p.stride != 0 {
			return Ptr{}, false
		}
		return Ptr{p.o, p.off, in.c.Ite(c, p.idx, in.c.Const(64, uint64(d/p.stride))), p.stride}, true
	}
	if x.idx != nil && y.idx == nil {
		return f(x, y, c)
	}
	if y.idx != nil && x.idx == nil {
		return f(y, x, in.c.Not(c))
	}
	return Ptr{}, false
}

// ---- strings

func (in *Interp) strLen(s Str) *Term {
	if s.mem {
		return s.n
	}
	return in.c.Const(64, uint64(len(s.s)))
}

// strMem gives a memory-backed view.
func (in *Interp) strMem(s Str) Str {
	if s.mem {
		return s
	}
	n := len(s.s)
	z := in.c.Const(64, uint64(n))
	if n == 0 {
		return Str{mem: true, p: Ptr{}, n: z}
	}
	o := in.newObj(types.Typ[types.Uint8], n)
	if o.cells != nil {
		for i := 0; i < n; i++ {
			o.cells[i] = in.c.Const(8, uint64(s.s[i]))
		}
	} else {
		for i := 0; i < n; i++ {
			o.sp[i] = in.c.Const(8, uint64(s.s[i]))
		}
	}
	return Str{mem: true, p: Ptr{o: o}, n: z}
}

func (in *Interp) byteAt(p Ptr, i int) *Term {
	return in.loadPtrLeaf(p.add(i), 1, kTerm, 8).(*Term)
}

// strBytes returns the bytes as terms; the length is made concrete.
func (in *Interp) strBytes(s Str) []*Term {
	if !s.mem {
		r := make([]*Term, len(s.s))
		for i := range r {
			r[i] = in.c.Const(8, uint64(s.s[i]))
		}
		return r
	}
	n := int(in.concretize(s.n))
	r := make([]*Term, n)
	for i := range r {
		r[i] = in.byteAt(s.p, i)
	}
	return r
}

// constStr returns the Go string if every byte is constant.
func (in *Interp) constStr(s Str) (string, bool) {
	if !s.mem {
		return s.s, true
	}
	b := in.strBytes(s)
	o := make([]byte, len(b))
	for i, t := range b {
		if !t.isC() {
			return "", false
		}
		o[i] = byte(t.val)
	}
	return string(o), true
}

func (in *Interp) bytesToStr(b []*Term) Str {
	o := make([]byte, len(b))
	all := true
	for i, t := range b {
		if !t.isC() {
			all = false
			break
		}
		o[i] = byte(t.val)
	}
	if all {
		return Str{s: string(o)}
	}
	ob := in.newObj(types.Typ[types.Uint8], len(b))
	for i, t := range b {
		if ob.cells != nil {
			ob.cells[i] = t
		} else {
			ob.sp[i] = t
		}
	}
	return Str{mem: true, p: Ptr{o: ob}, n: in.c.Const(64, uint64(len(b)))}
}

func (in *Interp) strEq(a, b Str) *Term {
	if !a.mem && !b.mem {
		if a.s == b.s {
			return in.c.T
		}
		if len(in.tokens) == 0 || strings.IndexByte(a.s, 1) < 0 && strings.IndexByte(b.s, 1) < 0 {
			return in.c.F
		}
		return in.tokEq(in.strBytes(a), in.strBytes(b))
	}
	la, lb := in.strLen(a), in.strLen(b)
	if len(in.tokens) > 0 && la.isC() && lb.isC() {
		return in.tokEq(in.strBytes(a), in.strBytes(b))
	}
	le := in.c.Eq(la, lb)
	if le.isF() {
		return le
	}
	if !in.branch(le, 0x57e1) {
		return in.c.F
	}
	var x, y []*Term
	if lb.isC() {
		y = in.strBytes(b)
		x = in.strBytesN(a, len(y))
	} else {
		x = in.strBytes(a)
		y = in.strBytesN(b, len(x))
	}
	r := in.c.T
	for i := range x {
		r = in.c.And(r, in.c.Eq(x[i], y[i]))
	}
	return r
}
func (in *Interp) strBytesN(s Str, n int) []*Term {
	if !s.mem {
		return in.strBytes(s)
	}
	r := make([]*Term, n)
	for i := range r {
		r[i] = in.byteAt(s.p, i)
	}
	return r
}
