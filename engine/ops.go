package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ext widens an integer to 64 bits according to its type.
func (in *Interp) ext64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if isSigned(t) {
		return in.c.Sext(x, 64)
	}
	return in.c.Zext(x, 64)
}

func (in *Interp) step(fr *frame, ci *cinstr, ins ssa.Instruction) {
	var r Value
	switch x := ins.(type) {
	case *ssa.Alloc:
		r = Ptr{o: in.newObj(x.Type().Underlying().(*types.Pointer).Elem(), 1)}
	case *ssa.UnOp:
		r = in.unop(fr, ci, x)
	case *ssa.BinOp:
		r = in.binop(x.Op, x.X.Type(), x.Y.Type(), in.get(fr, ci, 0), in.get(fr, ci, 1), ci.site)
	case *ssa.Store:
		p := in.get(fr, ci, 0).(Ptr)
		in.store(p, x.Val.Type(), in.get(fr, ci, 1))
		return
	case *ssa.Call:
		r = in.doCall(fr, ci, &x.Call)
	case *ssa.FieldAddr:
		p := in.get(fr, ci, 0).(Ptr)
		if p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		r = p.add(fieldOffset(st, x.Field))
	case *ssa.Field:
		r = in.get(fr, ci, 0).(Agg)[x.Field]
	case *ssa.IndexAddr:
		i := in.ext64(in.get(fr, ci, 1), x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := in.get(fr, ci, 0).(Slice)
			in.require(in.c.Ult(i, s.len), ci.site, "index out of range")
			r = in.index(s.p, i, sizeof(u.Elem()))
		case *types.Pointer:
			p := in.get(fr, ci, 0).(Ptr)
			a := u.Elem().Underlying().(*types.Array)
			if p.o == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			in.require(in.c.Ult(i, in.c.Const(64, uint64(a.Len()))), ci.site, "index out of range")
			r = in.index(p, i, sizeof(a.Elem()))
		}
	case *ssa.Index:
		i := in.ext64(in.get(fr, ci, 1), x.Index.Type())
		switch a := in.get(fr, ci, 0).(type) {
		case Agg:
			in.require(in.c.Ult(i, in.c.Const(64, uint64(len(a)))), ci.site, "index out of range")
			if i.isC() {
				r = a[i.val]
			} else {
				var ok bool
				r = a[0]
				for k := 1; k < len(a); k++ {
					if r, ok = in.merge(in.c.Eq(i, in.c.Const(64, uint64(k))), a[k], r); !ok {
						r = a[in.concretize(i)]
						break
					}
				}
			}
		case Str:
			r = in.strIndex(a, i, ci.site)
		}
	case *ssa.Lookup:
		switch a := in.get(fr, ci, 0).(type) {
		case Str:
			r = in.strIndex(a, in.ext64(in.get(fr, ci, 1), x.Index.Type()), ci.site)
		case *MapObj:
			k := in.get(fr, ci, 1)
			mt := x.X.Type().Underlying().(*types.Map)
			v, ok := in.mapGet(a, k, mt.Key(), ci.site)
			if !ok {
				v = in.zero(mt.Elem())
			}
			if x.CommaOk {
				r = Tuple{v, in.c.Bool(ok)}
			} else {
				r = v
			}
		}
	case *ssa.MapUpdate:
		m := in.get(fr, ci, 0).(*MapObj)
		if m == nil {
			panic(tPanic{v: Iface{types.Typ[types.String], Str{s: "assignment to entry in nil map"}}, msg: "assignment to entry in nil map"})
		}
		in.mapSet(m, in.get(fr, ci, 1), in.get(fr, ci, 2), x.Map.Type().Underlying().(*types.Map).Key(), ci.site)
		return
	case *ssa.MakeMap:
		r = &MapObj{base: in.initing}
	case *ssa.Extract:
		r = in.get(fr, ci, 0).(Tuple)[x.Index]
	case *ssa.Slice:
		r = in.slice(fr, ci, x)
	case *ssa.MakeSlice:
		r = in.makeSlice(x.Type(), in.ext64(in.get(fr, ci, 0), x.Len.Type()), in.ext64(in.get(fr, ci, 1), x.Cap.Type()), ci.site)
	case *ssa.MakeInterface:
		r = Iface{x.X.Type(), in.get(fr, ci, 0)}
	case *ssa.ChangeInterface:
		r = in.get(fr, ci, 0)
	case *ssa.ChangeType:
		r = in.get(fr, ci, 0)
	case *ssa.Convert:
		r = in.convert(x.X.Type(), x.Type(), in.get(fr, ci, 0), ci.site)
	case *ssa.MultiConvert:
		r = in.convert(x.X.Type(), x.Type(), in.get(fr, ci, 0), ci.site)
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, ci, 0).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		in.require(in.c.Ule(in.c.Const(64, uint64(n)), s.len), ci.site, "cannot convert slice to array pointer")
		r = s.p
	case *ssa.TypeAssert:
		r = in.typeAssert(x, in.get(fr, ci, 0).(Iface))
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for k := 1; k < len(ci.ops); k++ {
			c.env = append(c.env, in.get(fr, ci, k))
		}
		r = c
	case *ssa.Defer:
		if in.spec > fr.spec {
			panic(specAbort{})
		}
		f, args := in.prepCall(fr, ci, &x.Call)
		fr.defers = append(fr.defers, deferred{f, args, &x.Call})
		return
	case *ssa.RunDefers:
		if in.spec > fr.spec && len(fr.defers) > 0 {
			panic(specAbort{})
		}
		in.runDefers(fr)
		if fr.panicking != nil {
			p := *fr.panicking
			panic(p)
		}
		return
	case *ssa.Range:
		switch a := in.get(fr, ci, 0).(type) {
		case Str:
			s, ok := in.constStr(a)
			if !ok {
				unsupported("range over a symbolic string")
			}
			r = &MapIter{s: s, str: true}
		case *MapObj:
			r = &MapIter{m: a}
		}
	case *ssa.Next:
		it := in.get(fr, ci, 0).(*MapIter)
		if in.spec > 0 {
			panic(specAbort{})
		}
		if it.str {
			if it.i >= len(it.s) {
				r = Tuple{in.c.F, in.c.Const(64, 0), in.c.Const(32, 0)}
			} else {
				ru, n := utf8.DecodeRuneInString(it.s[it.i:])
				r = Tuple{in.c.T, in.c.Const(64, uint64(it.i)), in.c.Const(32, uint64(ru))}
				it.i += n
			}
		} else if it.m == nil || it.i >= len(it.m.keys) {
			mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			r = Tuple{in.c.F, in.zero(mt.Key()), in.zero(mt.Elem())}
		} else {
			r = Tuple{in.c.T, it.m.keys[it.i], it.m.vals[it.i]}
			it.i++
		}
	default:
		unsupported(fmt.Sprintf("instruction %T", ins))
	}
	fr.env[ci.dst] = r
}

func (in *Interp) strIndex(s Str, i *Term, site uint64) Value {
	in.require(in.c.Ult(i, in.strLen(s)), site, "index out of range")
	if !s.mem && i.isC() {
		return in.c.Const(8, uint64(s.s[i.val]))
	}
	if !s.mem {
		if len(s.s) > 1024 {
			return in.c.Const(8, uint64(s.s[in.concretize(i)]))
		}
		s = in.strMem(s)
	}
	return in.loadPtrLeaf(in.index(s.p, i, 1), 1, kTerm, 8)
}

func (in *Interp) mapGet(m *MapObj, k Value, kt types.Type, site uint64) (Value, bool) {
	if m == nil {
		return nil, false
	}
	for i := range m.keys {
		if in.branch(in.equal(kt, m.keys[i], k), site+uint64(i)<<32) {
			return m.vals[i], true
		}
	}
	return nil, false
}
func (in *Interp) mapSet(m *MapObj, k, v Value, kt types.Type, site uint64) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	for i := range m.keys {
		if in.branch(in.equal(kt, m.keys[i], k), site+uint64(i)<<32) {
			if m.base && !in.initing {
				old := m.vals[i]
				in.journal = append(in.journal, jent{undo: func() { m.vals[i] = old }})
			}
			m.vals[i] = v
			return
		}
	}
	if m.base && !in.initing {
		n := len(m.keys)
		in.journal = append(in.journal, jent{undo: func() { m.keys = m.keys[:n]; m.vals = m.vals[:n] }})
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (in *Interp) unop(fr *frame, ci *cinstr, x *ssa.UnOp) Value {
	v := in.get(fr, ci, 0)
	switch x.Op {
	case token.MUL:
		return in.load(v.(Ptr), x.Type())
	case token.NOT:
		return in.c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if isFloat(x.X.Type()) {
			return in.c.Fneg(t)
		}
		return in.c.Sub(in.c.Const(t.w, 0), t)
	case token.XOR:
		return in.c.Bnot(v.(*Term))
	}
	unsupported("unary " + x.Op.String())
	return nil
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, a, b Value, site uint64) Value {
	c := in.c
	switch op {
	case token.EQL:
		return in.equal(xt, a, b)
	case token.NEQ:
		return c.Not(in.equal(xt, a, b))
	}
	if x, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			if !x.mem && !y.mem {
				return Str{s: x.s + y.s}
			}
			return in.bytesToStr(append(append([]*Term{}, in.strBytes(x)...), in.strBytes(y)...))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.LEQ {
				x, y = y, x
			}
			lt := in.strLess(x, y)
			if op == token.LEQ || op == token.GEQ {
				return c.Not(lt)
			}
			return lt
		}
		unsupported("string op " + op.String())
	}
	x, ok := a.(*Term)
	if !ok {
		unsupported(fmt.Sprintf("%s on %T", op, a))
	}
	y := b.(*Term)
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return c.farith(OFadd, x, y)
		case token.SUB:
			return c.farith(OFsub, x, y)
		case token.MUL:
			return c.farith(OFmul, x, y)
		case token.QUO:
			return c.farith(OFdiv, x, y)
		case token.LSS:
			return c.fcmp(OFlt, x, y)
		case token.LEQ:
			return c.fcmp(OFle, x, y)
		case token.GTR:
			return c.fcmp(OFlt, y, x)
		case token.GEQ:
			return c.fcmp(OFle, y, x)
		}
	}
	sg := isSigned(xt)
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		in.require(c.Not(c.Eq(y, c.Const(y.w, 0))), site, "integer divide by zero")
		if in.fixDiv {
			y = c.Const(y.w, in.concretize(y))
		}
		if sg {
			if op == token.QUO {
				return c.Sdiv(x, y)
			}
			return c.Srem(x, y)
		}
		if op == token.QUO {
			return c.Udiv(x, y)
		}
		return c.Urem(x, y)
	case token.AND:
		if x.w == 0 {
			return c.And(x, y)
		}
		return c.Band(x, y)
	case token.OR:
		if x.w == 0 {
			return c.Or(x, y)
		}
		return c.Bor(x, y)
	case token.XOR:
		return c.Bxor(x, y)
	case token.AND_NOT:
		return c.Band(x, c.Bnot(y))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			in.require(c.Not(c.Slt(y, c.Const(y.w, 0))), site, "negative shift amount")
		}
		var k *Term
		if y.w <= x.w {
			k = c.Zext(y, x.w)
		} else {
			k = c.Ite(c.Ult(y, c.Const(y.w, uint64(x.w))), c.Extract(y, x.w-1, 0), c.Const(x.w, uint64(x.w)))
		}
		if op == token.SHL {
			return c.Shl(x, k)
		}
		if sg {
			return c.Ashr(x, k)
		}
		return c.Lshr(x, k)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		var lt *Term
		if sg {
			lt = c.Slt(x, y)
		} else {
			lt = c.Ult(x, y)
		}
		if op == token.LEQ || op == token.GEQ {
			return c.Not(lt)
		}
		return lt
	}
	unsupported("binary " + op.String())
	return nil
}

func (in *Interp) strLess(x, y Str) *Term {
	if !x.mem && !y.mem {
		return in.c.Bool(x.s < y.s)
	}
	a, b := in.strBytes(x), in.strBytes(y)
	r := in.c.Bool(len(a) < len(b))
	for i := min(len(a), len(b)) - 1; i >= 0; i-- {
		r = in.c.Ite(in.c.Eq(a[i], b[i]), r, in.c.Ult(a[i], b[i]))
	}
	return r
}

func (in *Interp) equal(t types.Type, a, b Value) *Term {
	c := in.c
	switch x := a.(type) {
	case *Term:
		if isFloat(t) {
			return c.fcmp(OFeq, x, b.(*Term))
		}
		return c.Eq(x, b.(*Term))
	case Str:
		return in.strEq(x, b.(Str))
	case Ptr:
		return in.ptrEq(x, b.(Ptr))
	case Slice:
		y := b.(Slice)
		if x.p.o == nil || y.p.o == nil {
			return c.Bool(x.p.o == nil && y.p.o == nil)
		}
	case *Closure:
		y := b.(*Closure)
		return c.Bool(x == nil && y == nil)
	case *MapObj:
		return c.Bool(x == b.(*MapObj))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("interface compared with concrete value")
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.F
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.t, x.v, y.v)
	case Agg:
		y := b.(Agg)
		r := c.T
		for i := range x {
			var et types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				et = u.Field(i).Type()
				if u.Field(i).Name() == "_" {
					continue
				}
			case *types.Array:
				et = u.Elem()
			}
			r = c.And(r, in.equal(et, x[i], y[i]))
		}
		return r
	}
	unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}

func (in *Interp) convert(from, to types.Type, v Value, site uint64) Value {
	c := in.c
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Kind() == types.UnsafePointer:
			if p, ok := v.(Ptr); ok {
				return p
			}
			unsupported("integer to unsafe.Pointer")
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				st := fu.(*types.Slice)
				if sizeof(st.Elem()) != 1 {
					unsupported("string from runes")
				}
				return in.bytesToStr(in.sliceBytes(x))
			case *Term:
				if x.isC() {
					return Str{s: string(rune(x.val))}
				}
				unsupported("string from symbolic rune")
			}
		case tb.Info()&types.IsNumeric != 0:
			x, ok := v.(*Term)
			if !ok {
				unsupported("pointer to integer conversion")
			}
			_, w, _ := leafOf(to)
			if isFloat(to) {
				if isFloat(from) {
					return c.Fcvt(x, w)
				}
				if isSigned(from) {
					return c.StoF(c.Sext(x, 64), w, true)
				}
				if x.w < 64 {
					return c.StoF(c.Zext(x, 64), w, true)
				}
				return c.StoF(x, w, false)
			}
			if isFloat(from) {
				switch {
				case tb.Kind() == types.Uint64 || tb.Kind() == types.Uint || tb.Kind() == types.Uintptr:
					lim := c.Const(x.w, bitsf(x.w, ldexp1(63)))
					lowr := c.FtoS(x, 64)
					hi := c.Bxor(c.FtoS(c.farith(OFsub, x, lim), 64), c.Const(64, 1<<63))
					return c.Ite(c.fcmp(OFlt, x, lim), lowr, hi)
				case w == 64:
					return c.FtoS(x, 64)
				case tb.Kind() == types.Uint32:
					return c.Extract(c.FtoS(x, 64), 31, 0)
				default:
					r := c.FtoS(x, 32)
					if w < 32 {
						return c.Extract(r, w-1, 0)
					}
					return r
				}
			}
			if isSigned(from) {
				return c.Sext(x, w)
			}
			return c.Zext(x, w)
		}
	}
	switch t := tu.(type) {
	case *types.Pointer:
		return v
	case *types.Slice:
		if s, ok := v.(Str); ok {
			if sizeof(t.Elem()) == 1 {
				b := in.strBytes(s)
				o := in.newObj(t.Elem(), len(b))
				for i, x := range b {
					in.setCell(o, i, x)
				}
				n := c.Const(64, uint64(len(b)))
				return Slice{Ptr{o: o}, n, n}
			}
			cs, ok := in.constStr(s)
			if !ok {
				unsupported("runes of a symbolic string")
			}
			rs := []rune(cs)
			o := in.newObj(t.Elem(), len(rs))
			for i, x := range rs {
				in.setCell(o, i, c.Const(32, uint64(x)))
			}
			n := c.Const(64, uint64(len(rs)))
			return Slice{Ptr{o: o}, n, n}
		}
		return v
	}
	unsupported(fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

func (in *Interp) sliceBytes(s Slice) []*Term {
	n := int(in.concretize(s.len))
	r := make([]*Term, n)
	for i := range r {
		r[i] = in.byteAt(s.p, i)
	}
	return r
}

func (in *Interp) makeSlice(t types.Type, n, cp *Term, site uint64) Value {
	et := t.Underlying().(*types.Slice).Elem()
	es := max(sizeof(et), 1)
	c := in.c
	lim := c.Const(64, uint64(1<<47)/uint64(es)+1)
	if in.hugeOut {
		// sizes no machine has are left out; negative ones are not
		if !in.branch(c.Or(c.Ult(cp, lim), c.Not(c.Ult(cp, c.Const(64, 1<<63)))), site+11) {
			panic(pathAbort{abCut, "allocation above the model limit"})
		}
	}
	if !n.isC() || !cp.isC() {
		in.require(c.Ult(n, lim), site, "makeslice: len out of range")
		if n != cp {
			in.require(c.And(c.Ult(cp, lim), c.Ule(n, cp)), site+7, "makeslice: cap out of range")
		}
	} else {
		if n.val >= lim.val {
			in.rtPanic("makeslice: len out of range")
		}
		if cp.val < n.val || cp.val >= lim.val {
			in.rtPanic("makeslice: cap out of range")
		}
	}
	if cp.isC() {
		if cp.val*uint64(es) > in.allocLimit() {
			in.tooBig()
			panic(pathAbort{abCut, "allocation above the model limit"})
		}
		return Slice{Ptr{o: in.newObj(et, int(cp.val))}, n, cp}
	}
	if ok := in.branch(c.Ule(cp, c.Const(64, in.allocLimit()/uint64(es))), site+9); !ok {
		in.tooBig()
		panic(pathAbort{abCut, "allocation above the model limit"})
	}
	return Slice{Ptr{o: in.newObj(et, -1)}, n, cp}
}

func (in *Interp) allocLimit() uint64 {
	if in.maxAlloc > 0 {
		return in.maxAlloc
	}
	return in.ex.allocLimit
}

// tooBig reports an allocation that no program survives.
func (in *Interp) tooBig() {
	if in.maxAlloc > 0 {
		in.assert(in.c.F, "allocation", nil, "")
		in.flush()
	}
}

func (in *Interp) slice(fr *frame, ci *cinstr, x *ssa.Slice) Value {
	c := in.c
	opt := func(k int, t ssa.Value) *Term {
		if ci.ops[k] == noOp {
			return nil
		}
		return in.ext64(in.get(fr, ci, k), t.Type())
	}
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = opt(1, x.Low)
	}
	if x.High != nil {
		hi = opt(2, x.High)
	}
	if x.Max != nil {
		mx = opt(3, x.Max)
	}
	zero := c.Const(64, 0)
	if lo == nil {
		lo = zero
	}
	v := in.get(fr, ci, 0)
	if s, ok := v.(Str); ok {
		n := in.strLen(s)
		if hi == nil {
			hi = n
		}
		in.require(c.Ule(hi, n), ci.site+1, "slice bounds out of range")
		in.require(c.Ule(lo, hi), ci.site+2, "slice bounds out of range")
		if !s.mem && lo.isC() && hi.isC() {
			return Str{s: s.s[lo.val:hi.val]}
		}
		s = in.strMem(s)
		if s.p.o == nil {
			return s
		}
		return Str{mem: true, p: in.index(s.p, lo, 1), n: c.Sub(hi, lo)}
	}
	var p Ptr
	var ln, cp *Term
	var et types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		p, ln, cp, et = s.p, s.len, s.cap, u.Elem()
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p, et = v.(Ptr), a.Elem()
		if p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		ln = c.Const(64, uint64(a.Len()))
		cp = ln
	default:
		unsupported("slice of " + x.X.Type().String())
	}
	if hi == nil {
		hi = ln
	}
	if mx == nil {
		mx = cp
	} else {
		in.require(c.Ule(mx, cp), ci.site+3, "slice bounds out of range")
	}
	in.require(c.Ule(hi, mx), ci.site+1, "slice bounds out of range")
	in.require(c.Ule(lo, hi), ci.site+2, "slice bounds out of range")
	if p.o == nil {
		return Slice{Ptr{}, zero, zero}
	}
	return Slice{in.index(p, lo, sizeof(et)), c.Sub(hi, lo), c.Sub(mx, lo)}
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
		} else {
			ok = types.Identical(v.t, x.AssertedType)
		}
	}
	_, toI := x.AssertedType.Underlying().(*types.Interface)
	var r Value
	if ok {
		if toI {
			r = v
		} else {
			r = v.v
		}
	} else {
		if !x.CommaOk {
			in.rtPanic("interface conversion: wrong dynamic type for " + x.AssertedType.String())
		}
		r = in.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, in.c.Bool(ok)}
	}
	return r
}

func (in *Interp) prepCall(fr *frame, ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	f := in.get(fr, ci, 0)
	args := make([]Value, 0, len(ci.ops))
	if call.IsInvoke() {
		i := f.(Iface)
		if i.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.method(i.t, call.Method)
		args = append(args, i.v)
		f = &Closure{fn: fn}
	}
	for k := 1; k <= len(call.Args); k++ {
		args = append(args, in.get(fr, ci, k))
	}
	return f, args
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	fn := in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		unsupported("no method " + m.Name() + " on " + t.String())
	}
	return fn
}

func (in *Interp) doCall(fr *frame, ci *cinstr, call *ssa.CallCommon) Value {
	f, args := in.prepCall(fr, ci, call)
	if b, ok := f.(*ssa.Builtin); ok {
		return in.builtin(fr, ci, b, args, call)
	}
	if in.curPos = call.Pos(); false {
	}
	return in.callValue(fr, f, args)
}

func (in *Interp) builtin(fr *frame, ci *cinstr, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := in.c
	site := uint64(0xb1)
	if ci != nil {
		site = ci.site
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return x.len
		case Str:
			return in.strLen(x)
		case *MapObj:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(x.keys)))
		case Agg:
			return c.Const(64, uint64(len(x)))
		case Ptr:
			a := call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return c.Const(64, uint64(a.Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case Agg:
			return c.Const(64, uint64(len(x)))
		}
	case "append":
		return in.doAppend(args[0].(Slice), args[1], call.Args[0].Type().Underlying().(*types.Slice).Elem(), site)
	case "copy":
		return in.doCopy(args[0].(Slice), args[1], call.Args[0].Type().Underlying().(*types.Slice).Elem(), site)
	case "recover":
		if fr.caller != nil && fr.caller.panicking != nil && in.isDeferredCall(fr) {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			return p.v
		}
		return Iface{}
	case "panic":
		v := args[0].(Iface)
		panic(tPanic{v: v, msg: in.panicText(v)})
	case "min", "max":
		t := call.Args[0].Type()
		r := args[0]
		for _, y := range args[1:] {
			if isFloat(t) {
				r = in.c.Fminmax(r.(*Term), y.(*Term), b.Name() == "max", false)
				continue
			}
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			k := in.binop(op, t, t, y, r, site).(*Term)
			m, ok := in.merge(k, y, r)
			if !ok {
				unsupported("min/max operands")
			}
			r = m
		}
		return r
	case "clear":
		if s, ok := args[0].(Slice); ok {
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			n := int(in.concretize(s.len))
			for i := 0; i < n; i++ {
				in.store(s.p.add(i*sizeof(et)), et, in.zero(et))
			}
			return Tuple{}
		}
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := in.ext64(args[1], call.Args[1].Type())
		if p.o == nil {
			if n.zero() {
				return in.nilSlice()
			}
			unsupported("unsafe.Slice of nil")
		}
		in.require(c.Ult(n, c.Const(64, 1<<47)), site, "unsafe.Slice: len out of range")
		return Slice{p, n, n}
	case "String":
		p := args[0].(Ptr)
		n := in.ext64(args[1], call.Args[1].Type())
		if p.o == nil {
			return Str{}
		}
		in.require(c.Ult(n, c.Const(64, 1<<47)), site, "unsafe.String: len out of range")
		return Str{mem: true, p: p, n: n}
	case "StringData":
		return in.strMem(args[0].(Str)).p
	case "SliceData":
		return args[0].(Slice).p
	case "Add":
		return in.index(args[0].(Ptr), in.ext64(args[1], call.Args[1].Type()), 1)
	}
	unsupported("builtin " + b.Name())
	return nil
}

// isDeferredCall: the frame was called directly by the deferring machinery.
func (in *Interp) isDeferredCall(fr *frame) bool { return true }

func (in *Interp) doAppend(s Slice, more Value, et types.Type, site uint64) Value {
	c := in.c
	es := sizeof(et)
	var mp Ptr
	var mn *Term
	switch y := more.(type) {
	case Slice:
		mp, mn = y.p, y.len
	case Str:
		y = in.strMem(y)
		mp, mn = y.p, y.n
	}
	n := int(in.concretize(s.len))
	k := int(in.concretize(mn))
	if k == 0 {
		return s
	}
	cp := in.c.Const(64, uint64(n+k))
	fits := in.branch(c.Ule(cp, s.cap), site+0x33)
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = in.load(mp.add(i*es), et)
	}
	if fits {
		for i := range vals {
			in.store(s.p.add((n+i)*es), et, vals[i])
		}
		return Slice{s.p, c.Const(64, uint64(n+k)), s.cap}
	}
	nc := n + k
	if oc := s.cap; oc.isC() {
		if d := int(oc.val) * 2; d > nc && oc.val < 256 {
			nc = d
		} else if d := int(oc.val) + (int(oc.val)+768)/4; oc.val >= 256 && d > nc {
			nc = d
		}
	}
	if es == 1 && nc < 8 {
		nc = 8
	}
	o := in.newObj(et, nc)
	p := Ptr{o: o}
	for i := 0; i < n; i++ {
		in.store(p.add(i*es), et, in.load(s.p.add(i*es), et))
	}
	for i := range vals {
		in.store(p.add((n+i)*es), et, vals[i])
	}
	return Slice{p, c.Const(64, uint64(n+k)), c.Const(64, uint64(nc))}
}

func (in *Interp) doCopy(d Slice, src Value, et types.Type, site uint64) Value {
	c := in.c
	es := sizeof(et)
	var sp Ptr
	var sn *Term
	switch y := src.(type) {
	case Slice:
		sp, sn = y.p, y.len
	case Str:
		y = in.strMem(y)
		sp, sn = y.p, y.n
	}
	nt := c.Ite(c.Ult(sn, d.len), sn, d.len)
	n := int(in.concretize(nt))
	if n == 0 {
		return nt
	}
	if n > 8<<20 {
		unsupported("copy of more than 8 MiB")
	}
	dp := in.concretePtr(d.p)
	if n > 64 {
		sp = in.concretePtr(sp)
	}
	sp = sp.norm()
	vals := make([]Value, n)
	for i := range vals {
		vals[i] = in.load(sp.add(i*es), et)
	}
	for i := range vals {
		in.store(dp.add(i*es), et, vals[i])
	}
	return c.Const(64, uint64(n))
}
