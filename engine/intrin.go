package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value

const vfPkg = "verif/harness/vf"

var intrinsics map[string]intrinsic
var vfIntrinsics map[string]intrinsic

func one(f func(in *Interp, a *Term) Value) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return f(in, args[0].(*Term)) }
}
func ident(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return args[0] }

func (in *Interp) mathFn(name string, f func(float64) float64) intrinsic {
	return one(func(in *Interp, a *Term) Value {
		v := in.concretize(a)
		return in.c.Const(64, math.Float64bits(f(math.Float64frombits(v))))
	})
}

// popcount-like helpers with a small ITE ladder
func bitLen(in *Interp, a *Term, trailing bool) Value {
	if a.isC() {
		if trailing {
			if a.val == 0 {
				return in.c.Const(64, uint64(a.w))
			}
			return in.c.Const(64, uint64(bits.TrailingZeros64(a.val)))
		}
		return in.c.Const(64, uint64(bits.Len64(a.val)))
	}
	c := in.c
	var r *Term
	if trailing {
		r = c.Const(64, uint64(a.w))
		for i := int(a.w) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(c.Extract(a, uint8(i), uint8(i)), c.Const(1, 1)), c.Const(64, uint64(i)), r)
		}
	} else {
		r = c.Const(64, 0)
		for i := 0; i < int(a.w); i++ {
			r = c.Ite(c.Eq(c.Extract(a, uint8(i), uint8(i)), c.Const(1, 1)), c.Const(64, uint64(i+1)), r)
		}
	}
	return r
}

func init() {
	rti := func(m uint64) intrinsic { return one(func(in *Interp, a *Term) Value { return in.c.Frti(a, m) }) }
	intrinsics = map[string]intrinsic{
		"math.Min": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.Fminmax(args[0].(*Term), args[1].(*Term), false, true)
		},
		"math.Max": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.Fminmax(args[0].(*Term), args[1].(*Term), true, true)
		},
		"math.Floor":       rti(0),
		"math.Ceil":        rti(1),
		"math.Trunc":       rti(2),
		"math.RoundToEven": rti(3),
		"math.Round":       rti(4),
		"math.Sqrt":        one(func(in *Interp, a *Term) Value { return in.c.Fsqrt(a) }),
		"math.Abs":         one(func(in *Interp, a *Term) Value { return in.c.Fabs(a) }),
		"math.Float64bits": ident, "math.Float64frombits": ident, "math.Float32bits": ident, "math.Float32frombits": ident,
		"math.IsNaN":                one(func(in *Interp, a *Term) Value { return in.c.FIsNaN(a) }),
		"math/bits.Len":             one(func(in *Interp, a *Term) Value { return bitLen(in, a, false) }),
		"math/bits.Len64":           one(func(in *Interp, a *Term) Value { return bitLen(in, a, false) }),
		"math/bits.Len32":           one(func(in *Interp, a *Term) Value { return bitLen(in, a, false) }),
		"math/bits.TrailingZeros":   one(func(in *Interp, a *Term) Value { return bitLen(in, a, true) }),
		"math/bits.TrailingZeros64": one(func(in *Interp, a *Term) Value { return bitLen(in, a, true) }),
		"math/bits.TrailingZeros32": one(func(in *Interp, a *Term) Value { return bitLen(in, a, true) }),

		"fmt.Sprintf": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			s, _ := in.sprintf(fr, args[0].(Str), in.variadic(args[1]))
			return s
		},
		"fmt.Errorf": iErrorf,
		"fmt.Fprintf": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			s, _ := in.sprintf(fr, args[1].(Str), in.variadic(args[2]))
			return in.writeTo(fr, args[0].(Iface), s)
		},
		"fmt.Sprint": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.sprint(fr, in.variadic(args[0]), false)
		},
		"fmt.Sprintln": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.sprint(fr, in.variadic(args[0]), true)
		},
		"fmt.Fprint": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.writeTo(fr, args[0].(Iface), in.sprint(fr, in.variadic(args[1]), false))
		},
		"fmt.Fprintln": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.writeTo(fr, args[0].(Iface), in.sprint(fr, in.variadic(args[1]), true))
		},
		"errors.Is": iErrorsIs,
		"errors.As": iErrorsAs,
		"strconv.Itoa": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.fmtScalar("%d", args[0].(*Term), types.Typ[types.Int])
		},
		"strconv.FormatInt": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			b := args[1].(*Term)
			if !b.isC() {
				unsupported("symbolic base")
			}
			v := args[0].(*Term)
			if v.isC() {
				return Str{s: strconv.FormatInt(int64(v.val), int(b.val))}
			}
			return in.fmtScalar(fmt.Sprintf("%%d(base %d)", b.val), v, types.Typ[types.Int64])
		},
		"strconv.FormatUint": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			b := args[1].(*Term)
			v := args[0].(*Term)
			if v.isC() && b.isC() {
				return Str{s: strconv.FormatUint(v.val, int(b.val))}
			}
			return in.fmtScalar("%d", v, types.Typ[types.Uint64])
		},
		"strconv.FormatFloat": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			v, f, p, b := args[0].(*Term), args[1].(*Term), args[2].(*Term), args[3].(*Term)
			if v.isC() && f.isC() && p.isC() && b.isC() {
				return Str{s: strconv.FormatFloat(math.Float64frombits(v.val), byte(f.val), int(p.val), int(b.val))}
			}
			return in.fmtScalar(fmt.Sprintf("F%d.%d.%d", f.val, int(p.val), b.val), v, types.Typ[types.Float64])
		},
		"strconv.AppendFloat": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			s := intrinsics["strconv.FormatFloat"](in, fr, fn, args[1:]).(Str)
			return in.doAppend(args[0].(Slice), s, types.Typ[types.Uint8], 0xaf)
		},
		"strconv.AppendInt": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			s := intrinsics["strconv.FormatInt"](in, fr, fn, args[1:]).(Str)
			return in.doAppend(args[0].(Slice), s, types.Typ[types.Uint8], 0xaf)
		},
		"strconv.AppendUint": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			s := intrinsics["strconv.FormatUint"](in, fr, fn, args[1:]).(Str)
			return in.doAppend(args[0].(Slice), s, types.Typ[types.Uint8], 0xaf)
		},
		"internal/bytealg.MakeNoZero": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			n := args[0].(*Term)
			return in.makeSlice(types.NewSlice(types.Typ[types.Uint8]), n, n, 0xbb)
		},
		"internal/abi.NoEscape": ident,
		"strings.noescape":      ident,
		"internal/abi.Escape":   ident,
		"runtime.KeepAlive":     func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return Tuple{} },
		"runtime.GC":            func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return Tuple{} },
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.indexByte(in.sliceBytes(args[0].(Slice)), args[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.indexByte(in.strBytes(args[0].(Str)), args[1].(*Term))
		},
		"internal/bytealg.Equal":   iBytesEqual,
		"bytes.Equal":              iBytesEqual,
		"internal/bytealg.Compare": iBytesCompare,
		"bytes.Compare":            iBytesCompare,
		"internal/bytealg.CompareString": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.cmpBytes(in.strBytes(args[0].(Str)), in.strBytes(args[1].(Str)))
		},
		"internal/stringslite.Index": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			a, ok1 := in.constStr(args[0].(Str))
			b, ok2 := in.constStr(args[1].(Str))
			if !ok1 || !ok2 {
				unsupported("strings.Index on symbolic text")
			}
			return in.c.Const(64, uint64(strings.Index(a, b)))
		},
		"sort.Slice":           iSortSlice,
		"sort.SliceStable":     iSortSlice,
		"(*sync.Mutex).Lock":   func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return Tuple{} },
		"(*sync.Mutex).Unlock": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return Tuple{} },
		"(*sync.Pool).Get": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			// what one goroutine sees without collections: its private item,
			// then the others, last in first out; New if there are none
			p := args[0].(Ptr)
			if in.spec > 0 {
				panic(specAbort{})
			}
			k := poolKey{p.o, p.off}
			if l := in.pools[k]; l != nil {
				if x := l.private; x.t != nil {
					l.private = Iface{}
					return x
				}
				if n := len(l.shared); n > 0 {
					x := l.shared[n-1]
					l.shared = l.shared[:n-1]
					return x
				}
			}
			st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					f := in.load(p.add(fieldOffset(st, i)), st.Field(i).Type()).(*Closure)
					if f == nil {
						return Iface{}
					}
					return in.callValue(fr, f, nil)
				}
			}
			return Iface{}
		},
		"(*sync.Pool).Put": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			p, x := args[0].(Ptr), args[1].(Iface)
			if in.spec > 0 {
				panic(specAbort{})
			}
			if x.t == nil {
				return Tuple{}
			}
			k := poolKey{p.o, p.off}
			l := in.pools[k]
			if l == nil {
				l = &pool{}
				in.pools[k] = l
			}
			if l.private.t == nil {
				l.private = x
			} else {
				l.shared = append(l.shared, x)
			}
			return Tuple{}
		},
	}
	for _, n := range []string{"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		intrinsics[n] = intrinsics["(*sync.Mutex).Lock"]
	}
	// one goroutine: atomic operations are ordinary ones
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		elem := func(fn *ssa.Function) types.Type {
			return fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		}
		intrinsics["sync/atomic.Load"+n] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.load(args[0].(Ptr), elem(fn))
		}
		intrinsics["sync/atomic.Store"+n] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.store(args[0].(Ptr), elem(fn), args[1])
			return Tuple{}
		}
		intrinsics["sync/atomic.Swap"+n] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			old := in.load(args[0].(Ptr), elem(fn))
			in.store(args[0].(Ptr), elem(fn), args[1])
			return old
		}
		if n == "Pointer" {
			continue
		}
		intrinsics["sync/atomic.Add"+n] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			v := in.c.Add(in.load(args[0].(Ptr), elem(fn)).(*Term), args[1].(*Term))
			in.store(args[0].(Ptr), elem(fn), v)
			return v
		}
		intrinsics["sync/atomic.CompareAndSwap"+n] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			old := in.load(args[0].(Ptr), elem(fn)).(*Term)
			eq := in.c.Eq(old, args[1].(*Term))
			in.store(args[0].(Ptr), elem(fn), in.c.Ite(eq, args[2].(*Term), old))
			return eq
		}
	}
	intrinsics["strings.Index"] = intrinsics["internal/stringslite.Index"]

	scalar := func(w uint8, kind string) intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.input(args[0].(Str).s, w, kind)
		}
	}
	none := Tuple{}
	vfIntrinsics = map[string]intrinsic{
		"Bool": scalar(0, "b"), "U8": scalar(8, "u"), "U16": scalar(16, "u"), "U32": scalar(32, "u"), "U64": scalar(64, "u"),
		"I8": scalar(8, "i"), "I16": scalar(16, "i"), "I32": scalar(32, "i"), "I64": scalar(64, "i"), "F64": scalar(64, "f"), "F32": scalar(32, "f"),
		"Int": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			t := in.input(args[0].(Str).s, 64, "i")
			lo, hi := args[1].(*Term), args[2].(*Term)
			c := in.c
			if lo.isC() && hi.isC() && int64(lo.val) >= 0 && int64(hi.val) >= int64(lo.val) && !t.isC() {
				// carry the range in the term itself: high bits zero
				n := uint8(bits.Len64(hi.val))
				if n < 64 {
					if n == 0 {
						n = 1
					}
					t = c.Zext(c.Extract(t, n-1, 0), 64)
					in.inputs[len(in.inputs)-1].t = t
				}
			}
			in.assume(c.And(c.Sle(lo, t), c.Sle(t, hi)))
			return t
		},
		"Choose": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			n := args[1].(*Term)
			if !n.isC() {
				n = in.c.Const(64, in.concretize(n))
			}
			if int64(n.val) <= 0 {
				panic(pathAbort{abInfeasible, "empty choice"})
			}
			k := in.choose(int(n.val))
			t := in.c.Const(64, uint64(k))
			in.inputs = append(in.inputs, inputVar{args[0].(Str).s, t, "i"})
			return t
		},
		"Bytes": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			n := args[1].(*Term)
			if !n.isC() {
				n = in.c.Const(64, in.concretize(n))
			}
			o := in.newObj(types.Typ[types.Uint8], int(n.val))
			for i := 0; i < int(n.val); i++ {
				in.setCell(o, i, in.input(args[0].(Str).s, 8, "u"))
			}
			return Slice{Ptr{o: o}, n, n}
		},
		"Fix": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.Const(64, in.concretize(args[0].(*Term)))
		},
		"Assume": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.assume(args[0].(*Term))
			return none
		},
		"Assert": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.assert(args[0].(*Term), args[1].(Str).s, nil, "")
			return none
		},
		"AssertKnown": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.assert(args[0].(*Term), args[1].(Str).s, args[2].(*Term), args[3].(Str).s)
			return none
		},
		"OpaqueFloats": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.light, in.s.bdd = true, true
			return nil
		},
		"Split": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.split = args[0].(*Term).isT()
			return none
		},
		"MaxAlloc": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.maxAlloc = args[0].(*Term).val
			return none
		},
		"Steps": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.budget = int(args[0].(*Term).val)
			return none
		},
		"FixDivisors": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.fixDiv = true
			return none
		},
		"AllocSucceeds": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.hugeOut = true
			return none
		},
		"OpaqueArithmetic": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.light, in.s.bdd, in.s.bddAll = true, true, true
			return nil
		},
		"Reach": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in.ex.reach(in, args[0].(Str).s)
			return none
		},
		"Param": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			k := 1
			if in.ex.thorough {
				k = 2
			}
			in.ex.noteParam(in, args[0].(Str).s, int64(args[k].(*Term).val))
			return args[k]
		},
		"Thorough": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return in.c.Bool(in.ex.thorough) },
		"Obs": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			if in.spec > 0 {
				panic(specAbort{})
			}
			in.obs = append(in.obs, obsVal{args[0].(Str).s, args[1].(*Term)})
			return none
		},
		"And": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.And(args[0].(*Term), args[1].(*Term))
		},
		"Or": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.Or(args[0].(*Term), args[1].(*Term))
		},
		"Imp": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.Implies(args[0].(*Term), args[1].(*Term))
		},
		"IteInt": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
		},
	}
}

func (in *Interp) input(name string, w uint8, kind string) *Term {
	if in.spec > 0 {
		panic(specAbort{})
	}
	k := in.ctr[name]
	in.ctr[name] = k + 1
	vn := in.goal + "/" + name + "#" + strconv.Itoa(k) + "." + strconv.Itoa(int(w))
	t := in.c.Var(vn, w)
	if _, ok := in.ex.cur.Load(vn); !ok {
		in.ex.cur.Store(vn, w)
	}
	in.inputs = append(in.inputs, inputVar{name, t, kind})
	return t
}

func (in *Interp) assert(c *Term, id string, known *Term, finding string) {
	in.ex.noteAssert(in, id)
	if in.pos < len(in.prefix) {
		return // decided on the path that created this prefix
	}
	in.ncheck++
	if c.isT() {
		return
	}
	if known == nil && in.spec == 0 {
		in.pending = append(in.pending, pendAssert{c, id})
		if len(in.pending) >= 200 {
			in.flush()
		}
		return
	}
	neg := in.c.Not(c)
	if known != nil {
		kq := in.c.And(neg, known)
		if !kq.isF() && !in.ex.knownSeen(finding) {
			if r, m := in.check(kq); r == Sat {
				in.ex.violation(in, id, m, finding, "")
			}
		}
		neg = in.c.And(neg, in.c.Not(known))
	}
	r, m := in.check(neg)
	switch r {
	case Unsat:
		return
	case Unknown:
		in.ex.inconclusive(in, "assertion "+id+": solver gave no answer")
		return
	}
	in.ex.violation(in, id, m, "", "")
	panic(pathAbort{abViolation, id})
}

// flush decides the assertions collected since the path condition last grew.
func (in *Interp) flush() {
	if len(in.pending) == 0 {
		return
	}
	ps := in.pending
	in.pending = nil
	report := func(m Model) {
		ep := in.c.newEpoch()
		id := ps[0].id
		for _, p := range ps {
			if in.c.Eval(p.c, ep, m) == 0 {
				id = p.id
				break
			}
		}
		in.ex.violation(in, id, m, "", "")
		panic(pathAbort{abViolation, id})
	}
	all := in.c.T
	for _, p := range ps {
		all = in.c.And(all, p.c)
	}
	if all.isT() {
		return
	}
	r, m := in.check(in.c.Not(all))
	switch r {
	case Unsat:
		return
	case Sat:
		report(m)
	}
	for _, p := range ps {
		r, m := in.check(in.c.Not(p.c))
		switch r {
		case Sat:
			report(m)
		case Unknown:
			in.ex.inconclusive(in, "assertion "+p.id+": solver gave no answer")
		}
	}
}

func (in *Interp) variadic(v Value) []Iface {
	s := v.(Slice)
	n := int(in.concretize(s.len))
	r := make([]Iface, n)
	for i := range r {
		r[i] = in.loadPtrLeaf(s.p.add(i*16), 16, kIface, 0).(Iface)
	}
	return r
}

type poolKey struct {
	o   *Obj
	off int
}
type pool struct {
	private Iface
	shared  []Iface
}

// ---- text formatting

func (in *Interp) token(f string, t *Term) string {
	if in.spec > 0 {
		panic(specAbort{}) // texts of different sides can't be joined
	}
	k := fmt.Sprintf("%s|%x|%d", f, t.h, t.id)
	i, ok := in.tokIdx[k]
	if !ok {
		i = len(in.tokens)
		in.tokens = append(in.tokens, tok{f, t})
		in.tokIdx[k] = i
	}
	return "\x01" + strconv.Itoa(i) + "\x02"
}

// tokEq compares two texts that may hold formatted symbolic numbers.
func (in *Interp) tokEq(a, b []*Term) *Term {
	r := in.c.T
	tokAt := func(s []*Term) (tok, int) {
		n := 0
		for i := 1; i < len(s) && s[i].isC(); i++ {
			if s[i].val == 2 && n < len(in.tokens) {
				return in.tokens[n], i + 1
			}
			n = 10*n + int(s[i].val-'0')
		}
		unsupported("text piece")
		return tok{}, 0
	}
	for len(a) > 0 && len(b) > 0 {
		ta, tb := a[0].isC() && a[0].val == 1, b[0].isC() && b[0].val == 1
		switch {
		case ta && tb:
			x, n := tokAt(a)
			y, m := tokAt(b)
			a, b = a[n:], b[m:]
			switch {
			case x.f == y.f && x.t.w == y.t.w:
				r = in.c.And(r, in.c.Eq(x.t, y.t))
			case x.f == "int" && y.f == "uint", x.f == "uint" && y.f == "int":
				r = in.c.And(r, in.c.And(in.c.Eq(x.t, y.t), in.c.Not(in.c.Slt(x.t, in.c.Const(64, 0)))))
			default:
				return in.c.F
			}
		case ta || tb:
			return in.c.F
		default:
			r = in.c.And(r, in.c.Eq(a[0], b[0]))
			a, b = a[1:], b[1:]
		}
		if r.isF() {
			return r
		}
	}
	if len(a) != len(b) {
		return in.c.F
	}
	return r
}

func (in *Interp) fmtScalar(f string, t *Term, ty types.Type) Str {
	if t.isC() {
		return Str{s: fmt.Sprintf(strings.SplitN(f, "(", 2)[0], in.native(t, ty))}
	}
	b := ty.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsInteger != 0 && (f == "%d" || f == "%v" || f == "%d(base 10)"):
		// decimal numbers are the same text whatever their type
		switch {
		case b.Info()&types.IsUnsigned == 0:
			return Str{s: in.token("int", in.c.Sext(t, 64))}
		case t.w < 64:
			return Str{s: in.token("int", in.c.Zext(t, 64))}
		}
		return Str{s: in.token("uint", t)}
	case b.Kind() == types.Bool && f == "%t":
		f = "%v"
	case b.Info()&types.IsFloat != 0 && f == "%g":
		f = "%v"
	case b.Kind() == types.Float64 && strings.HasPrefix(f, "F"):
		var v, p, w int
		if k, _ := fmt.Sscanf(f, "F%d.%d.%d", &v, &p, &w); k == 3 && v == 'g' && w == 64 {
			f = "%v"
			if p >= 0 {
				f = fmt.Sprintf("%%.%dg", p)
			}
		}
	}
	return Str{s: in.token(f+":"+b.String(), t)}
}

func (in *Interp) native(t *Term, ty types.Type) interface{} {
	b := ty.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Bool:
		return t.val == 1
	case types.Int8:
		return int8(t.val)
	case types.Int16:
		return int16(t.val)
	case types.Int32:
		return int32(t.val)
	case types.Int64:
		return int64(t.val)
	case types.Int:
		return int(t.val)
	case types.Uint8:
		return uint8(t.val)
	case types.Uint16:
		return uint16(t.val)
	case types.Uint32:
		return uint32(t.val)
	case types.Uint64:
		return t.val
	case types.Uint:
		return uint(t.val)
	case types.Float32:
		return math.Float32frombits(uint32(t.val))
	case types.Float64:
		return math.Float64frombits(t.val)
	}
	return t.val
}

type sbuf struct{ b []*Term }

func (in *Interp) app(o *[]*Term, s string) {
	for i := 0; i < len(s); i++ {
		*o = append(*o, in.c.Const(8, uint64(s[i])))
	}
}

func (in *Interp) stringer(fr *frame, v Iface) (Str, bool) {
	for _, n := range []string{"Error", "String"} {
		ms := in.P.prog.MethodSets.MethodSet(v.t)
		sel := ms.Lookup(nil, n)
		if sel == nil {
			continue
		}
		sg := sel.Obj().Type().(*types.Signature)
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
			continue
		}
		fn := in.P.prog.MethodValue(sel)
		var s Str
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(tPanic)
					if !ok {
						panic(r)
					}
					if p, ok := v.v.(Ptr); ok && p.o == nil {
						s = Str{s: "<nil>"}
						return
					}
					s = Str{s: "%!v(PANIC=" + n + " method: " + tp.msg + ")"}
				}
			}()
			s = in.callValue(fr, &Closure{fn: fn}, []Value{v.v}).(Str)
		}()
		return s, true
	}
	return Str{}, false
}

// fmtVal appends one operand formatted with a verb such as %.8g.
func (in *Interp) fmtVal(fr *frame, o *[]*Term, spec string, v Iface, depth int) {
	verb := spec[len(spec)-1]
	if verb == 'T' {
		if v.t == nil {
			in.app(o, "<nil>")
		} else {
			in.app(o, v.t.String())
		}
		return
	}
	if v.t == nil {
		if verb == 'v' {
			in.app(o, "<nil>")
		} else {
			in.app(o, "%!"+string(verb)+"(<nil>)")
		}
		return
	}
	if strings.IndexByte("vsqxX", verb) >= 0 && depth < 4 {
		if s, ok := in.stringer(fr, v); ok {
			v = Iface{types.Typ[types.String], s}
		}
	}
	switch x := v.v.(type) {
	case *Term:
		b, ok := v.t.Underlying().(*types.Basic)
		if ok {
			s := in.fmtScalar(spec, x, b)
			in.app(o, s.s)
			return
		}
	case Str:
		if cs, ok := in.constStr(x); ok {
			if strings.IndexByte(cs, 1) >= 0 {
				in.app(o, cs)
			} else {
				in.app(o, fmt.Sprintf(spec, cs))
			}
			return
		}
		if spec == "%s" || spec == "%v" {
			*o = append(*o, in.strBytes(x)...)
			return
		}
		in.app(o, in.token(spec+":symstr", in.c.Const(64, uint64(len(in.tokens)))))
		return
	case Slice:
		et := v.t.Underlying().(*types.Slice).Elem()
		n := int(in.concretize(x.len))
		if sizeof(et) == 1 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			bs := in.sliceBytes(x)
			cs, ok := in.constStr(in.bytesToStr(bs))
			if ok {
				in.app(o, fmt.Sprintf(spec, []byte(cs)))
			} else if spec == "%s" {
				*o = append(*o, bs...)
			} else {
				in.app(o, in.token(spec+":symbytes", in.c.Const(64, uint64(len(in.tokens)))))
			}
			return
		}
		in.app(o, "[")
		for i := 0; i < n; i++ {
			if i > 0 {
				in.app(o, " ")
			}
			ev := in.load(x.p.add(i*sizeof(et)), et)
			if e, ok := ev.(Iface); ok {
				in.fmtVal(fr, o, spec, e, depth+1)
			} else {
				in.fmtVal(fr, o, spec, Iface{et, ev}, depth+1)
			}
		}
		in.app(o, "]")
		return
	case Agg:
		switch u := v.t.Underlying().(type) {
		case *types.Struct:
			in.app(o, "{")
			for i := range x {
				if i > 0 {
					in.app(o, " ")
				}
				if e, ok := x[i].(Iface); ok {
					in.fmtVal(fr, o, spec, e, depth+1)
				} else {
					in.fmtVal(fr, o, spec, Iface{u.Field(i).Type(), x[i]}, depth+1)
				}
			}
			in.app(o, "}")
			return
		case *types.Array:
			in.app(o, "[")
			for i := range x {
				if i > 0 {
					in.app(o, " ")
				}
				in.fmtVal(fr, o, spec, Iface{u.Elem(), x[i]}, depth+1)
			}
			in.app(o, "]")
			return
		}
	case Ptr:
		if x.o == nil {
			in.app(o, "<nil>")
		} else {
			in.app(o, "0xc000000000")
		}
		return
	}
	in.app(o, "?"+v.t.String()+"?")
}

func (in *Interp) sprintf(fr *frame, f Str, args []Iface) (Str, []Iface) {
	fs, ok := in.constStr(f)
	if !ok {
		unsupported("symbolic format string")
	}
	var o []*Term
	var wrapped []Iface
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			o = append(o, in.c.Const(8, uint64(fs[i])))
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			in.app(&o, "%!(NOVERB)")
			break
		}
		if fs[j] == '%' {
			in.app(&o, "%")
			i = j
			continue
		}
		spec := fs[i : j+1]
		if k >= len(args) {
			in.app(&o, "%!"+string(fs[j])+"(MISSING)")
		} else {
			if fs[j] == 'w' {
				wrapped = append(wrapped, args[k])
				if args[k].t == nil {
					in.app(&o, "%!w(<nil>)")
					k++
					i = j
					continue
				}
				spec = spec[:len(spec)-1] + "v"
			}
			in.fmtVal(fr, &o, spec, args[k], 0)
			k++
		}
		i = j
	}
	if k < len(args) {
		in.app(&o, "%!(EXTRA)")
	}
	return in.bytesToStr(o), wrapped
}

func (in *Interp) sprint(fr *frame, args []Iface, ln bool) Str {
	var o []*Term
	prevStr := true
	for i, a := range args {
		_, isStr := a.v.(Str)
		if i > 0 && (ln || !isStr && !prevStr) {
			in.app(&o, " ")
		}
		in.fmtVal(fr, &o, "%v", a, 0)
		prevStr = isStr
	}
	if ln {
		in.app(&o, "\n")
	}
	return in.bytesToStr(o)
}

func (in *Interp) writeTo(fr *frame, w Iface, s Str) Value {
	if w.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := in.P.prog.LookupMethod(w.t, nil, "Write")
	if fn == nil {
		unsupported("Write on " + w.t.String())
	}
	b := in.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), s, 0)
	return in.callValue(fr, &Closure{fn: fn}, []Value{w.v, b})
}

func iErrorf(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	s, wr := in.sprintf(fr, args[0].(Str), in.variadic(args[1]))
	pkg := in.P.prog.ImportedPackage("fmt")
	mk := func(name string, f Agg) Value {
		t := pkg.Type(name).Type()
		o := in.newObj(t, 1)
		in.store(Ptr{o: o}, t, f)
		return Iface{types.NewPointer(t), Ptr{o: o}}
	}
	if len(wr) == 1 && wr[0].t != nil {
		return mk("wrapError", Agg{s, wr[0]})
	}
	if len(wr) == 1 {
		return mk("wrapError", Agg{s, Iface{}})
	}
	if len(wr) > 1 {
		it := types.Universe.Lookup("error").Type()
		o := in.newObj(it, len(wr))
		for i, w := range wr {
			in.store(Ptr{o: o, off: 16 * i}, it, w)
		}
		n := in.c.Const(64, uint64(len(wr)))
		return mk("wrapErrors", Agg{s, Slice{Ptr{o: o}, n, n}})
	}
	ep := in.P.prog.ImportedPackage("errors")
	t := ep.Type("errorString").Type()
	o := in.newObj(t, 1)
	in.store(Ptr{o: o}, t, Agg{s})
	return Iface{types.NewPointer(t), Ptr{o: o}}
}

func (in *Interp) unwrap(fr *frame, e Iface) []Iface {
	sel := in.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap")
	if sel == nil {
		return nil
	}
	sg := sel.Obj().Type().(*types.Signature)
	if sg.Results().Len() != 1 {
		return nil
	}
	r := in.callValue(fr, &Closure{fn: in.P.prog.MethodValue(sel)}, []Value{e.v})
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		return in.variadic(x)
	}
	return nil
}

func iErrorsIs(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	e, target := args[0].(Iface), args[1].(Iface)
	if e.t == nil || target.t == nil {
		return in.c.Bool(e.t == nil && target.t == nil)
	}
	var is func(e Iface) *Term
	is = func(e Iface) *Term {
		r := in.c.F
		if types.Comparable(e.t) && types.Identical(e.t, target.t) {
			r = in.equal(e.t, e.v, target.v)
		}
		if sel := in.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Is"); sel != nil {
			r = in.c.Or(r, in.callValue(fr, &Closure{fn: in.P.prog.MethodValue(sel)}, []Value{e.v, target}).(*Term))
		}
		if r.isT() {
			return r
		}
		for _, u := range in.unwrap(fr, e) {
			if u.t != nil {
				r = in.c.Or(r, is(u))
			}
		}
		return r
	}
	return is(e)
}

func iErrorsAs(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	e, target := args[0].(Iface), args[1].(Iface)
	if e.t == nil {
		return in.c.F
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("errors.As target")
	}
	et := pt.Elem()
	it, isI := et.Underlying().(*types.Interface)
	var as func(e Iface) bool
	as = func(e Iface) bool {
		if isI && types.Implements(e.t, it) {
			in.store(target.v.(Ptr), et, e)
			return true
		}
		if !isI && types.Identical(e.t, et) {
			in.store(target.v.(Ptr), et, e.v)
			return true
		}
		for _, u := range in.unwrap(fr, e) {
			if u.t != nil && as(u) {
				return true
			}
		}
		return false
	}
	return in.c.Bool(as(e))
}

func (in *Interp) indexByte(b []*Term, x *Term) Value {
	r := in.c.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = in.c.Ite(in.c.Eq(b[i], x), in.c.Const(64, uint64(i)), r)
	}
	return r
}
func iBytesEqual(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	a, b := args[0].(Slice), args[1].(Slice)
	return in.strEq(Str{mem: true, p: a.p, n: a.len}, Str{mem: true, p: b.p, n: b.len})
}
func (in *Interp) cmpBytes(a, b []*Term) Value {
	c := in.c
	d := 0
	if len(a) < len(b) {
		d = -1
	} else if len(a) > len(b) {
		d = 1
	}
	r := c.Const(64, uint64(d))
	for i := min(len(a), len(b)) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(a[i], b[i]), r, c.Ite(c.Ult(a[i], b[i]), c.Const(64, ^uint64(0)), c.Const(64, 1)))
	}
	return r
}
func iBytesCompare(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	return in.cmpBytes(in.sliceBytes(args[0].(Slice)), in.sliceBytes(args[1].(Slice)))
}

// sort.Slice: insertion sort with the caller's less (any correct sort is a
// permutation in order; stability is what SliceStable guarantees).
func iSortSlice(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	x := args[0].(Iface)
	s := x.v.(Slice)
	et := x.t.Underlying().(*types.Slice).Elem()
	es := sizeof(et)
	n := int(in.concretize(s.len))
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			lt := in.callValue(fr, args[1], []Value{in.c.Const(64, uint64(j)), in.c.Const(64, uint64(j-1))}).(*Term)
			if !in.branch(lt, 0x50f7) {
				break
			}
			a, b := in.load(s.p.add(j*es), et), in.load(s.p.add((j-1)*es), et)
			in.store(s.p.add(j*es), et, b)
			in.store(s.p.add((j-1)*es), et, a)
		}
	}
	return Tuple{}
}

var _ = token.NoPos
