package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions (shared between workers)

type cinstr struct {
	ins  ssa.Instruction
	ops  []int32
	dst  int32
	site uint64
}
type cblock struct {
	b     *ssa.BasicBlock
	nphi  int
	ins   []cinstr
	idom  int // post-dominator: block index, -1 = exit, -2 = none
	loopy bool
}
type FuncInfo struct {
	fn     *ssa.Function
	name   string
	nslots int
	consts []ssa.Value
	blocks []cblock
	params []int32
	frees  []int32
	intr   intrinsic
	hash   uint64
	pkg    string
	id     int
}

type Program struct {
	prog  *ssa.Program
	mu    sync.Mutex
	fis   map[*ssa.Function]*FuncInfo
	nfi   int
	rtErr types.Type // runtime.errorString
}

const noOp = int32(-1 << 30)

func (P *Program) info(fn *ssa.Function) *FuncInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if fi, ok := P.fis[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, name: fn.String(), id: P.nfi}
	P.nfi++
	if fn.Pkg != nil {
		fi.pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fi.pkg = fn.Origin().Pkg.Pkg.Path()
	}
	P.fis[fn] = fi
	fi.hash = hashStr(fi.name)
	n := fi.name
	if fn.Origin() != nil {
		n = fn.Origin().String()
	}
	fi.intr = intrinsics[n]
	if fi.intr == nil && strings.HasPrefix(fi.pkg, vfPkg) {
		fi.intr = vfIntrinsics[fn.Name()]
	}
	if fi.intr != nil || len(fn.Blocks) == 0 {
		return fi
	}
	slot := map[ssa.Value]int32{}
	add := func(v ssa.Value) int32 {
		s := int32(fi.nslots)
		fi.nslots++
		slot[v] = s
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.frees = append(fi.frees, add(p))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cidx := map[ssa.Value]int32{}
	for _, b := range fn.Blocks {
		cb := cblock{b: b}
		for i, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1, site: fi.hash ^ uint64(b.Index)<<20 ^ uint64(i)}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slot[v]
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.nphi++
			}
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					ci.ops = append(ci.ops, noOp)
					continue
				}
				if s, ok := slot[*op]; ok {
					ci.ops = append(ci.ops, s)
					continue
				}
				k, ok := cidx[*op]
				if !ok {
					k = int32(len(fi.consts))
					fi.consts = append(fi.consts, *op)
					cidx[*op] = k
				}
				ci.ops = append(ci.ops, ^k)
			}
			cb.ins = append(cb.ins, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	postdom(fi)
	return fi
}

// postdom computes immediate post-dominators, ignoring panicking blocks, and
// marks If blocks whose region re-enters a dominating block.
func postdom(fi *FuncInfo) {
	n := len(fi.blocks)
	const words = 64
	nb := n + 1
	sets := make([][]uint64, nb)
	full := make([]uint64, (nb+63)/64)
	for i := 0; i < nb; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	for i := range sets {
		sets[i] = append([]uint64{}, full...)
	}
	for i := range sets[n] {
		sets[n][i] = 0
	}
	sets[n][n/64] |= 1 << (n % 64)
	succs := func(i int) []int {
		b := fi.blocks[i].b
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return []int{n}
			}
		}
		var r []int
		for _, s := range b.Succs {
			r = append(r, s.Index)
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			ss := succs(i)
			nw := append([]uint64{}, full...)
			for _, s := range ss {
				for k := range nw {
					nw[k] &= sets[s][k]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != sets[i][k] {
					sets[i] = nw
					ch = true
					break
				}
			}
		}
	}
	cnt := func(i int) int {
		c := 0
		for k := 0; k < nb; k++ {
			if sets[i][k/64]>>(k%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		fi.blocks[i].idom = -2
		if len(succs(i)) == 0 {
			continue
		}
		// immediate: the strict post-dominator with the largest set
		best, bc := -2, -1
		for k := 0; k < nb; k++ {
			if k != i && sets[i][k/64]>>(k%64)&1 == 1 {
				if c := cnt(k); c > bc {
					best, bc = k, c
				}
			}
		}
		// blocks that cannot reach the exit keep the full set: no usable join
		if sets[i][n/64]>>(n%64)&1 == 0 {
			continue
		}
		canReach := false
		seen := map[int]bool{}
		var dfs func(x int)
		dfs = func(x int) {
			if x == n {
				canReach = true
			}
			if x == n || seen[x] {
				return
			}
			seen[x] = true
			for _, s := range succs(x) {
				dfs(s)
			}
		}
		dfs(i)
		if !canReach {
			continue
		}
		if best == n {
			best = -1
		}
		fi.blocks[i].idom = best
		// loop check
		seen2 := map[int]bool{}
		var walk func(x int)
		walk = func(x int) {
			if x == n || x == best || seen2[x] {
				return
			}
			seen2[x] = true
			if fi.blocks[x].b.Dominates(fi.blocks[i].b) {
				fi.blocks[i].loopy = true
			}
			for _, s := range succs(x) {
				walk(s)
			}
		}
		for _, s := range succs(i) {
			walk(s)
		}
	}
}

// ---- interpreter

type abortKind int

const (
	abInfeasible  abortKind = iota // assumption false
	abUnsupported                  // construct outside the encoding
	abBudget                       // step budget (possible non-termination)
	abCut                          // deliberately cut (allocation beyond limit)
	abDiverged                     // replay mismatch
	abTime                         // global time over
	abStack                        // recursion depth exceeded
	abViolation
	abUnknown
)

type pathAbort struct {
	kind abortKind
	msg  string
}
type specAbort struct{}
type tPanic struct {
	v   Iface
	msg string
}

func unsupported(msg string) { panic(pathAbort{abUnsupported, msg}) }

type Dec struct {
	site uint64
	k    uint8
	val  uint64
}

const (
	dFalse = iota // only false feasible
	dTrue         // only true feasible
	dTookT        // both feasible, took true
	dTookF        // both feasible, took false
	dMergeOK
	dMergeNo
	dVal // candidate value for concretisation
	dChoose
)

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fi        *FuncInfo
	env       []Value
	consts    []Value
	block     int
	prev      int
	defers    []deferred
	result    Value
	panicking *tPanic
	caller    *frame
	spec      int
}

type Interp struct {
	P       *Program
	c       *Ctx
	s       *Solver
	ex      *Explorer
	globals map[*ssa.Global]*Obj
	consts  map[*FuncInfo][]Value
	inited  map[string]bool
	initing bool
	nobj    int
	// path state
	journal  []jent
	pc       []*Term
	model    Model
	dec      []Dec
	pos      int // position in replayed prefix
	prefix   []Dec
	spec     int
	steps    int
	budget   int
	depth    int
	specEnd  int
	mergeNo  map[uint64]int
	mnLog    []uint64
	pending  []pendAssert
	ctr      map[string]int
	inputs   []inputVar
	obs      []obsVal
	tokens   []tok
	pools    map[poolKey]*pool
	tokIdx   map[string]int
	params   map[string]int
	curPos   token.Pos
	unkn     int
	fixDiv   bool   // divisors are made concrete
	hugeOut  bool   // slices of impossible length are left out instead of panicking
	maxAlloc uint64 // larger allocations are fatal (0: left out of the exploration)
	split    bool   // harness asked for Split: no merging of branches
	light    bool   // harness asked for OpaqueFloats
	ncheck   int
	goal     string
	h        *Harness
}

type pendAssert struct {
	c  *Term
	id string
}
type inputVar struct {
	Name string
	t    *Term
	K    string
}
type obsVal struct {
	Name string
	v    *Term
}
type tok struct {
	f string
	t *Term
}

func (in *Interp) constVal(fr *frame, k int32) Value {
	v := fr.consts[k]
	if v == nil {
		v = in.mkConst(fr.fi.consts[k])
		fr.consts[k] = v
	}
	return v
}

func (in *Interp) get(fr *frame, ci *cinstr, k int) Value {
	s := ci.ops[k]
	if s >= 0 {
		return fr.env[s]
	}
	return in.constVal(fr, ^s)
}

type nilVal struct{}

func (in *Interp) mkConst(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constOf(x)
	case *ssa.Global:
		return Ptr{o: in.global(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	unsupported(fmt.Sprintf("constant operand %T", v))
	return nil
}

func (in *Interp) constOf(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return in.zero(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("const of type " + t.String())
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return in.c.Bool(constant.BoolVal(x.Value))
	case u.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(x.Value)}
		}
		return Str{s: string(rune(x.Int64()))}
	case u.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		if u.Kind() == types.Float32 {
			g, _ := constant.Float32Val(x.Value)
			return in.c.Const(32, uint64(math.Float32bits(g)))
		}
		return in.c.Const(64, math.Float64bits(f))
	case u.Info()&types.IsInteger != 0:
		_, w, _ := leafOf(t)
		if u.Info()&types.IsUnsigned != 0 {
			return in.c.Const(w, x.Uint64())
		}
		return in.c.Const(w, uint64(x.Int64()))
	}
	unsupported("const of type " + t.String())
	return nil
}

var initAllow = map[string]bool{"io": true, "bytes": true, "strings": true, "strconv": true, "sort": true, "math": true, "math/bits": true,
	"container/heap": true, "encoding/binary": true, "unicode/utf8": true, "errors": false, "slices": true, "cmp": true, "unicode/utf16": true}

func initPkg(path string) bool {
	if v, ok := initAllow[path]; ok {
		return v
	}
	return strings.HasPrefix(path, "github.com/gogama/flatgeobuf") || strings.HasPrefix(path, "github.com/google/flatbuffers") || strings.HasPrefix(path, "verif/")
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	path := g.Pkg.Pkg.Path()
	if !initPkg(path) && path != "internal/cpu" && !strings.Contains(g.Name(), "$guard") {
		unsupported("global " + g.String() + " of a package whose initialisation is not encoded")
	}
	sv := in.initing
	in.initing = true
	o := in.newObj(g.Type().(*types.Pointer).Elem(), 1)
	in.initing = sv
	o.name = g.String()
	in.globals[g] = o
	return o
}

// ---- panics of the interpreted program

func (in *Interp) rtPanic(msg string) {
	if in.P.rtErr == nil {
		panic(tPanic{v: Iface{types.Typ[types.String], Str{s: "runtime error: " + msg}}, msg: "runtime error: " + msg})
	}
	panic(tPanic{v: Iface{in.P.rtErr, Str{s: msg}}, msg: "runtime error: " + msg})
}

// require continues only where cond holds; elsewhere the program panics.
func (in *Interp) require(cond *Term, site uint64, msg string) {
	if cond.isT() {
		return
	}
	if !in.branch(cond, site) {
		in.rtPanic(msg)
	}
}

// ---- calls

func (in *Interp) callValue(caller *frame, f Value, args []Value) Value {
	switch x := f.(type) {
	case *Closure:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(caller, x.fn, args, x.env)
	}
	unsupported(fmt.Sprintf("call of %T", f))
	return nil
}

var traceCalls = os.Getenv("SYM_TRACE") != ""

func (in *Interp) callFn(caller *frame, fn *ssa.Function, args, env []Value) Value {
	fi := in.P.info(fn)
	if fi.intr != nil {
		return fi.intr(in, caller, fn, args)
	}
	if len(fi.blocks) == 0 {
		// assembly with a portable twin
		if n := fn.Name(); fi.pkg == "math" && strings.HasPrefix(n, "arch") && len(n) > 4 {
			if g := fn.Pkg.Func(strings.ToLower(n[4:])); g != nil {
				return in.callFn(caller, g, args, nil)
			}
		}
		unsupported("no body for " + fi.name)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		if !initPkg(fi.pkg) {
			return Tuple{}
		}
	}
	in.depth++
	if in.depth > 3000 {
		panic(pathAbort{abStack, "recursion deeper than 3000 frames in " + fi.name})
	}
	defer func() { in.depth-- }()
	in.ex.noteFunc(fi)
	fr := &frame{fi: fi, env: make([]Value, fi.nslots), caller: caller, prev: -1, spec: in.spec}
	cs, ok := in.consts[fi]
	if !ok {
		cs = make([]Value, len(fi.consts))
		in.consts[fi] = cs
	}
	fr.consts = cs
	if len(args) != len(fi.params) {
		unsupported(fmt.Sprintf("arity mismatch calling %s: %d args", fi.name, len(args)))
	}
	for i, p := range fi.params {
		fr.env[p] = args[i]
	}
	for i, p := range fi.frees {
		fr.env[p] = env[i]
	}
	if traceCalls {
		fmt.Fprintf(os.Stderr, "%*scall %s\n", in.depth, "", fi.name)
	}
	in.runFrame(fr)
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	hasDefer := fr.fi.fn.Recover != nil || hasDefers(fr.fi)
	if !hasDefer {
		in.exec(fr, -3)
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(tPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = &tp
			in.runDefers(fr)
			if fr.panicking != nil {
				panic(*fr.panicking)
			}
			// recovered
			if fr.fi.fn.Recover != nil {
				fr.block = fr.fi.fn.Recover.Index
				fr.prev = -1
				in.exec(fr, -3)
				return
			}
			fr.result = in.zeroResult(fr.fi.fn)
		}()
		in.exec(fr, -3)
	}()
}
func (in *Interp) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Tuple{}
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

var deferCache sync.Map

func hasDefers(fi *FuncInfo) bool {
	if v, ok := deferCache.Load(fi); ok {
		return v.(bool)
	}
	h := false
	for i := range fi.blocks {
		for k := range fi.blocks[i].ins {
			if _, ok := fi.blocks[i].ins[k].ins.(*ssa.Defer); ok {
				h = true
			}
		}
	}
	deferCache.Store(fi, h)
	return h
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(tPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = &tp
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				in.builtin(fr, nil, b, d.args, d.call)
			} else {
				in.callValue(fr, d.fn, d.args)
			}
		}()
	}
}

// outcome of executing up to a stop block
type outcome struct {
	ret  bool
	phis []Value
}

func (in *Interp) evalPhis(fr *frame, blk, prev int) []Value {
	cb := &fr.fi.blocks[blk]
	if cb.nphi == 0 {
		return nil
	}
	pi := -1
	for i, p := range cb.b.Preds {
		if p.Index == prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		unsupported("phi predecessor")
	}
	vs := make([]Value, cb.nphi)
	for i := 0; i < cb.nphi; i++ {
		vs[i] = in.get(fr, &cb.ins[i], pi)
	}
	return vs
}
func (in *Interp) setPhis(fr *frame, blk int, vs []Value) {
	cb := &fr.fi.blocks[blk]
	for i, v := range vs {
		fr.env[cb.ins[i].dst] = v
	}
}

// exec runs fr from fr.block until return, or until block stop is entered
// (stop = -3: never; -1: run to return).
func (in *Interp) exec(fr *frame, stop int) outcome {
	skipPhi := false
	for {
		blk := fr.block
		cb := &fr.fi.blocks[blk]
		if !skipPhi && cb.nphi > 0 {
			in.setPhis(fr, blk, in.evalPhis(fr, blk, fr.prev))
		}
		skipPhi = false
		next := -1
		for k := cb.nphi; k < len(cb.ins); k++ {
			ci := &cb.ins[k]
			in.steps++
			if in.steps > in.budget {
				panic(pathAbort{abBudget, "step budget exhausted in " + fr.fi.name})
			}
			if in.spec > 0 && in.steps > in.specEnd {
				panic(specAbort{})
			}
			if in.steps&0xfff == 0 && in.ex.timeUp() {
				panic(pathAbort{abTime, "time"})
			}
			switch x := ci.ins.(type) {
			case *ssa.Jump:
				next = cb.b.Succs[0].Index
			case *ssa.If:
				c := in.get(fr, ci, 0).(*Term)
				if c.isC() {
					if c.val == 1 {
						next = cb.b.Succs[0].Index
					} else {
						next = cb.b.Succs[1].Index
					}
					break
				}
				r := in.doIf(fr, ci, cb, blk, c)
				switch r.kind {
				case ifTake:
					next = cb.b.Succs[r.succ].Index
				case ifMergedRet:
					fr.result = r.ret
					return outcome{ret: true}
				case ifMerged:
					if cb.idom == stop {
						return outcome{phis: r.phis}
					}
					in.setPhis(fr, cb.idom, r.phis)
					fr.prev = -1
					fr.block = cb.idom
					skipPhi = true
				}
				if r.kind == ifMerged {
					next = -2
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = in.get(fr, ci, 0)
				default:
					t := make(Tuple, len(ci.ops))
					for i := range t {
						t[i] = in.get(fr, ci, i)
					}
					fr.result = t
				}
				return outcome{ret: true}
			case *ssa.Panic:
				v := in.get(fr, ci, 0).(Iface)
				panic(tPanic{v: v, msg: in.panicText(v)})
			default:
				in.step(fr, ci, x)
			}
		}
		if next == -2 {
			continue
		}
		if next < 0 {
			unsupported("block without terminator")
		}
		if next == stop {
			return outcome{phis: in.evalPhis(fr, next, blk)}
		}
		fr.prev, fr.block = blk, next
	}
}

func (in *Interp) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(Str); ok && !s.mem {
		return s.s
	}
	return v.t.String()
}

// ---- symbolic If

const (
	ifTake = iota
	ifMerged
	ifMergedRet
)

type ifRes struct {
	kind int
	succ int
	phis []Value
	ret  Value
}

func (in *Interp) doIf(fr *frame, ci *cinstr, cb *cblock, blk int, c *Term) ifRes {
	site := ci.site
	if cb.idom != -2 && !cb.loopy && in.mergeNo[site] < 2 && in.depthSpec() {
		if in.pos < len(in.prefix) {
			d := in.next(site)
			if d.k == dMergeOK {
				in.record(d)
				r, ok := in.tryMerge(fr, ci, cb, blk, c)
				if !ok {
					panic(pathAbort{abDiverged, "merge"})
				}
				return r
			}
			if d.k == dMergeNo {
				in.record(d)
				in.noteNoMerge(site)
			} else {
				panic(pathAbort{abDiverged, "merge decision expected"})
			}
		} else {
			mark, mn, tk := len(in.dec), len(in.mnLog), len(in.tokens)
			in.record(Dec{site: site, k: dMergeOK})
			r, ok := in.tryMerge(fr, ci, cb, blk, c)
			if ok {
				in.ex.st.merges.Add(1)
				return r
			}
			in.dec = in.dec[:mark]
			// leave no trace of the failed attempt: a replay skips it
			for _, s := range in.mnLog[mn:] {
				in.mergeNo[s]--
			}
			in.mnLog = in.mnLog[:mn]
			for k, i := range in.tokIdx {
				if i >= tk {
					delete(in.tokIdx, k)
				}
			}
			in.tokens = in.tokens[:tk]
			in.record(Dec{site: site, k: dMergeNo})
			in.noteNoMerge(site)
		}
	}
	if in.branch(c, site+1) {
		return ifRes{kind: ifTake, succ: 0}
	}
	return ifRes{kind: ifTake, succ: 1}
}

func (in *Interp) noteNoMerge(site uint64) {
	in.mergeNo[site]++
	in.mnLog = append(in.mnLog, site)
}

func (in *Interp) depthSpec() bool { return in.spec < 6 && !in.ex.noMerge && !in.split }

type cellKey struct {
	o  *Obj
	ci int
}

type armRes struct {
	out    outcome
	ret    Value
	cells  map[cellKey]Value
	order  []cellKey
	ok     bool
	infeas bool
}

func (in *Interp) arm(fr *frame, blk, succ, stop int, guard *Term) (res armRes) {
	jm := len(in.journal)
	pcm := len(in.pc)
	sblock, sprev, sdef, sdepth := fr.block, fr.prev, len(fr.defers), in.depth
	smodel, sspecEnd := in.model, in.specEnd
	in.spec++
	if in.spec == 1 {
		in.specEnd = in.steps + 6000
	}
	in.pc = append(in.pc, guard)
	if in.model != nil && in.evalModel(guard) != 1 {
		in.model = nil
	}
	defer func() {
		in.spec--
		r := recover()
		// collect writes, then roll back
		if r == nil && res.ok {
			res.cells = map[cellKey]Value{}
			for i := len(in.journal) - 1; i >= jm; i-- {
				j := &in.journal[i]
				if j.undo != nil {
					res.ok = false
					break
				}
				k := cellKey{j.o, j.ci}
				if _, seen := res.cells[k]; !seen {
					res.cells[k] = in.getCell(j.o, j.ci)
					res.order = append(res.order, k)
				}
			}
			if len(fr.defers) != sdef {
				res.ok = false
			}
		}
		in.undoTo(jm)
		in.pc = in.pc[:pcm]
		in.model = smodel
		in.specEnd = sspecEnd
		in.depth = sdepth
		fr.block, fr.prev = sblock, sprev
		fr.defers = fr.defers[:sdef]
		if r != nil {
			switch x := r.(type) {
			case specAbort:
				res.ok = false
			case tPanic:
				res.ok = false
			case pathAbort:
				if x.kind == abInfeasible {
					res.ok, res.infeas = false, true
				} else if x.kind == abUnsupported || x.kind == abBudget || x.kind == abStack || x.kind == abCut {
					res.ok = false // decided again on the forked path
				} else {
					panic(r)
				}
			default:
				panic(r)
			}
		}
	}()
	next := fr.fi.blocks[blk].b.Succs[succ].Index
	if next == stop {
		res.out = outcome{phis: in.evalPhis(fr, next, blk)}
		res.ok = true
		return
	}
	fr.prev, fr.block = blk, next
	res.out = in.exec(fr, stop)
	if res.out.ret {
		if stop != -1 {
			return
		}
		res.ret = fr.result
	}
	res.ok = true
	return
}

func (in *Interp) tryMerge(fr *frame, ci *cinstr, cb *cblock, blk int, c *Term) (ifRes, bool) {
	stop := cb.idom
	fresh := in.nobj
	a := in.arm(fr, blk, 0, stop, c)
	if !a.ok {
		return ifRes{}, false
	}
	b := in.arm(fr, blk, 1, stop, in.c.Not(c))
	if !b.ok {
		return ifRes{}, false
	}
	// merge results first, then memory
	var res ifRes
	if stop == -1 {
		v, ok := in.merge(c, a.ret, b.ret)
		if !ok {
			return ifRes{}, false
		}
		res = ifRes{kind: ifMergedRet, ret: v}
	} else {
		if len(a.out.phis) != len(b.out.phis) {
			return ifRes{}, false
		}
		vs := make([]Value, len(a.out.phis))
		for i := range vs {
			v, ok := in.merge(c, a.out.phis[i], b.out.phis[i])
			if !ok {
				return ifRes{}, false
			}
			vs[i] = v
		}
		res = ifRes{kind: ifMerged, phis: vs}
	}
	type wr struct {
		k cellKey
		v Value
	}
	var ws []wr
	do := func(k cellKey) bool {
		va, oka := a.cells[k]
		vb, okb := b.cells[k]
		if k.o.id > fresh { // allocated by that arm: unreachable from the other
			if !oka {
				va = vb
			}
			ws = append(ws, wr{k, va})
			return true
		}
		old := in.getCell(k.o, k.ci)
		if !oka {
			va = old
		}
		if !okb {
			vb = old
		}
		m, ok := in.merge(c, va, vb)
		if !ok {
			return false
		}
		ws = append(ws, wr{k, m})
		return true
	}
	for _, k := range a.order {
		if !do(k) {
			return ifRes{}, false
		}
	}
	for _, k := range b.order {
		if _, ok := a.cells[k]; !ok && !do(k) {
			return ifRes{}, false
		}
	}
	for _, w := range ws {
		in.setCell(w.k.o, w.k.ci, w.v)
	}
	return res, true
}

// ---- decisions

func (in *Interp) record(d Dec) {
	in.dec = append(in.dec, d)
	in.ex.st.transitions.Add(1)
}
func (in *Interp) next(site uint64) Dec {
	d := in.prefix[in.pos]
	if d.site != site {
		panic(pathAbort{abDiverged, "site mismatch"})
	}
	in.pos++
	return d
}

func (in *Interp) evalModel(t *Term) uint64 {
	return in.c.Eval(t, in.c.newEpoch(), in.model)
}

func (in *Interp) check(extra *Term) (Res, Model) {
	if in.ex.timeUp() {
		panic(pathAbort{abTime, "time"})
	}
	return in.s.Check(in.pc, extra)
}

func (in *Interp) branch(c *Term, site uint64) bool {
	if c.isC() {
		return c.val == 1
	}
	if in.pos < len(in.prefix) {
		d := in.next(site)
		in.record(d)
		switch d.k {
		case dFalse:
			return false
		case dTrue:
			return true
		case dTookT:
			in.pc = append(in.pc, c)
			return true
		case dTookF:
			in.pc = append(in.pc, in.c.Not(c))
			return false
		}
		panic(pathAbort{abDiverged, "branch"})
	}
	nc := in.c.Not(c)
	var rt, rf Res = Unknown, Unknown
	var mt, mf Model
	kt, kf := false, false
	if in.model != nil {
		if in.evalModel(c) == 1 {
			rt, mt, kt = Sat, in.model, true
		} else {
			rf, mf, kf = Sat, in.model, true
		}
		in.s.st.ModelHits++
	}
	if siteProf != nil {
		profMu.Lock()
		siteProf[site]++
		profMu.Unlock()
	}
	if in.light {
		in.s.light = true
		defer func() { in.s.light = false }()
	}
	if !kt {
		rt, mt = in.check(c)
		if rt == Unsat && !kf {
			// pc itself may be infeasible (speculation guards)
			in.record(Dec{site: site, k: dFalse})
			return false
		}
	}
	if !kf {
		rf, mf = in.check(nc)
	}
	if rt == Unknown || rf == Unknown {
		in.unkn++
		in.ex.st.unknownBranch.Add(1)
	}
	if rt == Unsat && rf == Unsat {
		panic(pathAbort{abInfeasible, "unknown branch turned out infeasible"})
	}
	if rf == Unsat {
		in.record(Dec{site: site, k: dTrue})
		if mt != nil {
			in.model = mt
		}
		return true
	}
	if rt == Unsat {
		in.record(Dec{site: site, k: dFalse})
		if mf != nil {
			in.model = mf
		}
		return false
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	in.s.light = false
	in.flush()
	takeT := true
	if kf && !kt {
		takeT = false
	}
	alt := append(append([]Dec{}, in.dec...), Dec{site: site, k: dTookF})
	am := mf
	if !takeT {
		alt[len(alt)-1].k = dTookT
		am = mt
	}
	in.ex.pushItem(item{in.h, alt, in.exportModel(am)})
	if takeT {
		in.record(Dec{site: site, k: dTookT})
		in.pc = append(in.pc, c)
		in.model = mt
		return true
	}
	in.record(Dec{site: site, k: dTookF})
	in.pc = append(in.pc, nc)
	in.model = mf
	return false
}

var siteProf map[uint64]int
var profMu sync.Mutex

func init() {
	if os.Getenv("SYM_PROF") != "" {
		siteProf = map[uint64]int{}
	}
}

func (P *Program) dumpProf() {
	type e struct {
		n int
		s string
	}
	var es []e
	for s, n := range siteProf {
		nm := fmt.Sprintf("%x", s)
		for _, fi := range P.fis {
			for _, b := range fi.blocks {
				for _, ci := range b.ins {
					if ci.site == s || ci.site+1 == s {
						nm = fi.name + " " + P.prog.Fset.Position(ci.ins.Pos()).String() + " " + ci.ins.String()
					}
				}
			}
		}
		es = append(es, e{n, nm})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].n > es[j].n })
	for i, x := range es {
		if i < 25 {
			fmt.Fprintln(os.Stderr, x.n, x.s)
		}
	}
}

func (in *Interp) exportModel(m Model) map[string]uint64 {
	if m == nil {
		return nil
	}
	r := make(map[string]uint64, len(m))
	for t, v := range m {
		r[t.name] = v
	}
	return r
}

func (in *Interp) assume(c *Term) {
	if c.isT() {
		return
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if c.isF() {
		panic(pathAbort{abInfeasible, "assumption false"})
	}
	in.flush()
	site := uint64(0xa55)
	if in.pos < len(in.prefix) {
		in.record(in.next(site))
		in.pc = append(in.pc, c)
		return
	}
	if in.model == nil || in.evalModel(c) != 1 {
		r, m := in.check(c)
		if r == Unsat {
			panic(pathAbort{abInfeasible, "assumption unsatisfiable"})
		}
		in.model = m
	}
	in.record(Dec{site: site, k: dTrue})
	in.pc = append(in.pc, c)
}

// concretize picks a value for t, forking over all feasible values.
func (in *Interp) concretize(t *Term) uint64 {
	for {
		if t.isC() {
			return t.val
		}
		if t.w == 0 {
			if in.branch(t, 0xc0) {
				return 1
			}
			return 0
		}
		var v uint64
		if in.pos < len(in.prefix) {
			d := in.next(0xc1)
			if d.k != dVal {
				panic(pathAbort{abDiverged, "concretise"})
			}
			in.record(d)
			v = d.val
		} else {
			if in.model == nil {
				r, m := in.check(nil)
				if r == Unsat {
					panic(pathAbort{abInfeasible, "infeasible"})
				}
				if r == Unknown {
					panic(pathAbort{abUnknown, "solver gave no value to concretise"})
				}
				in.model = m
			}
			v = in.evalModel(t)
			in.record(Dec{site: 0xc1, k: dVal, val: v})
		}
		if in.branch(in.c.Eq(t, in.c.Const(t.w, v)), 0xc2) {
			return v
		}
	}
}

// choose forks over 0..n-1 without constraining any variable.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.pos < len(in.prefix) {
		d := in.next(0xc4)
		if d.k != dChoose {
			panic(pathAbort{abDiverged, "choose"})
		}
		in.record(d)
		return int(d.val)
	}
	in.flush()
	for k := n - 1; k >= 1; k-- {
		alt := append(append([]Dec{}, in.dec...), Dec{site: 0xc4, k: dChoose, val: uint64(k)})
		in.ex.pushItem(item{in.h, alt, in.exportModel(in.model)})
	}
	in.record(Dec{site: 0xc4, k: dChoose})
	return 0
}
