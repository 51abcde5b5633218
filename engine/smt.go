package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, ModelHits, OneShot, Cvc5, BDD int
	Time                                                           time.Duration
	MaxTime                                                        time.Duration
}

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	emitted map[uint32]bool
	vars    []*Term
	stack   []*Term
	st      *SolverStats
	log     io.Writer
	quickMs int
	hardS   int
	sent    int
	// rank mode: float comparisons are decided over integer ranks (the order of
	// non-NaN floats is that of their signed keys), cut off from the bits
	rank   map[uint32]*Term
	ranks  []*Term
	dd     *bdd
	bddCap int
	bddAll bool // arithmetic is what the property is about: no shortcuts
	inner  bool
	bdd    bool  // try the decision diagram first
	light  bool  // give up (unknown) when uninterpreted float arithmetic does not decide
	rdepth []int // stack depth at which the range of the rank is asserted
	exact  *Solver
}

var slowQ, _ = time.ParseDuration(os.Getenv("SYM_SLOW"))

var z3bin = findBin("z3-new", "z3")

func findBin(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return names[0]
}

const prelude = `(define-fun fkey64 ((a (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 63 63) a) #b1) (bvnot a) (bvor a #x8000000000000000)))
(define-fun fnan64 ((a (_ BitVec 64))) Bool (bvugt (bvand a #x7fffffffffffffff) #x7ff0000000000000))
(define-fun fz64 ((a (_ BitVec 64))) Bool (= (bvand a #x7fffffffffffffff) #x0000000000000000))
(define-fun flt64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (fnan64 a)) (not (fnan64 b)) (bvult (fkey64 a) (fkey64 b)) (not (and (fz64 a) (fz64 b)))))
(define-fun feq64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (fnan64 a)) (not (fnan64 b)) (or (= a b) (and (fz64 a) (fz64 b)))))
(define-fun fle64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (fnan64 a)) (not (fnan64 b)) (or (bvule (fkey64 a) (fkey64 b)) (and (fz64 a) (fz64 b)))))
(define-fun fkey32 ((a (_ BitVec 32))) (_ BitVec 32) (ite (= ((_ extract 31 31) a) #b1) (bvnot a) (bvor a #x80000000)))
(define-fun fnan32 ((a (_ BitVec 32))) Bool (bvugt (bvand a #x7fffffff) #x7f800000))
(define-fun fz32 ((a (_ BitVec 32))) Bool (= (bvand a #x7fffffff) #x00000000))
(define-fun flt32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (fnan32 a)) (not (fnan32 b)) (bvult (fkey32 a) (fkey32 b)) (not (and (fz32 a) (fz32 b)))))
(define-fun feq32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (fnan32 a)) (not (fnan32 b)) (or (= a b) (and (fz32 a) (fz32 b)))))
(define-fun fle32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (fnan32 a)) (not (fnan32 b)) (or (bvule (fkey32 a) (fkey32 b)) (and (fz32 a) (fz32 b)))))
`

func NewSolver(c *Ctx, st *SolverStats) *Solver {
	ex := &Solver{c: c, st: st, quickMs: 5000, hardS: 60}
	if os.Getenv("VF_NORANK") != "" {
		return ex
	}
	return &Solver{c: c, st: st, quickMs: 5000, hardS: 60, rank: map[uint32]*Term{}, exact: ex}
}

func (s *Solver) start() {
	s.emitted = map[uint32]bool{}
	s.vars = nil
	s.stack = nil
	s.sent = 0
	if s.rank != nil {
		s.rank = map[uint32]*Term{}
		s.ranks, s.rdepth = nil, nil
	}
	if d := os.Getenv("SMT_LOG"); d != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s/log%p.smt2", d, s))
	}
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	s.inRaw, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	s.in = bufio.NewWriterSize(s.inRaw, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic ALL)\n" + prelude)
}
func (s *Solver) Close() {
	if s.exact != nil {
		s.exact.Close()
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}
func (s *Solver) send(x string) {
	s.in.WriteString(x)
	s.sent += len(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// fpPrec returns "11 53" / "8 24"
func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

type emitter struct {
	out     *bytes.Buffer
	emitted map[uint32]bool
	vars    *[]*Term
	fdefs   *[]*Term // float-arithmetic terms met
	rank    map[uint32]*Term
	ranks   *[]*Term
}

// rkey is the order key of a float: equal keys exactly for equal floats.
func rkey(w uint8, v uint64) int64 {
	if w == 32 {
		k := int64(v & 0x7fffffff)
		if v>>31&1 == 1 {
			k = -k
		}
		return k
	}
	k := int64(v & (1<<63 - 1))
	if v>>63 == 1 {
		k = -k
	}
	return k
}
func isNaNBits(w uint8, v uint64) bool {
	if w == 32 {
		return v&0x7fffffff > 0x7f800000
	}
	return v&(1<<63-1) > 0x7ff0000000000000
}
func intLit(k int64) string {
	if k < 0 {
		return fmt.Sprintf("(- %d)", -k)
	}
	return strconv.FormatInt(k, 10)
}

// rankOf emits what is needed to name the rank and NaN-ness of a float term.
func (e *emitter) rankOf(t *Term) (string, string) {
	if t.op == OConst {
		if isNaNBits(t.w, t.val) {
			return "0", "true"
		}
		return intLit(rkey(t.w, t.val)), "false"
	}
	id := strconv.Itoa(int(t.id))
	r, n := "r"+id, "n"+id
	if _, ok := e.rank[t.id]; ok {
		return r, n
	}
	if t.op == OIte {
		e.emit(t.a[0])
		ra, na := e.rankOf(t.a[1])
		rb, nb := e.rankOf(t.a[2])
		c := ref(t.a[0])
		fmt.Fprintf(e.out, "(define-fun %s () Int (ite %s %s %s))\n(define-fun %s () Bool (ite %s %s %s))\n", r, c, ra, rb, n, c, na, nb)
	} else {
		fmt.Fprintf(e.out, "(declare-const %s Int)\n(declare-const %s Bool)\n", r, n)
		*e.ranks = append(*e.ranks, t)
	}
	e.rank[t.id] = t
	return r, n
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (e *emitter) emit(t *Term) {
	if t.op == OConst || e.emitted[t.id] {
		return
	}
	// iterative DFS to avoid deep recursion on long chains
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < int(f.t.n) {
			ch := f.t.a[f.i]
			f.i++
			if ch.op != OConst && !e.emitted[ch.id] && !(e.rank != nil && ch.w == 64 && ch.op == OIte && (f.t.op == OFlt || f.t.op == OFle || f.t.op == OFeq)) {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if e.emitted[x.id] {
			continue
		}
		e.emitted[x.id] = true
		e.def(x)
	}
}

func (e *emitter) def(t *Term) {
	o := e.out
	a := func(i int) string { return ref(t.a[i]) }
	switch t.op {
	case OVar:
		fmt.Fprintf(o, "(declare-const %s %s)\n", ref(t), sortOf(t.w))
		*e.vars = append(*e.vars, t)
		return
	case OExtract:
		fmt.Fprintf(o, "(define-fun %s () %s ((_ extract %d %d) %s))\n", ref(t), sortOf(t.w), t.val>>8, t.val&0xff, a(0))
		return
	case OSext:
		fmt.Fprintf(o, "(define-fun %s () %s ((_ sign_extend %d) %s))\n", ref(t), sortOf(t.w), t.w-t.a[0].w, a(0))
		return
	case OFlt, OFle, OFeq:
		if e.rank != nil {
			ra, na := e.rankOf(t.a[0])
			rb, nb := e.rankOf(t.a[1])
			cmp := map[Op]string{OFlt: "<", OFle: "<=", OFeq: "="}[t.op]
			fmt.Fprintf(o, "(define-fun %s () Bool (and (not %s) (not %s) (%s %s %s)))\n", ref(t), na, nb, cmp, ra, rb)
			return
		}
		n := map[Op]string{OFlt: "flt", OFle: "fle", OFeq: "feq"}[t.op]
		fmt.Fprintf(o, "(define-fun %s () Bool (%s%d %s %s))\n", ref(t), n, t.a[0].w, a(0), a(1))
		return
	case OFadd, OFsub, OFmul, OFdiv, OFrti, OFcvt, OFtoS, OSToF, OUToF, OFsqrt:
		fmt.Fprintf(o, "(declare-const %s %s)\n", ref(t), sortOf(t.w))
		if e.fdefs != nil {
			*e.fdefs = append(*e.fdefs, t)
		}
		return
	}
	n := opNames[t.op]
	fmt.Fprintf(o, "(define-fun %s () %s (%s", ref(t), sortOf(t.w), n)
	for i := 0; i < int(t.n); i++ {
		o.WriteByte(' ')
		o.WriteString(a(i))
	}
	o.WriteString("))\n")
}

func fdef(t *Term) string {
	w := t.w
	x := func(i int) string {
		return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.a[i].w), ref(t.a[i]))
	}
	self := fmt.Sprintf("((_ to_fp %s) %s)", fpSort(w), ref(t))
	switch t.op {
	case OFadd, OFsub, OFmul, OFdiv:
		n := map[Op]string{OFadd: "fp.add", OFsub: "fp.sub", OFmul: "fp.mul", OFdiv: "fp.div"}[t.op]
		return fmt.Sprintf("(assert (= %s (%s RNE %s %s)))\n", self, n, x(0), x(1))
	case OFsqrt:
		return fmt.Sprintf("(assert (= %s (fp.sqrt RNE %s)))\n", self, x(0))
	case OFrti:
		m := [...]string{"RTN", "RTP", "RTZ", "RNE", "RNA"}[t.val]
		return fmt.Sprintf("(assert (= %s (fp.roundToIntegral %s %s)))\n", self, m, x(0))
	case OFcvt:
		return fmt.Sprintf("(assert (= %s ((_ to_fp %s) RNE %s)))\n", self, fpSort(w), x(0))
	case OSToF:
		return fmt.Sprintf("(assert (= %s ((_ to_fp %s) RNE %s)))\n", self, fpSort(w), ref(t.a[0]))
	case OUToF:
		return fmt.Sprintf("(assert (= %s ((_ to_fp_unsigned %s) RNE %s)))\n", self, fpSort(w), ref(t.a[0]))
	case OFtoS:
		aw := t.a[0].w
		lim := bitsf(aw, ldexp1(int(w)-1))
		neg := lim | uint64(1)<<(aw-1)
		f := "flt" + strconv.Itoa(int(aw))
		g := "fle" + strconv.Itoa(int(aw))
		// in range: x < 2^(w-1) and x > -2^(w-1)-1  (for w=64: x >= -2^63)
		low := fmt.Sprintf("(%s (_ bv%d %d) %s)", g, neg, aw, ref(t.a[0]))
		if w == 32 && aw == 64 {
			low = fmt.Sprintf("(flt64 (_ bv%d 64) %s)", bitsf(64, -2147483649.0), ref(t.a[0]))
		}
		return fmt.Sprintf("(assert (= %s (ite (and (%s %s (_ bv%d %d)) %s) ((_ fp.to_sbv %d) RTZ %s) (_ bv%d %d))))\n",
			ref(t), f, ref(t.a[0]), lim, aw, low, w, x(0), uint64(1)<<(w-1), w)
	}
	panic("fdef")
}
func ldexp1(e int) float64 {
	r := 1.0
	for i := 0; i < e; i++ {
		r *= 2
	}
	return r
}

func (s *Solver) emit(t *Term) {
	var b bytes.Buffer
	e := emitter{&b, s.emitted, &s.vars, nil, s.rank, &s.ranks}
	e.emit(t)
	s.send(b.String())
	s.ranges()
}

// ranges asserts the range of ranks at the current stack depth.
func (s *Solver) ranges() {
	for i, t := range s.ranks {
		if i < len(s.rdepth) && s.rdepth[i] <= len(s.stack) {
			continue
		}
		lim := "9218868437227405312"
		if t.w == 32 {
			lim = "2139095040"
		}
		s.send(fmt.Sprintf("(assert (<= (- %s) r%d %s))\n", lim, t.id, lim))
		if i < len(s.rdepth) {
			s.rdepth[i] = len(s.stack)
		} else {
			s.rdepth = append(s.rdepth, len(s.stack))
		}
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
		s.ranges()
	}
	for ; k < len(pc); k++ {
		s.emit(pc[k])
		s.send("(push 1)\n(assert " + ref(pc[k]) + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

// readReply reads one s-expression or atom.
func (s *Solver) readReply(to time.Duration) (string, error) {
	type rr struct {
		s string
		e error
	}
	ch := make(chan rr, 1)
	go func() {
		var b strings.Builder
		depth := 0
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- rr{b.String(), err}
				return
			}
			b.WriteString(line)
			depth += strings.Count(line, "(") - strings.Count(line, ")")
			if depth <= 0 && strings.TrimSpace(b.String()) != "" {
				ch <- rr{strings.TrimSpace(b.String()), nil}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.e
	case <-time.After(to):
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("solver timeout")
	}
}

type Model map[*Term]uint64

// Check decides pc ∧ extra (extra may be nil).  On Sat the model is verified by
// concrete evaluation of every conjunct, floats included.
func (s *Solver) Check(pc []*Term, extra *Term) (Res, Model) {
	t0 := time.Now()
	s.st.Queries++
	r, m := s.check(pc, extra)
	d := time.Since(t0)
	if slowQ > 0 && d > slowQ {
		if os.Getenv("SYM_SHOW") != "" {
			fmt.Fprintln(os.Stderr, "PC", pc, "\nEXTRA", extra)
		}
		fmt.Fprintf(os.Stderr, "slow query %.2fs %v pc=%d hadExact=%v oneshots=%d\n", d.Seconds(), r, len(pc), s.exact != nil && s.exact.cmd != nil, s.st.OneShot)
	}
	s.st.Time += d
	if d > s.st.MaxTime {
		s.st.MaxTime = d
	}
	switch r {
	case Sat:
		s.st.SatN++
	case Unsat:
		s.st.UnsatN++
	default:
		s.st.UnknownN++
	}
	return r, m
}

func (s *Solver) verify(pc []*Term, extra *Term, m Model) bool {
	ep := s.c.newEpoch()
	for _, t := range pc {
		if s.c.Eval(t, ep, m) != 1 {
			return false
		}
	}
	return extra == nil || s.c.Eval(extra, ep, m) == 1
}

func (s *Solver) check(pc []*Term, extra *Term) (Res, Model) {
	if extra != nil && extra.isF() {
		return Unsat, nil
	}
	hasF := extra != nil && extra.hasF
	hasC := extra != nil && extra.hasC
	for _, t := range pc {
		hasF = hasF || t.hasF
		hasC = hasC || t.hasC
	}
	if s.bdd && !s.bddAll && hasF && extra != nil && !extra.hasF {
		// most conditions have nothing to do with the arithmetic
		var some []*Term
		for _, t := range pc {
			if !t.hasF {
				some = append(some, t)
			}
		}
		bdd, light := s.bdd, s.light
		s.bdd, s.light = false, true
		r, m := s.check(some, extra)
		s.bdd, s.light = bdd, light
		if r == Unsat || r == Sat && s.verify(pc, extra, m) {
			return r, m
		}
		if light {
			return Unknown, nil
		}
	}
	quick := s.quickMs
	var guess Model // satisfies everything but the float arithmetic
	if s.bdd && (hasF || !hasC || s.bddAll) {
		if s.bddCap == 0 {
			s.bddCap = 6 << 20
		}
		cap, budget := s.bddCap, 30*time.Second
		if s.light && !s.bddAll {
			cap, budget = min(cap, 1<<20), 2*time.Second
		}
		r, m := s.bddCheck(pc, extra, cap, budget)
		if r == Unsat || r == Sat && s.verify(pc, extra, m) {
			s.st.BDD++
			return r, m
		}
		if r == Unknown && !s.inner && !s.bddAll {
			// gave up: learn from what the SMT solver makes of it
			s.inner, s.bdd = true, false
			r, m = s.check(pc, extra)
			s.inner, s.bdd = false, true
			if r != Unknown {
				if s.bddCap > 200_000 {
					s.bddCap /= 4
				}
				return r, m
			}
			if s.bddCap < 6<<20 {
				s.bddCap *= 4
				s.dd = nil
				return s.check(pc, extra)
			}
			return r, m
		}
		guess = m
		if s.light && s.bddAll && hasF && r == Sat {
			return Unknown, nil
		}
		if s.light {
			quick = 300
		} else if m := s.search(pc, extra, guess, 500*time.Millisecond); m != nil {
			return Sat, m
		}
	}
	if s.cmd != nil && s.sent > 64<<20 {
		s.Close()
	}
	if s.cmd == nil {
		s.start()
	}
	next := s.oneShot
	if s.exact != nil {
		next = s.exact.check
	}
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		s.send("(push 1)\n(assert " + ref(extra) + ")\n")
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n", quick))
	s.in.Flush()
	rep, err := s.readReply(time.Duration(quick)*time.Millisecond*2 + 5*time.Second)
	if err != nil || strings.HasPrefix(rep, "(error") {
		if err == nil {
			fmt.Fprintln(os.Stderr, "solver:", rep)
		}
		s.Close()
		return next(pc, extra)
	}
	var m Model
	if rep == "sat" {
		m = s.getModel()
		if m == nil {
			s.Close()
			return next(pc, extra)
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	switch rep {
	case "unsat":
		return Unsat, nil
	case "sat":
		if s.verify(pc, extra, m) {
			return Sat, m
		}
		if !hasF && len(s.ranks) == 0 {
			fmt.Fprintln(os.Stderr, "solver model failed verification (no floats): encoding error")
			return Unknown, nil
		}
	}
	if s.light && hasF {
		return Unknown, nil
	}
	if guess != nil {
		if m := s.search(pc, extra, guess, 5*time.Second); m != nil {
			return Sat, m
		}
	}
	if s.exact != nil && len(s.ranks) == 0 {
		return s.oneShot(pc, extra)
	}
	return next(pc, extra)
}

// search looks for values of the inputs that make pc ∧ extra true although
// float arithmetic is involved, starting from the abstract model m.
func (s *Solver) search(pc []*Term, extra *Term, m Model, budget time.Duration) Model {
	var vars []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			vars = append(vars, t)
		}
		for i := 0; i < int(t.n); i++ {
			walk(t.a[i])
		}
	}
	for _, t := range pc {
		walk(t)
	}
	if extra != nil {
		walk(extra)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	rnd := rand.New(rand.NewSource(1))
	score := func(x Model) int {
		ep := s.c.newEpoch()
		n := 0
		for _, t := range pc {
			n += int(s.c.Eval(t, ep, x))
		}
		if extra != nil {
			n += int(s.c.Eval(extra, ep, x))
		}
		return n
	}
	goal := len(pc)
	if extra != nil {
		goal++
	}
	until := time.Now().Add(budget)
	cur, best := Model{}, -1
	for i := 0; time.Now().Before(until); i++ {
		x := Model{}
		for _, v := range vars {
			x[v] = cur[v]
			if i == 0 {
				x[v] = m[v]
			} else if best < 0 || i%400 == 0 || rnd.Intn(3) == 0 {
				switch {
				case v.w == 64 && rnd.Intn(4) > 0:
					x[v] = math.Float64bits(float64(rnd.Intn(2001)-1000) / float64(int(1)<<rnd.Intn(6)))
				default:
					x[v] = (rnd.Uint64() >> uint(rnd.Intn(64))) & mask(v.w)
				}
			}
		}
		n := score(x)
		if n == goal {
			return x
		}
		if n >= best || i%400 == 0 {
			cur, best = x, n
		}
	}
	return nil
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range s.vars {
		b.WriteString(ref(v))
		b.WriteByte(' ')
	}
	for _, t := range s.ranks {
		if t.op == OVar {
			fmt.Fprintf(&b, "r%d n%d ", t.id, t.id)
		}
	}
	b.WriteString("))\n")
	s.send(b.String())
	s.in.Flush()
	rep, err := s.readReply(20 * time.Second)
	if err != nil || strings.HasPrefix(rep, "(error") {
		return nil
	}
	parseValues(rep, s.vars, m)
	if len(s.ranks) > 0 {
		rv := map[string]string{}
		// (r12 5) (r13 (- 7)) (n12 false)
		f := strings.FieldsFunc(rep, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		for i := 0; i+1 < len(f); i++ {
			if f[i][0] != 'r' && f[i][0] != 'n' {
				continue
			}
			if f[i+1] == "-" && i+2 < len(f) {
				rv[f[i]] = "-" + f[i+2]
			} else {
				rv[f[i]] = f[i+1]
			}
		}
		for _, t := range s.ranks {
			if t.op != OVar {
				continue
			}
			k, err := strconv.ParseInt(rv[fmt.Sprintf("r%d", t.id)], 10, 64)
			if err != nil {
				continue
			}
			sign := uint64(1) << (t.w - 1)
			switch {
			case rv[fmt.Sprintf("n%d", t.id)] == "true":
				if !isNaNBits(t.w, m[t]) {
					m[t] = 0x7ff8000000000001
					if t.w == 32 {
						m[t] = 0x7fc00001
					}
				}
			case k == 0:
				if m[t] != sign {
					m[t] = 0
				}
			case k < 0:
				m[t] = sign | uint64(-k)
			default:
				m[t] = uint64(k)
			}
		}
	}
	return m
}

func parseValues(rep string, vars []*Term, m Model) {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[ref(v)] = v
	}
	f := strings.FieldsFunc(rep, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); {
		v, ok := byName[f[i]]
		if !ok {
			i++
			continue
		}
		x := f[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			n, _ := strconv.ParseUint(x[2:], 16, 64)
			m[v] = n
		case strings.HasPrefix(x, "#b"):
			n, _ := strconv.ParseUint(x[2:], 2, 64)
			m[v] = n
		case x == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			n, _ := strconv.ParseUint(f[i+2][2:], 10, 64)
			m[v] = n
			i += 2
		}
		i += 2
	}
}

// oneShot runs z3 and cvc5 side by side on a self-contained script.
func (s *Solver) oneShot(pc []*Term, extra *Term) (Res, Model) {
	s.st.OneShot++
	var b bytes.Buffer
	var vars, fd []*Term
	e := emitter{&b, map[uint32]bool{}, &vars, &fd, nil, nil}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		e.emit(t)
	}
	for _, t := range fd {
		b.WriteString(fdef(t))
	}
	for _, t := range all {
		fmt.Fprintf(&b, "(assert %s)\n", ref(t))
	}
	b.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(ref(v) + " ")
		}
		b.WriteString("))\n")
	}
	logic := "QF_BV"
	if len(fd) > 0 {
		logic = "QF_BVFP"
	}
	script := "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + prelude + b.String()
	if d := os.Getenv("SMT_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, os.Getpid(), time.Now().UnixNano()), []byte(script), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.hardS)*time.Second)
	defer cancel()
	type ans struct {
		r Res
		m Model
	}
	run := func(name string, args ...string) chan ans {
		ch := make(chan ans, 1)
		go func() {
			cmd := exec.CommandContext(ctx, name, args...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			rep := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(rep, "unsat"):
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(rep, "sat"):
				m := Model{}
				parseValues(rep[3:], vars, m)
				if s.verify2(all, m) {
					ch <- ans{Sat, m}
				} else {
					fmt.Fprintln(os.Stderr, name, "model failed verification")
					ch <- ans{Unknown, nil}
				}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
		return ch
	}
	z := run(z3bin, "-in", "-smt2")
	cv := run("cvc5", "--lang=smt2", "-")
	for k := 0; k < 2; k++ {
		select {
		case a := <-z:
			if a.r != Unknown {
				cancel()
				return a.r, a.m
			}
			z = nil
		case a := <-cv:
			if a.r != Unknown {
				s.st.Cvc5++
				cancel()
				return a.r, a.m
			}
			cv = nil
		}
	}
	return Unknown, nil
}

// verify2 evaluates without the shared memo marks (called from goroutines).
func (s *Solver) verify2(all []*Term, m Model) bool {
	memo := map[*Term]uint64{}
	var ev func(t *Term) uint64
	c2 := NewCtx()
	ev = func(t *Term) uint64 {
		if t.op == OConst {
			return t.val
		}
		if t.op == OVar {
			return m[t]
		}
		if v, ok := memo[t]; ok {
			return v
		}
		// rebuild one node over constants in a private context
		var args [3]*Term
		for i := 0; i < int(t.n); i++ {
			args[i] = c2.Const(t.a[i].w, ev(t.a[i]))
		}
		n := &Term{op: t.op, w: t.w, n: t.n, val: t.val, a: args}
		v := c2.Eval(n, c2.newEpoch(), nil)
		memo[t] = v
		return v
	}
	for _, t := range all {
		if ev(t) != 1 {
			return false
		}
	}
	return true
}
