package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	h     *Harness
	dec   []Dec
	model map[string]uint64
}

type Harness struct {
	name     string
	fn       *ssa.Function
	stack    []item
	running  int
	used     time.Duration
	mu       sync.Mutex
	paths    int
	infeas   int
	cut      int
	pending  int
	dropped  int
	asserts  map[string]int
	reached  map[string]bool
	params   map[string]int64
	incon    map[string]int
	cases    []Case
	seen     int
	maxSteps int
	maxDec   int
	steps    int64
	wall     time.Duration
}

type CaseIn struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}
type CaseObs struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}
type Case struct {
	Property string    `json:"property,omitempty"`
	Harness  string    `json:"harness"`
	Thorough bool      `json:"thorough"`
	Inputs   []CaseIn  `json:"inputs"`
	Obs      []CaseObs `json:"obs,omitempty"`
	Assert   string    `json:"assert,omitempty"`
	Finding  string    `json:"finding,omitempty"`
	Detail   string    `json:"detail,omitempty"`
	End      string    `json:"end,omitempty"`
}

type exStats struct {
	paths, transitions, merges, unknownBranch atomic.Int64
}

type Violation struct {
	Case      Case
	Path      string
	Confirmed bool
	Output    string
}

type Explorer struct {
	P          *Program
	prop       string
	thorough   bool
	noMerge    bool
	allocLimit uint64
	stepBudget int
	deadline   time.Time
	start      time.Time
	nworkers   int
	st         exStats
	solvers    []*SolverStats

	mu      sync.Mutex
	cond    *sync.Cond
	nstack  int
	busy    int
	stop    bool
	timeout bool

	hs       []*Harness
	cur      sync.Map
	funcs    sync.Map
	known    map[string]bool
	kfs      []Violation
	viols    []Violation
	unconf   []Violation
	tried    map[string]int
	replayer string
	outDir   string
	maxCases int
	verbose  bool
	listed   map[string]bool
}

func (ex *Explorer) timeUp() bool { return time.Now().After(ex.deadline) || ex.stopped() }
func (ex *Explorer) stopped() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.stop
}

func (ex *Explorer) pushItem(it item) {
	ex.mu.Lock()
	it.h.stack = append(it.h.stack, it)
	ex.nstack++
	it.h.pending++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) noteFunc(fi *FuncInfo) {
	if _, ok := ex.funcs.Load(fi.name); !ok {
		ex.funcs.Store(fi.name, fi.pkg)
	}
}
func (ex *Explorer) noteAssert(in *Interp, id string) {
	h := in.h
	h.mu.Lock()
	h.asserts[id]++
	h.mu.Unlock()
}
func (ex *Explorer) noteParam(in *Interp, n string, v int64) {
	h := in.h
	h.mu.Lock()
	h.params[n] = v
	h.mu.Unlock()
}
func (ex *Explorer) reach(in *Interp, id string) {
	h := in.h
	h.mu.Lock()
	ok := h.reached[id]
	h.mu.Unlock()
	if ok {
		return
	}
	// a witness: the path condition (with guards) must be satisfiable
	if in.model == nil {
		r, m := in.s.Check(in.pc, nil)
		if r != Sat {
			return
		}
		in.model = m
	}
	h.mu.Lock()
	h.reached[id] = true
	h.mu.Unlock()
}
func (ex *Explorer) inconclusive(in *Interp, msg string) {
	h := in.h
	h.mu.Lock()
	h.incon[msg]++
	h.mu.Unlock()
}
func (ex *Explorer) knownSeen(f string) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.known[f]
}

func (in *Interp) caseOf(m Model) Case {
	c := Case{Property: in.ex.prop, Harness: in.h.name, Thorough: in.ex.thorough}
	ep := in.c.newEpoch()
	for _, v := range in.inputs {
		c.Inputs = append(c.Inputs, CaseIn{v.Name, in.c.Eval(v.t, ep, m)})
	}
	return c
}

func (ex *Explorer) violation(in *Interp, id string, m Model, finding, detail string) {
	cs := in.caseOf(m)
	cs.Assert = id
	cs.Finding = finding
	cs.Detail = detail
	key := in.h.name + "/" + id + "/" + finding
	ex.mu.Lock()
	if ex.tried[key] >= 6 || ex.stop {
		ex.mu.Unlock()
		return
	}
	ex.tried[key]++
	n := ex.tried[key]
	ex.mu.Unlock()
	os.MkdirAll(ex.outDir, 0o755)
	path := filepath.Join(ex.outDir, fmt.Sprintf("%s_%s_%d.json", in.h.name, sanitize(id+finding), n))
	b, _ := json.MarshalIndent(cs, "", " ")
	os.WriteFile(path, b, 0o644)
	ok, out := ex.replay(path, finding, detail == "hang")
	v := Violation{cs, path, ok, out}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	switch {
	case finding != "" && ok:
		if !ex.known[finding] {
			ex.known[finding] = true
			ex.kfs = append(ex.kfs, v)
			if !ex.listed[finding] {
				ex.viols = append(ex.viols, v)
				ex.stop = true
			}
		}
	case ok:
		ex.viols = append(ex.viols, v)
		ex.stop = true
		ex.cond.Broadcast()
	default:
		ex.unconf = append(ex.unconf, v)
	}
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// replay runs the counterexample against the real code.
func (ex *Explorer) replay(path, finding string, hang bool) (bool, string) {
	cmd := exec.Command(ex.replayer, "case", path)
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-done
		return hang, "did not finish within 20 s"
	}
	s := out.String()
	if len(s) > 3000 {
		s = s[:3000]
	}
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case 3: // assertion failed or panic escaped
			return true, s
		case 2: // runtime fatal error (stack overflow, out of memory)
			if strings.Contains(s, "stack overflow") || strings.Contains(s, "stack exceeds") {
				return true, s
			}
			return strings.Contains(s, "out of memory"), s
		case 5:
			return finding != "", s
		}
	}
	return false, s
}

// ---- running one path

func (in *Interp) runPath(it item) {
	if in.h != it.h {
		in.s.bddCap = 0
	}
	in.h = it.h
	in.goal = it.h.name
	in.split, in.maxAlloc, in.hugeOut, in.fixDiv = false, 0, false, false
	in.light, in.s.light, in.s.bdd, in.s.bddAll = false, false, false, false
	in.prefix = it.dec
	in.pos = 0
	in.dec = in.dec[:0]
	in.pc = nil
	in.spec = 0
	in.steps = 0
	in.budget = in.ex.stepBudget
	in.depth = 0
	in.mergeNo = map[uint64]int{}
	in.mnLog = in.mnLog[:0]
	in.pending = nil
	in.ctr = map[string]int{}
	in.inputs = nil
	in.obs = nil
	in.tokens = nil
	in.pools = map[poolKey]*pool{}
	in.tokIdx = map[string]int{}
	in.ncheck = 0
	in.model = nil
	var m Model
	if it.model != nil {
		m = Model{}
		for n, v := range it.model {
			if t, ok := in.c.vars[n]; ok {
				m[t] = v
			} else {
				in.pendModel(n, v, m)
			}
		}
	} else if len(it.dec) == 0 {
		m = Model{}
	}
	in.model = m
	ab := pathAbort{kind: -1}
	var tp *tPanic
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathAbort:
				ab = x
			case tPanic:
				tp = &x
			case specAbort:
				ab = pathAbort{abUnsupported, "speculation escaped"}
			default:
				ab = pathAbort{abUnsupported, fmt.Sprintf("engine: %v", r)}
				if in.ex.verbose {
					debug.PrintStack()
				}
			}
		}()
		in.callFn(nil, it.h.fn, nil, nil)
	}()
	in.spec = 0
	h := it.h
	if len(in.pending) > 0 {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(pathAbort); ok {
						ab = x
						tp = nil
						return
					}
					panic(r)
				}
			}()
			in.flush()
		}()
	}
	if in.pos < len(in.prefix) && ab.kind == -1 && tp == nil {
		ab = pathAbort{abDiverged, "prefix not consumed"}
	}
	if tp != nil {
		if in.pos < len(in.prefix) {
			ab = pathAbort{abDiverged, "panic in prefix: " + tp.msg}
		} else {
			if in.model == nil {
				r, m := in.s.Check(in.pc, nil)
				if r == Unsat {
					ab = pathAbort{abInfeasible, ""}
				} else if r == Unknown {
					in.ex.inconclusive(in, "panic of unknown feasibility: "+tp.msg)
				} else {
					in.model = m
				}
			}
			if in.model != nil {
				in.ex.violation(in, "no-panic", in.model, "", "panic: "+tp.msg)
				ab = pathAbort{abViolation, "panic"}
			}
		}
	}
	if ab.kind == abBudget || ab.kind == abStack {
		if in.model == nil {
			if r, m := in.s.Check(in.pc, nil); r == Sat {
				in.model = m
			}
		}
		if in.model != nil {
			in.ex.violation(in, "terminates", in.model, "", "hang")
		}
	}
	// sample for native validation
	if ab.kind == -1 && (len(h.cases) < in.ex.maxCases || h.seen%17 == 0) && !(in.light && in.model == nil) {
		if in.model == nil {
			if r, m := in.s.Check(in.pc, nil); r == Sat {
				in.model = m
			}
		}
		if in.model != nil {
			cs := in.caseOf(in.model)
			ep := in.c.newEpoch()
			for _, o := range in.obs {
				cs.Obs = append(cs.Obs, CaseObs{o.Name, in.c.Eval(o.v, ep, in.model)})
			}
			h.mu.Lock()
			if len(h.cases) < in.ex.maxCases {
				h.cases = append(h.cases, cs)
			} else {
				h.cases[(h.seen/17)%in.ex.maxCases] = cs
			}
			h.mu.Unlock()
		}
	}
	in.undoTo(0)
	h.mu.Lock()
	h.seen++
	h.steps += int64(in.steps)
	h.maxSteps = max(h.maxSteps, in.steps)
	h.maxDec = max(h.maxDec, len(in.dec))
	switch ab.kind {
	case -1, abViolation:
		h.paths++
	case abInfeasible:
		h.infeas++
	case abCut:
		h.cut++
	case abTime:
		h.dropped++
	case abBudget:
		h.incon["step budget: "+ab.msg]++
	case abStack:
		h.incon["recursion: "+ab.msg]++
	case abUnsupported:
		h.incon["not encodable: "+ab.msg]++
	case abDiverged:
		h.incon["engine replay divergence: "+ab.msg]++
	default:
		h.incon[ab.msg]++
	}
	h.mu.Unlock()
	in.ex.st.paths.Add(1)
}

// pendModel keeps a value for a variable this worker has not created yet.
func (in *Interp) pendModel(n string, v uint64, m Model) {
	w, ok := in.ex.cur.Load(n)
	if !ok {
		return
	}
	m[in.c.Var(n, w.(uint8))] = v
}

func (ex *Explorer) newInterp() *Interp {
	in := &Interp{P: ex.P, ex: ex, c: NewCtx(), globals: map[*ssa.Global]*Obj{}, consts: map[*FuncInfo][]Value{}, budget: 50_000_000}
	st := &SolverStats{}
	ex.mu.Lock()
	ex.solvers = append(ex.solvers, st)
	ex.mu.Unlock()
	in.s = NewSolver(in.c, st)
	if ex.thorough {
		in.s.hardS = 240
		if in.s.exact != nil {
			in.s.exact.hardS = 240
		}
	}
	in.mergeNo = map[uint64]int{}
	in.ctr = map[string]int{}
	in.tokIdx = map[string]int{}
	in.h = &Harness{asserts: map[string]int{}, reached: map[string]bool{}, incon: map[string]int{}, params: map[string]int64{}}
	// run package initialisers of the encoded packages
	in.initing = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "package initialisation failed: %v\n", r)
				if _, ok := r.(pathAbort); !ok {
					debug.PrintStack()
				}
				os.Exit(2)
			}
		}()
		done := map[*ssa.Package]bool{}
		_ = done
		in.callFn(nil, ex.hs[0].fn.Pkg.Func("init"), nil, nil)
	}()
	in.initing = false
	in.journal = in.journal[:0]
	return in
}

func (ex *Explorer) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	in := ex.newInterp()
	defer func() { in.s.Close() }()
	for {
		ex.mu.Lock()
		for ex.nstack == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || ex.nstack == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		if time.Now().After(ex.deadline) {
			ex.timeout = true
			ex.stop = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		// the harness that has had the least time goes first
		var bh *Harness
		for _, h := range ex.hs {
			if len(h.stack) > 0 && (bh == nil || h.used+time.Duration(h.running)*50*time.Millisecond < bh.used+time.Duration(bh.running)*50*time.Millisecond) {
				bh = h
			}
		}
		it := bh.stack[len(bh.stack)-1]
		bh.stack = bh.stack[:len(bh.stack)-1]
		ex.nstack--
		bh.pending--
		bh.running++
		ex.busy++
		ex.mu.Unlock()
		t0 := time.Now()
		in.runPath(it)
		it.h.mu.Lock()
		it.h.wall += time.Since(t0)
		it.h.mu.Unlock()
		ex.mu.Lock()
		it.h.running--
		it.h.used += time.Since(t0)
		ex.busy--
		ex.mu.Unlock()
		ex.cond.Broadcast()
		if len(in.c.tab) > 3_000_000 {
			in.s.Close()
			in = ex.newInterp()
		}
	}
}

func (ex *Explorer) run() {
	ex.cond = sync.NewCond(&ex.mu)
	for i := len(ex.hs) - 1; i >= 0; i-- {
		h := ex.hs[i]
		h.stack = append(h.stack, item{h: h})
		ex.nstack++
		h.pending++
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.nworkers; i++ {
		wg.Add(1)
		go ex.worker(&wg)
	}
	done := make(chan struct{})
	go func() { // wake sleepers when time runs out
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
				ex.cond.Broadcast()
				if ex.verbose {
					ex.mu.Lock()
					s := fmt.Sprintf("[%4.0fs] queue %d busy %d paths %d", time.Since(ex.start).Seconds(), ex.nstack, ex.busy, ex.st.paths.Load())
					for _, h := range ex.hs {
						if h.pending > 0 {
							s += fmt.Sprintf(" %s:%d", h.name, h.pending)
						}
					}
					ex.mu.Unlock()
					fmt.Fprintln(os.Stderr, s)
				}
			}
		}
	}()
	wg.Wait()
	close(done)
}

func (ex *Explorer) funcList(prefix string) []string {
	var r []string
	ex.funcs.Range(func(k, v interface{}) bool {
		if strings.HasPrefix(v.(string), prefix) {
			r = append(r, k.(string))
		}
		return true
	})
	sort.Strings(r)
	return r
}
