package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gogama/flatgeobuf"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	root := flag.String("root", "/verif", "verification tree")
	only := flag.String("only", "", "run only harnesses with this prefix")
	workers := flag.Int("workers", 8, "")
	limit := flag.Duration("limit", 0, "exploration time limit")
	verbose := flag.Bool("v", false, "")
	noMerge := flag.Bool("nomerge", false, "")
	noEvid := flag.Bool("noevidence", false, "")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	t0 := time.Now()
	hdir := filepath.Join(*root, "harness")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: hdir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "verif/harness/h")
	if err != nil {
		die("load: %v", err)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fis: map[*ssa.Function]*FuncInfo{}}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if t := rt.Type("errorString"); t != nil {
			P.rtErr = t.Type()
		}
	}
	tmp, err := os.MkdirTemp("", "vfrun")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	ex := &Explorer{P: P, prop: *prop, thorough: *tier == "thorough", noMerge: *noMerge, nworkers: *workers, start: t0,
		allocLimit: 1 << 33, stepBudget: 4_000_000, maxCases: 24, known: map[string]bool{}, tried: map[string]int{}, listed: map[string]bool{},
		verbose: *verbose, outDir: filepath.Join(*root, "violations", *prop)}
	os.RemoveAll(ex.outDir)
	kfText := readKnown(filepath.Join(*root, "known-findings.txt"), *prop, ex.listed)
	var names []string
	for n, m := range spkgs[0].Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, *prop+"_") && strings.HasPrefix(n, *only) && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		die("no harness for %s", *prop)
	}
	for _, n := range names {
		ex.hs = append(ex.hs, &Harness{name: n, fn: spkgs[0].Func(n), asserts: map[string]int{}, reached: map[string]bool{}, incon: map[string]int{}, params: map[string]int64{}})
	}
	// native build of the same harnesses against the same tree
	ex.replayer = filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-o", ex.replayer, "./cmd/replay")
	cmd.Dir = hdir
	if b, err := cmd.CombinedOutput(); err != nil {
		die("replay build: %v\n%s", err, b)
	}
	loadS := time.Since(t0).Seconds()
	d := *limit
	if d == 0 {
		d = 420 * time.Second
		if ex.thorough {
			d = 2400 * time.Second
		}
	}
	ex.deadline = time.Now().Add(d)
	ex.run()
	if siteProf != nil {
		P.dumpProf()
	}
	exploreS := time.Since(t0).Seconds() - loadS
	validated, mismatches := 0, []string{}
	if len(ex.viols) == 0 {
		validated, mismatches = ex.validate(tmp)
	}
	code := ex.report(*tier, kfText, validated, mismatches, loadS, exploreS, t0, *root, *noEvid)
	os.RemoveAll(tmp)
	os.Exit(code)
}

// readKnown reads the committed known findings: "known: property=ID finding=NAME text".
func readKnown(path, prop string, listed map[string]bool) map[string]string {
	text := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "finding=") {
			continue
		}
		n := strings.TrimPrefix(f[2], "finding=")
		listed[n] = true
		text[n] = strings.Join(f[3:], " ")
	}
	return text
}

// validate runs sampled paths natively and compares what they observe.
func (ex *Explorer) validate(tmp string) (int, []string) {
	ok := 0
	var bad []string
	for _, h := range ex.hs {
		if len(h.cases) == 0 {
			continue
		}
		p := filepath.Join(tmp, h.name+".batch.json")
		b, _ := json.Marshal(h.cases)
		os.WriteFile(p, b, 0o644)
		cmd := exec.Command("timeout", "60", ex.replayer, "batch", p)
		var out, er bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &er
		err := cmd.Run()
		dec := json.NewDecoder(&out)
		n := 0
		for ; n < len(h.cases); n++ {
			var r struct {
				Code int
				Msg  string
			}
			if dec.Decode(&r) != nil {
				break
			}
			switch r.Code {
			case 0, 5:
				ok++
			default:
				if len(r.Msg) > 400 {
					r.Msg = r.Msg[:400]
				}
				bad = append(bad, fmt.Sprintf("%s: code %d: %s", h.name, r.Code, r.Msg))
				if r.Code == 3 {
					cs := h.cases[n]
					cs.Detail = "encoding sampled this path as passing; the real code fails: " + r.Msg
					os.MkdirAll(ex.outDir, 0o755)
					path := filepath.Join(ex.outDir, fmt.Sprintf("%s_native_%d.json", h.name, n))
					jb, _ := json.MarshalIndent(cs, "", " ")
					os.WriteFile(path, jb, 0o644)
					if rep, o := ex.replay(path, "", false); rep {
						ex.viols = append(ex.viols, Violation{cs, path, true, o})
					}
				} else if os.Getenv("VF_KEEP") != "" {
					jb, _ := json.MarshalIndent(h.cases[n], "", " ")
					os.WriteFile(fmt.Sprintf("%s/%s_%d.json", os.Getenv("VF_KEEP"), h.name, n), jb, 0o644)
				}
			}
		}
		if n < len(h.cases) {
			s := er.String()
			if len(s) > 300 {
				s = s[:300]
			}
			bad = append(bad, fmt.Sprintf("%s: native run stopped after %d of %d cases: %v %s", h.name, n, len(h.cases), err, s))
		}
	}
	return ok, bad
}

// declaredReach lists the Reach ids in the harness package code a harness can call.
func declaredReach(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
	if seen[fn] || fn == nil {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "verif/harness/h") {
					declaredReach(f, seen, out)
				}
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), vfPkg) && f.Name() == "Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						out[s] = true
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		declaredReach(a, seen, out)
	}
}

func (ex *Explorer) report(tier string, kfText map[string]string, validated int, mism []string, loadS, exploreS float64, t0 time.Time, root string, noEvid bool) int {
	tot := SolverStats{}
	for _, s := range ex.solvers {
		tot.Queries += s.Queries
		tot.SatN += s.SatN
		tot.UnsatN += s.UnsatN
		tot.BDD += s.BDD
		tot.UnknownN += s.UnknownN
		tot.ModelHits += s.ModelHits
		tot.OneShot += s.OneShot
		tot.Cvc5 += s.Cvc5
		tot.Time += s.Time
		if s.MaxTime > tot.MaxTime {
			tot.MaxTime = s.MaxTime
		}
	}
	paths, infeas, cut := 0, 0, 0
	var steps int64
	asserts := 0
	var harn []map[string]interface{}
	var samples []interface{}
	var incon, vacuous []string
	complete := true
	for _, h := range ex.hs {
		paths += h.paths
		infeas += h.infeas
		cut += h.cut
		steps += h.steps
		for _, n := range h.asserts {
			asserts += n
		}
		left := h.dropped + len(h.stack)
		if left > 0 {
			complete = false
			incon = append(incon, fmt.Sprintf("%s: exploration time over, %d subtrees not explored", h.name, left))
		}
		bad := left
		for m, n := range h.incon {
			incon = append(incon, fmt.Sprintf("%s: %s (%d paths)", h.name, m, n))
			bad += n
			complete = false
		}
		decl := map[string]bool{}
		declaredReach(h.fn, map[*ssa.Function]bool{}, decl)
		for id := range decl {
			if h.reached[id] || bad > 0 {
				continue
			}
			if len(h.reached) == 0 {
				vacuous = append(vacuous, h.name+"/"+id)
			} else {
				incon = append(incon, h.name+": never reached: "+id)
				complete = false
			}
		}
		harn = append(harn, map[string]interface{}{
			"harness": h.name, "bounds": h.params, "paths": h.paths, "infeasible": h.infeas, "cut_at_stated_bound": h.cut,
			"assertions_discharged": h.asserts, "witnessed": keys(h.reached), "longest_path_steps": h.maxSteps, "most_decisions": h.maxDec,
			"fully_explored": bad == 0, "worker_s": round(h.wall.Seconds()),
		})
		for i, c := range h.cases {
			if i < 1 {
				if len(c.Inputs) > 60 {
					c.Inputs = c.Inputs[:60]
				}
				samples = append(samples, c)
			}
		}
	}
	sort.Strings(incon)
	sort.Strings(vacuous)
	for _, u := range ex.unconf {
		incon = append(incon, fmt.Sprintf("%s: solver counterexample for %s did not reproduce on the real code (%s): %s", u.Case.Harness, u.Case.Assert, u.Path, firstLine(u.Output)))
	}
	for _, m := range mism {
		incon = append(incon, "encoding/real mismatch: "+m)
	}
	for i, s := range incon {
		if i < 40 {
			if len(s) > 1500 && !ex.verbose {
				s = s[:1500]
			}
			fmt.Println("INCONCLUSIVE: " + s)
		}
	}
	for _, v := range ex.kfs {
		if ex.listed[v.Case.Finding] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", ex.prop, kfText[v.Case.Finding], v.Case.Finding)
		}
	}
	code := 0
	for _, v := range ex.viols {
		fmt.Printf("VIOLATION property=%s replay=%s\n", ex.prop, v.Path)
		fmt.Printf("  harness %s assertion %s %s\n", v.Case.Harness, v.Case.Assert, v.Case.Detail)
		for _, l := range strings.SplitN(v.Output, "\n", 8)[:min(7, len(strings.SplitN(v.Output, "\n", 8)))] {
			fmt.Println("  | " + l)
		}
		code = 1
	}
	if code == 0 && len(vacuous) > 0 {
		fmt.Println("VACUOUS: never reached: " + strings.Join(vacuous, ", "))
		code = 2
	}
	nfun := ex.funcList(modPath)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fmt.Printf("%s %s: %d paths (%d infeasible, %d cut), %d branch decisions, %d assertions on paths, %d solver queries (%d unsat, %d sat, %d unknown; %d answered by a cached model), solver %.1fs, load %.1fs, explore %.1fs, %d/%d sampled paths agree natively, %d functions of the repository encoded\n",
		ex.prop, tier, paths, infeas, cut, ex.st.transitions.Load(), asserts, tot.Queries, tot.UnsatN, tot.SatN, tot.UnknownN, tot.ModelHits, tot.Time.Seconds(), loadS, exploreS, validated, validated+len(mism), len(nfun))
	if noEvid {
		return code
	}
	ev := map[string]interface{}{
		"property": ex.prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.Since(t0).Seconds()),
		"violations": len(ex.viols),
		"assumptions": []string{
			"bounds listed under coverage.harnesses[].bounds; inputs beyond them are not covered",
			"trusted: go/ssa translation, the interpreter in /verif/engine and its intrinsics (math rounding, fmt, errors, sort.Slice, strconv), z3/cvc5; sampled paths are compared with the real code (traces_validated_against_impl)",
			"allocations above the stated size are cut (allocation of declared sizes is assumed to succeed)",
			"float to integer conversion out of range behaves as on amd64",
		},
		"coverage": map[string]interface{}{
			"states":                        paths + infeas + cut,
			"transitions":                   ex.st.transitions.Load(),
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete,
			"explanation":                   "symbolic execution of the go/ssa of the real code; states = symbolic paths, transitions = symbolic branch decisions; every assertion on a path is decided by the solver for all inputs of that path",
			"harnesses":                     harn,
			"functions_encoded":             nfun,
			"other_functions_encoded":       len(ex.funcList("")) - len(nfun),
			"assertions_on_paths":           asserts,
			"solver":                        map[string]interface{}{"queries": tot.Queries, "unsat": tot.UnsatN, "sat": tot.SatN, "unknown": tot.UnknownN, "answered_by_cached_model": tot.ModelHits, "one_shot": tot.OneShot, "answered_by_cvc5": tot.Cvc5, "answered_by_decision_diagram": tot.BDD, "time_s": round(tot.Time.Seconds()), "longest_query_s": round(tot.MaxTime.Seconds()), "binary": z3bin},
			"merged_regions":                ex.st.merges.Load(),
			"instructions_interpreted":      steps,
			"inconclusive":                  append([]string{}, incon...),
			"known_findings_reproduced":     len(ex.kfs),
			"load_s":                        round(loadS),
			"explore_s":                     round(exploreS),
		},
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", ex.prop+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
	return code
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ types.Type
