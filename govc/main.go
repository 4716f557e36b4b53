// govc: contract-based deductive verification of Go code (go/ssa -> SMT).
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Harness is a contract: a function stating preconditions, running real code
// and stating postconditions.
type Harness struct {
	Name     string
	Props    []string
	Def      string
	Fn       *ssa.Function
	Real     map[string]int
	Pairs    []string
	Max      int
	Merge    bool
	Peel     bool
	Whole    bool
	Symbolic bool // cannot be run concretely
	Concrete bool // bounded: only run concretely
}

type Directives struct {
	Harness   []*Harness
	Contracts map[string]*ssa.Function
	Scoped    map[string]map[string]*ssa.Function // for the harnesses of a package vspec/in/X only
	Pairs     map[string]map[string]pair          // set -> function -> pair
}

func parseDirectives(w *World, pkgs []*packages.Package) (*Directives, error) {
	d := &Directives{Contracts: map[string]*ssa.Function{}, Scoped: map[string]map[string]*ssa.Function{}, Pairs: map[string]map[string]pair{}}
	seen := map[*packages.Package]bool{}
	var err error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if seen[p] || !isOurs(p.PkgPath) {
			return
		}
		seen[p] = true
		for _, f := range p.Syntax {
			for _, dl := range f.Decls {
				fd, ok := dl.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				var h *Harness
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//gv:") {
						continue
					}
					fs := strings.Fields(strings.TrimPrefix(c.Text, "//gv:"))
					kv := map[string]string{}
					var pos []string
					for _, x := range fs[1:] {
						if k, v, ok := strings.Cut(x, "="); ok {
							kv[k] = v
						} else {
							pos = append(pos, x)
						}
					}
					switch fs[0] {
					case "harness":
						h = &Harness{Name: pos[0], Props: strings.Split(kv["props"], ","), Def: kv["default"], Fn: w.Prog.FuncValue(obj), Real: map[string]int{}}
						if h.Def == "" {
							h.Def = h.Props[0]
						}
						d.Harness = append(d.Harness, h)
					case "symbolic":
						h.Symbolic = true
					case "peel":
						h.Peel = true // verify the first iteration of loops by itself
					case "whole":
						h.Whole = true // do not look into strings compared with constants
					case "merge":
						h.Merge = true // join the paths of smaller functions too
					case "concrete":
						h.Concrete = true
					case "real":
						h.Real[strings.Join(pos, " ")] = 1
					case "use":
						h.Pairs = append(h.Pairs, pos...)
					case "contract":
						cs := d.Contracts
						if _, ok := inPackage(p.PkgPath); ok {
							if cs = d.Scoped[p.PkgPath]; cs == nil {
								cs = map[string]*ssa.Function{}
								d.Scoped[p.PkgPath] = cs
							}
						}
						cs[strings.Join(pos, " ")] = w.Prog.FuncValue(obj)
					case "pair":
						// //gv:pair <set> <tag> keep=0,1 fn=<name>;<name>
						set := d.Pairs[pos[0]]
						if set == nil {
							set = map[string]pair{}
							d.Pairs[pos[0]] = set
						}
						pr := pair{tag: pos[1]}
						if k, ok := kv["keep"]; ok {
							pr.keep = []int{}
							for _, s := range strings.Split(k, ",") {
								if s == "" {
									continue
								}
								n := 0
								fmt.Sscan(s, &n)
								pr.keep = append(pr.keep, n)
							}
						}
						for _, x := range pos[2:] {
							if x == "always" {
								pr.always = true
							}
						}
						name := strings.ReplaceAll(kv["fn"], "~", " ")
						if name == "" {
							name = fnName(w.Prog.FuncValue(obj))
						}
						set[name] = pr
					default:
						err = fmt.Errorf("unknown directive %s", c.Text)
					}
				}
			}
		}
	})
	sort.Slice(d.Harness, func(i, j int) bool { return d.Harness[i].Name < d.Harness[j].Name })
	return d, err
}

// Result of verifying one harness.
type Result struct {
	H       *Harness
	Obs     []*Oblig
	Unsup   string
	Wall    time.Duration
	Ex      *Exec
	Paths   int
	Steps   int64
	Queries int64
	SolverT time.Duration
	MiniT   time.Duration
	Back    map[string]int64
	Fns     []string
	Used    map[string]int
	Reached map[string]bool
	Loops   int
	Invs    int
	Stopped bool     // given up because an obligation had failed
	Missed  []string // markers the contracts expected to be reached
}

// verify decides a harness.  Where the usual invariants do not carry the proof
// it is tried again with stronger ones, which cost more to find.
func verify(w *World, d *Directives, h *Harness, prop string, stop *int32) *Result {
	t0 := time.Now()
	r := verify1(w, d, h, prop, stop, attempt{})
	for _, a := range []attempt{{cases: true}, {cases: true, peel: true, last: true}} {
		failed := r.Unsup != ""
		for _, o := range r.Obs {
			failed = failed || o.Failed > 0
		}
		if !failed || atomic.LoadInt32(stop) != 0 {
			break
		}
		if time.Since(t0) > 60*time.Second || a.peel && h.Peel {
			a.last = true
		}
		r2 := verify1(w, d, h, prop, stop, a)
		r2.Wall = time.Since(t0)
		if r2.Stopped && atomic.LoadInt32(stop) != 0 && !r2.failed() {
			// stopped from outside: what is known is the first failure
			break
		}
		r = r2
		if a.last {
			break
		}
	}
	if prop != "" && r.failed() {
		atomic.StoreInt32(stop, 1)
	}
	return r
}

// failed: an obligation has failed.
func (r *Result) failed() bool {
	for _, o := range r.Obs {
		if o.Failed > 0 {
			return true
		}
	}
	return false
}

type attempt struct {
	cases, peel bool
	last        bool
}

func verify1(w *World, d *Directives, h *Harness, prop string, stop *int32, a attempt) (r *Result) {
	t0 := time.Now()
	ex := NewExec(w)
	ex.defProp = h.Def
	ex.opts.Real = h.Real
	ex.peel = h.Peel || a.peel
	ex.whole = h.Whole
	ex.cases = a.cases
	if h.Merge {
		ex.mergeMin = 2
	}
	if os.Getenv("GOVC_FORKS") != "" {
		ex.Forks = map[string]int{}
		defer func() {
			var ks []string
			for k, n := range ex.Forks {
				ks = append(ks, fmt.Sprintf("%7d %s", n, k))
			}
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
			for i, k := range ks {
				if i < 40 {
					fmt.Println(k)
				}
			}
		}()
	}
	ex.stopProp, ex.stop = prop, stop
	if prop != "" {
		ex.deadline = t0.Add(200 * time.Second)
		if os.Getenv("VERIF_TIER") == "thorough" {
			ex.deadline = t0.Add(400 * time.Second)
		}
	}
	for k, v := range d.Contracts {
		ex.contracts[k] = v
	}
	for k, v := range d.Scoped[fnPkgPath(h.Fn)] {
		ex.contracts[k] = v
	}
	for _, s := range h.Pairs {
		for k, v := range d.Pairs[s] {
			ex.pairs[k] = v
		}
	}
	r = &Result{H: h, Ex: ex}
	defer func() {
		if q := recover(); q != nil {
			if u, ok := q.(unsupported); ok {
				r.Unsup = u.msg
			} else if _, ok := q.(stopSig); ok {
				r.Stopped = true
			} else {
				r.Unsup = fmt.Sprintf("internal error: %v\n%s", q, debug.Stack())
			}
		}
		ex.s.Close()
		for _, k := range ex.order {
			r.Obs = append(r.Obs, ex.obs[k])
		}
		r.Wall = time.Since(t0)
		r.Paths, r.Steps = ex.Paths, ex.Steps
		r.Queries, r.SolverT, r.MiniT, r.Back = ex.s.Stats.Queries, ex.s.Stats.Time, ex.s.Stats.MiniTime, ex.s.Stats.ByBackend
		for f := range ex.fnsSeen {
			r.Fns = append(r.Fns, f)
		}
		sort.Strings(r.Fns)
		if r.Unsup == "" && !r.Stopped {
			r.Missed = ex.unreached()
		}
		r.Used, r.Reached, r.Loops, r.Invs = ex.used, ex.Reached, ex.Loops, ex.Invs
		r.Ex = nil
	}()
	st := &State{heap: &Heap{m: map[int]Val{}}, known: map[*Term]bool{}, ghost: map[string]Val{}}
	ex.runInit(st)
	st.th = []*Thread{{}}
	ex.st = st
	ex.fnsSeen, ex.ourFns = map[string]bool{}, map[*ssa.Function]bool{}
	ex.push(st, h.Fn, nil, nil, nil)
	ex.Paths, ex.Steps = 0, 0
	ex.runAll([]*State{st}, nil)
	return r
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func main() {
	if v := os.Getenv("GOVC_NODES"); v != "" {
		fmt.Sscan(v, &linNodes)
	}
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(8 << 30)
	verif := flag.String("verif", "/verif", "verification directory")
	repo := flag.String("repo", "/repo", "repository")
	prop := flag.String("prop", "", "property to decide")
	only := flag.String("harness", "", "run only harnesses whose name contains this")
	verbose := flag.Bool("v", false, "verbose")
	conc := flag.Duration("concrete", 0, "only run the contracts concretely for this long")
	flag.Parse()
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		if v := os.Getenv("GOVC_PROFT"); v != "" {
			d, _ := time.ParseDuration(v)
			time.AfterFunc(d, func() { pprof.StopCPUProfile(); os.Exit(1) })
		}
	}
	if *conc > 0 {
		w, pkgs, err := loadWorld(*verif, *repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		d, err := parseDirectives(w, pkgs)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var hs []string
		for _, h := range d.Harness {
			if (*prop == "" || has(h.Props, *prop)) && named(h.Name, *only) {
				hs = append(hs, h.Name)
			}
		}
		out, _ := search(*verif, *repo, *prop, hs, 1, *conc, w, d)
		fmt.Println(out)
		os.Exit(0)
	}
	os.Exit(run(*verif, *repo, *prop, *only, *verbose))
}

func run(verif, repo, prop, only string, verbose bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	w, pkgs, err := loadWorld(verif, repo)
	if err == nil && w.Dropped != "" {
		fmt.Println("contracts left out:", w.Dropped)
	}
	if err != nil {
		fmt.Println("govc: the code under verification could not be loaded:", err)
		return loadFailure(verif, prop, tier, seed, t0, err)
	}
	d, err := parseDirectives(w, pkgs)
	if err != nil {
		fmt.Println("govc:", err)
		return 2
	}
	var hs []*Harness
	var bounded []string
	for _, h := range d.Harness {
		if (prop == "" || has(h.Props, prop)) && (only == "" || named(h.Name, only)) {
			if h.Concrete {
				bounded = append(bounded, h.Name)
			} else {
				hs = append(hs, h)
			}
		}
	}
	// the longest ones first
	heavy := []string{"compact/Reader", "compact/ReaderReset", "parse/Value", "lex/Next"}
	sort.SliceStable(hs, func(i, j int) bool { return index(heavy, hs[i].Name) > index(heavy, hs[j].Name) })
	res := make([]*Result, len(hs))
	var stop int32
	early := make(chan string, 1)
	finished := make(chan struct{})
	var hn []string
	for _, h := range hs {
		hn = append(hn, h.Name)
	}
	var bnd boundedRun
	bndDone := make(chan struct{})
	go func() {
		defer close(bndDone)
		if prop == "" || len(bounded) == 0 {
			return
		}
		bnd.names = bounded
		bnd.budget = 20 * time.Second
		if tier == "thorough" {
			bnd.budget = 300 * time.Second
		}
		bnd.out, bnd.found = search(verif, repo, prop, bounded, seed, bnd.budget, w, d)
		if bnd.found {
			atomic.StoreInt32(&stop, 1)
		}
	}()
	if prop != "" {
		// A proof that takes unusually long is often one of broken code:
		// look for a failing input meanwhile.
		go func() {
			defer close(early)
			select {
			case <-finished:
				return
			case <-time.After(45 * time.Second):
			}
			if out, found := search(verif, repo, prop, hn, seed, 100*time.Second, w, d); found {
				early <- out
				atomic.StoreInt32(&stop, 1)
			}
		}()
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i, h := range hs {
		wg.Add(1)
		go func(i int, h *Harness) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			res[i] = verify(w, d, h, prop, &stop)
			if verbose {
				r := res[i]
				fmt.Printf("== %s: %.1fs paths=%d steps=%d obligations=%d queries=%d solver=%.1fs (mini %.1fs, %v) loops=%d inv=%d\n", h.Name, r.Wall.Seconds(), r.Paths, r.Steps, len(r.Obs), r.Queries, r.SolverT.Seconds(), r.MiniT.Seconds(), r.Back, r.Loops, r.Invs)
				if r.Unsup != "" {
					fmt.Println("   UNSUPPORTED:", r.Unsup)
				}
				for _, m := range r.Missed {
					fmt.Println("   NEVER REACHED:", m)
				}
				for _, o := range r.Obs {
					if o.Failed > 0 {
						fmt.Printf("   FAILED [%s] %s (%d/%d)\n%s", o.Props, o.Label, o.Failed, o.VCs, o.Detail)
						fmt.Println("     model:", o.Model)
					}
				}
			}
		}(i, h)
	}
	wg.Wait()
	close(finished)
	<-bndDone
	if prop == "" {
		bad := 0
		for _, r := range res {
			for _, o := range r.Obs {
				if o.Failed > 0 {
					bad++
				}
			}
			if r.Unsup != "" || len(r.Missed) > 0 {
				bad++
			}
		}
		pprof.StopCPUProfile()
		fmt.Printf("%d harnesses, %d problems, %.1fs\n", len(res), bad, time.Since(t0).Seconds())
		if bad > 0 {
			return 1
		}
		return 0
	}
	found := ""
	if bnd.found {
		found = bnd.out
	}
	select {
	case out := <-early:
		if out != "" {
			found = out
		}
	default:
	}
	return report(verif, repo, prop, tier, seed, t0, w, d, res, found, bnd)
}

// ---- reporting ----

func loadFailure(verif, prop, tier string, seed int64, t0 time.Time, err error) int {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	rp := filepath.Join(dir, "replay", prop+".txt")
	os.WriteFile(rp, []byte("the contracts no longer fit the code:\n"+err.Error()+"\n"), 0o644)
	writeEvidence(verif, prop, map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": 1,
		"coverage": map[string]interface{}{"obligations": 1, "discharged": 0, "checker_cmd": "govc", "trusted_base": trustedBase, "explanation": err.Error()},
	})
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	return 1
}

func writeEvidence(verif, prop string, m map[string]interface{}) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

var trustedBase = []string{
	"govc symbolic execution of go/ssa (this repository)",
	"golang.org/x/tools/go/ssa v0.52.0 translation of the source",
	"z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (unsat answers)",
	"assumed contracts of the standard library (bufio, io, errors, fmt, strings, bytes, math, sync), govc/models_io.go",
}

// boundedRun is a run of the bounded contracts of a property.
type boundedRun struct {
	names  []string
	budget time.Duration
	out    string
	found  bool
	stats  *runStats
}

type runStats struct {
	Runs, Discarded, Distinct int
	Samples                   []string
}

func (b *boundedRun) parse() {
	b.stats = &runStats{}
	if i := strings.Index(b.out, "STATS "); i >= 0 {
		l := b.out[i+6:]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		json.Unmarshal([]byte(l), b.stats)
	}
}
func (b *boundedRun) evals() int {
	if b.stats == nil {
		return 0
	}
	return b.stats.Runs
}
func (b *boundedRun) distinct() int     { return b.stats.Distinct }
func (b *boundedRun) samples() []string { return b.stats.Samples }

// levelOf is the level the manifest claims.
func levelOf(verif, prop string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, _ := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return "exploration"
}

type failure struct {
	r *Result
	o *Oblig
	w string
}

func report(verif, repo, prop, tier string, seed int64, t0 time.Time, w *World, d *Directives, res []*Result, found string, bnd boundedRun) int {
	var fails []failure
	nob, ndis := 0, 0
	nvc := 0
	fns := map[string]bool{}
	contracts := map[string]int{}
	reach := map[string]bool{}
	back := map[string]int64{}
	var solver time.Duration
	var queries int64
	paths, loops, invs := 0, 0, 0
	var steps int64
	var obList []string
	var hlist []string
	for _, r := range res {
		hlist = append(hlist, r.H.Name)
		for _, f := range r.Fns {
			fns[f] = true
		}
		for k, v := range r.Used {
			contracts[k] += v
		}
		for k := range r.Reached {
			reach[r.H.Name+": "+k] = true
		}
		for k, v := range r.Back {
			back[k] += v
		}
		solver += r.SolverT
		queries += r.Queries
		paths += r.Paths
		steps += r.Steps
		loops += r.Loops
		invs += r.Invs
		for _, o := range r.Obs {
			if !has(strings.Split(o.Props, ","), prop) {
				continue
			}
			nob++
			nvc += o.VCs
			if o.Failed == 0 {
				ndis++
				obList = append(obList, fmt.Sprintf("%s: %s (%d verification conditions)", r.H.Name, o.Label, o.VCs))
			} else {
				fails = append(fails, failure{r, o, ""})
			}
		}
		if r.Unsup != "" {
			nob++
			fails = append(fails, failure{r, nil, r.Unsup})
		}
		for _, m := range r.Missed {
			fails = append(fails, failure{r, nil, "the contract holds vacuously: never reached: " + m})
		}
	}
	if nob == 0 && bnd.stats == nil {
		bnd.parse()
	}
	if nob == 0 && bnd.evals() == 0 && found == "" {
		fails = append(fails, failure{nil, nil, "no obligation was generated for this property"})
	}
	var repoFns []string
	for f := range fns {
		if strings.Contains(f, repoMod) {
			repoFns = append(repoFns, strings.ReplaceAll(f, repoMod+"/", ""))
		}
	}
	sort.Strings(repoFns)
	sort.Strings(obList)
	if len(obList) > 400 {
		obList = obList[:400]
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": nob, "discharged": ndis, "verification_conditions": nvc,
			"checker_cmd":               "govc -prop " + prop,
			"trusted_base":              trustedBase,
			"harnesses":                 hlist,
			"functions_under_contract":  repoFns,
			"contracts_used_at_calls":   contracts,
			"obligation_list":           obList,
			"reached_points":            keys(reach),
			"paths":                     paths,
			"instructions_executed":     steps,
			"loops_with_invariants":     loops,
			"invariant_clauses":         invs,
			"solver_queries":            queries,
			"solver_queries_by_backend": back,
			"solver_time_s":             solver.Seconds(),
		},
		"assumptions": assumptions,
	}
	verified := map[string]bool{}
	for _, h := range d.Harness {
		for r := range h.Real {
			verified[r] = true
		}
	}
	as := append([]string{}, assumptions...)
	for _, k := range sortedKeys(contracts) {
		if !verified[k] {
			as = append(as, "assumed contract: "+k)
		}
	}
	ev["assumptions"] = as
	if len(bnd.names) > 0 {
		bnd.parse()
		cov := ev["coverage"].(map[string]interface{})
		cov["bounded"] = map[string]interface{}{"contracts": bnd.names, "budget_s": bnd.budget.Seconds(), "note": "bounded: run concretely on generated inputs, not counted as proved"}
		cov["evaluations"] = bnd.evals()
		cov["distinct_nontrivial"] = bnd.distinct()
		cov["rule"] = "inputs generated at random from VERIF_SEED by the contract's generator; non-trivial: within every precondition, distinct by the hash of all choices made"
		cov["samples"] = bnd.samples()
		if nob == 0 || levelOf(verif, prop) != "proof" {
			ev["level"] = levelOf(verif, prop)
		}
	}
	if w.Dropped != "" {
		ev["coverage"].(map[string]interface{})["contracts_left_out"] = w.Dropped
	}
	code := 0
	if found != "" {
		fails = append(fails, failure{nil, nil, "a failing input was found by running the contracts concretely"})
	}
	if len(fails) > 0 {
		code = reportFailures(verif, repo, prop, tier, seed, w, d, fails, ev, found)
	} else if tier == "thorough" {
		code = thorough(verif, repo, prop, seed, w, d, res, ev)
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	writeEvidence(verif, prop, ev)
	printKnown(verif, prop)
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d vcs=%d paths=%d solver_queries=%d wall=%.1fs\n", prop, nob, ndis, nvc, paths, queries, time.Since(t0).Seconds())
	}
	return code
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var assumptions = []string{
	"lengths of strings, slices and streams are at most 2^56",
	"the modelled standard library functions behave as documented",
	"memory allocation succeeds; goroutine stacks are large enough for the bounded recursion",
	"values handed to the API obey Go's memory model (no concurrent use)",
}

func printKnown(verif, prop string) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "known: "))
		}
	}
}

func reportFailures(verif, repo, prop, tier string, seed int64, w *World, d *Directives, fails []failure, ev map[string]interface{}, early string) int {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	for _, f := range fails {
		if f.o != nil {
			fmt.Printf("govc: obligation not discharged: [%s] %s: %s\n", f.o.Props, f.r.H.Name, f.o.Label)
		} else {
			n := ""
			if f.r != nil {
				n = f.r.H.Name
			}
			fmt.Printf("govc: %s: outside the verifier's reach: %s\n", n, f.w)
		}
	}
	var hn []string
	for _, f := range fails {
		if f.r != nil && !has(hn, f.r.H.Name) {
			hn = append(hn, f.r.H.Name)
		}
	}
	budget := 60 * time.Second
	if tier == "thorough" {
		budget = 300 * time.Second
	}
	out, found := early, early != ""
	if !found {
		out, found = search(verif, repo, prop, hn, seed, budget, w, d)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", prop)
	for _, f := range fails {
		if f.o != nil {
			fmt.Fprintf(&sb, "\nobligation not discharged: %s: %s\nat %s\n%s\nmodel: %v\n", f.r.H.Name, f.o.Label, f.o.Pos, f.o.Detail, f.o.Model)
		} else if f.r == nil && found {
			fmt.Fprintf(&sb, "\n%s\n", f.w)
		} else {
			fmt.Fprintf(&sb, "\noutside the verifier's reach: %s\n", f.w)
		}
	}
	ev["violations"] = len(fails)
	rp := filepath.Join(dir, prop+".txt")
	if found {
		fmt.Fprintf(&sb, "\nfailing input replayed against the real code:\n%s\n", out)
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Println(out)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Fprintf(&sb, "\nno failing input was found by running the contracts concretely:\n%s\n", out)
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

// thorough additionally runs every contract concretely on many random inputs
// (a cross-check of the verifier itself).
func thorough(verif, repo, prop string, seed int64, w *World, d *Directives, res []*Result, ev map[string]interface{}) int {
	var hn []string
	for _, r := range res {
		hn = append(hn, r.H.Name)
	}
	out, found := search(verif, repo, prop, hn, seed, 240*time.Second, w, d)
	ev["coverage"].(map[string]interface{})["concrete_runs"] = out
	if found {
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, prop+".txt")
		os.WriteFile(rp, []byte(out), 0o644)
		fmt.Println(out)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	return 0
}

// replayMain is the program that runs every contract concretely.
func replayMain(d *Directives) string {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"vspec/replay\"\n")
	alias := map[string]string{}
	for _, h := range d.Harness {
		if h.Symbolic {
			continue
		}
		p := fnPkgPath(h.Fn)
		if alias[p] == "" {
			alias[p] = fmt.Sprintf("p%d", len(alias))
			fmt.Fprintf(&sb, "\t%s %q\n", alias[p], p)
		}
	}
	sb.WriteString(")\n\nfunc main() {\n\treplay.Main([]replay.Entry{\n")
	for _, h := range d.Harness {
		if h.Symbolic {
			continue
		}
		fmt.Fprintf(&sb, "\t\t{%q, %q, %s.%s},\n", h.Name, h.Def, alias[fnPkgPath(h.Fn)], h.Fn.Name())
	}
	sb.WriteString("\t})\n}\n")
	return sb.String()
}

// search runs the harnesses concretely against the real code.
func search(verif, repo, prop string, hs []string, seed int64, budget time.Duration, w *World, d *Directives) (string, bool) {
	if len(hs) == 0 {
		return "no harness to run", false
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	ov := filepath.Join(tmp, "overlay.json")
	gen := filepath.Join(tmp, "main.go")
	os.WriteFile(gen, []byte(replayMain(d)), 0o644)
	om := map[string]string{filepath.Join(verif, "contracts", "cmd", "replay", "main.go"): gen}
	for k, v := range w.Overlay {
		om[k] = v
	}
	writeOverlayJSON(om, ov)
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./cmd/replay")
	cmd.Dir = filepath.Join(verif, "contracts")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "replay program does not build: " + string(b), false
	}
	// several processes with different seeds
	type res struct {
		out   string
		found bool
	}
	workers := 4
	ch := make(chan res, workers)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	over := false
	const round = 60 * time.Second // a process does not live long: types made by reflection are never freed
	rounds := int((budget + round - 1) / round)
	for k := 0; k < workers; k++ {
		go func(k int) {
			for n := 0; n < rounds; n++ {
				wd := filepath.Join(tmp, fmt.Sprint("w", k, ".", n))
				os.Mkdir(wd, 0o755)
				start := func(args ...string) (string, error) {
					run := exec.Command("/bin/bash", append([]string{"-c", "ulimit -v 10000000; exec \"$0\" \"$@\"", bin, "-prop", prop, "-dict", repo}, args...)...)
					run.Dir = wd
					run.Env = append(os.Environ(), "GOMAXPROCS=2")
					var b bytes.Buffer
					run.Stdout, run.Stderr = &b, &b
					mu.Lock()
					var err error
					if over {
						err = errors.New("stopped")
					} else if err = run.Start(); err == nil {
						procs[k] = run
					}
					mu.Unlock()
					if err == nil {
						err = run.Wait()
					}
					return b.String(), err
				}
				b, err := start("-harness", strings.Join(hs, ","), "-seed", fmt.Sprint(seed+int64(k)*1000+int64(n)*100), "-budget", (budget / time.Duration(rounds)).String())
				if err != nil && (strings.Contains(b, "out of memory") || strings.Contains(b, "cannot allocate memory")) {
					// is it this input alone that needs all the memory?
					var in int64
					st, _ := os.ReadFile(filepath.Join(wd, "replay.state"))
					name, rest, _ := strings.Cut(strings.TrimPrefix(string(st), "contract "), ", input ")
					fmt.Sscan(rest, &in)
					b, err = start("-harness", name, "-run", fmt.Sprint(in))
				}
				out, found := outcome(prop, wd, b, err, d)
				ch <- res{out, found}
			}
		}(k)
	}
	var all []string
	for k := 0; k < workers*rounds; k++ {
		r := <-ch
		if r.found {
			mu.Lock()
			over = true
			for _, p := range procs {
				p.Process.Kill()
			}
			mu.Unlock()
			for k++; k < workers*rounds; k++ {
				<-ch
			}
			return r.out, true
		}
		all = append(all, r.out)
	}
	// add up the statistics
	var sum runStats
	text := ""
	for _, o := range all {
		var b boundedRun
		b.out = o
		b.parse()
		sum.Runs += b.stats.Runs
		sum.Discarded += b.stats.Discarded
		sum.Distinct += b.stats.Distinct
		if len(sum.Samples) < 3 {
			sum.Samples = append(sum.Samples, b.stats.Samples...)
		}
		if i := strings.Index(o, "STATS "); i >= 0 {
			if j := strings.IndexByte(o[i:], '\n'); j >= 0 {
				o = o[:i] + o[i+j+1:]
			}
		}
		text += o
	}
	js, _ := json.Marshal(sum)
	return fmt.Sprintf("STATS %s\n%s", js, text), false
}

// outcome interprets the output of one replay process.
func outcome(prop, wd, out string, err error, d *Directives) (string, bool) {
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 3 && ee.ExitCode() >= 0 {
		// the program died: the last input is the culprit
		if st, e := os.ReadFile(filepath.Join(wd, "replay.state")); e == nil {
			def := ""
			for _, h := range d.Harness {
				if strings.HasPrefix(string(st), "contract "+h.Name+",") {
					def = h.Def
				}
			}
			if len(out) > 3000 {
				out = out[:3000]
			}
			if prop == "" || has(strings.Split(def, ","), prop) {
				return "FAILING INPUT: " + strings.TrimSpace(string(st)) + " ends the process:\n" + out, true
			}
			return "process ended at " + string(st) + out, false
		}
	}
	if len(out) > 20000 {
		out = out[:20000]
	}
	return out, strings.Contains(out, "FAILING INPUT")
}

// unreached lists the gv.Reach markers of the contract functions executed
// that no path reached.
func (ex *Exec) unreached() (out []string) {
	for f := range ex.ourFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || fnName(c.Call.StaticCallee()) != "vspec/gv.Reach" {
					continue
				}
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					if l := constant.StringVal(k.Value); !ex.Reached[l] {
						out = append(out, l)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return
}

// named: the name contains one of the substrings.
func named(name, subs string) bool {
	for _, s := range strings.Split(subs, ",") {
		if strings.Contains(name, s) {
			return true
		}
	}
	return false
}

func index(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}
