package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	fn    *ssa.Function
	name  string // as reported
	h     string // as called
	shard int
	n     int
	p     *Program
	rp    *replayer
}

type jobResult struct {
	job  job
	e    *Engine
	wall time.Duration
}

type replayer struct {
	once sync.Once
	bin  string
	err  error
	dir  string
	p    *Program
	pkg  string
	hs   []string
	dirs []string
	n    int
	mu   sync.Mutex
}

// build compiles the harness package natively (against the same working tree)
// with a generated main that runs one harness on given inputs.
func (r *replayer) build() {
	r.once.Do(func() {
		var b strings.Builder
		fmt.Fprintf(&b, "package main\nimport (\n\"os\"\n\"fmt\"\nh %q\n\"%s/zzverif/sym\"\n)\nvar tab = map[string]func(){\n", r.p.module+"/zzverif/"+r.pkg, r.p.module)
		for _, h := range r.hs {
			fmt.Fprintf(&b, "%q: h.%s,\n", h, h)
		}
		b.WriteString("}\nfunc main() {\n f := tab[os.Args[1]]\n if f == nil { fmt.Println(\"NOHARNESS\"); os.Exit(3) }\n if err := sym.LoadInputs(os.Args[2]); err != nil { panic(err) }\n sym.Run(f)\n}\n")
		mf := filepath.Join(r.dir, "main.go")
		if r.err = os.WriteFile(mf, []byte(b.String()), 0644); r.err != nil {
			return
		}
		over := map[string]string{}
		for k, v := range r.p.over {
			over[k] = v
		}
		over[filepath.Join(r.p.repo, "zzverif", r.pkg+"_main", "main.go")] = mf
		st, err := standOverlay(r.p.repo, r.p.module, r.dir, r.p.over, r.dirs)
		if err != nil {
			r.err = err
			return
		}
		for k, v := range st {
			over[k] = v
		}
		js, _ := json.Marshal(map[string]interface{}{"Replace": over})
		of := filepath.Join(r.dir, "overlay.json")
		os.WriteFile(of, js, 0644)
		r.bin = filepath.Join(r.dir, "replay")
		cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", of, "-o", r.bin, "./zzverif/"+r.pkg+"_main")
		cmd.Dir = r.p.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
		var out []byte
		out, err = cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("native build: %v: %s", err, out)
		}
	})
}

func (r *replayer) run(h string, inputs map[string]string) (string, string, error) {
	r.build()
	if r.err != nil {
		return "", "", r.err
	}
	r.mu.Lock()
	r.n++
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.txt", r.n))
	r.mu.Unlock()
	var ks []string
	for k := range inputs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s %s\n", k, inputs[k])
	}
	os.WriteFile(f, []byte(b.String()), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, h, f)
	cmd.Dir = r.dir
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return string(out) + "TIMEOUT\n", f, nil
	}
	if err != nil && len(out) == 0 {
		return "", f, err
	}
	return string(out), f, nil
}

type known struct {
	prop, harness, label, text string
}

// known findings: lines "finding: property=<id> harness=<H> label=<label> :: <text>"
func loadKnown(path, prop string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := known{}
		parts := strings.SplitN(l, "::", 2)
		if len(parts) == 2 {
			k.text = strings.TrimSpace(parts[1])
		}
		for _, w := range strings.Fields(parts[0]) {
			kv := strings.SplitN(w, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "harness":
				k.harness = kv[1]
			case "label":
				k.label = kv[1]
			}
		}
		if k.prop == prop {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	var (
		repo   = flag.String("repo", "/repo", "")
		verif  = flag.String("verif", "/verif", "")
		prop   = flag.String("prop", "", "property id")
		pkg    = flag.String("pkg", "", "harness package (default lower-case id)")
		only   = flag.String("only", "", "run harnesses with this substring")
		tier   = flag.String("tier", "quick", "")
		budget = flag.Int("budget", 0, "seconds per harness")
		extra  = flag.String("dirs", "", "additional harness dirs (comma separated)")
		ato    = flag.Int("assert", 0, "seconds per assertion")
		verb   = flag.Bool("v", false, "")
		shardF = flag.Int("shard", -1, "")
	)
	flag.Parse()
	if *pkg == "" {
		*pkg = strings.ToLower(*prop)
	}
	rc := runCheck(*repo, *verif, *prop, *pkg, *only, *tier, *budget, *extra, *ato, *verb, *shardF)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func runCheck(repo, verif, prop, pkg, only, tier string, budget int, extra string, ato int, verb bool, shardF int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hdir := filepath.Join(verif, "harness")
	evPath := filepath.Join(verif, "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evPath), 0755)
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	// the harness packages of a property: <id> and <id>_*; each is loaded on
	// its own, so that one that does not fit the tree does not lose the others
	var pkgs []string
	if ds, err := os.ReadDir(hdir); err == nil {
		for _, d := range ds {
			if n := d.Name(); d.IsDir() && (n == pkg || strings.HasPrefix(n, pkg+"_")) {
				pkgs = append(pkgs, n)
			}
		}
	}
	// lemmas.txt: harnesses of other properties that this one builds on, a
	// package and the names taken from it (all if none) per line; they decide
	// what the contracts used here take for granted
	lemma := map[string]map[string]bool{}
	if b, err := os.ReadFile(filepath.Join(hdir, pkg, "lemmas.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			ws := strings.Fields(l)
			if len(ws) == 0 || lemma[ws[0]] != nil {
				continue
			}
			lemma[ws[0]] = map[string]bool{}
			for _, w := range ws[1:] {
				lemma[ws[0]][w] = true
			}
			pkgs = append(pkgs, ws[0])
		}
	}
	var notes []string
	type loaded struct {
		pk string
		p  *Program
		rp *replayer
		hs []string
		hp *ssa.Package
	}
	lds := make([]*loaded, len(pkgs))
	lerr := make([]error, len(pkgs))
	var lw sync.WaitGroup
	for i, pk := range pkgs {
		lw.Add(1)
		go func(i int, pk string) {
			defer lw.Done()
			dirs := []string{"sym", "hook", "ref", "world", pk}
			if b, err := os.ReadFile(filepath.Join(hdir, pk, "deps.txt")); err == nil {
				dirs = append(dirs, strings.Fields(string(b))...)
			}
			if extra != "" {
				dirs = append(dirs, strings.Split(extra, ",")...)
			}
			sub := filepath.Join(tmp, pk)
			os.MkdirAll(sub, 0755)
			p, err := loadProgram(repo, hdir, sub, dirs, []string{"./zzverif/" + pk})
			if err != nil {
				lerr[i] = err
				return
			}
			hp := p.pkgs[p.module+"/zzverif/"+pk]
			if hp == nil {
				lerr[i] = fmt.Errorf("no harness package %s", pk)
				return
			}
			hp.Build()
			l := &loaded{pk: pk, p: p, hp: hp}
			var all []string
			for n, m := range hp.Members {
				if _, ok := m.(*ssa.Function); ok && (strings.HasPrefix(n, "H_") || strings.HasPrefix(n, "T_")) {
					all = append(all, n)
					take := n[0] == 'H' || tier == "thorough"
					if ns, ok := lemma[pk]; ok {
						take = n[0] == 'H' && (len(ns) == 0 || ns[n])
					}
					if take {
						l.hs = append(l.hs, n)
					}
				}
			}
			sort.Strings(l.hs)
			l.rp = &replayer{dir: sub, p: p, pkg: pk, hs: all, dirs: dirs}
			lds[i] = l
		}(i, pk)
	}
	lw.Wait()
	var hashave sync.WaitGroup
	for i, pk := range pkgs {
		if lerr[i] != nil {
			// the harness does not fit this tree: nothing is decided by it
			fmt.Printf("NOTE property=%s harness package %s does not load on this tree: %v\n", prop, pk, lerr[i])
			notes = append(notes, "harness package "+pk+" did not load: "+lerr[i].Error())
			continue
		}
		hashave.Add(1)
		go func(r *replayer) { r.build(); hashave.Done() }(lds[i].rp)
	}

	perH := 240 * time.Second
	if tier == "thorough" {
		perH = 700 * time.Second
	}
	if budget > 0 {
		perH = time.Duration(budget) * time.Second
	}
	hardStop := t0.Add(perH + 60*time.Second)
	if len(lemma) > 0 {
		hardStop = hardStop.Add(120 * time.Second)
	}

	var jobs []job
	for _, l := range lds {
		if l == nil {
			continue
		}
		for _, h := range l.hs {
			if only != "" && !strings.Contains(l.pk+"."+h, only) {
				continue
			}
			fn, name := l.hp.Func(h), h
			if _, ok := lemma[l.pk]; ok {
				name = l.pk + "." + h
			}
			if n := staticShard(fn); n > 0 {
				for i := 0; i < n; i++ {
					if shardF < 0 || i == shardF {
						jobs = append(jobs, job{fn, name, h, i, n, l.p, l.rp})
					}
				}
			} else {
				jobs = append(jobs, job{fn, name, h, 0, 0, l.p, l.rp})
			}
		}
	}
	results := make([]jobResult, len(jobs))
	guard := &memGuard{run: map[*Engine]bool{}}
	go guard.watch()
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ts := time.Now()
			e := NewEngine(j.p)
			guard.add(e)
			e.harness = j.name
			e.shard = j.shard
			e.nshard = j.n
			e.dead = ts.Add(perH)
			if e.dead.After(hardStop) {
				e.dead = hardStop
			}
			if ato > 0 {
				e.assertTO = time.Duration(ato) * time.Second
			} else if tier == "thorough" {
				e.assertTO = 90 * time.Second
			}
			e.replay = func(in map[string]string) (string, error) {
				out, _, err := j.rp.run(j.h, in)
				return out, err
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(pathEnd); !ok {
							e.errs[fmt.Sprintf("engine: %v", r)]++
						}
					}
				}()
				st := e.newState()
				e.pushFrame(st, j.fn, nil, nil, nil)
				e.explore(st)
			}()
			e.sol.Close()
			guard.drop(e)
			results[i] = jobResult{j, e, time.Since(ts)}
			if verb {
				fmt.Fprintf(os.Stderr, "%-40s %6.1fs paths=%d forks=%d q=%d errs=%d cands=%d\n", fmt.Sprintf("%s/%d", j.name, j.shard), time.Since(ts).Seconds(), e.paths, e.nforks, e.stats.Queries, len(e.errs), len(e.cands))
			}
		}(i, j)
	}
	wg.Wait()
	hashave.Wait()

	kn := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	viol := 0
	knownSeen := map[string]bool{}
	for _, l := range lds {
		if l != nil && l.rp.err != nil {
			notes = append(notes, l.rp.err.Error())
			if verb {
				fmt.Fprintln(os.Stderr, l.rp.err)
			}
		}
	}
	validated := 0
	var samples []interface{}
	replayed := map[string]bool{}
	for _, r := range results {
		e := r.e
		if e == nil {
			continue
		}
		for _, c := range e.cands {
			if c.Verdict != "confirmed" {
				notes = append(notes, fmt.Sprintf("unconfirmed candidate %s %s %s: %s", r.job.name, c.Kind, c.Label, c.Verdict))
				if verb {
					fmt.Fprintln(os.Stderr, "UNCONFIRMED", r.job.name, c.Kind, c.Label, c.Inputs, c.Note)
				}
				continue
			}
			isKnown := false
			for _, k := range kn {
				if k.harness == r.job.name && (k.label == "" || k.label == strings.ReplaceAll(c.Label, " ", "_")) {
					isKnown = true
					if !knownSeen[k.harness+k.label] {
						knownSeen[k.harness+k.label] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					}
				}
			}
			if isKnown {
				continue
			}
			viol++
			rf := filepath.Join(verif, "evidence", fmt.Sprintf("%s.replay-%d.txt", prop, viol))
			var b strings.Builder
			fmt.Fprintf(&b, "# property %s harness %s\n# %s: %s\n# native outcome: %s\n", prop, r.job.name, c.Kind, c.Label, strings.ReplaceAll(c.Note, "\n", " | "))
			for _, n := range c.Order {
				fmt.Fprintf(&b, "%s %s\n", n, c.Inputs[n])
			}
			os.WriteFile(rf, []byte(b.String()), 0644)
			if viol <= 5 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
				fmt.Printf("  %s %s %s inputs=%v\n", r.job.name, c.Kind, c.Label, c.Inputs)
			}
			if len(samples) < 6 {
				samples = append(samples, map[string]interface{}{"violation": c.Label, "inputs": c.Inputs})
			}
		}
		// vacuity guard and translator validation: replay witnesses natively
		var ls []string
		for l := range e.reachWant {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			w := e.reach[l]
			if w == nil {
				notes = append(notes, fmt.Sprintf("no witness for %s in %s/%d", l, r.job.name, r.job.shard))
				if verb {
					fmt.Fprintln(os.Stderr, "NOWITNESS", r.job.name, r.job.shard, l)
				}
				continue
			}
			if replayed[r.job.name+l] && len(results) > 12 {
				continue
			}
			replayed[r.job.name+l] = true
			out, _, err := r.job.rp.run(r.job.h, w.Inputs)
			good := err == nil && strings.Contains(out, "REACH "+l+"\n")
			if good {
				for n, v := range w.Probes {
					if !strings.Contains(out, "PROBE "+n+" "+v+"\n") {
						good = false
						notes = append(notes, fmt.Sprintf("probe mismatch %s in %s: predicted %s", n, r.job.name, v))
					}
				}
			}
			if good {
				validated++
				if len(samples) < 6 {
					samples = append(samples, map[string]interface{}{"harness": r.job.name, "witness": l, "inputs": w.Inputs})
				}
			} else {
				notes = append(notes, fmt.Sprintf("witness %s of %s not reproduced natively", l, r.job.name))
				if verb {
					fmt.Fprintln(os.Stderr, "WITNESS MISMATCH", r.job.name, l, w.Inputs, w.Probes, out, err)
				}
			}
		}
	}
	rep := writeEvidence(evPath, prop, tier, seed, results, samples, time.Since(t0), viol, notes)
	rep["validated"] = validated
	cov := rep["coverage"].(map[string]interface{})
	if n := claimNote(verif, prop); n != "" {
		cov["bounds"].(map[string]string)["stated"] = n
	}
	var also []string
	for k := range lemma {
		also = append(also, k)
	}
	if sort.Strings(also); len(also) > 0 {
		cov["lemmas_decided_too"] = also
	}
	finishEvidence(evPath, rep, validated)
	if verb || os.Getenv("GOSYM_REPORT") != "" {
		printReport(results, notes)
	}
	fmt.Printf("property=%s tier=%s harness-runs=%d paths=%v assertions=%v discharged=%v undecided=%v queries=%v solver_s=%.1f validated=%d wall=%.1fs\n",
		prop, tier, len(jobs), cov["paths"], cov["obligations"], cov["discharged"], cov["undecided"], cov["smt_queries"], cov["solver_s"], validated, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

// memGuard ends the exploration with the most terms when memory runs low.
type memGuard struct {
	mu  sync.Mutex
	run map[*Engine]bool
}

func (g *memGuard) add(e *Engine) { g.mu.Lock(); g.run[e] = true; g.mu.Unlock() }
func (g *memGuard) drop(e *Engine) {
	g.mu.Lock()
	delete(g.run, e)
	g.mu.Unlock()
	e.work, e.later = nil, nil
	e.c.tab, e.c.terms = nil, nil
}

func (g *memGuard) watch() {
	live := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	for range time.Tick(time.Second) {
		metrics.Read(live)
		if live[0].Value.Uint64() < 6<<30 {
			continue
		}
		g.mu.Lock()
		var big *Engine
		for e := range g.run {
			if atomic.LoadInt32(&e.kill) == 0 && (big == nil || atomic.LoadInt64(&e.size) > atomic.LoadInt64(&big.size)) {
				big = e
			}
		}
		if big != nil {
			atomic.StoreInt32(&big.kill, 1)
		}
		g.mu.Unlock()
		time.Sleep(5 * time.Second)
		runtime.GC()
	}
}

// claimNote is what claims.json states about the bounds of a property.
func claimNote(verif, prop string) string {
	b, err := os.ReadFile(filepath.Join(verif, "claims.json"))
	if err != nil {
		return ""
	}
	var c struct {
		Claims map[string]struct{ Note string }
	}
	json.Unmarshal(b, &c)
	return c.Claims[prop].Note
}

// staticShard finds a call sym.Shard(n) with constant n in the harness body.
func staticShard(fn *ssa.Function) int { return staticShardR(fn, map[*ssa.Function]bool{}) }

func staticShardR(fn *ssa.Function, seen map[*ssa.Function]bool) int {
	if seen[fn] {
		return 0
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				g := c.Call.StaticCallee()
				if g == nil {
					continue
				}
				if strings.HasSuffix(g.String(), symPkg+"Shard") {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						return int(k.Int64())
					}
				}
				if g.Pkg == fn.Pkg {
					if n := staticShardR(g, seen); n > 0 {
						return n
					}
				}
			}
		}
	}
	return 0
}

func writeEvidence(path, prop, tier string, seed int, rs []jobResult, samples []interface{}, wall time.Duration, viol int, notes []string) map[string]interface{} {
	cov := map[string]interface{}{}
	var paths, forks, instrs, queries, sat, unsat, unk, syn, slv, failed, undec int64
	var solver float64
	funcs := map[string]int{}
	contr := map[string]int{}
	bounds := map[string]string{}
	errs := map[string]int{}
	cuts := map[string]int{}
	perH := map[string]map[string]interface{}{}
	for _, r := range rs {
		e := r.e
		if e == nil {
			continue
		}
		paths += int64(e.paths)
		forks += int64(e.nforks)
		instrs += e.instrs
		queries += e.stats.Queries
		sat += e.stats.SatN
		unsat += e.stats.UnsatN
		unk += e.stats.UnknownN
		solver += float64(e.stats.Time) / 1e9
		for k, v := range e.funcs {
			funcs[k] += v
		}
		for k, v := range e.contr {
			contr[k] += v
		}
		for k, v := range e.bounds {
			bounds[r.job.name+"."+k] = v
		}
		for k, v := range e.errs {
			errs[r.job.name+": "+k] += v
		}
		for k, v := range e.cuts {
			cuts[r.job.name+": "+k] += v
		}
		h := perH[r.job.name]
		if h == nil {
			h = map[string]interface{}{"paths": int64(0), "wall_s": 0.0, "assertions": map[string]string{}}
			perH[r.job.name] = h
		}
		h["paths"] = h["paths"].(int64) + int64(e.paths)
		h["wall_s"] = h["wall_s"].(float64) + r.wall.Seconds()
		for _, l := range e.aorder {
			a := e.asserts[l]
			syn += int64(a.Syntactic)
			slv += int64(a.Solver)
			failed += int64(a.Failed)
			undec += int64(a.Unknown_)
			h["assertions"].(map[string]string)[l] = fmt.Sprintf("normal-form %d, solver %d, failed %d, undecided %d", a.Syntactic, a.Solver, a.Failed, a.Unknown_)
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	cov["states"] = paths + forks
	cov["transitions"] = instrs
	cov["traces_validated_against_impl"] = 0
	cov["samples"] = samples
	cov["paths"] = paths
	cov["obligations"] = syn + slv + failed + undec
	cov["discharged"] = syn + slv
	cov["discharged_by_solver"] = slv
	cov["discharged_by_normal_form"] = syn
	cov["undecided"] = undec
	cov["smt_queries"] = queries
	cov["smt_sat"] = sat
	cov["smt_unsat"] = unsat
	cov["smt_unknown"] = unk
	cov["solver_s"] = solver
	cov["functions_encoded"] = funcs
	cov["contracts_used"] = contr
	cov["bounds"] = bounds
	cov["harnesses"] = perH
	if len(errs) > 0 {
		cov["not_covered"] = errs
	}
	if len(cuts) > 0 {
		cov["paths_cut_at_bound"] = cuts
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	cov["explanation"] = "symbolic execution of the SSA of the current working tree; every assertion on every feasible path within the bounds is decided by the term normal form or an SMT solver over all input values"
	rep := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{"SSA construction by golang.org/x/tools/go/ssa and the interpreter in gosym match the Go semantics (checked by replaying witnesses natively)", "z3 and cvc5 answer unsat only for unsatisfiable queries"},
	}
	finishEvidence(path, rep, 0)
	return rep
}

func finishEvidence(path string, rep map[string]interface{}, validated int) {
	cov := rep["coverage"].(map[string]interface{})
	cov["traces_validated_against_impl"] = validated
	out := map[string]interface{}{}
	for k, v := range rep {
		if k != "validated" {
			out[k] = v
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func printReport(rs []jobResult, notes []string) {
	type agg struct{ syn, sol, fail, unk int }
	m := map[string]*agg{}
	var order []string
	errs := map[string]int{}
	for _, r := range rs {
		if r.e == nil {
			continue
		}
		for _, l := range r.e.aorder {
			k := r.job.name + " " + l
			a := m[k]
			if a == nil {
				a = &agg{}
				m[k] = a
				order = append(order, k)
			}
			s := r.e.asserts[l]
			a.syn += s.Syntactic
			a.sol += s.Solver
			a.fail += s.Failed
			a.unk += s.Unknown_
		}
		for k, v := range r.e.errs {
			errs[r.job.name+": "+k] += v
		}
		for k, v := range r.e.cuts {
			errs["CUT "+r.job.name+": "+k] += v
		}
	}
	for _, k := range order {
		a := m[k]
		fl := ""
		if a.fail+a.unk > 0 {
			fl = "  <<<<"
		}
		fmt.Fprintf(os.Stderr, "  %-60s syn=%d solver=%d failed=%d unknown=%d%s\n", k, a.syn, a.sol, a.fail, a.unk, fl)
	}
	for k, v := range errs {
		fmt.Fprintf(os.Stderr, "  ERR %dx %s\n", v, k)
	}
	for _, n := range notes {
		fmt.Fprintln(os.Stderr, "  NOTE", n)
	}
}
