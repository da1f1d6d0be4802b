package main

// Command line.
//
//	gover check ID            the check of one property (quick or thorough by VERIF_TIER)
//	gover prove -pkg P ID     the proof of one property in one package, result as JSON
//	gover dev [flags] ID...   development

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func main() {
	if d := os.Getenv("GOVER_REPO"); d != "" { // development only
		repoDir = d
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gover check|prove|dev ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "prove":
		prove(os.Args[2:])
	case "dev":
		dev(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// PkgResult is the outcome of a proof in one package.
type PkgResult struct {
	Pkg         string
	Error       string
	Obligations int
	Discharged  int
	Trivial     int
	Covers      int
	Backends    map[string]int
	SolverMs    map[string]int64
	SolverCalls map[string]int
	Contracts   []string
	Units       []string
	Inlined     []string
	Lemmas      []string
	Extern      []string
	Problems    []string
	Kinds       map[string]int
	Failed      []FailedOb
	Samples     []string
	Slowest     int64
	WallS       float64
}

// FailedOb is an obligation the solvers did not discharge.
type FailedOb struct {
	Fn, Kind, Label, Pos, Status, Output string
	Trail                                []string
	Model                                map[string]string
	Script                               string
}

func load(pk string) (*World, *Spec, error) {
	w, err := loadWorld(repoDir, pk, nil)
	if err != nil {
		return nil, nil, err
	}
	sp, err := loadSpec(filepath.Join(verifDir, "contracts"), pk)
	if err != nil {
		return nil, nil, err
	}
	sp.w = w
	return w, sp, nil
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func prove(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	pk := fs.String("pkg", "ipv4", "")
	scale := fs.Int("scale", 1, "")
	_ = fs.Parse(args)
	start := time.Now()
	r := &PkgResult{Pkg: *pk, Backends: map[string]int{}, Kinds: map[string]int{}}
	out := func() {
		r.WallS = time.Since(start).Seconds()
		b, _ := json.Marshal(r)
		fmt.Println(string(b))
	}
	w, sp, err := load(*pk)
	if err != nil {
		r.Error = err.Error()
		out()
		return
	}
	p := sp.props[fs.Arg(0)]
	if p == nil {
		r.Error = "no such property"
		out()
		return
	}
	res := verifyAll(w, sp, p, "", *scale)
	r.Obligations = len(res.obls)
	r.Trivial, r.Covers = res.trivial, res.covers
	for i, o := range res.obls {
		r.Kinds[o.kind]++
		if o.status == "proved" {
			r.Discharged++
			r.Backends[o.backend]++
			if o.ms > r.Slowest {
				r.Slowest = o.ms
			}
		}
		if len(r.Samples) < 4 && i%(1+len(res.obls)/4) == 0 {
			r.Samples = append(r.Samples, strings.TrimSpace(fmt.Sprintf("%s: %s %s %s", o.fn, o.kind, o.label, o.pos)))
		}
	}
	for i, o := range res.failed {
		f := FailedOb{Fn: o.fn, Kind: o.kind, Label: o.label, Pos: o.pos, Status: o.status, Output: o.output, Trail: o.trail}
		if i < 4 {
			f.Script = header("") + res.scripts[o] + "(check-sat)\n(get-model)\n"
			if o.status == "failed" {
				f.Model = getModel(res.scripts[o], o.model)
			}
		}
		r.Failed = append(r.Failed, f)
	}
	r.SolverMs, r.SolverCalls = solverTime.ms, solverTime.calls
	r.Contracts, r.Inlined, r.Lemmas = keys(res.contracts), keys(res.inlined), keys(res.lemmas)
	r.Units, r.Problems, r.Extern = res.units, res.problems, res.extern
	out()
}

// hints are addresses and lengths of a counterexample.
type hints struct {
	Addrs [][2]uint64
	Lens  []int
}

func (h *hints) add(m map[string]string) {
	for _, v := range m {
		var s string
		base := 16
		switch {
		case strings.HasPrefix(v, "#x"):
			s = v[2:]
		case strings.HasPrefix(v, "#b"):
			s, base = v[2:], 2
		default:
			continue
		}
		bits := len(s) * 4
		if base == 2 {
			bits = len(s)
		}
		lo, hi := s, "0"
		if n := 64 * len(s) / max(bits, 1); len(s) > n {
			hi, lo = s[:len(s)-n], s[len(s)-n:]
		}
		l, err := strconv.ParseUint(lo, base, 64)
		if err != nil {
			continue
		}
		u, _ := strconv.ParseUint(hi, base, 64)
		if bits == 32 && l <= 128 {
			h.Lens = append(h.Lens, int(l))
		}
		if bits == 32 || bits == 128 {
			h.Addrs = append(h.Addrs, [2]uint64{u, l})
		}
	}
}

// boundedRun is the outcome of the bounded search in one package.
type boundedRun struct {
	Pkg      string
	Cases    int
	Distinct int
	Failed   bool
	Input    []string
	Observed string
	Samples  []string
	Error    string
	Output   string
}

// bounded runs the real code on many small cases, in parallel with different seeds.
func bounded(id, pk string, seed int, budget float64, shards int, hs *hints) *boundedRun {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		return &boundedRun{Pkg: pk, Error: err.Error()}
	}
	defer os.RemoveAll(dir)
	repl := map[string]string{}
	put := func(src, dst string) error {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness", src))
		if err != nil {
			return err
		}
		f := filepath.Join(dir, dst)
		repl[filepath.Join(repoDir, pk, dst)] = f
		return os.WriteFile(f, []byte(strings.ReplaceAll(string(b), "FAM", pk)), 0644)
	}
	if pk != "ip" {
		err = put("common.go.in", "zz_verif_common_test.go")
	}
	if err == nil {
		err = put(pk+".go.in", "zz_verif_family_test.go")
	}
	if err != nil {
		return &boundedRun{Pkg: pk, Error: err.Error()}
	}
	// the package's own tests are left out: they may not compile against a changed tree
	old, _ := filepath.Glob(filepath.Join(repoDir, pk, "*_test.go"))
	for _, f := range old {
		repl[f] = ""
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(dir, "overlay.json")
	_ = os.WriteFile(ov, b, 0644)
	hf := filepath.Join(dir, "hints.json")
	b, _ = json.Marshal(hs)
	_ = os.WriteFile(hf, b, 0644)
	bin := filepath.Join(dir, "t.test")
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ov, "-c", "-o", bin, "./"+pk)
	cmd.Dir = repoDir
	if out, err := cmd.CombinedOutput(); err != nil {
		return &boundedRun{Pkg: pk, Error: "build: " + err.Error(), Output: string(out)}
	}
	rs := make([]*boundedRun, shards)
	var wg sync.WaitGroup
	for i := range rs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			of := filepath.Join(dir, fmt.Sprintf("out%d.json", i))
			cmd := exec.Command(bin, "-test.run", "^TestVerif$", fmt.Sprintf("-test.timeout=%ds", int(budget)+60))
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VERIF_ID="+id, fmt.Sprintf("VERIF_SEED=%d", seed*100+i), fmt.Sprintf("VERIF_BUDGET=%g", budget), "VERIF_OUT="+of, "VERIF_HINTS="+hf, "GOMEMLIMIT=2GiB")
			out, err := cmd.CombinedOutput()
			r := &boundedRun{Pkg: pk}
			b, e := os.ReadFile(of)
			if e == nil {
				_ = json.Unmarshal(b, r)
			} else if err != nil {
				// it did not even finish: a crash or an endless loop of the code under test
				r.Failed = true
				t := string(out)
				if len(t) > 6000 {
					t = t[:6000]
				}
				r.Observed = "the program ended abnormally: " + err.Error() + "\n" + t
			} else {
				r.Error = "no result: " + string(out)
			}
			rs[i] = r
		}(i)
	}
	wg.Wait()
	sum := &boundedRun{Pkg: pk}
	for _, r := range rs {
		sum.Cases += r.Cases
		sum.Distinct += r.Distinct
		if r.Error != "" {
			sum.Error = r.Error
		}
		if len(sum.Samples) < 2 {
			sum.Samples = append(sum.Samples, r.Samples...)
		}
		if r.Failed && (!sum.Failed || len(strings.Join(r.Input, "")) < len(strings.Join(sum.Input, "")) && len(r.Input) > 0) {
			sum.Failed, sum.Input, sum.Observed = true, r.Input, r.Observed
		}
	}
	return sum
}

// propInfo is what a check needs to know besides the contracts.
type propInfo struct {
	pkgs    []string
	always  bool // the bounded search always runs: part of the property is beyond the verifier
	boundOf []string
}

func info(id string) propInfo {
	p := propInfo{pkgs: []string{"ipv4", "ipv6"}}
	if id == "C26" {
		p.pkgs = []string{"ip"}
	}
	if id == "C20" {
		p.pkgs = []string{"ipv4", "ipv6", "ip"}
	}
	if id == "C25" {
		p.always = true
		p.boundOf = []string{"text parsing and formatting by packages net and fmt"}
	}
	return p
}

func check(id string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	pi := info(id)
	scale := "1"
	if tier == "thorough" {
		scale = "3"
	}
	self, _ := os.Executable()
	results := make([]*PkgResult, len(pi.pkgs))
	var wg sync.WaitGroup
	for i, pk := range pi.pkgs {
		wg.Add(1)
		go func(i int, pk string) {
			defer wg.Done()
			r := &PkgResult{Pkg: pk}
			results[i] = r
			cmd := exec.Command(self, "prove", "-pkg", pk, "-scale", scale, id)
			cmd.Env = os.Environ()
			cmd.Stderr = os.Stderr
			lim := 560 * time.Second
			if tier == "thorough" {
				lim = 3600 * time.Second
			}
			t := time.AfterFunc(lim, func() { _ = cmd.Process.Kill() })
			out, err := cmd.Output()
			t.Stop()
			if e := json.Unmarshal(out, r); e != nil || err != nil {
				r.Problems = append(r.Problems, fmt.Sprintf("the verifier did not finish: %v", err))
			}
		}(i, pk)
	}
	wg.Wait()

	var failed, problems []string
	hs := map[string]*hints{}
	for _, r := range results {
		h := &hints{}
		hs[r.Pkg] = h
		if r.Error != "" {
			fmt.Printf("%s %s: %s\n", id, r.Pkg, r.Error)
			if strings.HasPrefix(r.Error, "no such") {
				return 2
			}
			problems = append(problems, r.Pkg+": "+r.Error)
		}
		for _, p := range r.Problems {
			problems = append(problems, r.Pkg+": "+p)
		}
		for _, f := range r.Failed {
			failed = append(failed, fmt.Sprintf("%s.%s: %s %s at %s (%s)", r.Pkg, f.Fn, f.Kind, f.Label, f.Pos, f.Status))
			h.add(f.Model)
		}
		fmt.Printf("%s %s: %d obligations, %d discharged, %d more closed by simplification, %d functions under contract, %d lemmas, %.1f s\n", id, r.Pkg, r.Obligations, r.Discharged, r.Trivial, len(r.Contracts), len(r.Lemmas), r.WallS)
	}
	for _, p := range problems {
		fmt.Println("  outside the verifier's reach:", p)
	}
	for _, f := range failed {
		fmt.Println("  not discharged:", f)
	}

	// the bounded search: for a replay of a failed obligation, or instead of a proof out of reach
	var runs []*boundedRun
	search := len(failed) > 0 || len(problems) > 0 || pi.always || tier == "thorough"
	var hit *boundedRun
	if search {
		budget := 20.0
		if len(failed) > 0 || len(problems) > 0 {
			budget = 35
		}
		if tier == "thorough" {
			budget = 120
		}
		order := append([]string{}, pi.pkgs...)
		// start where the proof fails
		sort.SliceStable(order, func(i, j int) bool { return bad(results, order[i]) > bad(results, order[j]) })
		for _, pk := range order {
			r := bounded(id, pk, seed, budget, 8, hs[pk])
			runs = append(runs, r)
			if r.Error != "" {
				fmt.Printf("%s %s: bounded search: %s %s\n", id, pk, r.Error, r.Output)
				continue
			}
			fmt.Printf("%s %s: bounded search: %d cases, failed %v\n", id, pk, r.Cases, r.Failed)
			if r.Failed {
				hit = r
				break
			}
		}
	}

	violations := 0
	line := ""
	if hit != nil || len(failed) > 0 {
		violations = 1
		rdir := filepath.Join(verifDir, "replays")
		_ = os.MkdirAll(rdir, 0755)
		f := filepath.Join(rdir, id+".txt")
		_ = os.WriteFile(f, []byte(replayText(id, seed, results, failed, problems, hit)), 0644)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", id, f)
		if hit == nil {
			line += " no-failing-input-found"
		}
	}
	writeEvidence(id, tier, seed, pi, results, runs, failed, problems, violations, time.Since(start).Seconds())
	if line != "" {
		fmt.Println(line)
		return 1
	}
	if len(problems) > 0 {
		for _, r := range runs {
			if r.Error != "" {
				fmt.Println("no answer: neither a proof nor a bounded search was possible")
				return 2
			}
		}
	}
	return 0
}

func bad(rs []*PkgResult, pk string) int {
	for _, r := range rs {
		if r.Pkg == pk {
			return 1000*len(r.Failed) + len(r.Problems)
		}
	}
	return 0
}

func replayText(id string, seed int, rs []*PkgResult, failed, problems []string, hit *boundedRun) string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", id)
	if hit != nil {
		fmt.Fprintf(&b, "Failing input in package %s (real code):\n", hit.Pkg)
		for _, l := range hit.Input {
			fmt.Fprintf(&b, "  %s\n", l)
		}
		fmt.Fprintf(&b, "observed: %s\n\n", hit.Observed)
		fmt.Fprintf(&b, "found with VERIF_SEED=%d among the cases of /verif/harness (run: /verif/harness/run.sh %s %s 35)\n\n", seed, hit.Pkg, id)
	}
	for _, f := range failed {
		fmt.Fprintf(&b, "obligation not discharged: %s\n", f)
	}
	for _, f := range problems {
		fmt.Fprintf(&b, "outside the verifier's reach: %s\n", f)
	}
	for _, r := range rs {
		for _, f := range r.Failed {
			fmt.Fprintf(&b, "\n%s.%s: %s %s at %s: %s %s\n", r.Pkg, f.Fn, f.Kind, f.Label, f.Pos, f.Status, f.Output)
			for _, t := range f.Trail {
				fmt.Fprintf(&b, "  path: %s\n", t)
			}
			var ks []string
			for k := range f.Model {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(&b, "  model: %s = %s\n", k, f.Model[k])
			}
			if f.Script != "" && len(f.Script) < 400000 {
				fmt.Fprintf(&b, "  query:\n%s\n", f.Script)
			}
		}
	}
	return b.String()
}

func writeEvidence(id, tier string, seed int, pi propInfo, rs []*PkgResult, runs []*boundedRun, failed, problems []string, violations int, wall float64) {
	cov := map[string]interface{}{}
	ob, dis, triv, covers := 0, 0, 0, 0
	backends := map[string]int{}
	solverS := map[string]float64{}
	calls := map[string]int{}
	kinds := map[string]int{}
	ext := map[string]bool{}
	per := map[string]interface{}{}
	var samples []string
	for _, r := range rs {
		ob += r.Obligations
		dis += r.Discharged
		triv += r.Trivial
		covers += r.Covers
		for k, v := range r.Backends {
			backends[k] += v
		}
		for k, v := range r.SolverMs {
			solverS[k] += float64(v) / 1000
		}
		for k, v := range r.SolverCalls {
			calls[k] += v
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		for _, e := range r.Extern {
			ext[e] = true
		}
		samples = append(samples, r.Samples...)
		per[r.Pkg] = map[string]interface{}{
			"functions_under_contract": r.Contracts, "cases_by_parameter_shape": len(r.Units), "inlined_functions": r.Inlined, "lemmas": r.Lemmas,
			"obligations": r.Obligations, "discharged": r.Discharged, "closed_by_simplification": r.Trivial, "slowest_ms": r.Slowest, "wall_s": r.WallS,
		}
	}
	cov["obligations"] = ob
	cov["discharged"] = dis
	cov["closed_by_simplification"] = triv
	cov["reachability_queries"] = covers
	cov["obligations_by_kind"] = kinds
	cov["discharged_by_backend"] = backends
	cov["solver_seconds"] = solverS
	cov["solver_calls"] = calls
	cov["checker_cmd"] = "bin/gover prove -pkg PKG " + id + " (symbolic execution of the SSA of /repo's sources; obligations to z3 5.3.2, z3 4.8.12, cvc5 1.1.2)"
	cov["packages"] = per
	cov["samples"] = samples
	cov["not_discharged"] = failed
	cov["outside_the_verifier"] = problems
	cov["trusted_base"] = trustedBase
	if len(runs) > 0 {
		bs := []interface{}{}
		for _, r := range runs {
			bs = append(bs, map[string]interface{}{"label": "bounded, not a proof", "package": r.Pkg, "cases": r.Cases, "distinct": r.Distinct, "failed": r.Failed, "error": r.Error, "samples": r.Samples})
		}
		cov["bounded"] = bs
		if pi.always {
			cov["bounded_reason"] = pi.boundOf
		}
	}
	as := append([]string{}, assumptions...)
	for _, e := range keys(ext) {
		as = append(as, "assumed contract on a dependency: "+e)
	}
	e := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": as, "wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

var trustedBase = []string{
	"gover: the symbolic executor and obligation generator in /verif/gover",
	"golang.org/x/tools/go/ssa and go/types (v0.52.0): translation of the Go sources to SSA",
	"the SMT solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 (an obligation counts when one of them answers unsat)",
	"the specification of math/bits.LeadingZeros*, OnesCount* and Len* by their bit vector definitions",
	"the axiom that the spec functions over nodes have a (total) interpretation: every trie is finite, every node has one fixed content once shared",
}

var assumptions = []string{
	"the Go compiler, runtime and memory allocator are correct; allocation succeeds",
	"generic types are verified for an arbitrary type parameter T; conversions between T and interface{} follow the language definition",
	"callbacks supplied by the caller return normally, do not retain or change internal storage, and do not modify the value being walked",
	"values are reached only through the exported API (valid receivers and arguments): invariants of the exported types are established by every constructor and assumed of arguments",
	"machine arithmetic is exact (bit vectors); nothing is treated as mathematical integers except ghost counters",
}

// ---- development

func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	only := fs.String("only", "", "verify only this contract or lemma")
	pkgs := fs.String("pkg", "", "")
	dump := fs.String("dump", "", "write scripts of failed obligations here")
	verbose := fs.Bool("v", false, "")
	_ = fs.Parse(args)
	for _, id := range fs.Args() {
		for _, pk := range []string{"ipv4", "ipv6", "ip"} {
			if *pkgs != "" && *pkgs != pk {
				continue
			}
			if *pkgs == "" && !slices.Contains(info(id).pkgs, pk) {
				continue
			}
			resetTerms()
			t := time.Now()
			w, sp, err := load(pk)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			p := sp.props[id]
			if p == nil {
				fmt.Println("no property", id)
				continue
			}
			res := verifyAll(w, sp, p, *only, 1)
			fmt.Printf("%s %s: %d obligations (+%d trivial), %d failed, %d problems, %d units, %.1fs\n", id, pk, len(res.obls), res.trivial, len(res.failed), len(res.problems), len(res.units), time.Since(t).Seconds())
			for _, p := range res.problems {
				fmt.Println("  PROBLEM", p)
			}
			if *verbose {
				for _, o := range res.obls {
					fmt.Printf("  %s %s [%s] %s %s (%d ms, %s)\n", o.status, o.fn, o.kind, o.label, o.pos, o.ms, o.backend)
				}
			}
			for i, o := range res.obls {
				if o.ms > 8000 {
					if *dump != "" {
						_ = os.WriteFile(fmt.Sprintf("%s/slow-%s-%s-%d.smt2", *dump, id, pk, i), []byte(fmt.Sprintf("; %s [%s] %s %v %s\n", o.fn, o.kind, o.label, o.trail, o.status)+header("")+res.scripts[o]+"(check-sat)\n"), 0644)
					}
					fmt.Printf("  SLOW %s [%s] %s (%d ms, %s)\n", o.fn, o.kind, o.label, o.ms, o.backend)
				}
			}
			for i, o := range res.failed {
				fmt.Printf("  FAILED(%s) %s [%s] %s %s %v %s\n", o.status, o.fn, o.kind, o.label, o.pos, o.trail, o.output)
				if *dump != "" {
					_ = os.WriteFile(fmt.Sprintf("%s/%s-%s-%d.smt2", *dump, id, pk, i), []byte(fmt.Sprintf("; %s [%s] %s %v %s\n", o.fn, o.kind, o.label, o.trail, o.status)+header("")+res.scripts[o]+"(check-sat)\n(get-model)\n"), 0644)
				}
				if *verbose {
					fmt.Println("     model", getModel(res.scripts[o], o.model))
				}
			}
		}
	}
}
