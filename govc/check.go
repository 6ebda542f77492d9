package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// concerns: some obligation of the contract carries the property's tag.
func (con *Contract) concerns(p string) bool {
	for _, t := range con.tags {
		if t == p {
			return true
		}
	}
	for _, t := range con.panics {
		if t == p {
			return true
		}
	}
	for _, cl := range con.cls {
		for _, t := range cl.tags {
			if t == p {
				return true
			}
		}
	}
	return false
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

type batteryResult struct {
	ran    bool
	cases  int
	fails  []string
	known  []string
	output string
	cmd    string
}

// runBattery runs the concrete inputs kept for the property on the real code.
func runBattery(verif, repo, prop string) (res batteryResult) {
	root := filepath.Join(verif, "battery")
	build := filepath.Join(verif, ".build")
	gopath := filepath.Join(build, "gopath")
	link := filepath.Join(gopath, "src/github.com/johnnadratowski/golang-neo4j-bolt-driver")
	os.MkdirAll(filepath.Dir(link), 0o755)
	if t, _ := os.Readlink(link); t != repo {
		os.Remove(link)
		os.Symlink(repo, link)
	}
	repl := map[string]string{}
	pkgs := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "bolt/") {
			rel = strings.TrimPrefix(rel, "bolt/")
		}
		repl[filepath.Join(repo, rel)] = p
		repl[filepath.Join(link, rel)] = p
		if strings.Contains(string(src), "func TestVerif"+prop+"(") {
			pkgs["./"+filepath.Dir(rel)] = true
		}
		return nil
	})
	if len(pkgs) == 0 {
		return
	}
	ov := filepath.Join(build, "overlay-"+prop+".json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	args := []string{"test", "-vet=off", "-overlay", ov, "-count=1", "-v", "-timeout", "300s", "-run", "^TestVerif" + prop + "$"}
	for p := range pkgs {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = link
	cmd.Env = append(cleanEnv(), "PWD="+link, "GOPATH="+gopath, "GOCACHE="+filepath.Join(build, "gocache"), "GO111MODULE=off", "GOENV=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	res.ran = true
	res.cmd = "cd " + link + " && " + strings.Join(cmd.Env[len(cmd.Env)-8:], " ") + " go " + strings.Join(args, " ")
	res.output = string(out)
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if f := strings.TrimPrefix(l, "VERIF-CASES "); f != l {
			n, _ := strconv.Atoi(f)
			res.cases += n
		}
		if f := strings.TrimPrefix(l, "VERIF-KNOWN "); f != l {
			res.known = append(res.known, f)
		}
		if strings.Contains(l, "_test.go:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			res.fails = append(res.fails, l)
		}
	}
	if err == nil {
		res.fails = nil
	} else if len(res.fails) == 0 {
		if strings.Contains(string(out), "[build failed]") || strings.Contains(string(out), "[setup failed]") {
			res.ran = false
			return
		}
		res.fails = append(res.fails, "the test ends with: "+err.Error())
	}
	return
}

func cleanEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOROOT", "GOWORK", "GOPATH", "GOCACHE", "GO111MODULE", "NEO4J_BOLT", "ENSURE_NEO4J_BOLT", "RECORD_OUTPUT", "BOLT_DRIVER_LOG", "PWD":
			continue
		}
		out = append(out, e)
	}
	return out
}

// checkProperty decides one property; the return value is the exit code.
func checkProperty(prop, tier string) int {
	t0 := time.Now()
	verif := os.Getenv("GOVC_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo := repoDir()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(verif, "replay"), 0o755)

	var bat batteryResult
	done := make(chan bool)
	go func() {
		bat = runBattery(verif, repo, prop)
		close(done)
	}()

	var bad []string // failed obligations, readable
	var errs []string
	var units []*Unit
	var conAll int
	sp := func() (sp *Specs) {
		defer func() {
			if r := recover(); r != nil {
				errs = append(errs, fmt.Sprint("contracts: ", r))
			}
		}()
		return LoadSpecs(filepath.Join(verif, "contracts"))
	}()
	p, err := LoadProgram(repo)
	if err != nil {
		errs = append(errs, "the source cannot be loaded: "+err.Error())
	}
	if err == nil && sp != nil {
		var sel []*Contract
		for _, id := range sp.order {
			if con := sp.con[id]; !con.assumed && sp.concerns(con, prop) {
				sel = append(sel, con)
			}
		}
		conAll = len(sel)
		if len(sel) == 0 {
			errs = append(errs, "no contract carries this property")
		}
		limit := 700 * time.Second
		if tier == "thorough" {
			limit = 3 * time.Hour
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		fin := make(chan bool)
		running := map[string]bool{}
		for _, con := range sel {
			wg.Add(1)
			running[con.ID()] = true
			go func(con *Contract) {
				defer wg.Done()
				sem <- true
				u := func() (u *Unit) {
					defer func() {
						if r := recover(); r != nil {
							u = &Unit{Name: con.ID(), Con: con, Obl: map[string]*Oblig{}, Errors: []string{fmt.Sprint("internal error: ", r, " ", string(debug.Stack()))}}
						}
					}()
					return VerifyUnit(p, sp, con)
				}()
				<-sem
				mu.Lock()
				defer mu.Unlock()
				delete(running, con.ID())
				units = append(units, u)
			}(con)
		}
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(limit):
			mu.Lock()
			for k := range running {
				errs = append(errs, "verification of "+k+" did not finish in time")
			}
		}
	}
	<-done

	sort.Slice(units, func(i, j int) bool { return units[i].Name < units[j].Name })
	total, discharged, others := 0, 0, 0
	solver := 0.0
	queries := 0
	backends := map[string]int{}
	assumed, inl, lib, used := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var under []map[string]interface{}
	for _, u := range units {
		n, ok := 0, 0
		for _, k := range u.OblOrder {
			o := u.Obl[k]
			if !sp.covers(o.Tags, prop) {
				others++
				continue
			}
			n++
			if o.OK {
				ok++
				continue
			}
			s := fmt.Sprintf("%s: %s (%s)", u.Name, o.Label, o.Pos)
			if len(bad) < 200 {
				bad = append(bad, s)
			}
		}
		for _, e := range u.Errors {
			errs = append(errs, u.Name+": "+e)
		}
		total += n
		discharged += ok
		solver += u.SolverS
		queries += u.Queries
		if u.C != nil && u.C.smt != nil {
			for k, v := range u.C.smt.ByBackend {
				backends[k] += v
			}
		}
		for k := range u.Assumed {
			assumed[k] = true
		}
		for k := range u.Inlined {
			inl[k] = true
		}
		for k := range u.Lib {
			lib[k] = true
		}
		for k := range u.Used {
			used[k] = true
		}
		under = append(under, map[string]interface{}{"function": u.Name, "obligations": n, "discharged": ok, "paths": u.Exits, "solver_s": round2(u.SolverS)})
	}
	if discharged < total || total == 0 && len(errs) == 0 {
		if total == 0 {
			errs = append(errs, "no obligation was generated")
		}
	}

	// findings that are known and not repaired
	for _, k := range knownFindings(verif, prop) {
		for _, o := range bat.known {
			if strings.HasPrefix(o, k) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, o)
			}
		}
	}
	for _, o := range bat.known {
		listed := false
		for _, k := range knownFindings(verif, prop) {
			listed = listed || strings.HasPrefix(o, k)
		}
		if !listed {
			bat.fails = append(bat.fails, o)
		}
	}

	viol := len(bad) > 0 || len(errs) > 0 || len(bat.fails) > 0
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round2(time.Since(t0).Seconds()),
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": discharged,
			"checker_cmd":              "bash /verif/check.sh " + prop,
			"trusted_base":             trustedBase,
			"functions_under_contract": under, "inlined_functions": sortedKeys(inl), "library_models": sortedKeys(lib),
			"contracts_relied_on": sortedKeys(used), "contracts_checked": conAll,
			"obligations_of_other_properties_in_the_same_functions": others,
			"solver_s": round2(solver), "solver_queries": queries, "discharged_queries_by_back_end": backends,
			"replay_inputs_run_on_the_real_code": bat.cases,
		},
		"assumptions": append(sortedKeys(assumed), standingAssumptions...),
	}
	if viol {
		ev["violations"] = len(bad) + len(errs) + len(bat.fails)
	} else {
		ev["violations"] = 0
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d of %d obligations discharged in %d functions (%d queries, %.1f s solver time); %d concrete cases\n", prop, discharged, total, len(units), queries, solver, bat.cases)
	if !viol {
		return 0
	}
	rp := filepath.Join(verif, "replay", prop+".txt")
	var r strings.Builder
	fmt.Fprintf(&r, "property %s\n\n", prop)
	if len(bat.fails) > 0 {
		fmt.Fprintf(&r, "failing inputs on the real code (run: %s):\n", bat.cmd)
		for i, f := range bat.fails {
			if i < 20 {
				fmt.Fprintln(&r, "  ", f)
			}
		}
		fmt.Fprintln(&r, "\nend of the output:\n", tailStr(bat.output, 6000))
	}
	if len(bad) > 0 {
		fmt.Fprintf(&r, "failed obligations:\n")
		for _, f := range bad {
			fmt.Fprintln(&r, "  ", f)
		}
	}
	for _, e := range errs {
		fmt.Fprintln(&r, "not decided:", e)
	}
	for _, u := range units {
		k := 0
		for _, n := range u.OblOrder {
			o := u.Obl[n]
			if !o.OK && sp.covers(o.Tags, prop) && k < 4 {
				k++
				fmt.Fprintf(&r, "\n--- verifier output: %s: %s at %s\n path: %s\n goal: %s\n", u.Name, o.Label, o.Pos, o.Stack, tailStr(o.Goal, 3000))
				for _, f := range o.Facts {
					if len(f) > 400 {
						f = f[:400] + "..."
					}
					fmt.Fprintln(&r, "  fact:", f)
				}
			}
		}
	}
	os.WriteFile(rp, []byte(r.String()), 0o644)
	for i, f := range bat.fails {
		if i < 3 {
			fmt.Println("  failing input:", tailStr(f, 400))
		}
	}
	for i, f := range bad {
		if i < 5 {
			fmt.Println("  failed obligation:", f)
		}
	}
	for i, f := range errs {
		if i < 5 {
			fmt.Println("  not decided:", tailStr(f, 400))
		}
	}
	if len(bat.fails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func round2(x float64) float64 { return float64(int(x*100)) / 100 }

// knownFindings: the inputs listed for the property in known-findings.txt.
func knownFindings(verif, prop string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if k := strings.TrimPrefix(l, "known: property="+prop+" "); k != l {
			k, _, _ = strings.Cut(k, " -- ")
			out = append(out, strings.TrimSpace(k))
		}
	}
	return out
}

var trustedBase = []string{
	"govc (/verif/govc): symbolic execution of the SSA form of /repo built by golang.org/x/tools/go/ssa, its heap, interface and slice encoding",
	"the Go type checker and golang.org/x/tools/go/ssa; the Go compiler and runtime agreeing with that SSA form",
	"z3 (z3-new), with z3 4.8.12 and cvc5 as fallback",
	"the axioms of the value theory (pack, enc, dec, same, packint, packhdr, map enumeration) in govc/theory.go and of the chunk framing (wf, unframe, framing lemma) in govc/seqtac.go",
	"the models of library functions in govc/lib.go",
}

var standingAssumptions = []string{
	"values handed to the driver are acyclic and not changed while a call runs",
	"no single string, slice or map has more than 2^48 elements",
	"memory is not exhausted and the stack does not overflow",
	"a uint above MaxInt64 is excluded (known finding of C06)",
	"goroutines do not share one connection (the documented use)",
}
