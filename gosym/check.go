package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type propCfg struct {
	Harnesses   []*harness `json:"harnesses"`
	Bounds      string     `json:"bounds"`
	Outside     string     `json:"outside"`
	Assumptions []string   `json:"assumptions"`
}

type caseFile struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Params  map[string]int `json:"params"`
}

type replayResult struct {
	out    string
	obs    []string
	done   bool
	failed bool
	known  string
	panicd bool
	exited bool
	what   string
}

type nativeBin struct {
	bin     string
	dir     string
	err     error
	ready   chan struct{}
	scratch string
}

var pkgClause = regexp.MustCompile(`(?m)^package (\w+)`)

// buildNative builds the replay binary of a package with the harness files overlaid.
// With clock, time.Now of that binary answers what the harness set (verifrt.SetNow).
func buildNative(verif, repo, pkg string, files []string, fns []string, scratch string, clock bool) *nativeBin {
	nb := &nativeBin{ready: make(chan struct{}), scratch: scratch}
	go func() {
		defer close(nb.ready)
		fns = uniq(fns)
		id := strings.ReplaceAll(pkg, "/", "_")
		dir := filepath.Join(scratch, "build-"+id)
		os.MkdirAll(dir, 0755)
		ov := harnessOverlay(verif, repo, pkg, files)
		src, err := os.ReadFile(filepath.Join(verif, "harness", files[0]))
		if err != nil {
			nb.err = err
			return
		}
		m := pkgClause.FindSubmatch(src)
		if m == nil {
			nb.err = fmt.Errorf("no package clause in %s", files[0])
			return
		}
		var tb bytes.Buffer
		fmt.Fprintf(&tb, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifrt.Main(map[string]func(){\n", m[1], rtPkg)
		for _, f := range fns {
			fmt.Fprintf(&tb, "\t\t%q: %s,\n", f, f)
		}
		tb.WriteString("\t})\n}\n")
		tf := filepath.Join(dir, "replay_test.go")
		os.WriteFile(tf, tb.Bytes(), 0644)
		ov[filepath.Join(repo, pkg, "zz_verif_replay_test.go")] = tf
		if clock {
			if err := clockOverlay(repo, dir, ov); err != nil {
				nb.err = err
				return
			}
		}
		oj := filepath.Join(dir, "overlay.json")
		os.WriteFile(oj, mustJSON(map[string]any{"Replace": ov}), 0644)
		nb.bin = filepath.Join(scratch, id+".test")
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", oj, "-o", nb.bin, "./"+pkg)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			nb.err = fmt.Errorf("native build: %v: %s", err, tail(string(out), 1500))
			return
		}
		os.Chmod(nb.bin, 0755)
	}()
	return nb
}

func clockOverlay(repo, dir string, ov map[string]string) error {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = repo
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	f := filepath.Join(strings.TrimSpace(string(out)), "src", "time", "time.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	const now = "\nfunc Now() Time {\n"
	if strings.Count(string(b), now) != 1 {
		return fmt.Errorf("time.Now not found")
	}
	s := strings.Replace(string(b), now, now+"\tif VerifClock != nil {\n\t\treturn VerifClock()\n\t}\n", 1) + "\nvar VerifClock func() Time\n"
	tf := filepath.Join(dir, "time.go")
	if err := os.WriteFile(tf, []byte(s), 0644); err != nil {
		return err
	}
	ov[f] = tf
	cf := filepath.Join(dir, "clock.go")
	if err := os.WriteFile(cf, []byte("package verifrt\n\nimport \"time\"\n\nfunc init() {\n\tsetClock = func(unix int64) {\n\t\ttime.VerifClock = func() time.Time { return time.Unix(unix, 0) }\n\t}\n}\n"), 0644); err != nil {
		return err
	}
	for k := range ov {
		if strings.HasSuffix(k, "/verifrt/verifrt.go") {
			ov[filepath.Join(filepath.Dir(k), "clock.go")] = cf
			return nil
		}
	}
	return fmt.Errorf("no harness runtime in the overlay")
}

func uniq(a []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range a {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var obsRe = regexp.MustCompile(`(?m)^VERIF-OBS ([^=\n]*)=(".*")$`)

func (nb *nativeBin) run(c caseFile, n int) replayResult {
	<-nb.ready
	r := replayResult{}
	if nb.err != nil {
		r.what = nb.err.Error()
		return r
	}
	dir := filepath.Join(nb.scratch, fmt.Sprintf("run-%d", n))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	cf := filepath.Join(nb.scratch, fmt.Sprintf("case-%d.json", n))
	os.WriteFile(cf, mustJSON(c), 0644)
	defer os.Remove(cf)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run=^TestVerifReplay$", "-test.timeout=50s")
	cmd.Dir = dir
	cmd.Env = []string{"VERIF_REPLAY=" + cf, "HOME=" + dir, "TMPDIR=" + dir, "PATH=/nonexistent", "VERIF_SCRATCH=" + dir}
	if os.Geteuid() == 0 {
		os.Chown(dir, 65534, 65534)
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	out, err := cmd.CombinedOutput()
	r.out = string(out)
	for _, m := range obsRe.FindAllStringSubmatch(r.out, -1) {
		s, uerr := strconv.Unquote(m[2])
		if uerr != nil {
			s = m[2]
		}
		r.obs = append(r.obs, m[1]+"="+s)
	}
	r.done = strings.Contains(r.out, "VERIF-DONE")
	switch {
	case strings.Contains(r.out, "VERIF-KNOWN "):
		r.known = strings.Fields(after(r.out, "VERIF-KNOWN "))[0]
		r.what = firstLine(r.out, "VERIF-KNOWN ")
	case strings.Contains(r.out, "VERIF-FAIL "):
		r.failed = true
		r.what = firstLine(r.out, "VERIF-FAIL ")
	case strings.Contains(r.out, "VERIF-PANIC "):
		r.panicd = true
		r.what = firstLine(r.out, "VERIF-PANIC ")
	case strings.Contains(r.out, "VERIF-ASSUME-FALSE"), strings.Contains(r.out, "VERIF-NOHARNESS"):
		r.what = "assumption false in the native run"
	case !r.done && err != nil && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:")):
		r.panicd = true
		r.what = tail(r.out, 400)
	case !r.done && ctx.Err() == nil:
		r.exited = true
		r.what = "process exited: " + tail(r.out, 300)
	default:
		r.what = "no failure in the native run"
	}
	return r
}

func after(s, p string) string {
	i := strings.Index(s, p)
	if i < 0 {
		return "?"
	}
	return s[i+len(p):]
}

func firstLine(s, p string) string {
	x := after(s, p)
	if i := strings.IndexByte(x, '\n'); i >= 0 {
		x = x[:i]
	}
	return x
}

type knownFinding struct{ prop, id, what string }

func loadKnown(verif string) map[string]knownFinding {
	m := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(l, "finding:"))
		if len(f) < 3 {
			continue
		}
		k := knownFinding{prop: strings.TrimPrefix(f[0], "property="), id: strings.TrimPrefix(f[1], "id="), what: strings.Join(f[2:], " ")}
		m[k.prop+"/"+k.id] = k
	}
	return m
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	only := fs.String("only", "", "run only this harness")
	nw := fs.Int("w", 8, "")
	fs.Parse(args)
	t0 := time.Now()
	var all map[string]*propCfg
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &all)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	cfg := all[*prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	known := loadKnown(*verif)
	replayDir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0755)

	// group by package
	groups := map[string][]*harness{}
	var order []string
	for _, h := range cfg.Harnesses {
		if *only != "" && h.Name != *only {
			continue
		}
		if _, ok := groups[h.Pkg]; !ok {
			order = append(order, h.Pkg)
		}
		groups[h.Pkg] = append(groups[h.Pkg], h)
	}
	var (
		stats      SolverStats
		states     int
		trans      int
		validated  int
		mismatches []string
		incomplete []string
		samples    []any
		perH       []any
		functions  = map[string]bool{}
		libFuncs   int
		nviol      int
		exhaustive = true
		asserts    int
		assertQ    int
		steps      int64
		endCounts  = map[string]int{}
		openNotes  []string
		caseN      int
	)
	printed := map[string]bool{}
	for _, pkg := range order {
		hs := groups[pkg]
		var files []string
		seen := map[string]bool{}
		var fns []string
		for _, h := range hs {
			for _, f := range h.Files {
				if !seen[f] {
					seen[f] = true
					files = append(files, f)
				}
			}
			fns = append(fns, h.Name)
		}
		clock := false
		for _, h := range hs {
			clock = clock || h.Clock
		}
		nb := buildNative(*verif, *repo, pkg, files, fns, scratch, clock)
		e, err := loadEngine(*verif, *repo, pkg, files)
		if err != nil {
			incomplete = append(incomplete, pkg+": "+err.Error())
			exhaustive = false
			<-nb.ready
			continue
		}
		for _, h := range hs {
			tc := h.Quick
			if *tier == "thorough" {
				tc = h.Thorough
				if tc.Seconds == 0 {
					tc.Seconds = 4 * h.Quick.Seconds
				}
			}
			if h.ThoroughOnly && *tier != "thorough" {
				continue
			}
			if tc.Seconds == 0 {
				tc.Seconds = 60
			}
			h.params = map[string]int{}
			for k, v := range h.Params {
				h.params[k] = v
			}
			if *tier == "thorough" {
				for k, v := range h.Quick.Params {
					h.params[k] = v
				}
			}
			for k, v := range tc.Params {
				h.params[k] = v
			}
			e.params = h.params
			e.maxConc, e.maxSteps, e.noMerge, e.maxPaths = 300, 30000000, h.NoMerge, tc.MaxPaths
			e.maxMapPerm = 4
			if h.MapPerm > 0 {
				e.maxMapPerm = h.MapPerm
			}
			if h.MaxConc > 0 {
				e.maxConc = h.MaxConc
			}
			if h.MaxSteps > 0 {
				e.maxSteps = h.MaxSteps
			}
			e.solverBin = "z3-new"
			if h.Solver != "" {
				e.solverBin = h.Solver
			}
			if err := e.findHarness(h); err != nil {
				incomplete = append(incomplete, err.Error())
				exhaustive = false
				continue
			}
			e.setWorkers(*nw)
			th := time.Now()
			x := e.explore(h, time.Duration(tc.Seconds)*time.Second)
			hs := SolverStats{}
			for _, w := range e.workers {
				hs.Queries += w.stats.Queries
				hs.Sats += w.stats.Sats
				hs.Unsats += w.stats.Unsats
				hs.Unknown += w.stats.Unknown
				hs.Time += w.stats.Time
				hs.MaxTime = max(hs.MaxTime, w.stats.MaxTime)
			}
			rf, other := e.encodedFunctions()
			for _, f := range rf {
				functions[f] = true
			}
			libFuncs = max(libFuncs, other)
			stats.Queries += hs.Queries
			stats.Sats += hs.Sats
			stats.Unsats += hs.Unsats
			stats.Unknown += hs.Unknown
			stats.Time += hs.Time
			stats.MaxTime = max(stats.MaxTime, hs.MaxTime)
			states += x.paths
			trans += x.branches
			asserts += x.asserts
			assertQ += x.assertQ
			steps += x.steps
			for k, n := range x.ends {
				endCounts[peNames[k]] += n
			}
			for _, s := range x.incomplete {
				incomplete = append(incomplete, h.Name+": "+s)
				exhaustive = false
			}
			var missingReach []string
			for _, l := range h.Reach {
				if x.reach[l] == 0 {
					missingReach = append(missingReach, l)
				}
			}
			if len(missingReach) > 0 && len(x.violations) == 0 {
				incomplete = append(incomplete, h.Name+": situations never reached: "+strings.Join(missingReach, ", "))
				exhaustive = false
			}
			// replay the counterexamples against the real code
			type job struct {
				v *violation
				w *witness
				r replayResult
			}
			var jobs []*job
			for _, v := range x.violations {
				jobs = append(jobs, &job{v: v})
			}
			if !h.NoReplay {
				for _, wt := range x.witnesses {
					if wt.End == "done" {
						jobs = append(jobs, &job{w: wt})
					}
				}
			}
			var wg sync.WaitGroup
			sem := make(chan struct{}, 8)
			for _, j := range jobs {
				if h.NoReplay {
					break
				}
				wg.Add(1)
				caseN++
				n := caseN
				go func(j *job) {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					in := map[string]any{}
					if j.v != nil {
						in = j.v.Inputs
					} else {
						in = j.w.Inputs
					}
					j.r = nb.run(caseFile{h.Name, in, h.params}, n)
				}(j)
			}
			wg.Wait()
			nval := 0
			for _, j := range jobs {
				if j.w != nil {
					if nb.err != nil {
						continue
					}
					if j.r.done && equalStrs(j.r.obs, j.w.Obs) {
						nval++
					} else {
						m := fmt.Sprintf("%s: native run of %v differs: engine %v, native %v (%s)", h.Name, compact(j.w.Inputs), j.w.Obs, j.r.obs, tail(j.r.what, 200))
						mismatches = append(mismatches, m)
					}
					continue
				}
				v := j.v
				reproduced := j.r.failed || j.r.panicd || j.r.known != "" || (v.Kind == "exit" && j.r.exited)
				if v.Kind == "deadlock" && strings.Contains(j.r.out, "deadlock") {
					reproduced = true
				}
				if h.NoReplay {
					reproduced = true
					j.r.what = "(schedule counterexample, not replayed natively)"
				}
				if !reproduced {
					mismatches = append(mismatches, fmt.Sprintf("%s: counterexample not reproduced natively: %s inputs %v: %s", h.Name, v.Msg, compact(v.Inputs), j.r.what))
					exhaustive = false
					continue
				}
				nval++
				kf, isKnown := known[*prop+"/"+v.Finding]
				if isKnown && v.Finding != "" && (j.r.known == v.Finding || h.NoReplay) {
					line := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", *prop, kf.id, kf.what)
					if !printed[line] {
						printed[line] = true
						fmt.Println(line)
					}
					continue
				}
				nviol++
				rp := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", *prop, nviol))
				os.WriteFile(rp, mustJSON(map[string]any{"property": *prop, "harness": h.Name, "pkg": h.Pkg, "inputs": v.Inputs, "params": h.params, "message": v.Msg, "where": v.Where,
					"native": tail(j.r.what, 600), "replay": fmt.Sprintf("%s/bin/verif replay %s", *verif, rp)}), 0644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
				fmt.Printf("  %s: %s\n  inputs %v\n  native run: %s\n", h.Name, v.Msg, compact(v.Inputs), tail(j.r.what, 300))
			}
			validated += nval
			if nb.err != nil {
				incomplete = append(incomplete, "native replay unavailable: "+nb.err.Error())
				exhaustive = false
			}
			var reach []string
			for l, n := range x.reach {
				reach = append(reach, fmt.Sprintf("%s x%d", l, n))
			}
			sort.Strings(reach)
			perH = append(perH, map[string]any{"harness": h.Pkg + "." + h.Name, "bounds": h.Bounds, "params": h.params, "paths": x.paths, "decisions": x.branches, "forks": x.forks,
				"merged_branches": x.merges, "assertions_evaluated": x.asserts, "assertion_queries": x.assertQ, "instructions": x.steps, "queries": hs.Queries, "unsat": hs.Unsats, "sat": hs.Sats,
				"solver_s": round3(hs.Time.Seconds()), "wall_s": round3(time.Since(th).Seconds()), "reached": reach, "ends": endsMap(x.ends), "longest_path_decisions": x.maxDepth,
				"native_validated": nval})
			for i, wt := range x.witnesses {
				if i < 3 {
					samples = append(samples, map[string]any{"harness": h.Name, "inputs": compact(wt.Inputs), "observed": wt.Obs})
				}
			}
		}
		for _, w := range e.workers {
			w.sol.Close()
		}
		<-nb.ready
	}
	var fl []string
	for f := range functions {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(openNotes) > 0 {
		incomplete = append(incomplete, openNotes...)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": round3(time.Since(t0).Seconds()), "violations": nviol,
		"assumptions": append([]string{}, cfg.Assumptions...),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive": exhaustive && nviol == 0 && len(mismatches) == 0,
			"explanation": "states: symbolic paths executed to their end; transitions: branch decisions on those paths, each settled by the solver or by the path condition; " +
				"every assertion was decided for all values of the symbolic inputs on its path within the bounds",
			"bounds": cfg.Bounds, "outside_bounds": cfg.Outside,
			"functions_encoded": fl, "library_functions_encoded": libFuncs, "assertions_evaluated": asserts, "assertion_queries": assertQ,
			"instructions_interpreted": steps, "solver_queries": stats.Queries, "solver_sat": stats.Sats, "solver_unsat": stats.Unsats, "solver_unknown": stats.Unknown,
			"solver_s": round3(stats.Time.Seconds()), "solver_max_query_s": round3(stats.MaxTime.Seconds()), "path_ends": endCounts, "harnesses": perH,
			"reduced_bound": incomplete, "model_mismatches": mismatches,
		},
	}
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), mustJSON(ev), 0644)
	for i, s := range incomplete {
		if i < 8 {
			fmt.Println("REDUCED-BOUND", tail2(s, 500))
		}
	}
	for i, s := range mismatches {
		if i < 5 {
			fmt.Println("MODEL-MISMATCH", tail2(s, 700))
		}
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d native validations, %d violations, %.1fs\n", *prop, *tier, states, trans, stats.Queries, stats.Time.Seconds(), validated, nviol, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	if states == 0 {
		fmt.Println("nothing could be explored")
		return 2
	}
	return 0
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func endsMap(m map[peKind]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[peNames[k]] = v
	}
	return r
}

func compact(m map[string]any) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteString(" ")
		}
		if sb.Len() > 600 {
			sb.WriteString("…")
			break
		}
		fmt.Fprintf(&sb, "%s=%v", k, m[k])
	}
	return sb.String()
}

func equalStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func round3(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

// cmdReplay runs a recorded counterexample against the real code.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rc struct {
		Property, Harness, Pkg string
		Inputs                 map[string]any
		Params                 map[string]int
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&rc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var all map[string]*propCfg
	cb, _ := os.ReadFile(filepath.Join(*verif, "checks.json"))
	json.Unmarshal(cb, &all)
	for _, h := range all[rc.Property].Harnesses {
		if h.Name == rc.Harness {
			scratch, _ := os.MkdirTemp("", "gosym-")
			defer os.RemoveAll(scratch)
			os.Chmod(scratch, 0755)
			nb := buildNative(*verif, *repo, h.Pkg, h.Files, []string{h.Name}, scratch, h.Clock)
			r := nb.run(caseFile{rc.Harness, rc.Inputs, rc.Params}, 1)
			fmt.Print(r.out)
			fmt.Println(r.what)
			if r.failed || r.panicd || r.known != "" || r.exited {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "harness not found")
	return 2
}
