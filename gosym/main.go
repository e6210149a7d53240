package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "run":
		cmdRun(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdRun explores one harness and prints what happened (for development).
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	pkg := fs.String("pkg", "validator/lib", "")
	files := fs.String("files", "", "")
	fn := fs.String("fn", "", "")
	secs := fs.Int("s", 60, "")
	nw := fs.Int("w", 8, "")
	v := fs.Bool("v", false, "")
	iv := fs.Bool("iv", false, "")
	solver := fs.String("solver", "z3-new", "")
	prof := fs.String("prof", "", "")
	maxp := fs.Int("maxpaths", 0, "")
	params := fs.String("params", "", "k=v,...")
	fs.Parse(args)
	t0 := time.Now()
	e, err := loadEngine(*verif, *repo, *pkg, strings.Split(*files, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	e.verbose, e.initVerbose = *v, *iv
	e.maxPaths = *maxp
	e.solverBin = *solver
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	e.params = map[string]int{}
	for _, kv := range strings.Split(*params, ",") {
		var k string
		var n int
		if i := strings.IndexByte(kv, '='); i > 0 {
			k = kv[:i]
			fmt.Sscan(kv[i+1:], &n)
			e.params[k] = n
		}
	}
	e.setWorkers(*nw)
	for _, f := range strings.Split(*fn, ",") {
		h := &harness{Name: f, Pkg: *pkg}
		if err := e.findHarness(h); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		t1 := time.Now()
		x := e.explore(h, time.Duration(*secs)*time.Second)
		fmt.Printf("%s: %d paths in %.1fs, steps=%d branches=%d forks=%d merges=%d asserts=%d assertQ=%d\n", f, x.paths, time.Since(t1).Seconds(), x.steps, x.branches, x.forks, x.merges, x.asserts, x.assertQ)
		for k, n := range x.ends {
			fmt.Printf("  end %s: %d\n", peNames[k], n)
		}
		for k, n := range x.reach {
			fmt.Printf("  reach %s: %d\n", k, n)
		}
		for _, s := range x.incomplete {
			fmt.Println("  INCOMPLETE", s)
		}
		for _, vi := range x.violations {
			fmt.Printf("  VIOLATION %s finding=%q inputs=%v\n    at %s\n", vi.Msg, vi.Finding, vi.Inputs, vi.Where)
		}
		if *v {
			for _, wt := range x.witnesses {
				fmt.Printf("  witness %v %v\n", wt.Inputs, wt.Obs)
			}
		}
	}
	q := SolverStats{}
	for _, w := range e.workers {
		q.Queries += w.stats.Queries
		q.Sats += w.stats.Sats
		q.Unsats += w.stats.Unsats
		q.Unknown += w.stats.Unknown
		q.Time += w.stats.Time
		q.MaxTime = max(q.MaxTime, w.stats.MaxTime)
	}
	fmt.Printf("solver: %d queries (%d sat %d unsat %d unknown) %.2fs max %.3fs\n", q.Queries, q.Sats, q.Unsats, q.Unknown, q.Time.Seconds(), q.MaxTime.Seconds())
	rf, other := e.encodedFunctions()
	fmt.Printf("encoded: %v + %d library functions\n", rf, other)
}
