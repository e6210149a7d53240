package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/cloudflare/cfrpki"

type tierCfg struct {
	Seconds  int            `json:"seconds"`
	Params   map[string]int `json:"params"`
	MaxPaths int            `json:"max_paths"`
}

type harness struct {
	Name         string         `json:"fn"`
	Pkg          string         `json:"pkg"`
	Files        []string       `json:"files"`
	Params       map[string]int `json:"params"`
	Quick        tierCfg        `json:"quick"`
	Thorough     tierCfg        `json:"thorough"`
	Reach        []string       `json:"reach"`
	Bounds       string         `json:"bounds"`
	NoReplay     bool           `json:"no_replay"`
	MaxConc      int            `json:"max_conc"`
	MaxSteps     int            `json:"max_steps"`
	NoMerge      bool           `json:"no_merge"`
	Solver       string         `json:"solver"`
	MapPerm      int            `json:"map_perm"`
	ThoroughOnly bool           `json:"thorough_only"`
	Clock        bool           `json:"clock"`
	fn           *ssa.Function
	params       map[string]int
}

type Engine struct {
	repo, verif string
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	tmap        typeutil.Map
	tmu         sync.Mutex
	workers     []*Worker
	ex          *exploration
	errStringT  types.Type
	emptyIfaceT types.Type
	stubT       types.Type
	maxSteps    int
	maxConc     int
	maxMapPerm  int
	maxPaths    int
	maxWitness  int
	noMerge     bool
	verbose     bool
	initVerbose bool
	params      map[string]int
	named       sync.Map
	solverBin   string
}

func (e *Engine) debugf(f string, a ...any) {
	if e.initVerbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (e *Engine) canon(t types.Type) types.Type {
	e.tmu.Lock()
	defer e.tmu.Unlock()
	if c := e.tmap.At(t); c != nil {
		return c.(types.Type)
	}
	e.tmap.Set(t, t)
	return t
}

func (e *Engine) isRepoPkg(p string) bool {
	return strings.HasPrefix(p, modPath) && p != rtPkg && p != envPkg
}

func (e *Engine) namedType(pkg, name string) types.Type {
	key := pkg + "." + name
	if t, ok := e.named.Load(key); ok {
		return t.(types.Type)
	}
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	m := p.Type(name)
	if m == nil {
		return nil
	}
	t := e.canon(m.Type())
	e.named.Store(key, t)
	return t
}

var skipInitPrefixes = []string{
	"runtime", "syscall", "internal/", "log", "golang.org/x/sys", "reflect", "sync", "os/signal", "net/http", "testing",
	"plugin", "github.com/prometheus", "github.com/sirupsen", "github.com/opentracing", "github.com/getsentry", "github.com/uber",
	"github.com/rs", "google.golang.org", "github.com/golang/protobuf", "crypto/tls", "mime", "vendor/golang.org/x/net", "vendor/golang.org/x/text",
	"golang.org/x/net", "golang.org/x/text", "crypto/internal", "expvar", "html", "text/template", "os/exec", "os/user", "net/netip_", "iter",
	"k8s.io", "github.com/gogo", "go.opencensus.io", "crypto/elliptic", "crypto/ecdh", "unique", "flag", "time/tzdata",
}
var keepInit = map[string]bool{
	"internal/oserror": true, "internal/poll": true, "vendor/golang.org/x/net/http/httpguts": true, "vendor/golang.org/x/crypto/cryptobyte/asn1": true, "internal/strconv": true, "internal/saferio": true,
}

func (e *Engine) skipInit(path string) bool {
	if keepInit[path] {
		return false
	}
	for _, p := range skipInitPrefixes {
		if path == p || strings.HasPrefix(path, strings.TrimSuffix(p, "/")+"/") || (strings.HasSuffix(p, "/") && strings.HasPrefix(path, p)) {
			if p == "log" && path != "log" && !strings.HasPrefix(path, "log/") {
				continue
			}
			return true
		}
	}
	return false
}

var stubPkgs = []string{
	"github.com/sirupsen/logrus", "github.com/prometheus/", "github.com/opentracing/", "github.com/getsentry/", "github.com/uber/",
	"github.com/rs/cors", "google.golang.org/", "github.com/golang/protobuf", "log",
}

func (e *Engine) classify(c *fnCode) {
	if f, ok := intrinsics[c.name]; ok {
		c.intr = f
	}
	fn := c.fn
	if c.intr == nil && fn.Origin() != nil && len(fn.TypeArgs()) > 0 && (c.name == "reflect.TypeFor" || c.name == "reflect.TypeAssert" || c.name == "unique.Make") {
		name, targs := c.name, fn.TypeArgs()
		c.intr = func(w *Worker, a []Value) Value {
			ct := make([]types.Type, len(targs))
			for i, t := range targs {
				ct[i] = w.canon(t)
			}
			r, ok := w.genericIntr(name, ct, a)
			if !ok {
				return notHandledV
			}
			return r
		}
	}
	var path string
	switch {
	case fn.Pkg != nil:
		path = fn.Pkg.Pkg.Path()
	case fn.Origin() != nil && fn.Origin().Pkg != nil:
		path = fn.Origin().Pkg.Pkg.Path()
	case fn.Object() != nil && fn.Object().Pkg() != nil:
		path = fn.Object().Pkg().Path()
	case fn.Parent() != nil:
		c.isRepo = true
	}
	c.isRepo = e.isRepoPkg(path)
	if c.intr == nil {
		for _, s := range stubPkgs {
			if path == s || strings.HasPrefix(path, strings.TrimSuffix(s, "/")+"/") {
				if fn.Name() != "init" {
					c.stub = true
				}
			}
		}
	}
}

// harnessOverlay maps files of /repo to files of /verif for the harness files given.
func harnessOverlay(verif, repo, pkg string, files []string) map[string]string {
	m := map[string]string{}
	rts, _ := filepath.Glob(filepath.Join(verif, "harness", "verifrt", "*.go"))
	for _, f := range rts {
		m[filepath.Join(repo, "verifrt", filepath.Base(f))] = f
	}
	envs, _ := filepath.Glob(filepath.Join(verif, "harness", "verifenv", "*.go"))
	for _, f := range envs {
		m[filepath.Join(repo, "verifenv", filepath.Base(f))] = f
	}
	for _, f := range files {
		m[filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f))] = filepath.Join(verif, "harness", f)
	}
	return m
}

func loadEngine(verif, repo, pkg string, files []string) (*Engine, error) {
	e := &Engine{repo: repo, verif: verif, pkgs: map[string]*ssa.Package{}, maxSteps: 30000000, maxConc: 300, maxMapPerm: 4, maxWitness: 24, solverBin: "z3-new"}
	ov := map[string][]byte{}
	for dst, src := range harnessOverlay(verif, repo, pkg, files) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    ov,
		Fset:       e.fset,
		BuildFlags: []string{"-mod=vendor", "-tags=purego,math_big_pure_go,netgo,osusergo"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, "./"+pkg)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, er.Error())
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("the harness does not build against this tree: %s", strings.Join(errs, "; "))
	}
	prog, ips := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	e.prog = prog
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	_ = ips
	e.errStringT = e.namedType("errors", "errorString")
	e.emptyIfaceT = e.canon(types.NewInterfaceType(nil, nil))
	e.stubT = types.NewNamed(types.NewTypeName(0, nil, "stubObject", nil), types.NewStruct(nil, nil), nil)
	for _, p := range ips {
		if p != nil {
			e.pkgs["main"] = p
		}
	}
	return e, nil
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{eng: e, id: id, code: map[*ssa.Function]*fnCode{}, rtypes: map[types.Type]*rtypeObj{}, canonCache: map[types.Type]types.Type{}, globals: map[*ssa.Global]*Value{},
		pkgState: map[*ssa.Package]int{}, methods: map[methodKey]*fnCode{}, ghostBase: map[string]any{}}
	w.ctx = NewTermCtx()
	w.sol = NewSolver(w.ctx, e.solverBin, 20000, &w.stats)
	w.cur = newGor(w, 0)
	w.pathState = pathState{lits: map[*Term]bool{}, counters: map[string]int{}, inputSet: map[string]bool{}, reached: map[string]bool{}, ghost: newGhost(), local: map[string]any{}, preempt: -1}
	return w
}

func (e *Engine) setWorkers(n int) {
	for _, w := range e.workers {
		w.sol.Close()
	}
	e.workers = nil
	for i := 0; i < n; i++ {
		e.workers = append(e.workers, e.newWorker(i))
	}
}

func (e *Engine) findHarness(h *harness) error {
	p := e.pkgs["main"]
	fn := p.Func(h.Name)
	if fn == nil {
		return fmt.Errorf("harness %s not found in %s", h.Name, p.Pkg.Path())
	}
	h.fn = fn
	return nil
}

// encodedFunctions lists the repository functions executed symbolically.
func (e *Engine) encodedFunctions() (repo []string, other int) {
	seen := map[string]bool{}
	for _, w := range e.workers {
		for _, c := range w.code {
			if !c.visited || c.stub {
				continue
			}
			if c.isRepo {
				n := strings.TrimPrefix(strings.ReplaceAll(c.name, modPath+"/", ""), "")
				pos := e.fset.Position(c.fn.Pos())
				if strings.Contains(pos.Filename, "zz_verif_") {
					continue
				}
				if !seen[n] {
					seen[n] = true
					repo = append(repo, n)
				}
			} else if !seen["\x00"+c.name] {
				seen["\x00"+c.name] = true
				other++
			}
		}
	}
	sort.Strings(repo)
	return
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

// rtypeObj is the emulated *reflect.rtype.
type rtypeObj struct{ t types.Type }
