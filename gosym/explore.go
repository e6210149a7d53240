package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// A decision is recorded for every fork of a path, so that the path can be replayed.
// Branches: bit0 = side taken, bit1 = implied (not added to the path condition).
// Choices: the value chosen.
type workItem struct {
	prefix []int32
	model  map[string]uint64
}

type pathState struct {
	pc        []*Term
	lits      map[*Term]bool
	domains   map[*Term]*[4]uint64 // values that the path condition may leave to variables of up to eight bits
	model     map[string]uint64
	prefix    []int32
	pos       int
	trace     []int32
	steps     int
	merges    int
	mapOrder  bool
	race      *raceState
	preempt   int  // remaining preemptions at synchronisation points; -1 = none allowed
	delay     bool // the choice of the next goroutine counts as a preemption, too, unless it is the next in turn
	counters  map[string]int
	inputs    []inputRec
	inputSet  map[string]bool
	observed  []obsRec
	reached   map[string]bool
	hidden    []pathEndNote
	ghost     *ghostState
	local     map[string]any
	nAssert   int
	truncated string
	tokens    int
}

type pathEndNote struct{ msg string }

type inputRec struct {
	name  string
	terms []*Term // BV8 list for bytes, single term otherwise
	conc  []uint64
	kind  string // int, bytes, choice
}

type obsRec struct {
	name string
	text []Value // string value as bytes (may contain tokens)
}

type violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Inputs  map[string]any    `json:"inputs"`
	Where   string            `json:"where"`
	Finding string            `json:"finding,omitempty"`
	Kind    string            `json:"kind"`
	Obs     map[string]string `json:"-"`
}

type witness struct {
	Inputs map[string]any `json:"inputs"`
	Obs    []string       `json:"obs"`
	End    string         `json:"end"`
}

// exploration is the state of one harness run shared by its workers.
type exploration struct {
	eng      *Engine
	h        *harness
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stop     bool
	deadline time.Time

	paths      int
	ends       map[peKind]int
	endMsgs    map[string]int
	violations []*violation
	vioKeys    map[string]bool
	reach      map[string]int
	asserts    int
	assertQ    int
	branches   int
	forks      int
	unknowns   int
	steps      int64
	maxDepth   int
	merges     int
	witnesses  []*witness
	nWitSeen   int
	incomplete []string
	findings   map[string]*violation
}

func (w *Worker) known(t *Term) (bool, bool) {
	if t.isConst() {
		return t.k == 1, true
	}
	if v, ok := w.lits[t]; ok {
		return v, true
	}
	return false, false
}

// knownRec is known with the outcome recorded in the trace, so that replays take the same course.
func (w *Worker) knownRec(t *Term) (bool, bool) {
	if t.isConst() {
		return t.k == 1, true
	}
	d := int32(4)
	if w.pos < len(w.prefix) {
		d = w.prefix[w.pos]
	} else if v, ok := w.lits[t]; ok {
		d = 2
		if v {
			d = 3
		}
	}
	w.trace = append(w.trace, d)
	w.pos++
	return d == 3, d != 4
}

func (w *Worker) addLit(t *Term, v bool) {
	w.lits[t] = v
	w.lits[w.ctx.Not(t)] = !v
	// decompose conjunctions
	if v && t.op == OAnd {
		w.addLit(t.a, true)
		w.addLit(t.b, true)
	}
	if !v && t.op == OOr {
		w.addLit(t.a, false)
		w.addLit(t.b, false)
	}
	if t.op == ONot {
		w.lits[t.a] = !v
		if !v && t.a.op == OAnd {
			w.addLit(t.a, true)
		}
		if v && t.a.op == OOr {
			w.addLit(t.a, false)
		}
	}
}

func (w *Worker) assume(t *Term) {
	if t.isConst() {
		return
	}
	w.addLit(t, true)
	w.pc = append(w.pc, t)
	w.narrowDomain(t)
}

// narrowDomain removes from the domain of a small variable the values that a condition on it alone excludes.
func (w *Worker) narrowDomain(t *Term) {
	x := t.onlyVar()
	if x == nil || x.w > 8 {
		return
	}
	if w.domains == nil {
		w.domains = map[*Term]*[4]uint64{}
	}
	d := w.domains[x]
	if d == nil {
		d = &[4]uint64{}
		n := 1 << x.w
		if x.w == 0 {
			n = 2
		}
		for i := 0; i < n; i++ {
			d[i>>6] |= 1 << (i & 63)
		}
		w.domains[x] = d
	}
	m := map[string]uint64{}
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		m[x.name] = uint64(i)
		w.ctx.newStamp()
		if w.ctx.Eval(t, m) == 0 {
			d[i>>6] &^= 1 << (i & 63)
		}
	}
	w.ctx.newStamp()
}

// implied reports that a condition on one small variable alone has the value v throughout the variable's domain.
func (w *Worker) implied(t *Term, v bool) bool {
	x := t.onlyVar()
	if x == nil || w.domains[x] == nil {
		return false
	}
	d := w.domains[x]
	m := map[string]uint64{}
	defer w.ctx.newStamp()
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		m[x.name] = uint64(i)
		w.ctx.newStamp()
		if (w.ctx.Eval(t, m) == 1) != v {
			return false
		}
	}
	return true
}

func (w *Worker) lit(t *Term, v bool) *Term {
	if v {
		return t
	}
	return w.ctx.Not(t)
}

func (w *Worker) check(extra *Term) (SatResult, map[string]uint64) {
	if w.pathDeadlineHit() {
		panic(&pathEnd{kind: peKilled, msg: "time budget"})
	}
	r, m := w.sol.Check(w.pc, extra)
	if r == Sat {
		// keep values of variables the query did not mention
		for k, v := range w.model {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
	}
	return r, m
}

func (w *Worker) pathDeadlineHit() bool {
	x := w.eng.ex
	return x != nil && (x.stop || time.Now().After(x.deadline))
}

func (w *Worker) setModel(m map[string]uint64) {
	w.model = m
	w.ctx.newStamp()
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *Worker) branch(t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	if w.initDepth > 0 {
		panic(&pathEnd{kind: peUnsupported, msg: "symbolic branch in initialiser " + w.where()})
	}
	w.steps++
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trace = append(w.trace, d)
		v := d&1 == 1
		if d&2 == 0 {
			w.assume(w.lit(t, v))
		} else {
			w.addLit(t, v)
		}
		return v
	}
	if v, ok := w.lits[t]; ok {
		d := int32(2)
		if v {
			d = 3
		}
		w.trace = append(w.trace, d)
		w.pos++
		return v
	}
	v := w.ctx.Eval(t, w.model) == 1
	var r SatResult
	var m map[string]uint64
	if w.implied(t, v) {
		r = Unsat
	} else {
		r, m = w.check(w.lit(t, !v))
	}
	d := int32(0)
	if v {
		d = 1
	}
	switch r {
	case Unsat:
		w.trace = append(w.trace, d|2)
		w.pos++
		w.addLit(t, v)
		return v
	case Sat:
		alt := make([]int32, len(w.trace)+1)
		copy(alt, w.trace)
		alt[len(w.trace)] = 1 - d
		w.eng.ex.push(workItem{alt, m})
	case Unknown:
		w.eng.ex.note("solver unknown on a branch " + w.where())
	}
	w.trace = append(w.trace, d)
	w.pos++
	w.assume(w.lit(t, v))
	return v
}

// choose forks over 0..n-1 without a constraint.
func (w *Worker) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trace = append(w.trace, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		alt := make([]int32, len(w.trace)+1)
		copy(alt, w.trace)
		alt[len(w.trace)] = int32(i)
		w.eng.ex.push(workItem{alt, w.model})
	}
	w.trace = append(w.trace, 0)
	w.pos++
	return 0
}

// concretize forks over the feasible values of t.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	// enumerate the leaves of small constant ite trees first
	for i := 0; ; i++ {
		if t.lo == t.hi {
			return t.lo
		}
		if i > w.eng.maxConc {
			panic(&pathEnd{kind: peLimit, msg: fmt.Sprintf("more than %d values of a symbolic integer %s", w.eng.maxConc, w.where())})
		}
		var v uint64
		if w.pos < len(w.prefix) {
			// the value under test is recorded in front of the branch decision
			v = uint64(uint32(w.prefix[w.pos])) | uint64(uint32(w.prefix[w.pos+1]))<<32
			w.trace = append(w.trace, w.prefix[w.pos], w.prefix[w.pos+1])
			w.pos += 2
		} else {
			v = w.ctx.Eval(t, w.model)
			w.trace = append(w.trace, int32(uint32(v)), int32(uint32(v>>32)))
			w.pos += 2
		}
		if w.branch(w.ctx.Eq(t, w.ctx.Const(t.w, v))) {
			return v
		}
	}
}

// doAssume restricts the path; it ends the path when infeasible.
func (w *Worker) doAssume(c Value) {
	t, ok := c.p.(*Term)
	if !ok {
		if c.n == 0 {
			panic(&pathEnd{kind: peInfeasible})
		}
		return
	}
	if v, known := w.known(t); known {
		if !v {
			panic(&pathEnd{kind: peInfeasible})
		}
		return
	}
	if w.pos < len(w.prefix) || w.ctx.Eval(t, w.model) == 1 {
		w.assume(t)
		return
	}
	r, m := w.check(t)
	switch r {
	case Sat:
		w.setModel(m)
		w.assume(t)
	case Unsat:
		panic(&pathEnd{kind: peInfeasible})
	default:
		w.eng.ex.note("solver unknown on an assumption " + w.where())
		panic(&pathEnd{kind: peUnknown, msg: "assumption"})
	}
}

func (w *Worker) doAssert(c Value, msg string, finding string) {
	w.nAssert++
	t, ok := c.p.(*Term)
	if ok {
		if v, known := w.known(t); known {
			ok = false
			c = boolV(v)
		}
	}
	if !ok {
		if c.n == 0 {
			w.report(msg, finding, w.model, "assertion")
			panic(&pathEnd{kind: peViolation, msg: msg})
		}
		return
	}
	if w.pos < len(w.prefix) {
		// decided by the path that explored this prefix first
		w.assume(t)
		return
	}
	if w.ctx.Eval(t, w.model) == 0 {
		w.report(msg, finding, w.model, "assertion")
		r, m := w.check(t)
		if r != Sat {
			panic(&pathEnd{kind: peViolation, msg: msg})
		}
		w.setModel(m)
		w.assume(t)
		return
	}
	w.eng.ex.assertQuery()
	r, m := w.check(w.ctx.Not(t))
	switch r {
	case Sat:
		w.report(msg, finding, m, "assertion")
	case Unknown:
		w.eng.ex.note("solver unknown on assertion " + msg)
	}
	if r != Unsat {
		w.assume(t)
	} else {
		w.addLit(t, true)
	}
}

func (x *exploration) assertQuery() {
	x.mu.Lock()
	x.assertQ++
	x.mu.Unlock()
}

func (w *Worker) inputsUnder(model map[string]uint64) map[string]any {
	out := map[string]any{}
	w.ctx.newStamp()
	for _, in := range w.inputs {
		vals := make([]uint64, 0, len(in.terms))
		if in.terms == nil {
			vals = in.conc
		}
		for _, t := range in.terms {
			vals = append(vals, w.ctx.Eval(t, model))
		}
		if in.kind == "bytes" {
			b := make([]byte, len(vals))
			for i := range vals {
				b[i] = byte(vals[i])
			}
			out[in.name] = fmt.Sprintf("%x", b)
		} else {
			out[in.name] = vals[0]
		}
	}
	w.ctx.newStamp()
	return out
}

func (w *Worker) report(msg, finding string, model map[string]uint64, kind string) {
	x := w.eng.ex
	key := msg + "\x00" + finding
	x.mu.Lock()
	dup := x.vioKeys[key]
	x.vioKeys[key] = true
	x.mu.Unlock()
	if dup {
		return
	}
	v := &violation{Harness: x.h.Name, Msg: msg, Finding: finding, Inputs: w.inputsUnder(model), Where: w.where(), Kind: kind}
	x.mu.Lock()
	x.violations = append(x.violations, v)
	x.mu.Unlock()
}

func (x *exploration) note(s string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.unknowns++
	if len(x.incomplete) < 40 {
		x.incomplete = append(x.incomplete, s)
	}
}

func (x *exploration) push(it workItem) {
	x.mu.Lock()
	x.queue = append(x.queue, it)
	x.forks++
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *exploration) pop() (workItem, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return workItem{}, false
		}
		if n := len(x.queue); n > 0 {
			it := x.queue[n-1]
			x.queue = x.queue[:n-1]
			x.active++
			return it, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return workItem{}, false
		}
		x.cond.Wait()
	}
}

func (x *exploration) done() {
	x.mu.Lock()
	x.active--
	if x.active == 0 && len(x.queue) == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (w *Worker) runPath(h *harness, it workItem) {
	w.pathState = pathState{
		lits: map[*Term]bool{}, prefix: it.prefix, counters: map[string]int{},
		inputSet: map[string]bool{}, reached: map[string]bool{}, ghost: newGhost(), local: map[string]any{}, preempt: -1,
	}
	if it.model == nil {
		it.model = map[string]uint64{}
	}
	w.setModel(it.model)
	w.initDepth = 0
	g := newGor(w, 0)
	w.cur = g
	w.gors = []*gor{g}
	end := &pathEnd{kind: peDone}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case *pathEnd:
				end = e
			case *goPanic:
				end = &pathEnd{kind: pePanic, msg: w.panicText(e) + " " + e.where}
			default:
				if w.eng.verbose {
					panic(r)
				}
				end = &pathEnd{kind: peUnsupported, msg: fmt.Sprintf("engine: %v %s", r, w.where())}
			}
		}()
		w.callCode(w.codeFor(h.fn), nil, nil)
	}()
	w.killGors()
	x := w.eng.ex
	if end.kind == pePanic {
		if w.pos >= len(w.prefix) {
			w.report("uncaught panic: "+stripWhere(end.msg), "", w.model, "panic")
		}
	}
	if end.kind == peDeadlock {
		w.report("deadlock: "+end.msg, "", w.model, "deadlock")
	}
	var wit *witness
	if end.kind == peDone || end.kind == peExit {
		x.mu.Lock()
		want := x.wantWitness(len(w.trace))
		x.mu.Unlock()
		if want {
			wit = &witness{Inputs: w.inputsUnder(w.model), End: peNames[end.kind]}
			for _, o := range w.observed {
				wit.Obs = append(wit.Obs, o.name+"="+w.evalStr(o.text))
			}
		}
	}
	w.undo(0)
	x.mu.Lock()
	x.paths++
	x.ends[end.kind]++
	x.steps += int64(w.steps)
	x.asserts += w.nAssert
	x.merges += w.merges
	x.branches += len(w.trace)
	if len(w.trace) > x.maxDepth {
		x.maxDepth = len(w.trace)
	}
	for r := range w.reached {
		x.reach[r]++
	}
	if wit != nil {
		x.addWitness(wit)
	}
	switch end.kind {
	case peUnsupported, peLimit, peUnknown, peKilled:
		if len(x.endMsgs) < 60 || x.endMsgs[end.msg] > 0 {
			x.endMsgs[peNames[end.kind]+": "+end.msg]++
		}
	}
	x.mu.Unlock()
	if w.eng.verbose {
		fmt.Fprintf(os.Stderr, "path %d end=%s %s trace=%d steps=%d pc=%d\n", x.paths, peNames[end.kind], end.msg, len(w.trace), w.steps, len(w.pc))
	}
}

func stripWhere(s string) string {
	if i := strings.Index(s, " ["); i >= 0 {
		j := strings.Index(s, " <")
		if j > i {
			return s[:j] + "]"
		}
	}
	return s
}

func (x *exploration) wantWitness(depth int) bool {
	return x.nWitSeen < 6 || (x.nWitSeen&(x.nWitSeen-1)) == 0 || len(x.witnesses) < x.eng.maxWitness
}

func (x *exploration) addWitness(w *witness) {
	x.nWitSeen++
	if len(x.witnesses) < x.eng.maxWitness {
		x.witnesses = append(x.witnesses, w)
		return
	}
	x.witnesses[x.nWitSeen%x.eng.maxWitness] = w
}

// evalStr renders a possibly symbolic string under the current model.
func (w *Worker) evalStr(b []Value) string {
	var out []byte
	for i := range b {
		switch t := b[i].p.(type) {
		case nil:
			out = append(out, byte(b[i].n))
		case *Term:
			out = append(out, byte(w.ctx.Eval(t, w.model)))
		case *strTok:
			v := w.ctx.Eval(t.t, w.model)
			if t.signed {
				out = append(out, []byte(fmt.Sprint(int64(signExt(v, t.t.w))))...)
			} else if t.base == 16 {
				out = append(out, []byte(fmt.Sprintf("%x", v))...)
			} else {
				out = append(out, []byte(fmt.Sprint(v))...)
			}
		}
	}
	return string(out)
}

func (w *Worker) panicText(gp *goPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	if gp.v.p == nil {
		return "panic(nil)"
	}
	iv := gp.v.p.(*ifaceV)
	if kindOf(iv.t).k == kString {
		return w.evalStr(strBytes(iv.v))
	}
	if c := w.findMethod(iv.t, "Error"); c != nil {
		return w.evalStr(strBytes(w.callCode(c, []Value{iv.v}, nil)))
	}
	return "panic " + iv.t.String()
}

// explore runs a harness to exhaustion or until the deadline.
func (e *Engine) explore(h *harness, budget time.Duration) *exploration {
	x := &exploration{eng: e, h: h, ends: map[peKind]int{}, endMsgs: map[string]int{}, vioKeys: map[string]bool{},
		reach: map[string]int{}, findings: map[string]*violation{}, deadline: time.Now().Add(budget)}
	x.cond = sync.NewCond(&x.mu)
	e.ex = x
	x.queue = append(x.queue, workItem{})
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it, ok := x.pop()
				if !ok {
					return
				}
				if time.Now().After(x.deadline) || (e.maxPaths > 0 && x.paths >= e.maxPaths) {
					x.mu.Lock()
					x.queue = append(x.queue, it)
					x.active--
					x.stop = true
					x.cond.Broadcast()
					x.mu.Unlock()
					return
				}
				w.runPath(h, it)
				x.done()
			}
		}(w)
	}
	wg.Wait()
	if len(x.queue) > 0 {
		x.incomplete = append(x.incomplete, fmt.Sprintf("%d open branches left at the time limit", len(x.queue)))
	}
	var ks []string
	for k := range x.endMsgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.incomplete = append(x.incomplete, fmt.Sprintf("%s (x%d)", k, x.endMsgs[k]))
	}
	return x
}
