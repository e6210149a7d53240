package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jent struct {
	p    *Value
	old  Value
	m    *mapV
	mold *mapV
	undo func()
}

type deferred struct {
	fn   Value
	code *fnCode
	args []Value
	bi   string
	in   *instr
}

type frame struct {
	code      *fnCode
	regs      []Value
	defers    []deferred
	panicking *goPanic
	recovered bool
	deferOf   *frame
	caller    *frame
	cur       *instr
}

// Worker executes paths; it owns an interpreter heap, terms and a solver.
type Worker struct {
	eng        *Engine
	id         int
	code       map[*ssa.Function]*fnCode
	canonCache map[types.Type]types.Type
	globals    map[*ssa.Global]*Value
	pkgState   map[*ssa.Package]int
	uniq       map[string]*Value
	methods    map[methodKey]*fnCode
	ctx        *TermCtx
	sol        *Solver
	stats      SolverStats
	rtypes     map[types.Type]*rtypeObj
	ghostBase  map[string]any

	initDepth int
	journal   []jent

	// path state
	pathState

	// goroutines
	cur  *gor
	gors []*gor
}

type methodKey struct {
	t types.Type
	m string
}

func (w *Worker) unsupported(f string, a ...any) {
	panic(&pathEnd{kind: peUnsupported, msg: fmt.Sprintf(f, a...) + " " + w.where()})
}

func (w *Worker) where() string {
	if w.cur == nil {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("[")
	n := 0
	for f := w.cur.top; f != nil && n < 12; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.code.name)
		if f.cur != nil && f.cur.ssa != nil {
			p := f.cur.ssa.Pos()
			if p.IsValid() {
				ps := w.eng.fset.Position(p)
				sb.WriteString(fmt.Sprintf(":%d", ps.Line))
			}
		}
		n++
	}
	sb.WriteString("]")
	return sb.String()
}

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	v := zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	w.globals[g] = p
	if strings.HasPrefix(g.Name(), "init$guard") {
		return p
	}
	w.ensureInit(g.Pkg)
	if w.eng.initVerbose && g.Pkg != nil && w.eng.skipInit(g.Pkg.Pkg.Path()) {
		w.eng.debugf("init skipped: global %s", g)
	}
	return p
}

func (w *Worker) ensureInit(pkg *ssa.Package) {
	if pkg == nil || w.pkgState[pkg] != 0 {
		return
	}
	w.pkgState[pkg] = 1
	path := pkg.Pkg.Path()
	if w.eng.skipInit(path) {
		w.pkgState[pkg] = 2
		return
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		w.pkgState[pkg] = 2
		return
	}
	w.initDepth++
	saved := w.steps
	code := w.codeFor(fn)
	code.pkgInit = true
	w.callCode(code, nil, nil)
	w.steps = saved
	w.initDepth--
	w.pkgState[pkg] = 2
}

// set writes a scalar cell, journaling the old value.
func (w *Worker) set(p *Value, v Value) {
	if w.initDepth == 0 {
		w.journal = append(w.journal, jent{p: p, old: *p})
	}
	*p = v
}

// storeInto copies v into the cell p, in place for aggregates.
func (w *Worker) storeInto(p *Value, v Value, fresh bool) {
	switch x := v.p.(type) {
	case structV:
		dst, ok := p.p.(structV)
		if !ok {
			w.unsupported("store struct into %T", p.p)
		}
		for i := range x {
			w.storeInto(&dst[i], x[i], fresh)
		}
		return
	case arrayV:
		dst := p.p.(arrayV)
		for i := range x {
			w.storeInto(&dst[i], x[i], fresh)
		}
		return
	}
	if fresh || w.initDepth > 0 {
		*p = v
		return
	}
	w.journal = append(w.journal, jent{p: p, old: *p})
	*p = v
}

func (w *Worker) undo(to int) {
	for i := len(w.journal) - 1; i >= to; i-- {
		j := &w.journal[i]
		switch {
		case j.p != nil:
			*j.p = j.old
		case j.m != nil:
			*j.m = *j.mold
		case j.undo != nil:
			j.undo()
		}
	}
	w.journal = w.journal[:to]
}

// --- panics ---

func (w *Worker) rtPanic(msg string) {
	t := w.eng.errStringT
	var v Value
	cell := zero(t)
	cell.p.(structV)[0] = strV("runtime error: " + msg)
	v = Value{p: &ifaceV{t: w.canon(types.NewPointer(t)), v: Value{p: &cell}}}
	panic(&goPanic{v: v, where: w.where()})
}

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

// --- calls ---

const maxDepth = 4000

func (w *Worker) callFn(fn Value, args []Value) Value {
	switch f := fn.p.(type) {
	case nil:
		w.nilDeref()
	case *ssa.Function:
		return w.callCode(w.codeFor(f), args, nil)
	case *closureV:
		return w.callCode(w.codeFor(f.fn), args, f.env)
	case *nativeFn:
		return f.f(w, args)
	}
	w.unsupported("call of %T", fn.p)
	return Value{}
}

func (w *Worker) stubResult(rs *types.Tuple) Value {
	switch rs.Len() {
	case 0:
		return Value{}
	case 1:
		return w.stubVal(rs.At(0).Type())
	}
	tv := make(tupleV, rs.Len())
	for i := range tv {
		tv[i] = w.stubVal(rs.At(i).Type())
	}
	return Value{p: tv}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (w *Worker) stubVal(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if isErrorType(t) {
			return Value{}
		}
		return Value{p: &ifaceV{t: w.eng.stubT, v: Value{p: &stubObj{t}}}}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			v := zero(u.Elem())
			return Value{p: &v}
		}
	case *types.Signature:
		return Value{p: &nativeFn{name: "stub", f: func(w *Worker, a []Value) Value { return w.stubResult(u.Results()) }}}
	}
	return zero(t)
}

func (w *Worker) callCode(code *fnCode, args []Value, env []Value) Value {
	if code.intr != nil {
		if r, ok := w.tryIntr(code, args); ok {
			return r
		}
	}
	if code.stub {
		return w.stubResult(code.results)
	}
	if code.pkgInit && w.initDepth == 0 {
		return Value{}
	}
	if !code.compiled {
		w.initDepth++ // compiling may run package initialisers
		w.compile(code)
		w.initDepth--
	}
	if !code.visited {
		code.visited = true
	}
	g := w.cur
	g.depth++
	if g.depth > maxDepth {
		panic(&pathEnd{kind: peLimit, msg: "call depth " + code.name})
	}
	// registers
	n := code.nregs
	if len(g.stack)-g.sp < n {
		sz := 1 << 14
		if n > sz {
			sz = n
		}
		g.stack = make([]Value, sz)
		g.sp = 0
	}
	savedStack, savedSp := g.stack, g.sp
	regs := g.stack[g.sp : g.sp+n : g.sp+n]
	g.sp += n
	copy(regs, args)
	copy(regs[code.nparams:], env)
	fr := &frame{code: code, regs: regs, caller: g.top, deferOf: g.nextDeferOf}
	g.nextDeferOf = nil
	g.top = fr
	var res Value
	if code.hasDefer {
		res = w.runDeferFrame(fr)
	} else {
		res = w.run(fr, 0)
	}
	g.top = fr.caller
	for i := range regs {
		regs[i] = Value{}
	}
	g.stack, g.sp = savedStack, savedSp
	g.depth--
	return res
}

type notHandled struct{}

var notHandledV = Value{p: notHandled{}}

func (w *Worker) tryIntr(code *fnCode, args []Value) (Value, bool) {
	r := code.intr(w, args)
	if _, no := r.p.(notHandled); no {
		return r, false
	}
	return r, true
}

func (w *Worker) runDeferFrame(fr *frame) (res Value) {
	g := w.cur
	depth, sp, stack := g.depth, g.sp, g.stack
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			gp, is := r.(*goPanic)
			if !is {
				panic(r)
			}
			g.depth, g.sp, g.stack = depth, sp, stack
			g.top = fr
			fr.panicking = gp
		}()
		res = w.run(fr, 0)
		ok = true
	}()
	if ok {
		return res
	}
	w.runDefers(fr)
	if fr.panicking != nil && !fr.recovered {
		panic(fr.panicking)
	}
	fr.panicking = nil
	if fr.code.recover >= 0 {
		return w.run(fr, fr.code.recover)
	}
	return zeroResults(fr.code.results)
}

func zeroResults(t *types.Tuple) Value {
	switch t.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(t.At(0).Type())
	}
	return zero(t)
}

// runDefers runs the deferred calls of fr; a panic in one replaces the current one.
func (w *Worker) runDefers(fr *frame) {
	g := w.cur
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, sp, stack := g.depth, g.sp, g.stack
		func() {
			done := false
			defer func() {
				if done {
					return
				}
				r := recover()
				gp, is := r.(*goPanic)
				if !is {
					panic(r)
				}
				g.depth, g.sp, g.stack = depth, sp, stack
				g.top = fr
				g.nextDeferOf = nil
				fr.panicking = gp
				fr.recovered = false
			}()
			if d.bi != "" {
				w.builtin(d.in, d.bi, d.args)
			} else {
				g.nextDeferOf = fr
				if d.code != nil {
					if d.code.intr != nil || d.code.stub {
						g.nextDeferOf = nil
					}
					w.callCode(d.code, d.args, nil)
				} else {
					w.callFn(d.fn, d.args)
				}
				g.nextDeferOf = nil
			}
			done = true
		}()
		if fr.recovered {
			fr.panicking = nil
		}
	}
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *fnCode {
	key := methodKey{t, m.Id()}
	if c, ok := w.methods[key]; ok {
		return c
	}
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		w.unsupported("method %s not found on %s", m.Name(), t)
	}
	fn := w.eng.prog.MethodValue(sel)
	c := w.codeFor(fn)
	w.methods[key] = c
	return c
}

// findMethod finds a method by exported name, or nil.
func (w *Worker) findMethod(t types.Type, name string) *fnCode {
	key := methodKey{t, "\x00" + name}
	if c, ok := w.methods[key]; ok {
		return c
	}
	var c *fnCode
	if t != w.eng.stubT {
		sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
		if sel != nil {
			c = w.codeFor(w.eng.prog.MethodValue(sel))
		}
	}
	w.methods[key] = c
	return c
}

// callMethod calls an exported method by name on an interface value.
func (w *Worker) callMethod(iv *ifaceV, name string, args ...Value) Value {
	if _, ok := iv.v.p.(*stubObj); ok {
		return Value{}
	}
	c := w.findMethod(iv.t, name)
	if c == nil {
		w.unsupported("no method %s on %s", name, iv.t)
	}
	return w.callCode(c, append([]Value{iv.v}, args...), nil)
}

func (w *Worker) doCall(fr *frame, in *instr) Value {
	regs := fr.regs
	if in.method != nil {
		x := in.x.c
		if in.x.reg >= 0 {
			x = regs[in.x.reg]
		}
		if x.p == nil {
			w.nilDeref()
		}
		iv := x.p.(*ifaceV)
		args := make([]Value, len(in.args)+1)
		args[0] = iv.v
		for i := range in.args {
			if o := &in.args[i]; o.reg >= 0 {
				args[i+1] = regs[o.reg]
			} else {
				args[i+1] = o.c
			}
		}
		if so, ok := iv.v.p.(*stubObj); ok {
			_ = so
			return w.stubResult(in.method.Type().(*types.Signature).Results())
		}
		return w.callCode(w.lookupMethod(iv.t, in.method), args, nil)
	}
	var abuf [8]Value
	args := abuf[:0]
	if len(in.args) > 8 || in.bi != "" {
		args = make([]Value, 0, len(in.args))
	}
	for i := range in.args {
		if o := &in.args[i]; o.reg >= 0 {
			args = append(args, regs[o.reg])
		} else {
			args = append(args, o.c)
		}
	}
	if in.callee != nil {
		if in.fn == nil {
			in.fn = w.codeFor(in.callee)
		}
		if fr.code.pkgInit {
			return w.initCall(fr, in, args)
		}
		return w.callCode(in.fn, args, nil)
	}
	if in.bi != "" {
		if w.race != nil {
			w.raceBuiltin(fr, in.bi, args)
		}
		return w.builtin(in, in.bi, args)
	}
	f := in.x.c
	if in.x.reg >= 0 {
		f = regs[in.x.reg]
	}
	return w.callFn(f, args)
}

// initCall performs a call made by a package initialiser.
func (w *Worker) initCall(fr *frame, in *instr, args []Value) (res Value) {
	callee := in.callee
	if callee.Name() == "init" && callee.Signature.Recv() == nil && callee.Pkg != fr.code.fn.Pkg {
		return Value{} // imported packages are initialised on demand
	}
	if w.eng.isRepoPkg(fr.code.fn.Pkg.Pkg.Path()) {
		return w.callCode(in.fn, args, nil)
	}
	g := w.cur
	depth, sp, stack, top := g.depth, g.sp, g.stack, g.top
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch x := r.(type) {
		case *goPanic:
			w.eng.debugf("init %s: call %s panicked %s", fr.code.name, in.fn.name, x.where)
		case *pathEnd:
			w.eng.debugf("init %s: call %s: %s", fr.code.name, in.fn.name, x.msg)
		default:
			panic(r)
		}
		g.depth, g.sp, g.stack, g.top = depth, sp, stack, top
		g.nextDeferOf = nil
		res = w.stubResult(in.fn.results)
	}()
	res = w.callCode(in.fn, args, nil)
	ok = true
	return res
}

// run executes from block bi until return.
func (w *Worker) run(fr *frame, bi int) Value {
	code := fr.code
	regs := fr.regs
	blk := code.blocks[bi]
	pc := 0
	for {
		in := &blk[pc]
		fr.cur = in
		pc++
		switch in.op {
		case iAlloc:
			var v Value
			if in.flat {
				v = in.zero
			} else {
				v = copyVal(in.zero)
			}
			regs[in.dst] = Value{p: &v}
		case iBinOp:
			x, y := in.x.c, in.y.c
			if in.x.reg >= 0 {
				x = regs[in.x.reg]
			}
			if in.y.reg >= 0 {
				y = regs[in.y.reg]
			}
			if in.k.k == kInt && x.p == nil && y.p == nil {
				// fast paths
				switch in.tok {
				case token.ADD:
					regs[in.dst] = Value{n: norm(x.n+y.n, in.k)}
					continue
				case token.SUB:
					regs[in.dst] = Value{n: norm(x.n-y.n, in.k)}
					continue
				case token.EQL:
					regs[in.dst] = boolV(x.n == y.n)
					continue
				case token.NEQ:
					regs[in.dst] = boolV(x.n != y.n)
					continue
				case token.LSS:
					if in.k.signed {
						regs[in.dst] = boolV(int64(x.n) < int64(y.n))
					} else {
						regs[in.dst] = boolV(x.n < y.n)
					}
					continue
				case token.AND:
					regs[in.dst] = Value{n: x.n & y.n}
					continue
				}
			}
			regs[in.dst] = w.binop(in, x, y)
		case iUnOp:
			regs[in.dst] = w.unop(in, w.get(fr, &in.x))
		case iLoad:
			x := in.x.c
			if in.x.reg >= 0 {
				x = regs[in.x.reg]
			}
			if p, ok := x.p.(*Value); ok {
				if w.race != nil {
					w.raceAccess(fr, p, false)
				}
				v := *p
				if in.k.k == kStruct || in.k.k == kArray {
					v = copyVal(v)
				}
				regs[in.dst] = v
			} else {
				regs[in.dst] = w.loadSlow(x, in)
			}
		case iStore:
			x := in.x.c
			if in.x.reg >= 0 {
				x = regs[in.x.reg]
			}
			v := in.y.c
			if in.y.reg >= 0 {
				v = regs[in.y.reg]
			}
			if p, ok := x.p.(*Value); ok {
				if w.race != nil && !in.fresh {
					w.raceAccess(fr, p, true)
				}
				w.storeInto(p, v, in.fresh)
			} else {
				w.storeSlow(x, v, in)
			}
		case iCall:
			regs[in.dst] = w.doCall(fr, in)
		case iChangeType:
			regs[in.dst] = w.get(fr, &in.x)
		case iConvert:
			if w.race != nil {
				w.raceElems(fr, w.get(fr, &in.x), false)
			}
			regs[in.dst] = w.convert(in, w.get(fr, &in.x))
		case iMakeInterface:
			regs[in.dst] = Value{p: &ifaceV{t: in.typ, v: w.get(fr, &in.x)}}
		case iExtract:
			x := w.get(fr, &in.x)
			tv, ok := x.p.(tupleV)
			if !ok {
				w.unsupported("extract from %T", x.p)
			}
			regs[in.dst] = tv[in.n]
		case iFieldAddr:
			x := w.get(fr, &in.x)
			p, ok := x.p.(*Value)
			if !ok {
				if x.p == nil {
					w.nilDeref()
				}
				w.unsupported("field address of %T", x.p)
			}
			s, ok := p.p.(structV)
			if !ok {
				w.unsupported("field address in %T", p.p)
			}
			regs[in.dst] = Value{p: &s[in.n]}
		case iField:
			x := w.get(fr, &in.x)
			s, ok := x.p.(structV)
			if !ok {
				w.unsupported("field of %T", x.p)
			}
			regs[in.dst] = s[in.n]
		case iIndexAddr:
			regs[in.dst] = w.indexAddr(in, w.get(fr, &in.x), w.get(fr, &in.y))
		case iIndex:
			regs[in.dst] = w.index(in, w.get(fr, &in.x), w.get(fr, &in.y))
		case iLookup:
			if w.race != nil {
				w.raceMap(fr, w.get(fr, &in.x), false)
			}
			regs[in.dst] = w.lookup(in, w.get(fr, &in.x), w.get(fr, &in.y))
		case iMapUpdate:
			if w.race != nil {
				w.raceMap(fr, w.get(fr, &in.x), true)
			}
			w.mapUpdate(w.get(fr, &in.x), w.get(fr, &in.y), w.get(fr, &in.z))
		case iMakeMap:
			regs[in.dst] = Value{p: w.newMap(in.typ, in.typ2)}
		case iMakeSlice:
			regs[in.dst] = w.makeSlice(in, w.get(fr, &in.x), w.get(fr, &in.y))
		case iMakeChan:
			n := w.concInt(w.get(fr, &in.x), kindT{kInt, 64, true})
			regs[in.dst] = Value{p: &chanV{cap: int(n), elemT: in.typ}}
		case iMakeClosure:
			env := make([]Value, len(in.args))
			for i := range in.args {
				env[i] = w.get(fr, &in.args[i])
			}
			regs[in.dst] = Value{p: &closureV{fn: in.callee, env: env}}
		case iSlice:
			regs[in.dst] = w.slice(fr, in)
		case iPhi:
			w.unsupported("stray phi")
		case iIf:
			w.steps++
			c := in.x.c
			if in.x.reg >= 0 {
				c = regs[in.x.reg]
			}
			var next, e int
			if t, ok := c.p.(*Term); ok {
				var done bool
				next, e, done = w.symIf(fr, in, t)
				if done { // phis already assigned
					blk = code.blocks[next]
					pc = code.nphi[next]
					continue
				}
			} else if c.n != 0 {
				next, e = in.t0, in.e0
			} else {
				next, e = in.t1, in.e1
			}
			blk = code.blocks[next]
			pc = 0
			if np := code.nphi[next]; np > 0 {
				w.phis(fr, blk[:np], e)
				pc = np
			}
		case iJump:
			w.steps++
			if w.steps > w.eng.maxSteps {
				panic(&pathEnd{kind: peLimit, msg: "step limit " + w.where()})
			}
			next := in.t0
			blk = code.blocks[next]
			pc = 0
			if np := code.nphi[next]; np > 0 {
				w.phis(fr, blk[:np], in.e0)
				pc = np
			}
		case iReturn:
			switch len(in.args) {
			case 0:
				return Value{}
			case 1:
				return w.get(fr, &in.args[0])
			}
			tv := make(tupleV, len(in.args))
			for i := range in.args {
				tv[i] = w.get(fr, &in.args[i])
			}
			return Value{p: tv}
		case iRange:
			if w.race != nil {
				w.raceMap(fr, w.get(fr, &in.x), false)
			}
			regs[in.dst] = w.rangeIter(in, w.get(fr, &in.x))
		case iNext:
			if w.race != nil {
				if it, ok := w.get(fr, &in.x).p.(*mapIter); ok {
					w.raceAccess(fr, it.m, false)
				}
			}
			regs[in.dst] = w.next(in, w.get(fr, &in.x))
		case iTypeAssert:
			regs[in.dst] = w.typeAssert(in, w.get(fr, &in.x))
		case iDefer:
			fr.defers = append(fr.defers, w.mkDeferred(fr, in))
		case iRunDefers:
			w.runDefers(fr)
			if fr.panicking != nil && !fr.recovered {
				panic(fr.panicking)
			}
		case iPanic:
			v := w.get(fr, &in.x)
			panic(&goPanic{v: v, where: w.where()})
		case iGo:
			d := w.mkDeferred(fr, in)
			w.spawn(d)
		case iSend:
			w.chanSend(w.get(fr, &in.x), w.get(fr, &in.y))
		case iRecv:
			v, ok := w.chanRecv(w.get(fr, &in.x), in.typ)
			if in.commaOk {
				regs[in.dst] = Value{p: tupleV{v, boolV(ok)}}
			} else {
				regs[in.dst] = v
			}
		case iSelect:
			regs[in.dst] = w.doSelect(fr, in)
		case iSliceToArrayPtr:
			s := asSlice(w.get(fr, &in.x))
			if len(s) < in.n {
				w.rtPanic("cannot convert slice to array pointer: length too short")
			}
			v := Value{p: arrayV(s[:in.n:in.n])}
			regs[in.dst] = Value{p: &v}
		default:
			w.unsupported("opcode %d", in.op)
		}
	}
}

func (w *Worker) get(fr *frame, o *operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

func (w *Worker) phis(fr *frame, ps []instr, e int) {
	if len(ps) == 1 {
		o := &ps[0].edges[e]
		if o.reg >= 0 {
			fr.regs[ps[0].dst] = fr.regs[o.reg]
		} else {
			fr.regs[ps[0].dst] = o.c
		}
		return
	}
	var buf [16]Value
	tmp := buf[:0]
	for i := range ps {
		o := &ps[i].edges[e]
		if o.reg >= 0 {
			tmp = append(tmp, fr.regs[o.reg])
		} else {
			tmp = append(tmp, o.c)
		}
	}
	for i := range ps {
		fr.regs[ps[i].dst] = tmp[i]
	}
}

func (w *Worker) mkDeferred(fr *frame, in *instr) deferred {
	d := deferred{in: in, bi: in.bi}
	if in.method != nil {
		x := w.get(fr, &in.x)
		if x.p == nil {
			w.nilDeref()
		}
		iv := x.p.(*ifaceV)
		if _, ok := iv.v.p.(*stubObj); ok {
			d.fn = Value{p: &nativeFn{name: "stub", f: func(w *Worker, a []Value) Value { return Value{} }}}
			return d
		}
		d.code = w.lookupMethod(iv.t, in.method)
		d.args = append(d.args, iv.v)
	} else if in.callee != nil {
		d.code = w.codeFor(in.callee)
	} else if in.bi == "" {
		d.fn = w.get(fr, &in.x)
	}
	for i := range in.args {
		d.args = append(d.args, w.get(fr, &in.args[i]))
	}
	return d
}

// --- symbolic if with merging of pure blocks ---

// evalPure executes the straight-line part of a pure block.
func (w *Worker) evalPure(fr *frame, b int) *instr {
	blk := fr.code.blocks[b]
	np := fr.code.nphi[b]
	if np != 0 {
		return nil
	}
	for i := range blk {
		in := &blk[i]
		switch in.op {
		case iBinOp:
			fr.regs[in.dst] = w.binop(in, w.get(fr, &in.x), w.get(fr, &in.y))
		case iUnOp:
			fr.regs[in.dst] = w.unop(in, w.get(fr, &in.x))
		case iConvert:
			fr.regs[in.dst] = w.convert(in, w.get(fr, &in.x))
		case iExtract:
			tv, ok := w.get(fr, &in.x).p.(tupleV)
			if !ok {
				return nil
			}
			fr.regs[in.dst] = tv[in.n]
		case iField:
			s, ok := w.get(fr, &in.x).p.(structV)
			if !ok {
				return nil
			}
			fr.regs[in.dst] = s[in.n]
		case iChangeType:
			fr.regs[in.dst] = w.get(fr, &in.x)
		default:
			return in
		}
	}
	return nil
}

// scalarIte merges two scalar values.
func (w *Worker) scalarIte(c *Term, a, b Value, k kindT) (Value, bool) {
	if a.p == nil && b.p == nil && a.n == b.n {
		return a, true
	}
	if k.k != kInt && k.k != kBool {
		if a.p == nil || b.p == nil {
			return a, false
		}
		switch a.p.(type) {
		case *Value, *mapV, *ssa.Function, *ifaceV, *chanV, *closureV:
			if a.p == b.p {
				return a, true
			}
		}
		return a, false
	}
	ta, tb := w.toTerm(a, k), w.toTerm(b, k)
	return w.fromTerm(w.ctx.Ite(c, ta, tb), k), true
}

type edgeT struct {
	blk  int
	e    int
	phis []Value // nil: take from edge e
}

func (w *Worker) edgePhis(fr *frame, x edgeT) []Value {
	if x.phis != nil {
		return x.phis
	}
	np := fr.code.nphi[x.blk]
	r := make([]Value, np)
	ps := fr.code.blocks[x.blk]
	for i := 0; i < np; i++ {
		r[i] = w.get(fr, &ps[i].edges[x.e])
	}
	return r
}

func (w *Worker) mergeEdges(fr *frame, c *Term, a, b edgeT) (edgeT, bool) {
	if a.blk != b.blk {
		return a, false
	}
	np := fr.code.nphi[a.blk]
	if np == 0 {
		return edgeT{blk: a.blk, e: a.e, phis: []Value{}}, true
	}
	pa, pb := w.edgePhis(fr, a), w.edgePhis(fr, b)
	out := make([]Value, np)
	ps := fr.code.blocks[a.blk]
	for i := 0; i < np; i++ {
		v, ok := w.scalarIte(c, pa[i], pb[i], ps[i].k)
		if !ok {
			return a, false
		}
		out[i] = v
	}
	return edgeT{blk: a.blk, e: a.e, phis: out}, true
}

func (w *Worker) symIf(fr *frame, in *instr, cond *Term) (int, int, bool) {
	code := fr.code
	if v, known := w.knownRec(cond); known {
		if v {
			return in.t0, in.e0, false
		}
		return in.t1, in.e1, false
	}
	T := edgeT{blk: in.t0, e: in.e0}
	F := edgeT{blk: in.t1, e: in.e1}
	if !w.eng.noMerge {
		for iter := 0; iter < 64; iter++ {
			changed := false
			// follow pure jump blocks
			for s := 0; s < 2; s++ {
				x := &T
				if s == 1 {
					x = &F
				}
				if x.phis != nil || !code.pure[x.blk] || code.nphi[x.blk] != 0 {
					continue
				}
				blk := code.blocks[x.blk]
				last := &blk[len(blk)-1]
				if last.op == iJump {
					// only worthwhile when both sides can meet
					other := F
					if s == 1 {
						other = T
					}
					meets := last.t0 == other.blk
					if !meets && other.phis == nil && code.pure[other.blk] {
						ob := code.blocks[other.blk]
						if ol := &ob[len(ob)-1]; ol.op == iJump && ol.t0 == last.t0 {
							meets = true
						}
					}
					if !meets {
						continue
					}
					if w.evalPure(fr, x.blk) == nil {
						continue
					}
					*x = edgeT{blk: last.t0, e: last.e0}
					changed = true
				}
			}
			if T.blk == F.blk {
				m, ok := w.mergeEdges(fr, cond, T, F)
				if ok {
					w.merges++
					w.setPhis(fr, m)
					return m.blk, m.e, true
				}
				break
			}
			// short circuit: T is a pure if-block sharing a target with F (or the reverse)
			if T.phis == nil && code.pure[T.blk] && code.nphi[T.blk] == 0 {
				blk := code.blocks[T.blk]
				last := &blk[len(blk)-1]
				if last.op == iIf && (last.t0 == F.blk || last.t1 == F.blk) {
					if w.evalPure(fr, T.blk) != nil {
						c2 := w.toTerm(w.get(fr, &last.x), kindT{kBool, 0, false})
						if last.t0 == F.blk {
							c2 = w.ctx.Not(c2)
						}
						var T2, F2 edgeT
						if last.t0 == F.blk {
							T2, F2 = edgeT{blk: last.t1, e: last.e1}, edgeT{blk: last.t0, e: last.e0}
						} else {
							T2, F2 = edgeT{blk: last.t0, e: last.e0}, edgeT{blk: last.t1, e: last.e1}
						}
						if last.t0 != last.t1 {
							if m, ok := w.mergeEdges(fr, cond, F2, F); ok {
								cond = w.ctx.And(cond, c2)
								T, F = T2, m
								changed = true
								w.merges++
							}
						}
					}
				}
			}
			if !changed && F.phis == nil && code.pure[F.blk] && code.nphi[F.blk] == 0 {
				blk := code.blocks[F.blk]
				last := &blk[len(blk)-1]
				if last.op == iIf && (last.t0 == T.blk || last.t1 == T.blk) {
					if w.evalPure(fr, F.blk) != nil {
						c2 := w.toTerm(w.get(fr, &last.x), kindT{kBool, 0, false})
						var T2, F2 edgeT
						if last.t0 == T.blk {
							T2, F2 = edgeT{blk: last.t0, e: last.e0}, edgeT{blk: last.t1, e: last.e1}
						} else {
							c2 = w.ctx.Not(c2)
							T2, F2 = edgeT{blk: last.t1, e: last.e1}, edgeT{blk: last.t0, e: last.e0}
						}
						if last.t0 != last.t1 {
							if m, ok := w.mergeEdges(fr, cond, T, T2); ok {
								cond = w.ctx.Or(cond, c2)
								T, F = m, F2
								changed = true
								w.merges++
							}
						}
					}
				}
			}
			if cond.isConst() {
				if cond.k == 1 {
					return w.takeEdge(fr, T)
				}
				return w.takeEdge(fr, F)
			}
			if !changed {
				break
			}
		}
	}
	if w.branch(cond) {
		return w.takeEdge(fr, T)
	}
	return w.takeEdge(fr, F)
}

func (w *Worker) setPhis(fr *frame, x edgeT) {
	ps := fr.code.blocks[x.blk]
	for i := range x.phis {
		fr.regs[ps[i].dst] = x.phis[i]
	}
}

func (w *Worker) takeEdge(fr *frame, x edgeT) (int, int, bool) {
	if x.phis != nil {
		w.setPhis(fr, x)
		return x.blk, x.e, true
	}
	return x.blk, x.e, false
}
