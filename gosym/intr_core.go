package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		if _, dup := intrinsics[n]; dup {
			panic("duplicate intrinsic " + n)
		}
		intrinsics[n] = f
	}
}

const rtPkg = "github.com/cloudflare/cfrpki/verifrt"

type ghostState struct {
	now     Value // seconds since year 1
	nowSet  bool
	exitBug bool
	exitMsg string
	sigs    []ghostSig
	ecsigs  []ghostSig
	hashes  map[string][]ghostHash

	locks     map[*Value]*lockState
	nfresh    int
	masks     map[string]*Term
	digits    map[digKey][]Value
	digitNums []digitNum
	symDigits bool
}

type ghostSig struct {
	key  string
	data []Value
	sig  []Value
}
type ghostHash struct{ in, out []Value }

type lockState struct {
	writer  bool
	readers int
	wait    int // WaitGroup counter
	done    bool
	running bool
}

func newGhost() *ghostState {
	return &ghostState{hashes: map[string][]ghostHash{}, digits: map[digKey][]Value{}, locks: map[*Value]*lockState{}}
}

func (w *Worker) lock(p Value) *lockState {
	c, ok := p.p.(*Value)
	if !ok {
		w.nilDeref()
	}
	l := w.ghost.locks[c]
	if l == nil {
		l = &lockState{}
		w.ghost.locks[c] = l
	}
	return l
}

func errVal(w *Worker, msg string) Value {
	cell := zero(w.eng.errStringT)
	cell.p.(structV)[0] = strV(msg)
	return Value{p: &ifaceV{t: w.canon(types.NewPointer(w.eng.errStringT)), v: Value{p: &cell}}}
}

func tuple(v ...Value) Value { return Value{p: tupleV(v)} }

func (w *Worker) strArg(v Value) string {
	s, ok := strConc(v)
	if !ok {
		w.unsupported("concrete string expected")
	}
	return s
}

func (w *Worker) freshName(base string) string {
	n := w.counters[base]
	w.counters[base] = n + 1
	return fmt.Sprintf("%s#%d", base, n)
}

func (w *Worker) symInt(base string, k kindT) Value {
	name := w.freshName(base)
	t := w.ctx.Var(name, k.w)
	w.inputs = append(w.inputs, inputRec{name: name, terms: []*Term{t}, kind: "int"})
	return Value{p: t}
}

func (w *Worker) symBytes(base string, n int) []Value {
	name := w.freshName(base)
	b := make([]Value, n)
	ts := make([]*Term, n)
	for i := range b {
		t := w.ctx.Var(fmt.Sprintf("%s[%d]", name, i), 8)
		ts[i] = t
		b[i] = Value{p: t}
	}
	if n == 0 {
		ts = nil
	}
	w.inputs = append(w.inputs, inputRec{name: name, terms: ts, kind: "bytes"})
	return b
}

func nop(w *Worker, a []Value) Value { return Value{} }

func init() {
	r := func(n string, f intrinsic) { reg(f, rtPkg+"."+n) }
	r("SymbolicDigits", func(w *Worker, a []Value) Value { w.ghost.symDigits = true; return Value{} })
	r("U8", func(w *Worker, a []Value) Value { return w.symInt(w.strArg(a[0]), kU8) })
	r("U16", func(w *Worker, a []Value) Value { return w.symInt(w.strArg(a[0]), kindT{kInt, 16, false}) })
	r("U32", func(w *Worker, a []Value) Value { return w.symInt(w.strArg(a[0]), kindT{kInt, 32, false}) })
	r("U64", func(w *Worker, a []Value) Value { return w.symInt(w.strArg(a[0]), kU64) })
	r("I64", func(w *Worker, a []Value) Value { return w.symInt(w.strArg(a[0]), kI64) })
	r("Bool", func(w *Worker, a []Value) Value {
		name := w.freshName(w.strArg(a[0]))
		t := w.ctx.Var(name, 1)
		w.inputs = append(w.inputs, inputRec{name: name, terms: []*Term{t}, kind: "int"})
		return w.fromTerm(w.ctx.Eq(t, w.ctx.Const(1, 1)), kBoolT)
	})
	r("Int", func(w *Worker, a []Value) Value {
		v := w.symInt(w.strArg(a[0]), kI64)
		t := v.p.(*Term)
		lo, hi := w.toTerm(a[1], kI64), w.toTerm(a[2], kI64)
		w.doAssume(w.fromTerm(w.ctx.And(w.ctx.Sle(lo, t), w.ctx.Sle(t, hi)), kBoolT))
		return v
	})
	r("Bytes", func(w *Worker, a []Value) Value {
		return Value{p: sliceV(w.symBytes(w.strArg(a[0]), int(w.concInt(a[1], kI64))))}
	})
	r("Str", func(w *Worker, a []Value) Value {
		return mkStr(w.symBytes(w.strArg(a[0]), int(w.concInt(a[1], kI64))))
	})
	r("Choice", func(w *Worker, a []Value) Value {
		name := w.freshName(w.strArg(a[0]))
		n := int(w.concInt(a[1], kI64))
		c := w.choose(n, name)
		w.inputs = append(w.inputs, inputRec{name: name, conc: []uint64{uint64(c)}, kind: "choice"})
		return intV(c)
	})
	r("Assume", func(w *Worker, a []Value) Value { w.doAssume(a[0]); return Value{} })
	r("Assert", func(w *Worker, a []Value) Value {
		w.doAssert(a[0], w.evalStr(strBytes(a[1])), "")
		return Value{}
	})
	r("Known", func(w *Worker, a []Value) Value {
		// reports the finding where cond holds, then excludes that case
		id := w.strArg(a[0])
		w.doAssert(w.notV(a[1]), w.evalStr(strBytes(a[2])), id)
		return Value{}
	})
	r("GiveUp", func(w *Worker, a []Value) Value { w.unsupported("%s", w.strArg(a[0])); return Value{} })
	r("Reach", func(w *Worker, a []Value) Value { w.reached[w.strArg(a[0])] = true; return Value{} })
	r("ObserveStr", func(w *Worker, a []Value) Value {
		w.observed = append(w.observed, obsRec{w.strArg(a[0]), strBytes(a[1])})
		return Value{}
	})
	r("ObserveBytes", func(w *Worker, a []Value) Value {
		w.observed = append(w.observed, obsRec{w.strArg(a[0]), w.hexBytes(asSlice(a[1]))})
		return Value{}
	})
	r("ObserveInt", func(w *Worker, a []Value) Value {
		w.observed = append(w.observed, obsRec{w.strArg(a[0]), strBytes(w.fmtInt(a[1], kI64, 10))})
		return Value{}
	})
	r("ObserveBool", func(w *Worker, a []Value) Value {
		t := w.toTerm(a[1], kBoolT)
		v := w.fromTerm(w.ctx.Ite(t, w.ctx.Const(8, '1'), w.ctx.Const(8, '0')), kU8)
		w.observed = append(w.observed, obsRec{w.strArg(a[0]), []Value{v}})
		return Value{}
	})
	r("Symbolic", func(w *Worker, a []Value) Value { return boolV(true) })
	r("MapOrder", func(w *Worker, a []Value) Value { w.mapOrder = a[0].n != 0; return Value{} })
	r("Interleave", func(w *Worker, a []Value) Value {
		w.preempt = int(int64(a[0].n))
		w.race = newRaceState()
		return Value{}
	})
	r("InterleaveDelay", func(w *Worker, a []Value) Value {
		w.preempt = a[0].int()
		w.delay = true
		w.race = newRaceState()
		return Value{}
	})
	r("Settle", func(w *Worker, a []Value) Value {
		// run the others until each is finished or blocked; how many are left
		pre, g := w.preempt, w.cur
		w.preempt = -1
		w.block("settle", func() bool {
			for _, o := range w.gors {
				if o != g && o.runnable() {
					return false
				}
			}
			return true
		})
		w.preempt = pre
		n := 0
		for _, o := range w.gors {
			if o != g && !o.done {
				n++
			}
		}
		return intV(n)
	})
	r("ExitIsBug", func(w *Worker, a []Value) Value { w.ghost.exitBug = true; return Value{} })
	r("SetNow", func(w *Worker, a []Value) Value {
		// unix seconds
		w.ghost.now = w.intBinC("+", a[0], 62135596800)
		w.ghost.nowSet = true
		return Value{}
	})
	r("Concretize", func(w *Worker, a []Value) Value {
		return Value{n: uint64(w.concInt(a[0], kI64))}
	})
	r("Dump", func(w *Worker, a []Value) Value {
		if a[0].p != nil {
			iv := a[0].p.(*ifaceV)
			fmt.Println("DUMP", w.show(iv.v, iv.t, 0))
		}
		return Value{}
	})
	// And/Or/Ite without forking
	r("And", func(w *Worker, a []Value) Value {
		acc := boolV(true)
		for _, x := range asSlice(a[0]) {
			acc = w.andV(acc, x)
		}
		return acc
	})
	r("Or", func(w *Worker, a []Value) Value {
		acc := boolV(false)
		for _, x := range asSlice(a[0]) {
			acc = w.orV(acc, x)
		}
		return acc
	})
	r("BytesEq", func(w *Worker, a []Value) Value { return w.bytesEqV(asSlice(a[0]), asSlice(a[1])) })
	r("StrEq", func(w *Worker, a []Value) Value { return w.strEq(a[0], a[1]) })
	r("BytesLess", func(w *Worker, a []Value) Value {
		return w.fromTerm(w.lexLess(asSlice(a[0]), asSlice(a[1]), false), kBoolT)
	})

	// runtime
	reg(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched_", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"runtime/debug.FreeOSMemory", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable",
		"internal/race.ReleaseMerge", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write", "internal/race.Errors",
		"runtime/debug.PrintStack", "os.setFinalizer", "sync.runtime_registerPoolCleanup", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).IncNonDefault_", "runtime.AddCleanup", "internal/asan.Read", "internal/msan.Read",
		"(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "testing.Testing_")
	reg(func(w *Worker, a []Value) Value { w.gosched(); return Value{} }, "runtime.Gosched", "time.Sleep")
	reg(func(w *Worker, a []Value) Value { return intV(4) }, "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine")
	reg(func(w *Worker, a []Value) Value { return Value{} }, "runtime.Callers", "time.initLocal", "runtime.nanotime", "time.runtimeNano", "time.now_", "internal/runtime/sys.X")
	reg(func(w *Worker, a []Value) Value { return Value{p: tupleV{Value{}, Value{}, Value{}, Value{}}} }, "runtime.Caller")
	reg(func(w *Worker, a []Value) Value {
		w.gorGoexit()
		return Value{}
	}, "runtime.Goexit")
	reg(func(w *Worker, a []Value) Value { return bytesToSlice(nil) }, "runtime/debug.Stack")
	reg(func(w *Worker, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "internal/bytealg.noescape")
	// godebug settings: defaults
	reg(func(w *Worker, a []Value) Value { return Value{} }, "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).Undocumented")
	reg(func(w *Worker, a []Value) Value {
		st := w.eng.namedType("internal/godebug", "Setting")
		v := zero(st)
		return Value{p: &v}
	}, "internal/godebug.New")

	// sync
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		w.yieldPoint()
		w.block("mutex lock", func() bool { return !l.writer && l.readers == 0 })
		l.writer = true
		w.hbAcquire(l, 'w')
		w.hbAcquire(l, 'r')
		return Value{}
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		if l.writer || l.readers > 0 {
			return boolV(false)
		}
		l.writer = true
		w.hbAcquire(l, 'w')
		w.hbAcquire(l, 'r')
		return boolV(true)
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		if !l.writer {
			panic(&pathEnd{kind: pePanic, msg: "fatal error: sync: unlock of unlocked mutex " + w.where()})
		}
		l.writer = false
		w.hbRelease(l, 'w')
		w.yieldPoint()
		return Value{}
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		w.yieldPoint()
		w.block("rlock", func() bool { return !l.writer })
		l.readers++
		w.hbAcquire(l, 'w')
		return Value{}
	}, "(*sync.RWMutex).RLock")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		if l.readers == 0 {
			panic(&pathEnd{kind: pePanic, msg: "fatal error: sync: RUnlock of unlocked RWMutex " + w.where()})
		}
		l.readers--
		w.hbRelease(l, 'r')
		w.yieldPoint()
		return Value{}
	}, "(*sync.RWMutex).RUnlock")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		l.wait += int(w.concInt(a[1], kI64))
		if l.wait < 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		w.yieldPoint()
		return Value{}
	}, "(*sync.WaitGroup).Add")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		l.wait--
		w.hbRelease(l, 'g')
		if l.wait < 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		w.yieldPoint()
		return Value{}
	}, "(*sync.WaitGroup).Done")
	reg(func(w *Worker, a []Value) Value {
		l := w.lock(a[0])
		w.block("WaitGroup.Wait", func() bool { return l.wait == 0 })
		w.hbAcquire(l, 'g')
		return Value{}
	}, "(*sync.WaitGroup).Wait")
	reg(func(w *Worker, a []Value) Value {
		if w.initDepth > 0 {
			// package-level caches: keep the once state in the base heap
			m := w.ghostBase
			key := fmt.Sprintf("once%p", a[0].p)
			if m[key] == nil {
				m[key] = true
				w.callFn(a[1], nil)
			}
			return Value{}
		}
		if w.ghostBase[fmt.Sprintf("once%p", a[0].p)] != nil {
			return Value{}
		}
		l := w.lock(a[0])
		if l.done {
			w.hbAcquire(l, 'o')
			return Value{}
		}
		w.block("once", func() bool { return !l.running })
		if l.done {
			w.hbAcquire(l, 'o')
			return Value{}
		}
		l.running = true
		w.callFn(a[1], nil)
		l.running = false
		l.done = true
		w.hbRelease(l, 'o')
		return Value{}
	}, "(*sync.Once).Do")
	reg(func(w *Worker, a []Value) Value {
		// Pool.Get: always New
		p := a[0].p.(*Value).p.(structV)
		f := p[len(p)-1]
		if f.p == nil {
			return Value{}
		}
		return w.callFn(f, nil)
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put")
	// sync.Map
	smap := func(w *Worker, a []Value) *mapV {
		c := a[0].p.(*Value)
		if w.local["smap"] == nil {
			w.local["smap"] = map[*Value]*mapV{}
		}
		ms := w.local["smap"].(map[*Value]*mapV)
		if ms[c] == nil {
			it := w.eng.emptyIfaceT
			ms[c] = &mapV{keyT: it, elemT: it, idx: map[string]int{}}
		}
		return ms[c]
	}
	reg(func(w *Worker, a []Value) Value {
		if w.initDepth > 0 {
			return tuple(Value{}, boolV(false))
		}
		m := smap(w, a)
		if i := w.mapFind(m, a[1]); i >= 0 {
			return tuple(m.entries[i].v, boolV(true))
		}
		return tuple(Value{}, boolV(false))
	}, "(*sync.Map).Load")
	reg(func(w *Worker, a []Value) Value {
		if w.initDepth > 0 {
			return Value{}
		}
		w.mapUpdate(Value{p: smap(w, a)}, a[1], a[2])
		return Value{}
	}, "(*sync.Map).Store")
	reg(func(w *Worker, a []Value) Value {
		if w.initDepth > 0 {
			return tuple(a[2], boolV(false))
		}
		m := smap(w, a)
		if i := w.mapFind(m, a[1]); i >= 0 {
			return tuple(m.entries[i].v, boolV(true))
		}
		w.mapUpdate(Value{p: m}, a[1], a[2])
		return tuple(a[2], boolV(false))
	}, "(*sync.Map).LoadOrStore")
	reg(func(w *Worker, a []Value) Value {
		if w.initDepth == 0 {
			w.builtin(nil, "delete", []Value{{p: smap(w, a)}, a[1]})
		}
		return Value{}
	}, "(*sync.Map).Delete")

	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		k := kindT{kInt, 64, ty[0] == 'I'}
		if strings.HasSuffix(ty, "32") {
			k.w = 32
		}
		ld := func(w *Worker, p Value) Value {
			c, ok := p.p.(*Value)
			if !ok {
				w.nilDeref()
			}
			w.yieldPoint()
			w.hbAcquire(c, 'a')
			w.hbRelease(c, 'a')
			return *c
		}
		reg(func(w *Worker, a []Value) Value { return ld(w, a[0]) }, "sync/atomic.Load"+ty)
		reg(func(w *Worker, a []Value) Value {
			w.yieldPoint()
			w.hbRelease(a[0].p, 'a')
			w.set(a[0].p.(*Value), a[1])
			return Value{}
		}, "sync/atomic.Store"+ty)
		reg(func(w *Worker, a []Value) Value {
			old := ld(w, a[0])
			w.set(a[0].p.(*Value), a[1])
			return old
		}, "sync/atomic.Swap"+ty)
		reg(func(w *Worker, a []Value) Value {
			old := ld(w, a[0])
			var eq bool
			if ty == "Pointer" {
				eq = w.ptrEq(old, a[1])
			} else {
				if old.p == nil && a[1].p == nil {
					eq = old.n == a[1].n
				} else {
					eq = w.boolOf(w.fromTerm(w.ctx.Eq(w.toTerm(old, k), w.toTerm(a[1], k)), kBoolT))
				}
			}
			if eq {
				w.set(a[0].p.(*Value), a[2])
			}
			return boolV(eq)
		}, "sync/atomic.CompareAndSwap"+ty)
		if ty != "Pointer" {
			reg(func(w *Worker, a []Value) Value {
				old := ld(w, a[0])
				nv := w.intBin(token.ADD, old, a[1], k, k)
				w.set(a[0].p.(*Value), nv)
				return nv
			}, "sync/atomic.Add"+ty)
		}
	}
	reg(func(w *Worker, a []Value) Value { return a[0].p.(*Value).p.(structV)[0] }, "(*sync/atomic.Value).Load")
	reg(func(w *Worker, a []Value) Value {
		w.set(&a[0].p.(*Value).p.(structV)[0], a[1])
		return Value{}
	}, "(*sync/atomic.Value).Store")

	reg(func(w *Worker, a []Value) Value {
		// (it makes its string with unsafe.String)
		var out []Value
		for i, e := range asSlice(a[0].p.(*Value).p.(structV)[0]) {
			if i > 0 {
				out = append(out, intV('\n'))
			}
			iv, ok := e.p.(*ifaceV)
			if !ok {
				w.nilDeref()
			}
			out = append(out, strBytes(w.callMethod(iv, "Error"))...)
		}
		return mkStr(out)
	}, "(*errors.joinError).Error")

	// bytealg and friends
	idxByte := func(w *Worker, b []Value, c Value) Value {
		for i := range b {
			if w.boolOf(w.bytesEqV(b[i:i+1], []Value{c})) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	reg(func(w *Worker, a []Value) Value { return idxByte(w, asSlice(a[0]), a[1]) }, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(w *Worker, a []Value) Value {
		if s, ok := strConc(a[0]); ok && a[1].p == nil {
			return intV(strings.IndexByte(s, byte(a[1].n)))
		}
		return idxByte(w, w.noToks(a[0]), a[1])
	}, "internal/bytealg.IndexByteString", "strings.IndexByte")
	index := func(w *Worker, s, sub []Value) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if w.boolOf(w.bytesEqV(s[i:i+len(sub)], sub)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	reg(func(w *Worker, a []Value) Value { return index(w, asSlice(a[0]), asSlice(a[1])) }, "bytes.Index", "internal/bytealg.Index")
	reg(func(w *Worker, a []Value) Value {
		if s, ok := strConc(a[0]); ok {
			if t, ok := strConc(a[1]); ok {
				return intV(strings.Index(s, t))
			}
		}
		return index(w, w.noToks(a[0]), w.noToks(a[1]))
	}, "strings.Index", "internal/bytealg.IndexString", "internal/stringslite.Index")
	reg(func(w *Worker, a []Value) Value {
		s, sub := w.noToks(a[0]), w.noToks(a[1])
		acc := boolV(false)
		for i := 0; i+len(sub) <= len(s); i++ {
			acc = w.orV(acc, w.bytesEqV(s[i:i+len(sub)], sub))
		}
		return acc
	}, "strings.Contains")
	reg(func(w *Worker, a []Value) Value {
		s, pre := strBytes(a[0]), strBytes(a[1])
		if hasTok(s) || hasTok(pre) {
			n := 0
			for n < len(s) && n < len(pre) && s[n].p == nil && pre[n].p == nil {
				if s[n].n != pre[n].n {
					return boolV(false)
				}
				n++
			}
			if n == len(pre) {
				return boolV(true)
			}
			s, pre = w.expandToks(s), w.expandToks(pre)
		}
		if len(pre) > len(s) {
			return boolV(false)
		}
		return w.bytesEqV(s[:len(pre)], pre)
	}, "strings.HasPrefix", "internal/stringslite.HasPrefix")
	reg(func(w *Worker, a []Value) Value {
		s, pre := w.noToks(a[0]), w.noToks(a[1])
		if len(pre) > len(s) {
			return boolV(false)
		}
		return w.bytesEqV(s[len(s)-len(pre):], pre)
	}, "strings.HasSuffix", "internal/stringslite.HasSuffix")
	reg(func(w *Worker, a []Value) Value {
		s, pre := asSlice(a[0]), asSlice(a[1])
		if len(pre) > len(s) {
			return boolV(false)
		}
		return w.bytesEqV(s[:len(pre)], pre)
	}, "bytes.HasPrefix")
	reg(func(w *Worker, a []Value) Value { return w.bytesEqV(asSlice(a[0]), asSlice(a[1])) }, "bytes.Equal", "internal/bytealg.Equal")
	cmp := func(w *Worker, a, b []Value) Value {
		eq := w.bytesEqV(a, b)
		lt := w.fromTerm(w.lexLess(a, b, false), kBoolT)
		if eq.p == nil && eq.n != 0 {
			return intV(0)
		}
		c := w.ctx
		r := c.Ite(w.toTerm(eq, kBoolT), c.Const(64, 0), c.Ite(w.toTerm(lt, kBoolT), c.Const(64, ^uint64(0)), c.Const(64, 1)))
		return w.fromTerm(r, kI64)
	}
	reg(func(w *Worker, a []Value) Value { return cmp(w, asSlice(a[0]), asSlice(a[1])) }, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(w *Worker, a []Value) Value { return cmp(w, w.noToks(a[0]), w.noToks(a[1])) }, "strings.Compare", "internal/bytealg.CompareString", "internal/stringslite.Compare")
	count := func(w *Worker, b []Value, c Value) Value {
		acc := intV(0)
		for i := range b {
			e := w.bytesEqV(b[i:i+1], []Value{c})
			if t, ok := e.p.(*Term); ok {
				acc = w.fromTerm(w.ctx.Bin(OAdd, w.toTerm(acc, kI64), w.ctx.Ite(t, w.ctx.Const(64, 1), w.ctx.Const(64, 0))), kI64)
			} else if e.n != 0 {
				acc = w.intBinC("+", acc, 1)
			}
		}
		return acc
	}
	reg(func(w *Worker, a []Value) Value { return count(w, asSlice(a[0]), a[1]) }, "internal/bytealg.Count")
	reg(func(w *Worker, a []Value) Value { return count(w, w.noToks(a[0]), a[1]) }, "internal/bytealg.CountString")
	reg(func(w *Worker, a []Value) Value {
		b := asSlice(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.boolOf(w.bytesEqV(b[i:i+1], a[1:2])) {
				return intV(i)
			}
		}
		return intV(-1)
	}, "internal/bytealg.LastIndexByte")
	reg(func(w *Worker, a []Value) Value {
		b := w.noToks(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.boolOf(w.bytesEqV(b[i:i+1], a[1:2])) {
				return intV(i)
			}
		}
		return intV(-1)
	}, "internal/bytealg.LastIndexByteString")
	reg(func(w *Worker, a []Value) Value {
		return Value{p: make(sliceV, w.concInt(a[0], kI64))}
	}, "internal/bytealg.MakeNoZero")
	reg(func(w *Worker, a []Value) Value {
		// clone strings cheaply
		return a[0]
	}, "strings.Clone", "internal/stringslite.Clone")

	// strings.Builder
	bget := func(a []Value) *Value { return &a[0].p.(*Value).p.(structV)[1] }
	reg(func(w *Worker, a []Value) Value { return mkStr(copyVals(asSlice(*bget(a)))) }, "(*strings.Builder).String")
	reg(func(w *Worker, a []Value) Value {
		b := strBytes(a[1])
		w.set(bget(a), w.appendVals(asSlice(*bget(a)), b, true))
		return tuple(intV(len(b)), Value{})
	}, "(*strings.Builder).WriteString")
	reg(nop, "(*strings.Builder).copyCheck", "(*strings.Builder).Grow", "(*strings.Builder).grow")

	// strings.ToLower/ToUpper on symbolic ASCII
	cas := func(lower bool) intrinsic {
		return func(w *Worker, a []Value) Value {
			if s, ok := strConc(a[0]); ok {
				if lower {
					return strV(strings.ToLower(s))
				}
				return strV(strings.ToUpper(s))
			}
			b := copyVals(w.noToks(a[0]))
			c := w.ctx
			for i := range b {
				t, ok := b[i].p.(*Term)
				if !ok {
					ch := byte(b[i].n)
					if lower && ch >= 'A' && ch <= 'Z' {
						ch += 32
					} else if !lower && ch >= 'a' && ch <= 'z' {
						ch -= 32
					}
					b[i].n = uint64(ch)
					continue
				}
				if !w.branch(c.Ult(t, c.Const(8, 0x80))) {
					w.unsupported("case conversion of non-ASCII symbolic text")
				}
				lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
				if !lower {
					lo, hi, d = 'a', 'z', 0xE0
				}
				in := c.And(c.Ule(c.Const(8, lo), t), c.Ule(t, c.Const(8, hi)))
				b[i] = w.fromTerm(c.Ite(in, c.Bin(OAdd, t, c.Const(8, d)), t), kU8)
			}
			return mkStr(b)
		}
	}
	reg(cas(true), "strings.ToLower")
	reg(cas(false), "strings.ToUpper")

	// strconv
	reg(func(w *Worker, a []Value) Value { return w.fmtInt(a[0], kI64, 10) }, "strconv.Itoa")
	reg(func(w *Worker, a []Value) Value { return w.fmtInt(a[0], kI64, int(a[1].n)) }, "strconv.FormatInt")
	reg(func(w *Worker, a []Value) Value { return w.fmtInt(a[0], kU64, int(a[1].n)) }, "strconv.FormatUint")
	reg(func(w *Worker, a []Value) Value {
		if s, ok := strConc(a[0]); ok {
			return strV(strconv.Quote(s))
		}
		return strConcat(strConcat(strV(`"`), a[0]), strV(`"`))
	}, "strconv.Quote")
	// the number that a text was made of, when it fits; else the real code reads the digits
	parseNum := func(signed bool) intrinsic {
		return func(w *Worker, a []Value) Value {
			b := strBytes(a[0])
			if len(b) != 1 || a[1].p != nil || a[2].p != nil {
				return notHandledV
			}
			t, ok := b[0].p.(*strTok)
			if !ok || t.base != 10 || int(a[1].n) != 10 || t.t.w != 64 {
				return notHandledV
			}
			c, bits := w.ctx, a[2].n
			if bits == 0 {
				bits = 64
			}
			if bits > 64 {
				return notHandledV
			}
			fits := c.Bool(true)
			if signed || t.signed {
				if t.signed != signed {
					fits = c.Sle(c.Const(64, 0), t.t)
				}
			}
			switch {
			case bits == 64:
			case signed:
				fits = c.And(fits, c.And(c.Sle(c.Const(64, -(uint64(1)<<(bits-1))), t.t), c.Sle(t.t, c.Const(64, uint64(1)<<(bits-1)-1))))
			default:
				fits = c.And(fits, c.Ule(t.t, c.Const(64, uint64(1)<<bits-1)))
			}
			if !w.branch(fits) {
				return tuple(Value{}, w.errorf(strV("value out of range"), nil))
			}
			return tuple(Value{p: t.t}, Value{})
		}
	}
	reg(parseNum(true), "strconv.ParseInt")
	reg(parseNum(false), "strconv.ParseUint")

	// errors / fmt
	reg(func(w *Worker, a []Value) Value { return w.sprintf(a[0], asSlice(a[1])) }, "fmt.Sprintf")
	reg(func(w *Worker, a []Value) Value { return w.sprint(asSlice(a[0]), false) }, "fmt.Sprint")
	reg(func(w *Worker, a []Value) Value { return w.sprint(asSlice(a[0]), true) }, "fmt.Sprintln")
	reg(func(w *Worker, a []Value) Value { return w.errorf(a[0], asSlice(a[1])) }, "fmt.Errorf")
	reg(func(w *Worker, a []Value) Value { return tuple(intV(0), Value{}) }, "fmt.Print", "fmt.Println", "fmt.Printf")
	fpr := func(f func(w *Worker, a []Value) Value) intrinsic {
		return func(w *Worker, a []Value) Value {
			s := f(w, a[1:])
			if a[0].p == nil {
				w.nilDeref()
			}
			iv := a[0].p.(*ifaceV)
			if _, ok := iv.v.p.(*stubObj); ok {
				return tuple(intV(0), Value{})
			}
			return w.callMethod(iv, "Write", Value{p: sliceV(copyVals(strBytes(s)))})
		}
	}
	reg(fpr(func(w *Worker, a []Value) Value { return w.sprintf(a[0], asSlice(a[1])) }), "fmt.Fprintf")
	reg(fpr(func(w *Worker, a []Value) Value { return w.sprint(asSlice(a[0]), false) }), "fmt.Fprint")
	reg(fpr(func(w *Worker, a []Value) Value { return w.sprint(asSlice(a[0]), true) }), "fmt.Fprintln")

	// time
	reg(func(w *Worker, a []Value) Value {
		st := w.eng.namedType("time", "Time")
		v := zero(st)
		now := w.ghost.now
		if !w.ghost.nowSet {
			now = Value{n: 62135596800 + 1700000000}
		}
		v.p.(structV)[1] = now
		return v
	}, "time.Now")
	reg(func(w *Worker, a []Value) Value {
		st := w.eng.namedType("time", "Timer")
		v := zero(st)
		return Value{p: &v}
	}, "time.NewTimer", "time.AfterFunc")
	reg(func(w *Worker, a []Value) Value { return boolV(true) }, "(*time.Timer).Stop", "(*time.Timer).Reset")
	reg(func(w *Worker, a []Value) Value {
		// a timer channel that fires immediately
		c := &chanV{cap: 1, elemT: w.eng.namedType("time", "Time"), timer: true}
		c.buf = append(c.buf, zero(c.elemT))
		return Value{p: c}
	}, "time.After", "time.Tick")

	// process
	exit := func(w *Worker, a []Value) Value {
		if w.ghost.exitBug {
			if w.pos >= len(w.prefix) {
				w.report("process exit", "", w.model, "exit")
			}
			panic(&pathEnd{kind: peViolation, msg: "process exit"})
		}
		panic(&pathEnd{kind: peExit})
	}
	reg(exit, "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln")
	const lr = "github.com/sirupsen/logrus"
	reg(exit, lr+".Fatal", lr+".Fatalf", lr+".Fatalln", "(*"+lr+".Logger).Fatal", "(*"+lr+".Logger).Fatalf", "(*"+lr+".Entry).Fatal", "(*"+lr+".Entry).Fatalf")
	reg(func(w *Worker, a []Value) Value { return Value{} }, "os.Getenv", "os.runtime_args", "syscall.runtime_envs")
	reg(func(w *Worker, a []Value) Value { return Value{p: &Value{p: structV{{}}}} }, "os.NewFile")
	reg(func(w *Worker, a []Value) Value { return intV(1000) }, "os.Geteuid", "os.Getegid", "os.Getuid")

	// sort.Slice without reflection
	reg(func(w *Worker, a []Value) Value {
		iv := a[0].p.(*ifaceV)
		s := asSlice(iv.v)
		less := a[1]
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && w.boolOf(w.callFn(less, []Value{intV(j), intV(j - 1)})); j-- {
				x, y := copyVal(s[j]), copyVal(s[j-1])
				w.storeInto(&s[j], y, false)
				w.storeInto(&s[j-1], x, false)
			}
		}
		return Value{}
	}, "sort.Slice", "sort.SliceStable")

	// unique / weak / maphash: identity models
	reg(func(w *Worker, a []Value) Value { return Value{n: 1} }, "runtime.memhash", "internal/runtime/maps.rand", "runtime.rand", "runtime.fastrand", "math/rand.runtime_rand", "math/rand/v2.runtime_rand", "maps.rand", "os.runtime_rand", "hash/maphash.runtime_rand")
}

func (w *Worker) gorGoexit() { panic(&goPanic{goexit: true}) }

func (w *Worker) noToks(v Value) []Value {
	b := strBytes(v)
	if hasTok(b) {
		return w.expandToks(b)
	}
	return b
}

func (w *Worker) intBinC(op string, a Value, c uint64) Value {
	if a.p == nil {
		return Value{n: a.n + c}
	}
	return w.fromTerm(w.ctx.Bin(OAdd, a.p.(*Term), w.ctx.Const(64, c)), kI64)
}

func (w *Worker) fmtInt(v Value, k kindT, base int) Value {
	t, ok := v.p.(*Term)
	if !ok {
		if v.p != nil {
			w.unsupported("format of %T", v.p)
		}
		if k.signed {
			return strV(strconv.FormatInt(int64(norm(v.n, k)), base))
		}
		return strV(strconv.FormatUint(norm(v.n, k), base))
	}
	return Value{p: &symStr{[]Value{{p: &strTok{t: t, signed: k.signed, base: base}}}}}
}

func (w *Worker) hexDigit(t *Term) Value {
	c := w.ctx
	return w.fromTerm(c.Ite(c.Ult(t, c.Const(8, 10)), c.Bin(OAdd, t, c.Const(8, '0')), c.Bin(OAdd, t, c.Const(8, 'a'-10))), kU8)
}

func (w *Worker) hexBytes(b []Value) []Value {
	const d = "0123456789abcdef"
	out := make([]Value, 0, 2*len(b))
	for i := range b {
		if t, ok := b[i].p.(*Term); ok {
			c := w.ctx
			out = append(out, w.hexDigit(c.Bin(OLshr, t, c.Const(8, 4))), w.hexDigit(c.Bin(OBAnd, t, c.Const(8, 15))))
			continue
		}
		if b[i].p != nil {
			w.unsupported("hex of %T", b[i].p)
		}
		out = append(out, Value{n: uint64(d[b[i].n>>4&15])}, Value{n: uint64(d[b[i].n&15])})
	}
	return out
}

// --- fmt ---

func (w *Worker) sprint(args []Value, ln bool) Value {
	r := Value{}
	for i, a := range args {
		if i > 0 {
			addSpace := ln
			if !ln && a.p != nil && args[i-1].p != nil {
				addSpace = kindOf(a.p.(*ifaceV).t).k != kString && kindOf(args[i-1].p.(*ifaceV).t).k != kString
			}
			if addSpace {
				r = strConcat(r, strV(" "))
			}
		}
		r = strConcat(r, w.fmtIface('v', "", a))
	}
	if ln {
		r = strConcat(r, strV("\n"))
	}
	return r
}

func (w *Worker) sprintf(f Value, args []Value) Value {
	format, ok := strConc(f)
	if !ok {
		return f
	}
	r := Value{}
	ai := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r = strConcat(r, strV(format[i:]))
			break
		}
		r = strConcat(r, strV(format[i:i+j]))
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			r = strConcat(r, strV("%!(NOVERB)"))
			break
		}
		flags := format[st:i]
		verb := format[i]
		i++
		if verb == '%' {
			r = strConcat(r, strV("%"))
			continue
		}
		if ai >= len(args) {
			r = strConcat(r, strV("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		s := w.fmtIface(verb, flags, a)
		r = strConcat(r, w.pad(s, flags))
	}
	return r
}

func (w *Worker) pad(s Value, flags string) Value {
	fl := strings.TrimLeft(flags, "+# ")
	left := strings.HasPrefix(fl, "-")
	fl = strings.TrimLeft(fl, "-")
	zeroPad := strings.HasPrefix(fl, "0")
	if k := strings.IndexByte(fl, '.'); k >= 0 {
		fl = fl[:k]
	}
	n, _ := strconv.Atoi(strings.TrimLeft(fl, "0"))
	if n == 0 {
		return s
	}
	b := w.noToks(s)
	if len(b) >= n {
		return mkStr(b)
	}
	p := " "
	if zeroPad && !left {
		p = "0"
	}
	fill := strV(strings.Repeat(p, n-len(b)))
	if left {
		return strConcat(mkStr(b), fill)
	}
	return strConcat(fill, mkStr(b))
}

func (w *Worker) fmtIface(verb byte, flags string, a Value) Value {
	if a.p == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return strV("%!s(<nil>)")
			}
			return strV("<nil>")
		}
		return strV("%!" + string(verb) + "(<nil>)")
	}
	iv := a.p.(*ifaceV)
	return w.fmtVal(verb, flags, iv.t, iv.v, 0)
}

func (w *Worker) fmtVal(verb byte, flags string, t types.Type, v Value, d int) Value {
	if _, ok := v.p.(*stubObj); ok {
		return strV("<stub>")
	}
	if verb == 'T' {
		return strV(typeString(t))
	}
	if verb == 'p' {
		return strV("0xc000000000")
	}
	if d > 6 {
		return strV("…")
	}
	if bt := w.eng.namedType("math/big", "Int"); bt != nil && v.p != nil && types.Identical(t, types.NewPointer(bt)) {
		base := map[byte]int{'v': 10, 's': 10, 'd': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8}[verb]
		if base != 0 && strings.Trim(flags, "0123456789 -+") == "" {
			s := w.callCode(w.findMethod(w.canon(t), "Text"), []Value{v, intV(base)}, nil)
			if c, ok := strConc(s); ok && verb == 'X' {
				s = strV(strings.ToUpper(c))
			}
			return s
		}
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'w' {
		if !strings.Contains(flags, "#") {
			for _, m := range []string{"Error", "String"} {
				c := w.findMethod(w.canon(t), m)
				if c == nil || c.fn.Signature.Params().Len() != 0 || c.results.Len() != 1 || kindOf(c.results.At(0).Type()).k != kString {
					continue
				}
				if kindOf(t).k == kPtr && v.p == nil {
					return strV("<nil>")
				}
				s := w.callCode(c, []Value{v}, nil)
				return w.fmtStr(verb, s)
			}
		}
	}
	k := kindOf(t)
	switch k.k {
	case kBool:
		if tm, ok := v.p.(*Term); ok {
			if w.branch(tm) {
				return strV("true")
			}
			return strV("false")
		}
		return strV(strconv.FormatBool(v.n != 0))
	case kInt:
		switch verb {
		case 'x', 'X':
			s := w.fmtInt(v, k, 16)
			if verb == 'X' {
				if c, ok := strConc(s); ok {
					s = strV(strings.ToUpper(c))
				}
			}
			if strings.Contains(flags, "#") {
				s = strConcat(strV("0x"), s)
			}
			return s
		case 'c':
			return w.runeStr(v)
		case 'q':
			return strConcat(strConcat(strV("'"), w.runeStr(v)), strV("'"))
		case 'b':
			return w.fmtInt(v, k, 2)
		case 'o':
			return w.fmtInt(v, k, 8)
		}
		return w.fmtInt(v, k, 10)
	case kFloat:
		if v.p != nil {
			return strV("<float>")
		}
		f := floatOf(v, k)
		return strV(fmt.Sprintf("%"+flags+string(verb), f))
	case kString:
		return w.fmtStr(verb, v)
	case kPtr:
		if v.p == nil {
			return strV("<nil>")
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if c, is := v.p.(*Value); ok && is && d == 0 {
			switch kindOf(pt.Elem()).k {
			case kStruct, kArray, kSlice, kMap:
				return strConcat(strV("&"), w.fmtVal(verb, flags, pt.Elem(), *c, d+1))
			}
		}
		return strV("0xc000000000")
	case kIface:
		if v.p == nil {
			return strV("<nil>")
		}
		iv := v.p.(*ifaceV)
		return w.fmtVal(verb, flags, iv.t, iv.v, d+1)
	case kSlice, kArray:
		var el types.Type
		var xs []Value
		if k.k == kSlice {
			el = t.Underlying().(*types.Slice).Elem()
			xs = asSlice(v)
		} else {
			el = t.Underlying().(*types.Array).Elem()
			xs = v.p.(arrayV)
		}
		if ek := kindOf(el); ek.k == kInt && ek.w == 8 && !ek.signed {
			switch verb {
			case 's':
				return mkStr(copyVals(xs))
			case 'x':
				return mkStr(w.hexBytes(xs))
			case 'X':
				s := mkStr(w.hexBytes(xs))
				if c, ok := strConc(s); ok {
					return strV(strings.ToUpper(c))
				}
				return s
			case 'q':
				return w.fmtStr('q', mkStr(copyVals(xs)))
			}
		}
		r := strV("[")
		for i := range xs {
			if i > 0 {
				r = strConcat(r, strV(" "))
			}
			r = strConcat(r, w.fmtVal(verb, flags, el, xs[i], d+1))
		}
		return strConcat(r, strV("]"))
	case kStruct:
		st := t.Underlying().(*types.Struct)
		s := v.p.(structV)
		r := strV("{")
		for i := range s {
			if i > 0 {
				r = strConcat(r, strV(" "))
			}
			if strings.Contains(flags, "+") {
				r = strConcat(r, strV(st.Field(i).Name()+":"))
			}
			r = strConcat(r, w.fmtVal(verb, flags, st.Field(i).Type(), s[i], d+1))
		}
		return strConcat(r, strV("}"))
	case kMap:
		m, _ := v.p.(*mapV)
		r := strV("map[")
		if m != nil {
			n := 0
			for _, e := range m.entries {
				if !e.live {
					continue
				}
				if n > 0 {
					r = strConcat(r, strV(" "))
				}
				n++
				r = strConcat(r, w.fmtVal(verb, flags, m.keyT, e.k, d+1))
				r = strConcat(r, strV(":"))
				r = strConcat(r, w.fmtVal(verb, flags, m.elemT, e.v, d+1))
			}
		}
		return strConcat(r, strV("]"))
	case kFunc, kChan:
		return strV("0xc000000000")
	}
	return strV("?")
}

func (w *Worker) fmtStr(verb byte, s Value) Value {
	switch verb {
	case 'x':
		return mkStr(w.hexBytes(w.noToks(s)))
	case 'q':
		if c, ok := strConc(s); ok {
			return strV(strconv.Quote(c))
		}
		return strConcat(strConcat(strV(`"`), s), strV(`"`))
	}
	return s
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) errorf(f Value, args []Value) Value {
	format, _ := strConc(f)
	msg := w.sprintf(strV(strings.ReplaceAll(format, "%w", "%v")), args)
	if strings.Contains(format, "%w") {
		// find the wrapped argument
		ai := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
				i++
			}
			if i >= len(format) || format[i] == '%' {
				continue
			}
			if format[i] == 'w' && ai < len(args) {
				if wt := w.eng.namedType("fmt", "wrapError"); wt != nil {
					cell := zero(wt)
					cell.p.(structV)[0] = msg
					cell.p.(structV)[1] = args[ai]
					return Value{p: &ifaceV{t: w.canon(types.NewPointer(wt)), v: Value{p: &cell}}}
				}
			}
			ai++
		}
	}
	cell := zero(w.eng.errStringT)
	cell.p.(structV)[0] = msg
	return Value{p: &ifaceV{t: w.canon(types.NewPointer(w.eng.errStringT)), v: Value{p: &cell}}}
}

var _ = ssa.BuilderMode(0)
