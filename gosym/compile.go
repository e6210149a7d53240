package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBinOp
	iUnOp
	iLoad
	iStore
	iCall
	iChangeType
	iConvert
	iMakeInterface
	iExtract
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iMapUpdate
	iMakeMap
	iMakeSlice
	iMakeChan
	iMakeClosure
	iSlice
	iPhi
	iIf
	iJump
	iReturn
	iRange
	iNext
	iTypeAssert
	iDefer
	iRunDefers
	iPanic
	iGo
	iSend
	iRecv
	iSelect
	iSliceToArrayPtr
	iMultiConvert
)

type operand struct {
	reg int32 // >=0: register; -1: constant
	c   Value
	fv  bool
}

type instr struct {
	op      opcode
	dst     int32
	tok     token.Token
	commaOk bool
	fresh   bool // store target is a fresh local allocation
	k, k2   kindT
	x, y, z operand
	args    []operand
	typ     types.Type // canonical
	typ2    types.Type
	n       int
	fn      *fnCode // static callee
	callee  *ssa.Function
	bi      string
	method  *types.Func
	ssa     ssa.Instruction
	edges   []operand
	t0, t1  int // successors
	e0, e1  int // phi edge index in the successors
	zero    Value
	flat    bool // zero value has no nested aggregates
}

type intrinsic func(w *Worker, args []Value) Value

type fnCode struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   [][]instr
	nphi     []int
	pure     []bool
	compiled bool
	hasDefer bool
	recover  int
	intr     intrinsic
	stub     bool
	pkgInit  bool
	raceKind uint8
	nfree    int
	nparams  int
	visited  bool
	isRepo   bool
	results  *types.Tuple
}

func (w *Worker) codeFor(fn *ssa.Function) *fnCode {
	c, ok := w.code[fn]
	if !ok {
		c = &fnCode{fn: fn, name: fnName(fn), recover: -1}
		w.code[fn] = c
		c.results = fn.Signature.Results()
		w.eng.classify(c)
	}
	return c
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *Worker) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := w.canonCache[t]; ok {
		return c
	}
	c := w.eng.canon(t)
	w.canonCache[t] = c
	return c
}

type compiler struct {
	w      *Worker
	code   *fnCode
	regs   map[ssa.Value]int32
	allocs map[ssa.Value]bool
}

func (w *Worker) compile(code *fnCode) {
	fn := code.fn
	// globals first: their packages' initialisers may call this very function
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(ops[:0]) {
				if g, ok := (*o).(*ssa.Global); ok {
					w.global(g)
				}
			}
		}
	}
	if code.compiled {
		return
	}
	code.compiled = true
	if fn.Blocks == nil {
		panic(&pathEnd{kind: peUnsupported, msg: "no body: " + code.name})
	}
	c := &compiler{w: w, code: code, regs: map[ssa.Value]int32{}}
	nr := int32(0)
	for _, p := range fn.Params {
		c.regs[p] = nr
		nr++
	}
	code.nparams = int(nr)
	for _, p := range fn.FreeVars {
		c.regs[p] = nr
		nr++
	}
	code.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = nr
				nr++
			}
		}
	}
	code.nregs = int(nr)
	code.blocks = make([][]instr, len(fn.Blocks))
	for i, b := range fn.Blocks {
		out := make([]instr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			out = append(out, c.instr(in))
		}
		code.blocks[i] = out
		np := 0
		for np < len(out) && out[np].op == iPhi {
			np++
		}
		code.nphi = append(code.nphi, np)
		code.pure = append(code.pure, pureBlock(out, b))
	}
	if fn.Recover != nil {
		code.recover = fn.Recover.Index
	}
}

func (c *compiler) opnd(v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, c: constVal(x)}
	case *ssa.Global:
		return operand{reg: -1, c: Value{p: c.w.global(x)}}
	case *ssa.Function:
		return operand{reg: -1, c: Value{p: x}}
	case *ssa.Builtin:
		return operand{reg: -1, c: Value{p: x}}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %v in %s", v, v, c.code.name))
	}
	return operand{reg: r}
}

func constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return zero(x.Type())
	}
	k := kindOf(x.Type())
	switch k.k {
	case kBool:
		return boolV(constant.BoolVal(x.Value))
	case kInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: norm(uint64(i), k)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: norm(u, k)}
	case kFloat:
		f, _ := constant.Float64Val(x.Value)
		if k.w == 32 {
			return Value{n: uint64(math.Float32bits(float32(f)))}
		}
		return Value{n: math.Float64bits(f)}
	case kString:
		if x.Value.Kind() == constant.String {
			return strV(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return strV(string(rune(i)))
	case kComplex:
		return Value{}
	case kPtr:
		return Value{}
	}
	panic(fmt.Sprintf("constVal %v %v", x, x.Type()))
}

// freshAddr reports whether address v is a local allocation of this function.
func freshAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
			if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
		default:
			return false
		}
	}
}

func (c *compiler) instr(in ssa.Instruction) instr {
	r := instr{ssa: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.regs[v]
	}
	w := c.w
	switch x := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.typ = x.Type().Underlying().(*types.Pointer).Elem()
		r.zero = zero(r.typ)
		switch kindOf(r.typ).k {
		case kStruct, kArray:
		default:
			r.flat = true
		}
	case *ssa.BinOp:
		r.op = iBinOp
		r.tok = x.Op
		r.x, r.y = c.opnd(x.X), c.opnd(x.Y)
		r.k, r.k2 = kindOf(x.X.Type()), kindOf(x.Y.Type())
		r.typ, r.typ2 = w.canon(x.X.Type()), w.canon(x.Y.Type())
	case *ssa.UnOp:
		r.x = c.opnd(x.X)
		r.k = kindOf(x.X.Type())
		r.tok = x.Op
		r.commaOk = x.CommaOk
		switch x.Op {
		case token.MUL:
			r.op = iLoad
			r.k = kindOf(x.Type())
			r.typ = x.Type()
		case token.ARROW:
			r.op = iRecv
			r.typ = x.X.Type().Underlying().(*types.Chan).Elem()
		default:
			r.op = iUnOp
		}
	case *ssa.Store:
		r.op = iStore
		r.x, r.y = c.opnd(x.Addr), c.opnd(x.Val)
		r.fresh = freshAddr(x.Addr)
		r.k = kindOf(x.Val.Type())
	case *ssa.Call:
		r.op = iCall
		c.call(&r, &x.Call)
	case *ssa.Defer:
		r.op = iDefer
		c.code.hasDefer = true
		c.call(&r, &x.Call)
	case *ssa.Go:
		r.op = iGo
		c.call(&r, &x.Call)
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.ChangeType:
		r.op = iChangeType
		r.x = c.opnd(x.X)
	case *ssa.ChangeInterface:
		r.op = iChangeType
		r.x = c.opnd(x.X)
	case *ssa.Convert:
		r.op = iConvert
		r.x = c.opnd(x.X)
		r.k, r.k2 = kindOf(x.X.Type()), kindOf(x.Type())
		r.typ, r.typ2 = x.X.Type(), x.Type()
	case *ssa.MultiConvert:
		r.op = iConvert
		r.x = c.opnd(x.X)
		r.k, r.k2 = kindOf(x.X.Type()), kindOf(x.Type())
		r.typ, r.typ2 = x.X.Type(), x.Type()
	case *ssa.MakeInterface:
		r.op = iMakeInterface
		r.x = c.opnd(x.X)
		r.typ = w.canon(x.X.Type())
	case *ssa.Extract:
		r.op = iExtract
		r.x = c.opnd(x.Tuple)
		r.n = x.Index
	case *ssa.FieldAddr:
		r.op = iFieldAddr
		r.x = c.opnd(x.X)
		r.n = x.Field
	case *ssa.Field:
		r.op = iField
		r.x = c.opnd(x.X)
		r.n = x.Field
	case *ssa.IndexAddr:
		r.op = iIndexAddr
		r.x, r.y = c.opnd(x.X), c.opnd(x.Index)
		r.k = kindOf(x.X.Type())
		r.k2 = kindOf(x.Index.Type())
	case *ssa.Index:
		r.op = iIndex
		r.x, r.y = c.opnd(x.X), c.opnd(x.Index)
		r.k = kindOf(x.X.Type())
		r.k2 = kindOf(x.Index.Type())
		r.typ = x.Type()
	case *ssa.Lookup:
		r.op = iLookup
		r.x, r.y = c.opnd(x.X), c.opnd(x.Index)
		r.k = kindOf(x.X.Type())
		r.k2 = kindOf(x.Index.Type())
		r.commaOk = x.CommaOk
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			r.typ = m.Key()
			r.zero = zero(m.Elem())
		}
	case *ssa.MapUpdate:
		r.op = iMapUpdate
		r.x, r.y, r.z = c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
	case *ssa.MakeMap:
		r.op = iMakeMap
		m := x.Type().Underlying().(*types.Map)
		r.typ, r.typ2 = m.Key(), m.Elem()
	case *ssa.MakeSlice:
		r.op = iMakeSlice
		r.x, r.y = c.opnd(x.Len), c.opnd(x.Cap)
		r.k, r.k2 = kindOf(x.Len.Type()), kindOf(x.Cap.Type())
		r.typ = x.Type().Underlying().(*types.Slice).Elem()
		r.zero = zero(r.typ)
		switch kindOf(r.typ).k {
		case kStruct, kArray:
		default:
			r.flat = true
		}
	case *ssa.MakeChan:
		r.op = iMakeChan
		r.x = c.opnd(x.Size)
		r.typ = x.Type().Underlying().(*types.Chan).Elem()
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.callee = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			r.args = append(r.args, c.opnd(b))
		}
	case *ssa.Slice:
		r.op = iSlice
		r.x = c.opnd(x.X)
		r.k = kindOf(x.X.Type())
		r.args = make([]operand, 3)
		for i, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v == nil {
				r.args[i] = operand{reg: -2}
			} else {
				r.args[i] = c.opnd(v)
			}
		}
	case *ssa.SliceToArrayPointer:
		r.op = iSliceToArrayPtr
		r.x = c.opnd(x.X)
		r.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.Phi:
		r.op = iPhi
		r.k = kindOf(x.Type())
		for _, e := range x.Edges {
			r.edges = append(r.edges, c.opnd(e))
		}
	case *ssa.If:
		r.op = iIf
		r.x = c.opnd(x.Cond)
		r.t0, r.t1 = x.Block().Succs[0].Index, x.Block().Succs[1].Index
		r.e0 = predIndex(x.Block(), x.Block().Succs[0], 0)
		if r.t0 == r.t1 {
			r.e1 = predIndex(x.Block(), x.Block().Succs[1], 1)
		} else {
			r.e1 = predIndex(x.Block(), x.Block().Succs[1], 0)
		}
	case *ssa.Jump:
		r.op = iJump
		r.t0 = x.Block().Succs[0].Index
		r.e0 = predIndex(x.Block(), x.Block().Succs[0], 0)
	case *ssa.Return:
		r.op = iReturn
		for _, v := range x.Results {
			r.args = append(r.args, c.opnd(v))
		}
	case *ssa.Range:
		r.op = iRange
		r.x = c.opnd(x.X)
		r.k = kindOf(x.X.Type())
	case *ssa.Next:
		r.op = iNext
		r.x = c.opnd(x.Iter)
		r.commaOk = x.IsString
		tt := x.Type().(*types.Tuple)
		r.typ, r.typ2 = tt.At(1).Type(), tt.At(2).Type()
	case *ssa.TypeAssert:
		r.op = iTypeAssert
		r.x = c.opnd(x.X)
		r.typ = w.canon(x.AssertedType)
		r.k = kindOf(x.AssertedType)
		r.commaOk = x.CommaOk
		r.typ2 = x.X.Type()
		if r.commaOk {
			r.zero = zero(x.AssertedType)
		}
	case *ssa.Panic:
		r.op = iPanic
		r.x = c.opnd(x.X)
	case *ssa.Send:
		r.op = iSend
		r.x, r.y = c.opnd(x.Chan), c.opnd(x.X)
	case *ssa.Select:
		r.op = iSelect
		for _, s := range x.States {
			r.args = append(r.args, c.opnd(s.Chan))
			if s.Send != nil {
				r.edges = append(r.edges, c.opnd(s.Send))
			} else {
				r.edges = append(r.edges, operand{reg: -2})
			}
		}
	default:
		panic(fmt.Sprintf("unsupported instruction %T", in))
	}
	return r
}

func (c *compiler) call(r *instr, call *ssa.CallCommon) {
	if call.IsInvoke() {
		r.method = call.Method
		r.x = c.opnd(call.Value)
		r.typ = call.Value.Type()
	} else {
		switch f := call.Value.(type) {
		case *ssa.Function:
			r.callee = f
		case *ssa.Builtin:
			r.bi = f.Name()
			if len(call.Args) > 0 {
				r.k = kindOf(call.Args[0].Type())
				r.typ = call.Args[0].Type()
			}
			if len(call.Args) > 1 {
				r.k2 = kindOf(call.Args[1].Type())
				r.typ2 = call.Args[1].Type()
			}
		default:
			r.x = c.opnd(f)
		}
	}
	for _, a := range call.Args {
		r.args = append(r.args, c.opnd(a))
	}
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("predIndex")
}

// pureBlock reports whether the block only computes scalars, cannot fault, has a single predecessor
// and ends in a jump or an if: such blocks may be evaluated speculatively.
func pureBlock(ins []instr, b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(ins) > 12 {
		return false
	}
	for i := range ins {
		in := &ins[i]
		last := i == len(ins)-1
		switch in.op {
		case iBinOp:
			switch in.tok {
			case token.QUO, token.REM, token.SHL, token.SHR:
				if in.y.reg >= 0 {
					return false
				}
				if in.k.k == kInt && (in.tok == token.QUO || in.tok == token.REM) && in.y.c.n == 0 {
					return false
				}
			}
			if in.k.k != kInt && in.k.k != kBool {
				return false
			}
		case iUnOp:
			if in.k.k != kInt && in.k.k != kBool {
				return false
			}
		case iConvert:
			if in.k.k != kInt || in.k2.k != kInt {
				return false
			}
		case iExtract, iField, iChangeType:
		case iJump, iIf:
			return last
		default:
			return false
		}
	}
	return false
}
