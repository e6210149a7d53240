package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries int
	Sats    int
	Unsats  int
	Unknown int
	Time    time.Duration
	MaxTime time.Duration
}

// Solver drives one z3 process over a pipe.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	session int64
	ctx     *TermCtx
	stack   []*Term // asserted literals, one push level each
	vars    map[string]uint8
	stats   *SolverStats
	defs    int
	maxDefs int
	timeout int
	log     *os.File
}

func NewSolver(ctx *TermCtx, bin string, timeoutMs int, stats *SolverStats) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs, stats: stats, maxDefs: 400000}
	if x, err := strconv.Atoi(os.Getenv("GOSYM_DEFS")); err == nil {
		s.maxDefs = x
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.session++
	s.stack = nil
	s.vars = map[string]uint8{}
	s.defs = 0
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "-q", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	lg := "QF_BV"
	if x := os.Getenv("GOSYM_LOGIC"); x != "" {
		lg = x
	}
	s.send("(set-logic " + lg + ")\n")
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t == nil || t.op == OConst || t.defined == s.session {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var kid *Term
		switch f.i {
		case 0:
			kid = f.t.a
		case 1:
			kid = f.t.b
		case 2:
			kid = f.t.c
		}
		if f.i < 3 {
			f.i++
			if kid != nil && kid.op != OConst && kid.defined != s.session {
				st = append(st, fr{kid, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if x.defined == s.session {
			continue
		}
		x.defined = s.session
		s.defs++
		if x.op == OVar {
			s.vars[x.name] = x.w
			s.send("(declare-const |" + x.name + "| " + sortStr(x.w) + ")\n")
		} else {
			s.send("(define-fun t" + strconv.Itoa(int(x.id)) + " () " + sortStr(x.w) + " " + x.body() + ")\n")
		}
	}
}

func collectVars(ts []*Term, ctx *TermCtx) []*Term {
	ctx.newStamp()
	var out []*Term
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t == nil || t.op == OConst || t.evalStamp == ctx.stamp {
			continue
		}
		t.evalStamp = ctx.stamp
		if t.op == OVar {
			out = append(out, t)
			continue
		}
		st = append(st, t.a, t.b, t.c)
	}
	ctx.newStamp()
	return out
}

// Check decides pc ∧ extra. When sat, returns a model over all variables involved.
func (s *Solver) Check(pc []*Term, extra *Term) (SatResult, map[string]uint64) {
	t0 := time.Now()
	if s.defs > s.maxDefs {
		s.restart()
	}
	// sync stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
	s.define(extra)
	s.send("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	s.in.Flush()
	res := s.readLine()
	s.stats.Queries++
	r := Unknown
	var model map[string]uint64
	switch res {
	case "sat":
		r = Sat
		vs := collectVars(append(append([]*Term{}, pc...), extra), s.ctx)
		model = map[string]uint64{}
		if len(vs) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vs {
				sb.WriteString("|" + v.name + "| ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			s.readModel(model)
		}
		s.stats.Sats++
	case "unsat":
		r = Unsat
		s.stats.Unsats++
	default:
		s.stats.Unknown++
		if strings.HasPrefix(res, "(error") || res == "" {
			fmt.Fprintln(os.Stderr, "solver:", res)
			s.restart()
			d := time.Since(t0)
			s.stats.Time += d
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	d := time.Since(t0)
	s.stats.Time += d
	if d > s.stats.MaxTime {
		s.stats.MaxTime = d
		if x := os.Getenv("GOSYM_SLOW"); x != "" && d > 2*time.Second {
			s.dump(x, pc, extra)
		}
	}
	return r, model
}

// dump writes a query to a file, for inspection.
func (s *Solver) dump(path string, pc []*Term, extra *Term) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	fmt.Fprintln(w, "(set-logic QF_BV)")
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		def(t.a)
		def(t.b)
		def(t.c)
		if t.op == OVar {
			fmt.Fprintf(w, "(declare-const |%s| %s)\n", t.name, sortStr(t.w))
		} else {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), t.body())
		}
	}
	for _, t := range append(append([]*Term{}, pc...), extra) {
		def(t)
		fmt.Fprintf(w, "(assert %s)\n", t.ref())
	}
	fmt.Fprintln(w, "(check-sat)")
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readModel(m map[string]uint64) {
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			break
		}
		if b == '|' {
			inBar = !inBar
		}
		if !inBar {
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
			}
		}
		sb.WriteByte(b)
		if depth == 0 && sb.Len() > 1 && b == ')' {
			break
		}
	}
	txt := sb.String()
	// tokens: (|name| value) pairs
	i := 0
	for i < len(txt) {
		if txt[i] != '(' {
			i++
			continue
		}
		j := i + 1
		for j < len(txt) && (txt[j] == ' ' || txt[j] == '\n') {
			j++
		}
		if j < len(txt) && txt[j] == '(' {
			i = j
			continue
		}
		var name string
		if j < len(txt) && txt[j] == '|' {
			k := strings.IndexByte(txt[j+1:], '|')
			name = txt[j+1 : j+1+k]
			j = j + k + 2
		} else {
			k := j
			for k < len(txt) && txt[k] != ' ' && txt[k] != '\n' {
				k++
			}
			name = txt[j:k]
			j = k
		}
		for j < len(txt) && (txt[j] == ' ' || txt[j] == '\n') {
			j++
		}
		k := j
		if k < len(txt) && txt[k] == '(' { // (_ bvN w)
			for txt[k] != ')' {
				k++
			}
			f := strings.Fields(txt[j+1 : k])
			v, _ := strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
			m[name] = v
			k++
		} else {
			for k < len(txt) && txt[k] != ')' && txt[k] != ' ' && txt[k] != '\n' {
				k++
			}
			val := txt[j:k]
			switch {
			case val == "true":
				m[name] = 1
			case val == "false":
				m[name] = 0
			case strings.HasPrefix(val, "#x"):
				v, _ := strconv.ParseUint(val[2:], 16, 64)
				m[name] = v
			case strings.HasPrefix(val, "#b"):
				v, _ := strconv.ParseUint(val[2:], 2, 64)
				m[name] = v
			}
		}
		i = k + 1
	}
}
