package main

import (
	"fmt"
	"strings"
)

// Happens-before race detection (vector clocks) on accesses by the code under test to memory cells and maps, active while
// interleavings are explored.

type vclock []uint32

func (a vclock) get(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func joinClock(a, b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

type raceAcc struct {
	g     int
	c     uint32
	where string
}

type raceCell struct {
	w  raceAcc
	rs []raceAcc
}

type syncKey struct {
	p    any
	part byte
}

type raceState struct {
	vcs   map[int]vclock
	sync  map[syncKey]vclock
	cells map[any]*raceCell
}

func newRaceState() *raceState {
	return &raceState{vcs: map[int]vclock{}, sync: map[syncKey]vclock{}, cells: map[any]*raceCell{}}
}

func (r *raceState) clock(g int) vclock {
	v := r.vcs[g]
	if v == nil {
		v = make(vclock, g+1)
		v[g] = 1
		r.vcs[g] = v
	}
	return v
}

func (w *Worker) gid() int {
	if w.cur == nil {
		return 0
	}
	return w.cur.id
}

func (w *Worker) hbAcquire(p any, part byte) {
	if r := w.race; r != nil {
		g := w.gid()
		r.vcs[g] = joinClock(r.clock(g), r.sync[syncKey{p, part}])
	}
}

func (w *Worker) hbRelease(p any, part byte) {
	if r := w.race; r != nil {
		g := w.gid()
		v := r.clock(g)
		k := syncKey{p, part}
		r.sync[k] = joinClock(append(vclock(nil), r.sync[k]...), v)
		v[g]++
	}
}

func (w *Worker) hbSpawn(child int) {
	if r := w.race; r != nil {
		g := w.gid()
		v := r.clock(g)
		c := make(vclock, child+1)
		c[child] = 1
		r.vcs[child] = joinClock(c, v)
		v[g]++
	}
}

// raceAccess records an access to a cell or a map by the function running in fr.
func (w *Worker) raceAccess(fr *frame, key any, write bool) {
	if len(w.gors) <= 1 || w.initDepth > 0 || !fr.code.raced() {
		return
	}
	if p, ok := key.(*Value); ok {
		switch x := p.p.(type) {
		case structV:
			for i := range x {
				w.raceAccess(fr, &x[i], write)
			}
			return
		case arrayV:
			for i := range x {
				w.raceAccess(fr, &x[i], write)
			}
			return
		}
	}
	r := w.race
	g := w.gid()
	vc := r.clock(g)
	c := r.cells[key]
	if c == nil {
		c = &raceCell{}
		c.w.g = -1
		r.cells[key] = c
	}
	me := raceAcc{g, vc[g], w.where()}
	bad := func(o raceAcc, how string) {
		panic(&pathEnd{kind: pePanic, msg: fmt.Sprintf("data race: %s at %s and at %s", how, shortWhere(o.where), shortWhere(me.where))})
	}
	if c.w.g >= 0 && c.w.g != g && vc.get(c.w.g) < c.w.c {
		bad(c.w, "unsynchronised access")
	}
	if !write {
		for i := range c.rs {
			if c.rs[i].g == g {
				c.rs[i] = me
				return
			}
		}
		c.rs = append(c.rs, me)
		return
	}
	for _, o := range c.rs {
		if o.g != g && vc.get(o.g) < o.c {
			bad(o, "unsynchronised write")
		}
	}
	c.w = me
	c.rs = c.rs[:0]
}

func shortWhere(s string) string {
	if i := strings.Index(s, " < "); i >= 0 {
		s = s[:i]
	}
	return strings.TrimLeft(s, "[")
}

// raced: accesses of this function count (the code under test, not the harness).
func (c *fnCode) raced() bool {
	if c.raceKind == 0 {
		c.raceKind = 2
		if c.isRepo {
			c.raceKind = 1
			for fn := c.fn; fn != nil; fn = fn.Parent() {
				if fn.Pos().IsValid() && strings.Contains(fn.Prog.Fset.Position(fn.Pos()).Filename, "zz_verif_") {
					c.raceKind = 2
				}
			}
		}
	}
	return c.raceKind == 1
}

func (w *Worker) raceMap(fr *frame, v Value, write bool) {
	if m, ok := v.p.(*mapV); ok {
		w.raceAccess(fr, m, write)
	}
}

// raceElems records an access to the elements of a slice.
func (w *Worker) raceElems(fr *frame, v Value, write bool) {
	if s, ok := v.p.(sliceV); ok && len(w.gors) > 1 && fr.code.raced() {
		for i := range s {
			w.raceAccess(fr, &s[i], write)
		}
	}
}

// raceBuiltin records the accesses of a built-in function.
func (w *Worker) raceBuiltin(fr *frame, name string, args []Value) {
	if len(w.gors) <= 1 || len(args) == 0 {
		return
	}
	switch name {
	case "delete", "clear", "len":
		w.raceMap(fr, args[0], name != "len")
		if name == "clear" {
			w.raceElems(fr, args[0], true)
		}
	case "append":
		if len(args) < 2 {
			return
		}
		w.raceElems(fr, args[1], false)
		dst, ok := args[0].p.(sliceV)
		if !ok {
			return
		}
		n := w.raceLen(args[1])
		if cap(dst)-len(dst) >= n {
			w.raceElems(fr, Value{p: dst[len(dst) : len(dst)+n]}, true)
		} else {
			w.raceElems(fr, args[0], false)
		}
	case "copy":
		dst, ok := args[0].p.(sliceV)
		if !ok {
			return
		}
		n := w.raceLen(args[1])
		if n > len(dst) {
			n = len(dst)
		}
		w.raceElems(fr, Value{p: dst[:n]}, true)
		if src, ok := args[1].p.(sliceV); ok {
			w.raceElems(fr, Value{p: src[:n]}, false)
		}
	}
}

func (w *Worker) raceLen(v Value) int {
	switch x := v.p.(type) {
	case nil:
		return 0
	case sliceV:
		return len(x)
	}
	return len(strBytes(v))
}

// raceRead records that a function of the code under test had a value read by a modelled library function.
func (w *Worker) raceRead(key any) {
	if w.race != nil && w.cur != nil && w.cur.top != nil {
		w.raceAccess(w.cur.top, key, false)
	}
}
