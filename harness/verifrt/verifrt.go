// Package verifrt is the harness vocabulary: nondeterministic inputs, assumptions and assertions.
// The symbolic engine intercepts these functions; this native implementation replays one assignment.
package verifrt

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"
)

type replayCase struct {
	Harness string                 `json:"harness"`
	Inputs  map[string]interface{} `json:"inputs"`
	Params  map[string]int         `json:"params"`
}

var (
	cur     replayCase
	counter = map[string]int{}
	missing = 0
)

type stopT struct{}

// Main replays the case named by VERIF_REPLAY.
func Main(hs map[string]func()) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&cur); err != nil {
		panic(err)
	}
	h := hs[cur.Harness]
	if h == nil {
		fmt.Println("VERIF-NOHARNESS")
		os.Exit(5)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopT); ok {
					os.Exit(4)
				}
				fmt.Printf("VERIF-PANIC %v\n", r)
				os.Exit(3)
			}
		}()
		h()
	}()
	fmt.Println("VERIF-DONE")
	os.Exit(0)
}

func next(name string) (interface{}, bool) {
	n := counter[name]
	counter[name] = n + 1
	v, ok := cur.Inputs[fmt.Sprintf("%s#%d", name, n)]
	return v, ok
}

func num(name string) uint64 {
	v, ok := next(name)
	if !ok {
		return 0
	}
	var u uint64
	fmt.Sscan(v.(json.Number).String(), &u)
	return u
}

func U8(name string) uint8   { return uint8(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U32(name string) uint32 { return uint32(num(name)) }
func U64(name string) uint64 { return num(name) }
func I64(name string) int64  { return int64(num(name)) }
func Bool(name string) bool  { return num(name) == 1 }

// Int is a symbolic integer in lo..hi.
func Int(name string, lo, hi int) int {
	v := int(int64(num(name)))
	if v < lo || v > hi {
		if _, ok := cur.Inputs[name+"#0"]; !ok {
			return lo
		}
	}
	Assume(v >= lo && v <= hi)
	return v
}

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	v, ok := next(name)
	r := make([]byte, n)
	if ok {
		b, _ := hex.DecodeString(v.(string))
		copy(r, b)
	}
	return r
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choice forks the exploration: every value 0..n-1 is explored as a separate path.
func Choice(name string, n int) int {
	if n <= 1 {
		next(name)
		return 0
	}
	v := int(num(name))
	if v >= n {
		v = 0
	}
	return v
}

// Param is a bound of the harness, set per tier.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME-FALSE")
		panic(stopT{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VERIF-FAIL " + msg)
		os.Exit(3)
	}
}

// Known asserts that cond (the situation of a recorded finding) does not occur; violations carry the finding's id.
func Known(id string, cond bool, msg string) {
	if cond {
		fmt.Println("VERIF-KNOWN " + id + " " + msg)
		os.Exit(3)
	}
}

func Reach(label string) {}

// GiveUp ends a symbolic path that would not end otherwise; what it would have explored counts as left out.
func GiveUp(why string) {}

func ObserveStr(name string, v string) { fmt.Printf("VERIF-OBS %s=%q\n", name, v) }
func ObserveBytes(name string, v []byte) {
	fmt.Printf("VERIF-OBS %s=%q\n", name, hex.EncodeToString(v))
}
func ObserveInt(name string, v int) { fmt.Printf("VERIF-OBS %s=%q\n", name, fmt.Sprint(v)) }
func ObserveBool(name string, v bool) {
	s := "0"
	if v {
		s = "1"
	}
	fmt.Printf("VERIF-OBS %s=%q\n", name, s)
}

func Symbolic() bool   { return false }
func MapOrder(on bool) {}
func Interleave(n int) { goroutines = runtime.NumGoroutine() }

// InterleaveDelay is Interleave with a bound on all departures from taking turns: where a goroutine blocks, the next
// one in turn runs, unless one of the n is spent on another.
func InterleaveDelay(n int) { goroutines = runtime.NumGoroutine() }

var goroutines = 1

// Settle lets the other goroutines run until each has finished or is blocked, and returns how many are left.
func Settle() int {
	n := 0
	for i := 0; i < 200; i++ {
		n = runtime.NumGoroutine() - goroutines
		if n <= 0 {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return n
}
func ExitIsBug() {}

// SymbolicDigits renders formatted symbolic integers with one symbolic byte per digit instead of trying their values.
func SymbolicDigits() {}

// SetNow sets the clock (natively only where the check asks for it).
func SetNow(unix int64) {
	if setClock != nil {
		setClock(unix)
	}
}

var setClock func(unix int64)

func Concretize(n int) int { return n }
func Dump(v interface{})   {}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return Or(!a, b) }

func BytesEq(a, b []byte) bool   { return bytes.Equal(a, b) }
func StrEq(a, b string) bool     { return a == b }
func BytesLess(a, b []byte) bool { return bytes.Compare(a, b) < 0 }
