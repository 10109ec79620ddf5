// Package zzsym is the harness interface of the symbolic executor. Under
// symbolic execution every function here is replaced by an intrinsic; the
// bodies below are used when a counterexample is replayed on a native build,
// where the inputs come from the file named by ZZ_INPUT.
package zzsym

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type in struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

var (
	mu     sync.Mutex
	inputs map[string]uint64
	params map[string]int
	count  map[string]int
	trace  []string
	// QuiesceFn waits until every goroutine is blocked (set by the replay driver).
	QuiesceFn = func() { time.Sleep(50 * time.Millisecond) }
)

// Load reads the inputs of a replay.
func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var f struct {
		Inputs []in           `json:"inputs"`
		Params map[string]int `json:"params"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	inputs, count, params = map[string]uint64{}, map[string]int{}, f.Params
	for _, i := range f.Inputs {
		inputs[i.Name] = i.Val
	}
}

// Settle waits until every other goroutine is blocked.
func Settle() {
	buf := make([]byte, 1<<20)
	for calm := 0; calm < 4; {
		time.Sleep(time.Millisecond)
		n := 0
		for _, l := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n") {
			if strings.HasPrefix(l, "goroutine ") && (strings.Contains(l, "[running") || strings.Contains(l, "[runnable") || strings.Contains(l, "[syscall")) {
				n++
			}
		}
		if calm++; n > 1 {
			calm = 0
		}
	}
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := count[name]
	count[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return inputs[name]
}

// Violation is the panic value of a failed assertion in a native replay.
type Violation string

func (v Violation) Error() string { return "ZZ-VIOLATION " + string(v) }

// Skip is the panic value of a failed assumption.
type Skip struct{}

func (Skip) Error() string { return "ZZ-SKIP" }

func Byte(name string) byte     { return byte(next(name)) }
func Uint16(name string) uint16 { return uint16(next(name)) }
func Uint32(name string) uint32 { return uint32(next(name)) }
func Uint64(name string) uint64 { return next(name) }
func Bool(name string) bool     { return next(name) == 1 }

// Int is any value in [lo, hi].
func Int(name string, lo, hi int) int { return lo + int(next(name)) }

func Float64(name string) float64 { return math.Float64frombits(next(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(next(name))) }

// Choice is any value in [0, n); every value is explored on a path of its own.
func Choice(name string, n int) int { return int(next(name)) }

// Bytes is any byte slice of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// String is any string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}
func Assert(c bool, label string) {
	if !c {
		fmt.Fprintln(os.Stderr, "ZZ-VIOLATION", label)
		panic(Violation(label))
	}
}
func Fail(label string) {
	fmt.Fprintln(os.Stderr, "ZZ-VIOLATION", label)
	panic(Violation(label))
}
func Cover(label string) {}

// Obs records an observation, compared between the executor and native runs.
func Obs(v string) {
	mu.Lock()
	trace = append(trace, fmt.Sprintf("%q", v))
	mu.Unlock()
}
func Observations() string { return strings.Join(trace, "\n") }

func Note(s string)                {}
func Show(k string, v interface{}) { fmt.Fprintf(os.Stderr, "%s: %#v\n", k, v) }
func AllocLimit(n int)             { allocLimit = n; runtime.ReadMemStats(&ms); alloc0 = ms.TotalAlloc }

// StackLimit bounds the call depth (natively, roughly, the stack).
func StackLimit(n int)           { debug.SetMaxStack(n * 32) }
func Concurrent(preemptions int) {}

// Delays explores every schedule that deviates from the round-robin order by at most n delays.
func Delays(n int)      {}
func Sequential()       {}
func EarlyTimers(n int) {}
func SelectAll(b bool)  {}
func MapOrder()         {}

// SymRand makes every byte drawn from crypto/rand any value.
func SymRand() { rand.Reader = randReader{} }

var drawn []byte

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = Byte("rand")
		drawn = append(drawn, b[i])
	}
	return len(b), nil
}

// RandDrawn returns the random bytes drawn since SymRand.
func RandDrawn() []byte { return append([]byte(nil), drawn...) }
func Races()            {}
func Quiesce()          { QuiesceFn() }
func NowNano() int64    { return time.Now().UnixNano() }
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}
func Symbolic() bool                { return false }
func IsConcrete(v interface{}) bool { return true }
func And(a, b bool) bool            { return a && b }
func Or(a, b bool) bool             { return a || b }
func Not(a bool) bool               { return !a }
func Implies(a, b bool) bool        { return !a || b }
func EqBytes(a, b []byte) bool      { return string(a) == string(b) }
func EqString(a, b string) bool     { return a == b }
func LiveGoroutines() int           { return runtime.NumGoroutine() }

var (
	allocLimit int
	alloc0     uint64
	ms         runtime.MemStats
)

// AllocExceeded tells whether a native replay allocated more than the limit.
func AllocExceeded() bool {
	if allocLimit == 0 {
		return false
	}
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc-alloc0 > uint64(allocLimit)
}
