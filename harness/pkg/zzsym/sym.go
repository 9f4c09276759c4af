// Package zzsym is the harness library. Under the symbolic engine every
// function below is intercepted; compiled natively it reads the values from a
// counterexample file, so the very same harness replays it on the real build.
package zzsym

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

type input struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}
type file struct {
	Inputs   []input  `json:"inputs"`
	Pauses   []pause  `json:"preemptions"`
	Thorough bool     `json:"thorough"`
	Known    []string `json:"known"`
}

var (
	mu     sync.Mutex
	queue  = map[string][]uint64{}
	cfg    file
	known  = map[string]bool{}
	Failed bool
)

// Load reads a counterexample file (native only).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		return err
	}
	for _, i := range cfg.Inputs {
		queue[i.N] = append(queue[i.N], i.V)
	}
	for _, k := range cfg.Known {
		known[k] = true
	}
	return nil
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	q := queue[name]
	if len(q) == 0 {
		return 0
	}
	queue[name] = q[1:]
	return q[0]
}

func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func I64(name string) int64  { return int64(next(name)) }
func Int(name string) int    { return int(next(name)) }
func Bool(name string) bool  { return next(name) != 0 }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Choose forks over 0..n-1 (each value is explored as its own path).
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

func out(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(os.Stdout, format+"\n", a...)
}

// Assume restricts the inputs considered.
func Assume(ok bool) {
	if !ok {
		out("ZZ-ASSUME-FAILED")
		os.Exit(11)
	}
}

// Assert states the property.
func Assert(ok bool, id string) {
	if !ok {
		out("ZZ-VIOLATION %s", id)
		Failed = true
	}
}

// Known asserts ok; a failure inside region is the listed finding kf.
func Known(kf string, ok, region bool, id string) {
	if !known[kf] {
		Assert(ok, id)
		return
	}
	if !ok && region {
		out("ZZ-KNOWN %s", kf)
		os.Exit(12)
	}
	Assert(ok, id)
}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Observe records an output for comparing the symbolic and the native run.
func Observe(name string, v interface{}) {
	switch x := v.(type) {
	case string:
		out("OBS %s=%q", name, x)
	case []byte:
		out("OBS %s=%x", name, x)
	case bool:
		out("OBS %s=%v", name, x)
	default:
		out("OBS %s=%d", name, v)
	}
}

func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Concrete forks over the feasible values of v.
func Concrete(v uint64) uint64 { return v }

// Branch forks on a condition.
func Branch(b bool) bool { return b }

// MapOrder makes map iteration order nondeterministic.
func MapOrder(on bool) {}

// Preempt allows k preemptive context switches at synchronisation operations.
func Preempt(k int) { Races(k) }

// Races allows k preemptive context switches, which may be at accesses to memory too.
func Races(k int) {
	mu.Lock()
	defer mu.Unlock()
	armed = k > 0
	passed = map[string]int{}
	paused = 0
}

// HeadStart lets the goroutine just started get to where it is preempted.
func HeadStart() {
	mu.Lock()
	n := len(cfg.Pauses)
	mu.Unlock()
	if n > 0 {
		time.Sleep(10 * time.Millisecond)
	}
}

var (
	armed  bool
	passed = map[string]int{}
	paused int
)

// At is called where the goroutine of a counterexample is preempted: it waits
// there, and the others go on.
func At(key string) {
	mu.Lock()
	passed[key]++
	hit := armed && paused < len(cfg.Pauses) && cfg.Pauses[paused].key() == key && cfg.Pauses[paused].Nth == passed[key]
	if hit {
		paused++
	}
	mu.Unlock()
	if hit {
		time.Sleep(40 * time.Millisecond)
	}
}

type pause struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	After bool   `json:"after"`
	Mid   bool   `json:"mid"`
	Nth   int    `json:"nth"`
}

func (p pause) key() string {
	return fmt.Sprintf("%s:%d:%v:%v", filepath.Base(p.File), p.Line, p.After, p.Mid)
}

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return cfg.Thorough }

// Stop ends this path quietly.
func Stop() { out("ZZ-ASSUME-FAILED"); os.Exit(11) }

// Try reports whether f panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() {
	stable := 0
	buf := make([]byte, 1<<18)
	for n := 0; n < 2000 && stable < 3; n++ {
		time.Sleep(time.Millisecond)
		k := runtime.Stack(buf, true)
		busy := 0
		for i, g := range strings.Split(string(buf[:k]), "\n\n") {
			if i == 0 {
				continue
			}
			h := g
			if p := strings.IndexByte(g, '\n'); p >= 0 {
				h = g[:p]
			}
			if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[syscall") || strings.Contains(h, "[sleep") {
				busy++
			}
		}
		if busy == 0 {
			stable++
		} else {
			stable = 0
		}
	}
}
