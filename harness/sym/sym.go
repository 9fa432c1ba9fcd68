// Package sym is the harness vocabulary. Under the symbolic engine the
// functions marked (intrinsic) are interpreted specially; natively they read
// a recorded assignment so that a solver model can be replayed against the
// compiled program.
package sym

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"sync"
	"time"
)

// RuntimeError is the value of run-time panics under the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type WrapError struct {
	Msg string
	Err error
}

func (w *WrapError) Error() string { return w.Msg }
func (w *WrapError) Unwrap() error { return w.Err }

func MkWrap(msg string, err error) error { return &WrapError{msg, err} }

var (
	mu      sync.Mutex
	names   = map[string]int{}
	assign  = map[string]uint64{}
	choices = map[string]uint64{}
	Events  []string
	thor    bool
	alloc   int
)

func Reset(a, c map[string]uint64, thorough bool) {
	mu.Lock()
	defer mu.Unlock()
	names = map[string]int{}
	assign, choices = a, c
	Events = nil
	thor = thorough
	alloc = 0
}

func emit(s string) {
	mu.Lock()
	Events = append(Events, s)
	mu.Unlock()
	if !Quiet {
		fmt.Println(s)
	}
}

// Quiet suppresses event printing (batch mode).
var Quiet bool

func key(name string) string {
	n := names[name]
	names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return assign[key(name)]
}

// (intrinsic) Fresh symbolic inputs.
func U8(name string) uint8           { return uint8(get(name)) }
func U16(name string) uint16         { return uint16(get(name)) }
func U32(name string) uint32         { return uint32(get(name)) }
func U64(name string) uint64         { return get(name) }
func Bool(name string) bool          { return get(name) != 0 }
func Bits(name string, n int) uint64 { return get(name) }
func Int(name string, lo, hi int) int {
	v := int(get(name)) // engine: symbolic, assumed within [lo,hi]
	return v
}

// (intrinsic) Bytes gives n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

// (intrinsic) Choice enumerates 0..n-1, one path each.
func Choice(name string, n int) int {
	mu.Lock()
	defer mu.Unlock()
	return int(choices[key(name)])
}

type stop struct{}

// (intrinsic) Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		emit("ASSUME-FALSE")
		panic(stop{})
	}
}

// (intrinsic) Stop ends the path normally.
func Stop() { panic(stop{}) }

// (intrinsic) Assert states the property.
func Assert(c bool, label string) {
	if !c {
		emit("ASSERT-FAIL " + label)
	}
}

// (intrinsic) NearIDCT states that every sample is within milli/1000 of base
// plus the exact inverse DCT of the coefficients, clipped to 0..255, whenever
// the exact transform stays within -256..256. The engine decides it in linear
// real arithmetic.
func NearIDCT(got []byte, coef []int32, base, milli int, label string) {
	var x [64]float64
	for j := range x {
		for k, c := range coef {
			x[j] += Basis(j, k) * float64(c)
		}
		if x[j] < -256 || x[j] > 256 {
			return
		}
	}
	for j, g := range got {
		v := math.Max(0, math.Min(255, x[j]+float64(base)))
		if math.Abs(v-float64(g)) > float64(milli)/1000 {
			emit("ASSERT-FAIL " + label)
			return
		}
	}
}

// Basis is the contribution of coefficient k to sample j.
func Basis(j, k int) float64 {
	y, x, v, u := j/8, j%8, k/8, k%8
	b := math.Cos(float64((2*x+1)*u)*math.Pi/16) * math.Cos(float64((2*y+1)*v)*math.Pi/16) / 4
	if u == 0 {
		b *= math.Sqrt(0.5)
	}
	if v == 0 {
		b *= math.Sqrt(0.5)
	}
	return b
}

// (intrinsic) Reach is a vacuity witness.
func Reach(label string) {}

// (intrinsic) Observe records a value compared with the native run.
func Observe(label string, v uint64) { emit(fmt.Sprintf("OBS %s=%d", label, v)) }

func ObserveBytes(label string, b []byte) {
	for i, v := range b {
		Observe(fmt.Sprintf("%s[%d]", label, i), uint64(v))
	}
}

// (intrinsic) Non-forking selection and logic.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Ite32(c bool, a, b int32) int32 {
	if c {
		return a
	}
	return b
}
func Ite8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// (intrinsic) EqBytes compares without forking.
func EqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// (intrinsic) Concrete forks over the feasible values of v.
func Concrete(v int) int { return v }

// (intrinsic) Thorough tells the tier.
func Thorough() bool { return thor }

// (intrinsic) AllocLimit makes larger allocations a violation (elements).
func AllocLimit(n int) { alloc = n }

// AllocExceeded is used by the native replay: bytes allocated so far.
func Alloc() int { return alloc * 64 }

// (intrinsic) Preempt(false) switches goroutines only when one blocks.
func Preempt(on bool) {}

// (intrinsic) Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// (intrinsic) Steps bounds the interpreted instructions of the rest of the path.
func Steps(n int) {}

// (intrinsic) Settle waits until every other goroutine is blocked or done.
func Settle() {
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	time.Sleep(3 * time.Millisecond)
}

// Run executes a harness natively and reports how it ended.
func Run(f func()) (end string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(stop); ok {
			end = "stop"
			return
		}
		if e, ok := r.(error); ok {
			end = "PANIC " + e.Error()
		} else {
			end = fmt.Sprint("PANIC ", r)
		}
		buf := make([]byte, 4096)
		fmt.Fprintln(os.Stderr, end)
		os.Stderr.Write(buf[:runtime.Stack(buf, false)])
	}()
	f()
	return "done"
}

// ---- stand-ins for standard library functions with assembly or reflection ----

func StubBytesEqual(a, b []byte) bool { return EqBytes(a, b) }

func StubIndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func StubBytesCompare(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func StubBytesIndex(s, sep []byte) int {
	n := len(sep)
	for i := 0; i+n <= len(s); i++ {
		j := 0
		for j < n && s[i+j] == sep[j] {
			j++
		}
		if j == n {
			return i
		}
	}
	return -1
}

func StubCount(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func StubErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if StubErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
