// Package nd is the harness vocabulary. Under gosym every function here is an
// intrinsic (inputs are SMT variables, Assert is a solver query); compiled
// natively the inputs come from a counterexample file.
package nd

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

var inputs map[string]string
var count map[string]int
var tier string
var out strings.Builder
var tmp string

// Reset starts the native replay of one harness.
func Reset(in map[string]string, t string) {
	inputs, count, tier = in, map[string]int{}, t
	tmp = ""
}

type Stop struct{ Kind, Msg string }

func next(name string) string {
	k := count[name]
	count[name] = k + 1
	return inputs[name+"#"+strconv.Itoa(k)]
}
func u(name string) uint64 {
	s := next(name)
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

func U8(name string) uint8   { return uint8(u(name)) }
func U16(name string) uint16 { return uint16(u(name)) }
func U32(name string) uint32 { return uint32(u(name)) }
func U64(name string) uint64 { return u(name) }
func I8(name string) int8    { return int8(u(name)) }
func I16(name string) int16  { return int16(u(name)) }
func I32(name string) int32  { return int32(u(name)) }
func I64(name string) int64  { return int64(u(name)) }
func Int(name string) int    { return int(u(name)) }
func Bool(name string) bool  { return u(name) != 0 }
func F64(name string) float64 {
	return math.Float64frombits(u(name))
}
func F32(name string) float32 { return math.Float32frombits(uint32(u(name))) }

// SameF64, SameF32: both are NaN, or the same number with the same sign.
func SameF64(a, b float64) bool {
	return a != a && b != b || a == b && math.Signbit(a) == math.Signbit(b)
}
func SameF32(a, b float32) bool { return SameF64(float64(a), float64(b)) }

// Choice forks the path n ways.
func Choice(name string, n int) int { return int(u(name)) }

// Str is a string of n arbitrary bytes, Bytes a slice of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(u(name))
	}
	return b
}

func Assume(b bool) {
	if !b {
		panic(Stop{"ASSUME", ""})
	}
}

// Lemma states an instance of an arithmetic theorem to the solver. It is never
// about the code under test.
func Lemma(b bool) {
	if !b {
		panic(Stop{"FAIL", "harness lemma is false"})
	}
}
func Assert(b bool, msg string) {
	if !b {
		panic(Stop{"FAIL", msg})
	}
}

func Observe(label string, v any) {
	rv := reflect.ValueOf(v)
	s := "?"
	switch rv.Kind() {
	case reflect.Bool:
		s = fmt.Sprint(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := uint64(rv.Int())
		if n := rv.Type().Size() * 8; n < 64 {
			x &= 1<<n - 1
		}
		s = fmt.Sprint(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s = fmt.Sprint(rv.Uint())
	case reflect.Float64:
		s = fmt.Sprint(math.Float64bits(rv.Float()))
	case reflect.Float32:
		s = fmt.Sprint(math.Float32bits(float32(rv.Float())))
	case reflect.String:
		s = fmt.Sprintf("%x", rv.String())
	}
	fmt.Println("REPLAY-OBS " + label + "=" + s)
}

func Cover(label string) {}
func Bound(label string) {}
func Tier(quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
func Native() bool   { return true }
func MapOrder(k int) {}
func NoMerge()       {}

// Merge turns path merging off (0) or on (1).
func Merge(on int) {}
func NoReplay()    {}

// NeedFakes: the harness needs gost's os and time imports replaced by fakeos and faketime.
func NeedFakes() {}

// Point is a place where the scheduler may switch threads.
func Point() {
	runtime.Gosched()
	if k := time.Now().UnixNano(); k&64 == 0 {
		time.Sleep(time.Duration(k&0xFFFF) * 3)
	}
}

// Writes runs f and reports whether it writes memory that exists already, or
// synchronises.
func Writes(name string, f func()) bool {
	f()
	return u(name) != 0
}
func Steps(n int)   {}
func Preempt(n int) {}
func PreemptAll()   {}
func Yield() {
	runtime.Gosched()
	time.Sleep(time.Microsecond)
}

// Quiesce lets the other goroutines run until they are done or blocked.
func Quiesce() { time.Sleep(60 * time.Millisecond) }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	done := false
	defer func() {
		if !done {
			r := recover()
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	done = true
	return false
}

// Dir is the directory the file-system harnesses work in.
func Dir() string {
	if tmp == "" {
		d, err := os.MkdirTemp("", "nd-")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}
