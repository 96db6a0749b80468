// Package verifsym is the interface between harnesses and the symbolic executor. The
// executor intercepts every function of this package; compiled natively, the functions
// read concrete values from a replay file, so that a counterexample runs against the
// real code.
package verifsym

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

type value struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  int64  `json:"val"`
	Str  string `json:"str"`
	past bool   // not recorded: Val is arbitrary and not negative
}

type replay struct {
	Harness string         `json:"harness"`
	Vals    []value        `json:"values"`
	Params  map[string]int `json:"params"`
	Tail    uint64         `json:"tail"`
}

var (
	mu   sync.Mutex
	rep  replay
	pos  int
	once sync.Once
)

// Load reads the replay file named by VERIF_REPLAY and returns the harness name.
func Load() string {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifsym:", err)
		os.Exit(4)
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, "verifsym:", err)
		os.Exit(4)
	}
	return rep.Harness
}

func next(kind, name string) value {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(rep.Vals) {
		// past the recorded inputs: the run left the path of the counterexample
		pos++
		if rep.Tail == 0 {
			return value{Kind: kind, past: true}
		}
		x := (rep.Tail<<32 + uint64(pos)) * 0x9e3779b97f4a7c15
		x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
		return value{Kind: kind, past: true, Val: int64(x >> 34)}
	}
	v := rep.Vals[pos]
	pos++
	if v.Kind != kind {
		fmt.Fprintf(os.Stderr, "verifsym: replay diverged at %s: have %s, want %s\n", name, v.Kind, kind)
		os.Exit(3)
	}
	return v
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next("byte", name).Val) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next("bool", name).Val&1 != 0 }

// Rune is an arbitrary Unicode scalar value (no surrogates).
func Rune(name string) rune {
	v := next("rune", name)
	if v.past {
		return []rune("aé.\u4e16 \u0301'1")[v.Val%8]
	}
	return rune(v.Val)
}

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	v := next("int", name)
	if v.past {
		return lo + int(v.Val%int64(hi-lo+1))
	}
	return int(v.Val)
}

// Choice is an arbitrary integer in [0, n), decided at once (the path forks).
func Choice(name string, n int) int {
	v := next("choice", name)
	if n < 1 {
		Assume(false)
	}
	if v.past {
		return int(v.Val % int64(n))
	}
	return int(v.Val)
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// ASCII is a string of n arbitrary bytes below 0x80.
func ASCII(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteOf(name, "")
	}
	return string(b)
}

// ByteOf is an arbitrary byte of the set ("" means all bytes below 0x80).
func ByteOf(name, set string) byte {
	v := next("byte", name)
	if v.past {
		if set == "" {
			return byte(v.Val & 0x7f)
		}
		return set[v.Val%int64(len(set))]
	}
	return byte(v.Val)
}

// Of is a string of n arbitrary bytes of the set.
func Of(name, set string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteOf(name, set)
	}
	return string(b)
}

// Size is one of the given sizes or an integer constant of the code under test (its
// neighbours included) in [lo, hi].
func Size(name string, lo, hi int, base ...int) int {
	v := next("choice", name)
	if v.past {
		if len(base) > 0 {
			return base[v.Val%int64(len(base))]
		}
		return lo
	}
	return int(v.Val)
}

// Param is a parameter of the check.
func Param(name string, def int) int {
	if v, ok := rep.Params[name]; ok {
		return v
	}
	return def
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Fprintln(os.Stderr, "verifsym: assumption does not hold")
		os.Exit(3)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Fprintln(os.Stderr, "VERIF-ASSERT "+msg)
		os.Exit(1)
	}
}

// Cover records that a situation was reached.
func Cover(name string) {}

// Observe reports a result, for comparing the executor with the native run.
func Observe(s string) { fmt.Printf("VERIF-OBS %q\n", s) }

// MapOrder makes map iteration order arbitrary.
func MapOrder(on bool) {}

// Symbolic reports whether the program runs in the symbolic executor.
func Symbolic() bool { return false }

// Note prints a diagnostic when running natively.
func Note(format string, a ...interface{}) { fmt.Fprintf(os.Stderr, format+"\n", a...) }
