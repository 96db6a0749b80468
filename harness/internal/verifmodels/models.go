// Package verifmodels holds Go models that the executor runs in place of standard library
// functions that depend on reflection or the runtime.
package verifmodels

import (
	"errors"
	"io"
	"os"
	"strconv"
	"sync"
	"time"
)

// M_timeNow models time.Now: the clock stands still.
func M_timeNow() time.Time { return time.Time{}.Add(1 << 62) }

// M_errorsIs models errors.Is.
func M_errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if Comparable(err) && Comparable(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if M_errorsIs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// Comparable is intercepted by the executor.
func Comparable(x interface{}) bool { return true }

// Show is intercepted by the executor: the default formatting of a non-string operand.
func Show(x interface{}) string { return "" }

// SwapAny is intercepted by the executor: swaps two elements of a slice.
func SwapAny(x interface{}, i, j int) {}

// LenAny is intercepted by the executor: the length of a slice.
func LenAny(x interface{}) int { return 0 }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func show(x interface{}, verb byte) string {
	if x == nil {
		return "<nil>"
	}
	s := ""
	switch v := x.(type) {
	case error:
		s = v.Error()
	case interface{ String() string }:
		s = v.String()
	case string:
		s = v
	case []byte:
		s = string(v)
	case int:
		return strconv.Itoa(v)
	case bool:
		if v {
			return "true"
		}
		return "false"
	case rune:
		if verb == 'c' {
			return string(v)
		}
		if verb == 'q' {
			return "'" + string(v) + "'"
		}
		return strconv.Itoa(int(v))
	case int64:
		return strconv.Itoa(int(v))
	default:
		return Show(x)
	}
	if verb == 'q' {
		return "\"" + s + "\""
	}
	return s
}

// M_sprintf models fmt.Sprintf for the common verbs.
func M_sprintf(format string, a ...interface{}) string {
	out := ""
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out += format[i:j]
			i = j - 1
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == '.' || (format[i] >= '0' && format[i] <= '9')) {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			out += "%"
			continue
		}
		if k < len(a) {
			out += show(a[k], format[i])
			k++
		}
	}
	return out
}

// M_errorf models fmt.Errorf.
func M_errorf(format string, a ...interface{}) error {
	msg := M_sprintf(format, a...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range a {
				if err, ok := x.(error); ok {
					return &wrapError{msg, err}
				}
			}
		}
	}
	return errors.New(msg)
}

func isStr(x interface{}) bool {
	_, ok := x.(string)
	return ok
}

// M_sprint models fmt.Sprint.
func M_sprint(a ...interface{}) string {
	out := ""
	for i, x := range a {
		if i > 0 && !isStr(x) && !isStr(a[i-1]) {
			out += " "
		}
		out += show(x, 'v')
	}
	return out
}

// M_sprintln models fmt.Sprintln.
func M_sprintln(a ...interface{}) string {
	out := ""
	for i, x := range a {
		if i > 0 {
			out += " "
		}
		out += show(x, 'v')
	}
	return out + "\n"
}

// M_fprintf models fmt.Fprintf.
func M_fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(M_sprintf(format, a...)))
}

// M_fprint models fmt.Fprint.
func M_fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(M_sprint(a...)))
}

// M_fprintln models fmt.Fprintln.
func M_fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(M_sprintln(a...)))
}

// M_sortSlice models sort.Slice and sort.SliceStable (insertion sort, stable).
func M_sortSlice(x interface{}, less func(i, j int) bool) {
	n := LenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			SwapAny(x, j, j-1)
		}
	}
}

// M_printf models fmt.Printf.
func M_printf(format string, a ...interface{}) (int, error) {
	return M_fprintf(os.Stdout, format, a...)
}

// M_print models fmt.Print.
func M_print(a ...interface{}) (int, error) { return M_fprint(os.Stdout, a...) }

// M_println models fmt.Println.
func M_println(a ...interface{}) (int, error) { return M_fprintln(os.Stdout, a...) }

// Unsupported ends a path that uses what a model does not cover.
func Unsupported(what string) { panic("not modelled: " + what) }

// smap is the content of a sync.Map.
type smap struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

// StateOf is intercepted by the executor: what SetState attached to m.
func StateOf(m *sync.Map) *smap { return nil }

// SetState is intercepted by the executor.
func SetState(m *sync.Map, s *smap) {}

func stateOf(m *sync.Map) *smap {
	s := StateOf(m)
	if s == nil {
		s = &smap{m: map[interface{}]interface{}{}}
		SetState(m, s)
	}
	s.mu.Lock()
	return s
}

// M_mapLoad models (*sync.Map).Load, and so on.
func M_mapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	s := stateOf(m)
	v, ok := s.m[k]
	s.mu.Unlock()
	return v, ok
}

func M_mapStore(m *sync.Map, k, v interface{}) {
	s := stateOf(m)
	s.m[k] = v
	s.mu.Unlock()
}

func M_mapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	s := stateOf(m)
	old, ok := s.m[k]
	if !ok {
		s.m[k] = v
		old = v
	}
	s.mu.Unlock()
	return old, ok
}

func M_mapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	s := stateOf(m)
	old, ok := s.m[k]
	s.m[k] = v
	s.mu.Unlock()
	return old, ok
}

func M_mapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	s := stateOf(m)
	v, ok := s.m[k]
	delete(s.m, k)
	s.mu.Unlock()
	return v, ok
}

func M_mapDelete(m *sync.Map, k interface{}) {
	s := stateOf(m)
	delete(s.m, k)
	s.mu.Unlock()
}

func M_mapClear(m *sync.Map) {
	s := stateOf(m)
	s.m = map[interface{}]interface{}{}
	s.mu.Unlock()
}

func M_mapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	s := stateOf(m)
	x, ok := s.m[k]
	ok = ok && x == old
	if ok {
		s.m[k] = v
	}
	s.mu.Unlock()
	return ok
}

func M_mapRange(m *sync.Map, f func(k, v interface{}) bool) {
	s := stateOf(m)
	var ks, vs []interface{}
	for k, v := range s.m {
		ks = append(ks, k)
		vs = append(vs, v)
	}
	s.mu.Unlock()
	for i, k := range ks {
		if !f(k, vs[i]) {
			break
		}
	}
}
