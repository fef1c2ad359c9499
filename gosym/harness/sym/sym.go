// Package sym is what a harness uses to obtain inputs and to state what must hold.  In symbolic
// execution these functions are intercepted: inputs are solver variables and Check is a query.
// Compiled natively they read the values of a counterexample and evaluate the same statements.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"runtime/debug"
)

type request struct {
	Unit   string            `json:"unit"`
	Args   map[string]any    `json:"args"`
	Inputs map[string][2]any `json:"inputs"`
}

type stop struct{}

var (
	req      request
	used     = map[string]bool{}
	failures = []string{}
	observed = [][2]any{}
)

func name(n string) string {
	r, k := n, 1
	for used[r] {
		k++
		r = fmt.Sprintf("%s#%d", n, k)
	}
	used[r] = true
	return r
}

func val(n string) (any, bool) {
	v, ok := req.Inputs[name(n)]
	return v[1], ok
}

// Symbolic tells whether inputs are solver variables.
func Symbolic() bool { return false }

// Arg is a parameter of the case being decided.
func Arg(n string) int64 {
	v, ok := req.Args[n]
	if !ok {
		panic("no argument " + n)
	}
	switch v := v.(type) {
	case float64:
		return int64(v)
	case bool:
		if v {
			return 1
		}
	}
	return 0
}

func bigOf(n string, d *big.Int) *big.Int {
	if v, ok := val(n); ok {
		r, _ := new(big.Int).SetString(v.(string), 10)
		return r
	}
	return d
}

// Int is any value in lo..hi.
func Int(n string, lo, hi int64) int64 { return bigOf(n, big.NewInt(lo)).Int64() }

// Big is any integer in lo..2**bits-1.
func Big(n string, lo int64, bits int) *big.Int { return bigOf(n, big.NewInt(lo)) }

// Bool is either value; the path is not split on it.
func Bool(n string) bool {
	v, ok := val(n)
	return ok && v.(bool)
}

// Choice splits the path: one of 0..k-1.
func Choice(n string, k int) int {
	if k == 1 {
		return 0
	}
	return int(bigOf(n, new(big.Int)).Int64())
}

// Flag splits the path on a boolean.
func Flag(n string) bool { return Bool(n) }

// Bytes are k arbitrary bytes.
func Bytes(n string, k int) []byte {
	r := make([]byte, k)
	if v, ok := val(n); ok {
		for i, x := range v.([]any) {
			r[i] = byte(x.(float64))
		}
	}
	return r
}

func Assume(c bool) {
	if !c {
		panic(stop{})
	}
}

func Check(c bool, msg string) {
	if !c {
		failures = append(failures, msg)
	}
}

func Fail(msg string) { failures = append(failures, msg) }

func Cover(label string) {}

// And, Or, Not, Implies and IfInt combine without splitting the path.
func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}

func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func IfBig(c bool, a, b *big.Int) *big.Int {
	if c {
		return a
	}
	return b
}

func IfInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

func plain(v any) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *big.Int:
		if v == nil {
			return nil
		}
		return json.RawMessage(v.String())
	case []byte:
		return hex.EncodeToString(v)
	case string, bool:
		return v
	case int:
		return v
	case int64:
		return v
	case error:
		return "error"
	}
	return []string{"~"}
}

// Observe records a value that the native run must reproduce.
func Observe(label string, v any) { observed = append(observed, [2]any{label, plain(v)}) }

// Ordered runs f, of the harness itself, with maps in one order only.
func Ordered(f func()) { f() }

// Panics runs f and tells whether it panicked.
func Panics(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			r = true
		}
	}()
	f()
	return false
}

func Main(units map[string]func()) {
	bs, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(bs, &req)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	assume := false
	var trace any
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					assume = true
					return
				}
				failures = append(failures, "uncaught panic")
				trace = fmt.Sprint(e) + "\n" + string(debug.Stack())
			}
		}()
		units[req.Unit]()
	}()
	out, err := json.Marshal(map[string]any{"failures": failures, "assume": assume, "observed": observed, "error": trace})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println("@@RESULT " + string(out))
}
