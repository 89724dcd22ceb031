// Package nd supplies nondeterministic inputs and assertions to harnesses. The
// symbolic engine intercepts every function of this package; the bodies below
// are the native semantics, used to replay a model found by the solver on the
// compiled program.
package nd

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"strconv"
	"sync"
)

type input struct {
	Kind  string            `json:"k"`
	Label string            `json:"l"`
	V     string            `json:"v"`
	Hex   string            `json:"hex"`
	N     uint64            `json:"n"`
	At    map[string]uint64 `json:"at"`
	Sched json.RawMessage   `json:"sched"`
}

type caseFile struct {
	Harness  string  `json:"harness"`
	Thorough bool    `json:"thorough"`
	Inputs   []input `json:"inputs"`
}

type obs struct {
	Label string   `json:"l"`
	Kind  string   `json:"k"`
	V     []string `json:"v"`
}

type outcome struct {
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Known  string `json:"known"`
	Obs    []obs  `json:"obs"`
}

var (
	cur  caseFile
	pos  int
	out  outcome
	outM sync.Mutex
)

type stop struct{}

func next(kind, label string) input {
	if pos >= len(cur.Inputs) || cur.Inputs[pos].Kind != kind {
		finish("badinput", fmt.Sprintf("input %d (%s %s)", pos, kind, label), "")
	}
	pos++
	return cur.Inputs[pos-1]
}

func finish(status, msg, known string) {
	outM.Lock()
	out.Status, out.Msg, out.Known = status, msg, known
	write()
	os.Exit(0)
}

func write() {
	b, _ := json.Marshal(out)
	if err := ioutil.WriteFile(os.Getenv("VERIF_OUT"), b, 0644); err != nil {
		os.Exit(3)
	}
}

// Main runs the harness named by the case file.
func Main(hs map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_CASE"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		panic(err)
	}
	f := hs[cur.Harness]
	if f == nil {
		finish("badinput", "no harness "+cur.Harness, "")
	}
	defer func() {
		if x := recover(); x != nil {
			finish("panic", fmt.Sprint(x), "")
		}
	}()
	f()
	finish("ok", "", "")
}

func u(label string) uint64 {
	v, _ := strconv.ParseUint(next("u", label).V, 10, 64)
	return v
}

// U64 is any 64-bit value.
func U64(label string) uint64 { return u(label) }

// U32 is any 32-bit value.
func U32(label string) uint32 { return uint32(u(label)) }

// U16 is any 16-bit value.
func U16(label string) uint16 { return uint16(u(label)) }

// U8 is any byte.
func U8(label string) uint8 { return uint8(u(label)) }

// Bool is either truth value.
func Bool(label string) bool { return u(label) != 0 }

// Int is any value in [lo, hi].
func Int(label string, lo, hi int) int { return int(u(label)) }

// Bytes is any n bytes.
func Bytes(label string, n int) []byte {
	b, _ := hex.DecodeString(next("bytes", label).Hex)
	if b == nil {
		b = []byte{}
	}
	return b
}

// Item is an item of any 64-bit FNV-1 hash.
func Item(label string) []byte { return Bytes(label, 22) }

// Fnv1 is the 64-bit FNV-1 hash of b.
func Fnv1(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = h*1099511628211 ^ uint64(c)
	}
	return h
}

// Ascii is any n bytes below 128.
func Ascii(label string, n int) []byte { return Bytes(label, n) }

// F64 is any float64 (any real number in harnesses over the reals).
func F64(label string) float64 {
	v, _ := strconv.ParseUint(next("f", label).V, 10, 64)
	return math.Float64frombits(v)
}

// FloatText is the text of f.
func FloatText(f float64) []byte { return strconv.AppendFloat(nil, f, 'g', -1, 64) }

// BigBytes is any n bytes, n large.
func BigBytes(label string, n int) []byte {
	in := next("big", label)
	b := make([]byte, n)
	for k, v := range in.At {
		i, _ := strconv.ParseUint(k, 10, 64)
		if i < uint64(n) {
			b[i] = byte(v)
		}
	}
	return b
}

// Choose forks over 0..n-1.
func Choose(n int) int { return int(u("choose")) }

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

// Tier selects a bound by the depth of the run.
func Tier(quick, thorough int) int {
	if cur.Thorough {
		return thorough
	}
	return quick
}

// Symbolic reports whether the harness is being executed symbolically.
func Symbolic() bool { return false }

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		finish("assume", "", "")
	}
}

// Assert is the property.
func Assert(ok bool, msg string) {
	if !ok {
		finish("assert", msg, "")
	}
}

// Known is an assertion that may fail only as the listed known finding.
func Known(ok bool, id, msg string) {
	if !ok {
		finish("assert", msg, id)
	}
}

func observe(o obs) {
	outM.Lock()
	out.Obs = append(out.Obs, o)
	outM.Unlock()
}

// Observe records a value that symbolic and native execution must agree on.
func Observe(label string, v uint64) {
	observe(obs{label, "u", []string{strconv.FormatUint(v, 10)}})
}

// ObserveF records a float.
func ObserveF(label string, v float64) {
	observe(obs{label, "f", []string{strconv.FormatUint(math.Float64bits(v), 10)}})
}

// ObserveBytes records bytes.
func ObserveBytes(label string, v []byte) {
	o := obs{label, "b", nil}
	for _, b := range v {
		o.V = append(o.V, strconv.Itoa(int(b)))
	}
	observe(o)
}

// Close is exact equality over the reals; compiled code is compared with a
// tolerance far above its rounding error.
func Close(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-6*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-9
}

// SameF is equality with NaN equal to itself.
func SameF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// Start runs f in the background.
func Start(f func()) { go f() }
