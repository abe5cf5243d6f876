// Package v is the interface between a harness and its two executions: the
// symbolic engine intercepts these functions, the native replay binary runs
// the ones below with the values of one concrete input vector.
package v

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

var (
	vec   []uint64
	pos   int
	obs   strings.Builder
	known string
	tier  int
)

type assumeFail struct{}
type assertFail struct{ msg string }

func next() uint64 {
	if pos >= len(vec) {
		return 0
	}
	x := vec[pos]
	pos++
	return x
}

// U8 is an arbitrary byte.
func U8(name string) byte { return byte(next()) }

// U64 is an arbitrary 64-bit word.
func U64(name string) uint64 { return next() }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return byte(next()) == 1 }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	x := next()
	if lo > hi {
		panic(assumeFail{})
	}
	if lo == hi {
		return lo
	}
	if x > uint64(hi-lo) {
		panic(assumeFail{})
	}
	return lo + int(x)
}

// Pick is an arbitrary index below n; the executions fork on it.
func Pick(name string, n int) int { return Int(name, 0, n-1) }

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// Concrete forks on the value of x.
func Concrete(x int) int { return x }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFail{msg})
	}
}

// And and Or combine conditions without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Reach counts arrivals, to show that a harness is not vacuous.
func Reach(tag string) {}

// Obs records values compared between the symbolic and the native execution.
func Obs(tag string, vals ...any) {
	obs.WriteString(tag)
	for _, x := range vals {
		obs.WriteByte(' ')
		obs.WriteString(render(reflect.ValueOf(x)))
	}
	obs.WriteByte('\n')
}

func render(r reflect.Value) string {
	if !r.IsValid() {
		return "nil"
	}
	switch r.Kind() {
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.String:
		return strconv.Quote(r.String())
	case reflect.Slice:
		var p []string
		for i := 0; i < r.Len(); i++ {
			p = append(p, render(r.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Interface:
		if r.IsNil() {
			return "nil"
		}
		return render(r.Elem())
	}
	return "?"
}

// Known marks the path as one on which the listed finding shows.
func Known(id string, c bool) {
	if c {
		known = id
	}
}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return tier }

// MapOrder selects the iteration order of maps in the symbolic execution.
func MapOrder(rev bool) {}

// Log is a debugging aid.
func Log(s string) {}

var scratch string
var files int

// File is the path of a file with that content, gone when the harness ends.
func File(content string) string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif-file-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	p := filepath.Join(scratch, "f"+strconv.Itoa(files))
	files++
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return p
}

func dropFiles() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	scratch, files = "", 0
}

// JStr is the JSON form of a string, JInt that of an integer.
func JStr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
func JInt(n int) string { return strconv.Itoa(n) }

// JEq tells that two JSON texts are the same value.
func JEq(a, b string) bool {
	var x, y any
	p, q := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	p.UseNumber()
	q.UseNumber()
	return p.Decode(&x) == nil && q.Decode(&y) == nil && reflect.DeepEqual(x, y)
}

// Main runs the vectors given on standard input, one JSON object per line.
func Main(hs map[string]func()) {
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = 1
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<16), 1<<26)
	for sc.Scan() {
		var rq struct {
			H   string
			Vec []uint64
		}
		if err := json.Unmarshal(sc.Bytes(), &rq); err != nil {
			fmt.Println(`@@{"out":"error: bad request"}`)
			continue
		}
		out := one(hs[rq.H], rq.Vec)
		b, _ := json.Marshal(map[string]string{"out": out, "obs": obs.String(), "known": known})
		fmt.Println("\n@@" + string(b))
	}
}

func one(f func(), in []uint64) (out string) {
	vec, pos, known = in, 0, ""
	obs.Reset()
	defer dropFiles()
	defer func() {
		switch r := recover().(type) {
		case nil:
		case assumeFail:
			out = "assume"
		case assertFail:
			out = "assert: " + r.msg
		default:
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	if f == nil {
		return "error: no such harness"
	}
	f()
	return "done"
}
