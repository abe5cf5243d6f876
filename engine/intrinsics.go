package main

import (
	"crypto/sha512"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tup(v ...Val) Val { return Val{r: &Tuple{v: v}} }

func (e *Engine) lookupIntrinsic(f *ssa.Function, fn *Fn) intrinsic {
	name := f.String()
	if o := f.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "(sync/atomic.") {
		return atomicMethod(f)
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicFunc(f)
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicFunc(f)
	}
	return nil
}

func nop(w *Worker, fr *Frame, a []Val) Val { return Val{} }

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		vPkg + ".U8": func(w *Worker, fr *Frame, a []Val) Val { return Val{r: w.newVar(8, vname(a[0]))} },
		vPkg + ".U64": func(w *Worker, fr *Frame, a []Val) Val {
			return Val{r: w.newVar(64, vname(a[0]))}
		},
		vPkg + ".Bool": func(w *Worker, fr *Frame, a []Val) Val {
			return tv(w.ts.Eq(w.newVar(8, vname(a[0])), w.ts.Const(8, 1)))
		},
		vPkg + ".Int": func(w *Worker, fr *Frame, a []Val) Val {
			lo, hi := w.cInt64(a[1]), w.cInt64(a[2])
			return w.rangeVar(vname(a[0]), lo, hi)
		},
		vPkg + ".Pick": func(w *Worker, fr *Frame, a []Val) Val {
			n := w.cInt64(a[1])
			if n <= 0 {
				w.end(endAssume, "")
			}
			v := w.rangeVar(vname(a[0]), 0, n-1)
			if t, ok := v.r.(*Term); ok {
				return Val{n: w.concretize(t)}
			}
			return v
		},
		vPkg + ".Str": func(w *Worker, fr *Frame, a []Val) Val {
			n := w.cInt64(a[1])
			b := make([]Val, n)
			nm := vname(a[0])
			for i := range b {
				b[i] = Val{r: w.newVar(8, fmt.Sprintf("%s[%d]", nm, i))}
			}
			return symStr(b)
		},
		vPkg + ".Concrete": func(w *Worker, fr *Frame, a []Val) Val { return Val{n: uint64(w.cInt64(a[0]))} },
		vPkg + ".Assume": func(w *Worker, fr *Frame, a []Val) Val {
			w.assume(a[0])
			return Val{}
		},
		vPkg + ".Assert": func(w *Worker, fr *Frame, a []Val) Val {
			w.eng.stats.asserts.Add(1)
			w.inAssert = true
			ok := w.cond(a[0])
			w.inAssert = false
			if !ok {
				msg, ok := conc(a[1])
				if !ok {
					msg = w.evalStr(a[1])
				}
				w.end(endViolation, "assert: "+msg)
			}
			return Val{}
		},
		vPkg + ".Reach": func(w *Worker, fr *Frame, a []Val) Val {
			s, _ := conc(a[0])
			w.reach = append(w.reach, s)
			return Val{}
		},
		vPkg + ".Obs": func(w *Worker, fr *Frame, a []Val) Val {
			s, _ := conc(a[0])
			w.obs = append(w.obs, obsRec{s, append([]Val(nil), sliceElems(a[1])...)})
			return Val{}
		},
		vPkg + ".Known": func(w *Worker, fr *Frame, a []Val) Val {
			w.cond(a[1])
			return Val{}
		},
		vPkg + ".Tier": func(w *Worker, fr *Frame, a []Val) Val { return intVal(w.eng.tier) },
		vPkg + ".MapOrder": func(w *Worker, fr *Frame, a []Val) Val {
			w.mapRev = w.cond(a[0])
			return Val{}
		},
		vPkg + ".Log": func(w *Worker, fr *Frame, a []Val) Val {
			if w.eng.debug {
				fmt.Println("LOG:", describe(a[0]))
			}
			return Val{}
		},
		vPkg + ".And": func(w *Worker, fr *Frame, a []Val) Val {
			return tv(w.ts.And(w.term(a[0], 0), w.term(a[1], 0)))
		},
		vPkg + ".Or": func(w *Worker, fr *Frame, a []Val) Val {
			return tv(w.ts.Or(w.term(a[0], 0), w.term(a[1], 0)))
		},

		"(*strings.Builder).copyCheck": nop,
		"internal/bytealg.MakeNoZero": func(w *Worker, fr *Frame, a []Val) Val {
			n := w.cInt64(a[0])
			c := int(roundSize(int64(n)))
			return Val{r: &Slice{a: &Arr{e: make([]Val, c)}, len: n, cap: c}}
		},
		"internal/bytealg.IndexByte": func(w *Worker, fr *Frame, a []Val) Val { return w.indexByte(sliceElems(a[0]), a[1]) },
		"internal/bytealg.IndexByteString": func(w *Worker, fr *Frame, a []Val) Val {
			if s, ok := conc(a[0]); ok && a[1].r == nil {
				return intVal(strings.IndexByte(s, byte(a[1].n)))
			}
			return w.indexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.LastIndexByte": func(w *Worker, fr *Frame, a []Val) Val {
			return w.lastIndexByte(sliceElems(a[0]), a[1])
		},
		"internal/bytealg.LastIndexByteString": func(w *Worker, fr *Frame, a []Val) Val {
			return w.lastIndexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Count": func(w *Worker, fr *Frame, a []Val) Val { return w.countByte(sliceElems(a[0]), a[1]) },
		"internal/bytealg.CountString": func(w *Worker, fr *Frame, a []Val) Val {
			return w.countByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Equal": func(w *Worker, fr *Frame, a []Val) Val { return w.seqEq(sliceElems(a[0]), sliceElems(a[1])) },
		"bytes.Equal":            func(w *Worker, fr *Frame, a []Val) Val { return w.seqEq(sliceElems(a[0]), sliceElems(a[1])) },
		"internal/bytealg.Compare": func(w *Worker, fr *Frame, a []Val) Val {
			return w.cmpBytes(sliceElems(a[0]), sliceElems(a[1]))
		},
		"internal/bytealg.CompareString": func(w *Worker, fr *Frame, a []Val) Val {
			return w.cmpBytes(strBytes(a[0]), strBytes(a[1]))
		},
		"strings.Compare": func(w *Worker, fr *Frame, a []Val) Val { return w.cmpBytes(strBytes(a[0]), strBytes(a[1])) },
		"cmp.Compare":     nil,
		"strings.Index":   indexStr,
		"bytes.Index": func(w *Worker, fr *Frame, a []Val) Val {
			return w.indexSeq(sliceElems(a[0]), sliceElems(a[1]))
		},
		"internal/stringslite.Index": indexStr,
		"strings.LastIndex": func(w *Worker, fr *Frame, a []Val) Val {
			s, sub := strBytes(a[0]), strBytes(a[1])
			for i := len(s) - len(sub); i >= 0; i-- {
				if w.condT(w.bytesEq(s[i:i+len(sub)], sub)) {
					return intVal(i)
				}
			}
			return intVal(-1)
		},
		"internal/stringslite.Clone": func(w *Worker, fr *Frame, a []Val) Val { return a[0] },
		"strings.Clone":              func(w *Worker, fr *Frame, a []Val) Val { return a[0] },
		"strings.HasPrefix": func(w *Worker, fr *Frame, a []Val) Val {
			if s, p, ok := conc2(a[0], a[1]); ok {
				return boolVal(strings.HasPrefix(s, p))
			}
			s, p := strBytes(a[0]), strBytes(a[1])
			if len(s) < len(p) {
				return Val{}
			}
			return tv(w.bytesEq(s[:len(p)], p))
		},
		"strings.HasSuffix": func(w *Worker, fr *Frame, a []Val) Val {
			if s, p, ok := conc2(a[0], a[1]); ok {
				return boolVal(strings.HasSuffix(s, p))
			}
			s, p := strBytes(a[0]), strBytes(a[1])
			if len(s) < len(p) {
				return Val{}
			}
			return tv(w.bytesEq(s[len(s)-len(p):], p))
		},
		"internal/abi.NoEscape": func(w *Worker, fr *Frame, a []Val) Val { return a[0] },
		"internal/abi.Escape":   func(w *Worker, fr *Frame, a []Val) Val { return a[0] },

		"github.com/pkg/errors.callers": nop,
		"runtime.Callers":               nop,
		"errors.Is":                     errorsIs,
		"runtime.KeepAlive":             nop,
		"runtime.GC":                    nop,

		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.Mutex).TryLock":   func(w *Worker, fr *Frame, a []Val) Val { return Val{n: 1} },
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Pool).Put":        nop,
		"(*sync.Pool).Get": func(w *Worker, fr *Frame, a []Val) Val {
			p := a[0].r.(*Val).r.(*Struct)
			f := p.f[len(p.f)-1]
			if f.r == nil {
				return Val{}
			}
			return w.callVal(f, fr)
		},

		"fmt.Sprintf": func(w *Worker, fr *Frame, a []Val) Val { return w.sprintf(fr, a[0], sliceElems(a[1])) },
		"fmt.Sprint":  func(w *Worker, fr *Frame, a []Val) Val { return w.sprint(fr, sliceElems(a[0]), false) },
		"fmt.Sprintln": func(w *Worker, fr *Frame, a []Val) Val {
			return w.sprint(fr, sliceElems(a[0]), true)
		},
		"fmt.Printf": func(w *Worker, fr *Frame, a []Val) Val {
			return w.print(fr, func() Val { return w.sprintf(fr, a[0], sliceElems(a[1])) })
		},
		"fmt.Println": func(w *Worker, fr *Frame, a []Val) Val {
			return w.print(fr, func() Val { return w.sprint(fr, sliceElems(a[0]), true) })
		},
		"fmt.Print": func(w *Worker, fr *Frame, a []Val) Val {
			return w.print(fr, func() Val { return w.sprint(fr, sliceElems(a[0]), false) })
		},
		"fmt.Errorf": fmtErrorf,
		"fmt.Fprintf": func(w *Worker, fr *Frame, a []Val) Val {
			return w.fprint(fr, a[0], w.sprintf(fr, a[1], sliceElems(a[2])))
		},
		"fmt.Fprint": func(w *Worker, fr *Frame, a []Val) Val {
			return w.fprint(fr, a[0], w.sprint(fr, sliceElems(a[1]), false))
		},
		"fmt.Fprintln": func(w *Worker, fr *Frame, a []Val) Val {
			return w.fprint(fr, a[0], w.sprint(fr, sliceElems(a[1]), true))
		},

		"strconv.FormatUint": func(w *Worker, fr *Frame, a []Val) Val { return w.formatInt(a[0], false, w.cInt64(a[1])) },
		"strconv.FormatInt":  func(w *Worker, fr *Frame, a []Val) Val { return w.formatInt(a[0], true, w.cInt64(a[1])) },
		"strconv.Itoa":       func(w *Worker, fr *Frame, a []Val) Val { return w.formatInt(a[0], true, 10) },
		"strconv.AppendInt": func(w *Worker, fr *Frame, a []Val) Val {
			return w.appendVals(a[0], strBytes(w.formatInt(a[1], true, w.cInt64(a[2]))), w.eng.tt.get(fr.fn.f.Params[0].Type()))
		},
		"strconv.AppendUint": func(w *Worker, fr *Frame, a []Val) Val {
			return w.appendVals(a[0], strBytes(w.formatInt(a[1], false, w.cInt64(a[2]))), w.eng.tt.get(fr.fn.f.Params[0].Type()))
		},
		"strconv.ParseFloat": func(w *Worker, fr *Frame, a []Val) Val {
			s, ok := conc(a[0])
			if !ok {
				panic(unsupported("ParseFloat symbolic"))
			}
			f, err := strconv.ParseFloat(s, w.cInt64(a[1]))
			return tup(f64Val(f), w.errVal(err))
		},

		"math.Float64bits":     func(w *Worker, fr *Frame, a []Val) Val { return a[0] },
		"math.Float64frombits": func(w *Worker, fr *Frame, a []Val) Val { return a[0] },
		"math.Float32bits": func(w *Worker, fr *Frame, a []Val) Val {
			return Val{n: uint64(math.Float32bits(float32(f64(a[0]))))}
		},
		"math.Float32frombits": func(w *Worker, fr *Frame, a []Val) Val {
			return f64Val(float64(math.Float32frombits(uint32(a[0].n))))
		},
		"math.Inf": func(w *Worker, fr *Frame, a []Val) Val { return f64Val(math.Inf(int(int64(a[0].n)))) },
		"math/bits.TrailingZeros64": func(w *Worker, fr *Frame, a []Val) Val {
			return intVal(bits.TrailingZeros64(uint64(w.cInt(a[0], nil))))
		},
		"math/bits.Len64": func(w *Worker, fr *Frame, a []Val) Val { return intVal(bits.Len64(w.cInt(a[0], nil))) },
		"math/bits.Len":   func(w *Worker, fr *Frame, a []Val) Val { return intVal(bits.Len64(w.cInt(a[0], nil))) },
		"math/bits.Mul64": func(w *Worker, fr *Frame, a []Val) Val {
			h, l := bits.Mul64(w.cInt(a[0], nil), w.cInt(a[1], nil))
			return tup(Val{n: h}, Val{n: l})
		},

		"crypto/sha512.Sum512_256": func(w *Worker, fr *Frame, a []Val) Val {
			b, ok := concBytes(a[0])
			if !ok {
				panic(unsupported("sha512_256 of symbolic bytes"))
			}
			h := sha512.Sum512_256(b)
			e := make([]Val, len(h))
			for i := range h {
				e[i].n = uint64(h[i])
			}
			return Val{r: &Arr{e: e}}
		},

		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		"(net/http.Header).Write": httpHeaderWrite,

		"encoding/json.Unmarshal":         jsonUnmarshal,
		"encoding/json.Marshal":           jsonMarshal,
		"encoding/json.MarshalIndent":     jsonMarshal,
		"(*encoding/json.Decoder).Decode": jsonDecoderDecode,
		"encoding/json.NewDecoder": func(w *Worker, fr *Frame, a []Val) Val {
			p := new(Val)
			*p = Val{r: &Struct{f: []Val{a[0]}}}
			return Val{r: p}
		},
		vPkg + ".File": func(w *Worker, fr *Frame, a []Val) Val {
			w.files = append(w.files, a[0])
			return strVal("/zzverif/f" + strconv.Itoa(len(w.files)-1))
		},
		vPkg + ".Symbolic": func(w *Worker, fr *Frame, a []Val) Val { return boolVal(true) },
		vPkg + ".Run": func(w *Worker, fr *Frame, a []Val) Val {
			w.args = nil
			for _, x := range sliceElems(a[0]) {
				s, ok := conc(x)
				if !ok {
					panic(unsupported("symbolic program argument"))
				}
				w.args = append(w.args, s)
			}
			w.out, w.outOn = Val{}, true
			w.callVal(a[1], fr)
			w.outOn = false
			return w.out
		},
		"flag.Parse": nop,
		"flag.StringVar": func(w *Worker, fr *Frame, a []Val) Val {
			w.store(a[0].r.(*Val), w.flagVal(a[1], a[2]))
			return Val{}
		},
		"flag.String": func(w *Worker, fr *Frame, a []Val) Val {
			p := new(Val)
			*p = w.flagVal(a[0], a[1])
			return Val{r: p}
		},
		"os.Stat":                modelled("Stat"),
		"os.Lstat":               modelled("Stat"),
		"path/filepath.WalkDir":  modelled("WalkDir"),
		"(*os.File).Write":       fileWrite,
		"(*os.File).WriteString": fileWrite,
		"os.ReadFile": func(w *Worker, fr *Frame, a []Val) Val {
			n, ok := conc(a[0])
			if !ok {
				panic(unsupported("symbolic file name"))
			}
			if strings.HasPrefix(n, "/zzverif/d/") {
				return w.callModel("ReadFile", fr, a)
			}
			if i, err := strconv.Atoi(strings.TrimPrefix(n, "/zzverif/f")); err == nil && strings.HasPrefix(n, "/zzverif/f") && i >= 0 && i < len(w.files) {
				return tup(mkSlice(append([]Val(nil), strBytes(w.files[i])...)), Val{})
			}
			return tup(Val{}, w.newError(strVal("open "+n+": no such file or directory")))
		},
		vPkg + ".JStr": jStr,
		vPkg + ".JInt": jInt,
		vPkg + ".JEq":  jEq,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
}

// model calls the model of a library function that is written in the harness library.
func (w *Worker) callModel(name string, fr *Frame, a []Val) Val {
	return w.call(w.eng.fn(w.eng.prog.ImportedPackage(vPkg).Func(name)), append([]Val(nil), a...), nil, fr)
}

func modelled(name string) intrinsic {
	return func(w *Worker, fr *Frame, a []Val) Val { return w.callModel(name, fr, a) }
}

// print appends to the output of the program being run, if any.
func (w *Worker) print(fr *Frame, s func() Val) Val {
	if w.outOn {
		w.out = catStr(w.out, s())
	}
	return tup(Val{}, Val{})
}

func fileWrite(w *Worker, fr *Frame, a []Val) Val {
	if !w.outOn {
		return tup(Val{}, Val{})
	}
	b := a[1]
	if _, ok := b.r.(*Str); !ok && b.r != nil {
		b = symStr(append([]Val(nil), sliceElems(b)...))
	}
	w.out = catStr(w.out, b)
	return tup(intVal(strLen(b)), Val{})
}

func (w *Worker) flagVal(name, def Val) Val {
	n, _ := conc(name)
	for i, x := range w.args {
		if x == "-"+n && i+1 < len(w.args) {
			return strVal(w.args[i+1])
		}
	}
	return def
}

// conc2 is two concrete strings.
func conc2(a, b Val) (string, string, bool) {
	s, ok := conc(a)
	p, ok2 := conc(b)
	return s, p, ok && ok2
}

func indexStr(w *Worker, fr *Frame, a []Val) Val {
	if s, p, ok := conc2(a[0], a[1]); ok {
		return intVal(strings.Index(s, p))
	}
	return w.indexSeq(strBytes(a[0]), strBytes(a[1]))
}

func vname(v Val) string {
	s, _ := conc(v)
	return s
}

// rangeVar is a fresh integer in [lo,hi] (64-bit value backed by the smallest variable).
func (w *Worker) rangeVar(name string, lo, hi int) Val {
	if lo >= hi {
		if lo > hi {
			w.end(endAssume, "")
		}
		// keep the replay vector aligned: still consume one variable
		t := w.newVar(8, name)
		w.assume(tv(w.ts.Eq(t, w.ts.Const(8, 0))))
		return intVal(lo)
	}
	span := uint64(hi - lo)
	var wd uint8 = 64
	if span < 256 {
		wd = 8
	} else if span < 65536 {
		wd = 16
	} else if span < 1<<32 {
		wd = 32
	}
	t := w.newVar(wd, name)
	if span != maskW(wd) {
		w.assume(tv(w.ts.Ule(t, w.ts.Const(wd, span))))
	}
	r := w.ts.ZExt(t, 64)
	if lo != 0 {
		r = w.ts.Bin(OAdd, r, w.ts.Const(64, uint64(int64(lo))))
	}
	return tv(r)
}

func (w *Worker) condT(t *Term) bool { return w.decide(t) }

func (w *Worker) indexByte(s []Val, c Val) Val {
	for i := range s {
		if s[i].r == nil && c.r == nil {
			if s[i].n == c.n {
				return intVal(i)
			}
			continue
		}
		if w.decide(w.ts.Eq(w.term(s[i], 8), w.term(c, 8))) {
			return intVal(i)
		}
	}
	return intVal(-1)
}
func (w *Worker) lastIndexByte(s []Val, c Val) Val {
	for i := len(s) - 1; i >= 0; i-- {
		if w.decide(w.ts.Eq(w.term(s[i], 8), w.term(c, 8))) {
			return intVal(i)
		}
	}
	return intVal(-1)
}
func (w *Worker) countByte(s []Val, c Val) Val {
	n := 0
	for i := range s {
		if w.decide(w.ts.Eq(w.term(s[i], 8), w.term(c, 8))) {
			n++
		}
	}
	return intVal(n)
}
func (w *Worker) seqEq(a, b []Val) Val {
	if len(a) != len(b) {
		return Val{}
	}
	return tv(w.bytesEq(a, b))
}
func (w *Worker) cmpBytes(a, b []Val) Val {
	x, y := symStr(append([]Val(nil), a...)), symStr(append([]Val(nil), b...))
	if w.cond(w.strLess(x, y)) {
		return intVal(-1)
	}
	if w.cond(w.strLess(y, x)) {
		return intVal(1)
	}
	return intVal(0)
}
func (w *Worker) indexSeq(s, sub []Val) Val {
	for i := 0; i+len(sub) <= len(s); i++ {
		if w.condT(w.bytesEq(s[i:i+len(sub)], sub)) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

// formatInt renders an integer; symbolic values fork on the number of digits
// and introduce digits tied to the value by a linear constraint.
func (w *Worker) formatInt(v Val, signed bool, base int) Val {
	t, ok := v.r.(*Term)
	if !ok {
		if signed {
			return strVal(strconv.FormatInt(int64(v.n), base))
		}
		return strVal(strconv.FormatUint(v.n, base))
	}
	return w.formatTerm(w.ts.ZExt(t, 64), signed, base)
}

func (w *Worker) formatTerm(t *Term, signed bool, base int) Val {
	if t.op == OConst {
		if signed {
			return strVal(strconv.FormatInt(int64(t.k), base))
		}
		return strVal(strconv.FormatUint(t.k, base))
	}
	if base != 10 {
		v := w.concretize(t)
		if signed {
			return strVal(strconv.FormatInt(int64(v), base))
		}
		return strVal(strconv.FormatUint(v, base))
	}
	var sign Val
	if signed && !smallPos(t) {
		if w.decide(w.ts.Slt(t, w.ts.Const(64, 0))) {
			sign = strVal("-")
			t = w.ts.Neg(t)
		}
	}
	if ds, ok := w.peelDigits(t); ok {
		return catStr(sign, symStr(ds))
	}
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if w.decide(w.ts.Ult(t, w.ts.Const(64, p))) {
			break
		}
		nd++
		p *= 10
		if nd == 20 {
			break
		}
	}
	if nd == 1 {
		d := w.ts.Bin(OAdd, w.ts.Trunc(t, 8), w.ts.Const(8, '0'))
		return catStr(sign, symStr([]Val{tv(d)}))
	}
	// digits as terms over the (narrow) value
	ds := make([]Val, nd)
	x := t
	// work in the narrowest width that holds the value
	var wd uint8 = 64
	um := umax(t)
	switch {
	case nd <= 4 && (um < 1<<16 || p <= 1<<16):
		wd = 16
	case nd <= 9:
		wd = 32
	}
	x = w.ts.Trunc(t, wd)
	for i := nd - 1; i >= 0; i-- {
		var d *Term
		if i == 0 {
			d = x
		} else {
			d = w.ts.Bin(OURem, x, w.ts.Const(wd, 10))
			x = w.ts.Bin(OUDiv, x, w.ts.Const(wd, 10))
		}
		ds[i] = tv(w.ts.Bin(OAdd, w.ts.Trunc(d, 8), w.ts.Const(8, '0')))
	}
	return catStr(sign, symStr(ds))
}

// peelDigits renders a value put together out of decimal digits.
func (w *Worker) peelDigits(t *Term) ([]Val, bool) {
	var rev []*Term
	for {
		if t.op == OConst {
			for k := t.k; k != 0; k /= 10 {
				rev = append(rev, w.ts.Const(64, k%10))
			}
			break
		}
		if _, h := w.rng(t); h < 10 {
			rev = append(rev, t)
			break
		}
		r, d, ok := w.peel(t)
		if !ok {
			return nil, false
		}
		rev = append(rev, d)
		t = r
	}
	if len(rev) < 2 {
		return nil, false
	}
	n := len(rev)
	for n > 1 && w.decide(w.ts.Eq(rev[n-1], w.ts.Const(64, 0))) {
		n--
	}
	ds := make([]Val, n)
	for i := range ds {
		ds[i] = tv(w.ts.Bin(OAdd, w.ts.Trunc(rev[n-1-i], 8), w.ts.Const(8, '0')))
	}
	return ds, true
}

func (w *Worker) errVal(err error) Val {
	if err == nil {
		return Val{}
	}
	return w.newError(strVal(err.Error()))
}

func (w *Worker) newError(msg Val) Val {
	p := new(Val)
	*p = Val{r: &Struct{f: []Val{msg}}}
	return Val{r: &Iface{t: w.eng.errStrT, v: Val{r: p}}}
}

func errorsIs(w *Worker, fr *Frame, a []Val) Val {
	err, target := a[0], a[1]
	for depth := 0; depth < 50; depth++ {
		if err.r == nil || target.r == nil {
			return boolVal(err.r == nil && target.r == nil)
		}
		ie, it := err.r.(*Iface), target.r.(*Iface)
		if ie.t == it.t && comparable_(ie.t) && w.cond(w.eq(ie.t, ie.v, it.v)) {
			return boolVal(true)
		}
		if m := w.eng.methodByName(ie.t, "Is"); m != nil {
			if w.cond(w.call(m, []Val{ie.v, target}, nil, fr)) {
				return boolVal(true)
			}
		}
		m := w.eng.methodByName(ie.t, "Unwrap")
		if m == nil {
			return Val{}
		}
		err = w.call(m, []Val{ie.v}, nil, fr)
		if _, ok := err.r.(*Iface); err.r != nil && !ok {
			panic(unsupported("multi-error unwrap"))
		}
		if err.r == nil {
			return Val{}
		}
	}
	return Val{}
}

func comparable_(ti *TInfo) bool { return types.Comparable(ti.t) }

func sortSlice(w *Worker, fr *Frame, a []Val) Val {
	sl := a[0].r.(*Iface).v
	e := sliceElems(sl)
	less := a[1]
	// insertion sort: what the library does for short slices
	if len(e) > 12 {
		// stable order is one of the allowed outcomes
		_ = sort.IsSorted
	}
	for i := 1; i < len(e); i++ {
		for j := i; j > 0 && w.cond(w.callVal(less, fr, intVal(j), intVal(j-1))); j-- {
			x, y := copyVal(e[j]), copyVal(e[j-1])
			w.store(&e[j], y)
			w.store(&e[j-1], x)
		}
	}
	return Val{}
}

func httpHeaderWrite(w *Worker, fr *Frame, a []Val) Val {
	m, _ := a[0].r.(*Map)
	var keys []string
	vals := map[string]Val{}
	if m != nil {
		for _, e := range m.ent {
			if e.del {
				continue
			}
			k, ok := conc(e.k)
			if !ok {
				panic(unsupported("symbolic header"))
			}
			keys = append(keys, k)
			vals[k] = e.v
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, v := range sliceElems(vals[k]) {
			s := catStr(catStr(strVal(k+": "), v), strVal("\r\n"))
			w.fprint(fr, a[1], s)
		}
	}
	return Val{}
}

// fprint writes a string to an io.Writer value.
func (w *Worker) fprint(fr *Frame, wr Val, s Val) Val {
	if wr.r == nil {
		w.nilPanic()
	}
	i := wr.r.(*Iface)
	if strings.HasSuffix(i.t.String(), "os.File") {
		return w.print(fr, func() Val { return s })
	}
	m := w.eng.methodByName(i.t, "Write")
	if m == nil {
		panic(unsupported("writer without Write: " + i.t.String()))
	}
	b := append([]Val(nil), strBytes(s)...)
	return w.call(m, []Val{i.v, mkSlice(b)}, nil, fr)
}

// ---- atomics ----

func atomicLeaf(v Val) *Val {
	p, ok := v.r.(*Val)
	if !ok {
		return nil
	}
	for {
		s, ok := p.r.(*Struct)
		if !ok {
			return p
		}
		p = &s.f[len(s.f)-1]
	}
}

func atomicMethod(f *ssa.Function) intrinsic {
	return atomicOp(f.Name(), true, f)
}
func atomicFunc(f *ssa.Function) intrinsic {
	n := f.Name()
	for _, p := range []string{"Load", "Store", "Add", "CompareAndSwap", "Swap", "Cas", "And", "Or"} {
		if strings.HasPrefix(n, p) {
			return atomicOp(p, false, f)
		}
	}
	return nil
}

func atomicOp(op string, method bool, f *ssa.Function) intrinsic {
	isBool := strings.Contains(f.String(), "atomic.Bool")
	switch op {
	case "Load":
		return func(w *Worker, fr *Frame, a []Val) Val {
			p := atomicLeaf(a[0])
			if p == nil {
				w.nilPanic()
			}
			v := *p
			if isBool && v.n != 0 {
				v.n = 1
			}
			return v
		}
	case "Store":
		return func(w *Worker, fr *Frame, a []Val) Val { w.store(atomicLeaf(a[0]), a[1]); return Val{} }
	case "Swap":
		return func(w *Worker, fr *Frame, a []Val) Val {
			p := atomicLeaf(a[0])
			o := *p
			w.store(p, a[1])
			return o
		}
	case "Add":
		return func(w *Worker, fr *Frame, a []Val) Val {
			p := atomicLeaf(a[0])
			v := Val{n: p.n + a[1].n}
			w.store(p, v)
			return v
		}
	case "CompareAndSwap", "Cas":
		return func(w *Worker, fr *Frame, a []Val) Val {
			p := atomicLeaf(a[0])
			if p.n == a[1].n && p.r == a[1].r {
				w.store(p, a[2])
				return Val{n: 1}
			}
			return Val{}
		}
	}
	return nil
}
