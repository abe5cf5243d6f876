package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is a runtime value. Scalars: n when concrete, r=*Term when symbolic.
// string: r=*Str (nil = ""), pointer: r=*Val or *SymAddr, struct: r=*Struct,
// array: r=*Arr, slice: r=*Slice, map: r=*Map, interface: r=*Iface, func: r=*Closure.
type Val struct {
	n uint64
	r any
}

type Str struct {
	s string
	b []Val // non-nil: symbolic
}
type Struct struct{ f []Val }
type Arr struct{ e []Val }
type Slice struct {
	a             *Arr
	off, len, cap int
}
type Iface struct {
	t *TInfo
	v Val
}
type Closure struct {
	fn  *Fn
	env []Val
	blt *ssa.Builtin
}
type Tuple struct{ v []Val }
type SymAddr struct {
	e   []Val
	idx *Term // 64-bit
	ti  *TInfo
}
type mapEntry struct {
	k, v Val
	del  bool
}
type Map struct {
	kt, vt *TInfo
	idx    map[any]int
	ent    []mapEntry
	live   int
	nsym   int // entries with symbolic keys
	shared bool
	snap   *Map // undo snapshot taken
}
type mapIter struct {
	m   *Map
	pos int
}
type strIter struct {
	s   Val
	pos int
}
type Chan struct {
	buf    []Val
	cap    int
	closed bool
}

type kind uint8

const (
	kBool kind = iota
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kTuple
	kChan
	kUnsafe
	kOther
)

type TInfo struct {
	t      types.Type
	id     int
	k      kind
	w      uint8
	signed bool
	elem   *TInfo
	key    *TInfo
	fields []*TInfo
	n      int
	under  types.Type
	implMu sync.Mutex
	impl   map[*TInfo]bool
	meth   sync.Map // name -> *Fn
	size   int64
}

func (ti *TInfo) String() string { return ti.t.String() }

type typeTable struct {
	fast sync.Map // types.Type -> *TInfo
	mu   sync.Mutex
	m    typeutil.Map
	n    int
	sz   types.Sizes
	pend []pendType
}

func (tt *typeTable) get(t types.Type) *TInfo {
	if x, ok := tt.fast.Load(t); ok {
		return x.(*TInfo)
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	ti := tt.getLocked(t)
	// published only now, when every type reachable from t is filled in
	for _, p := range tt.pend {
		tt.fast.Store(p.t, p.ti)
	}
	tt.pend = tt.pend[:0]
	return ti
}

type pendType struct {
	t  types.Type
	ti *TInfo
}

func (tt *typeTable) getLocked(t types.Type) *TInfo {
	if x, ok := tt.fast.Load(t); ok {
		return x.(*TInfo)
	}
	if x := tt.m.At(t); x != nil {
		ti := x.(*TInfo)
		tt.pend = append(tt.pend, pendType{t, ti})
		return ti
	}
	tt.n++
	ti := &TInfo{t: t, id: tt.n, under: t.Underlying()}
	tt.m.Set(t, ti)
	tt.pend = append(tt.pend, pendType{t, ti})
	switch u := ti.under.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.k = kBool
		case u.Info()&types.IsInteger != 0:
			ti.k = kInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			ti.k = kFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			ti.k = kComplex
		case u.Info()&types.IsString != 0:
			ti.k = kString
		case u.Kind() == types.UnsafePointer:
			ti.k = kUnsafe
		default:
			ti.k = kOther
		}
	case *types.Pointer:
		ti.k = kPtr
		ti.elem = tt.getLocked(u.Elem())
	case *types.Struct:
		ti.k = kStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tt.getLocked(u.Field(i).Type()))
		}
	case *types.Array:
		ti.k = kArray
		ti.elem = tt.getLocked(u.Elem())
		ti.n = int(u.Len())
	case *types.Slice:
		ti.k = kSlice
		ti.elem = tt.getLocked(u.Elem())
	case *types.Map:
		ti.k = kMap
		ti.key = tt.getLocked(u.Key())
		ti.elem = tt.getLocked(u.Elem())
	case *types.Interface:
		ti.k = kIface
	case *types.Signature:
		ti.k = kFunc
	case *types.Tuple:
		ti.k = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.getLocked(u.At(i).Type()))
		}
	case *types.Chan:
		ti.k = kChan
		ti.elem = tt.getLocked(u.Elem())
	default:
		ti.k = kOther
	}
	return ti
}

func (tt *typeTable) sizeof(ti *TInfo) int64 {
	if ti.size == 0 {
		ti.size = tt.sz.Sizeof(ti.t) + 1
	}
	return ti.size - 1
}

func zero(ti *TInfo) Val {
	switch ti.k {
	case kStruct:
		s := &Struct{f: make([]Val, len(ti.fields))}
		for i, f := range ti.fields {
			switch f.k {
			case kStruct, kArray:
				s.f[i] = zero(f)
			}
		}
		return Val{r: s}
	case kArray:
		a := &Arr{e: make([]Val, ti.n)}
		if ti.elem.k == kStruct || ti.elem.k == kArray {
			for i := range a.e {
				a.e[i] = zero(ti.elem)
			}
		}
		return Val{r: a}
	case kTuple:
		t := &Tuple{v: make([]Val, len(ti.fields))}
		for i, f := range ti.fields {
			t.v[i] = zero(f)
		}
		return Val{r: t}
	}
	return Val{}
}

func copyVal(v Val) Val {
	switch r := v.r.(type) {
	case *Struct:
		n := &Struct{f: make([]Val, len(r.f))}
		for i := range r.f {
			n.f[i] = copyVal(r.f[i])
		}
		return Val{r: n}
	case *Arr:
		n := &Arr{e: make([]Val, len(r.e))}
		for i := range r.e {
			n.e[i] = copyVal(r.e[i])
		}
		return Val{r: n}
	}
	return v
}

func boolVal(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}
func intVal(i int) Val { return Val{n: uint64(int64(i))} }

func strVal(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{r: &Str{s: s}}
}

// symStr builds a string from byte values (shares b, which must not be mutated).
func symStr(b []Val) Val {
	for i := range b {
		if b[i].r != nil {
			return Val{r: &Str{b: b}}
		}
	}
	if len(b) == 0 {
		return Val{}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return Val{r: &Str{s: string(bs)}}
}

func strLen(v Val) int {
	if v.r == nil {
		return 0
	}
	s := v.r.(*Str)
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func strAt(v Val, i int) Val {
	s := v.r.(*Str)
	if s.b != nil {
		return s.b[i]
	}
	return Val{n: uint64(s.s[i])}
}
func strBytes(v Val) []Val {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Str)
	if s.b != nil {
		return s.b
	}
	r := make([]Val, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i].n = uint64(s.s[i])
	}
	return r
}

// conc returns the concrete string if it has no symbolic byte.
func conc(v Val) (string, bool) {
	if v.r == nil {
		return "", true
	}
	s := v.r.(*Str)
	if s.b != nil {
		return "", false
	}
	return s.s, true
}
func subStr(v Val, lo, hi int) Val {
	if lo == hi {
		return Val{}
	}
	s := v.r.(*Str)
	if s.b == nil {
		return strVal(s.s[lo:hi])
	}
	return symStr(s.b[lo:hi])
}
func catStr(x, y Val) Val {
	if x.r == nil {
		return y
	}
	if y.r == nil {
		return x
	}
	a, b := x.r.(*Str), y.r.(*Str)
	if a.b == nil && b.b == nil {
		return strVal(a.s + b.s)
	}
	xb, yb := strBytes(x), strBytes(y)
	r := make([]Val, 0, len(xb)+len(yb))
	r = append(r, xb...)
	r = append(r, yb...)
	return Val{r: &Str{b: r}}
}

func sliceLen(v Val) int {
	if v.r == nil {
		return 0
	}
	return v.r.(*Slice).len
}
func sliceElems(v Val) []Val {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Slice)
	return s.a.e[s.off : s.off+s.len]
}
func mkSlice(e []Val) Val {
	return Val{r: &Slice{a: &Arr{e: e}, len: len(e), cap: len(e)}}
}
func concBytes(v Val) ([]byte, bool) {
	e := sliceElems(v)
	r := make([]byte, len(e))
	for i := range e {
		if e[i].r != nil {
			return nil, false
		}
		r[i] = byte(e[i].n)
	}
	return r, true
}
func bytesVal(b []byte) Val {
	e := make([]Val, len(b))
	for i := range b {
		e[i].n = uint64(b[i])
	}
	return mkSlice(e)
}

func f64(v Val) float64    { return math.Float64frombits(v.n) }
func f64Val(f float64) Val { return Val{n: math.Float64bits(f)} }

// mapKey gives a comparable Go key for a concrete value; ok=false when symbolic.
func mapKey(ti *TInfo, v Val) (any, bool) {
	switch ti.k {
	case kBool, kInt, kFloat:
		if v.r != nil {
			return nil, false
		}
		return v.n, true
	case kString:
		s, ok := conc(v)
		return s, ok
	case kPtr, kChan, kUnsafe:
		return v.r, true
	case kIface:
		if v.r == nil {
			return nil, true
		}
		i := v.r.(*Iface)
		k, ok := mapKey(i.t, i.v)
		if !ok {
			return nil, false
		}
		return [2]any{i.t, k}, true
	case kStruct:
		s := v.r.(*Struct)
		var sb strings.Builder
		for i, f := range ti.fields {
			k, ok := mapKey(f, s.f[i])
			if !ok {
				return nil, false
			}
			if ks, ok := k.(string); ok {
				fmt.Fprintf(&sb, "%d:%s|", len(ks), ks)
			} else {
				fmt.Fprintf(&sb, "%T%v|", k, k)
			}
		}
		return sb.String(), true
	case kArray:
		a := v.r.(*Arr)
		var sb strings.Builder
		for i := range a.e {
			k, ok := mapKey(ti.elem, a.e[i])
			if !ok {
				return nil, false
			}
			if ks, ok := k.(string); ok {
				fmt.Fprintf(&sb, "%d:%s|", len(ks), ks)
			} else {
				fmt.Fprintf(&sb, "%T%v|", k, k)
			}
		}
		return sb.String(), true
	}
	panic(unsupported("map key kind " + ti.String()))
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

// describe renders a value for diagnostics (concrete parts only).
func describe(v Val) string {
	switch r := v.r.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case *Str:
		if r.b == nil {
			return fmt.Sprintf("%q", r.s)
		}
		return fmt.Sprintf("<sym string len %d>", len(r.b))
	case *Term:
		return "<" + r.String() + ">"
	case *Iface:
		return r.t.String() + "(" + describe(r.v) + ")"
	case *Struct:
		var p []string
		for _, f := range r.f {
			p = append(p, describe(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *Val:
		return "&" + describe(*r)
	default:
		return fmt.Sprintf("%T", r)
	}
}
