package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type ins func(fr *Frame)

type phiIns struct {
	dst int
	src []int // by predecessor
}

type Block struct {
	phis  []phiIns
	ins   []ins
	term  func(fr *Frame) int
	preds map[int]int // predecessor block -> edge index
	cost  int64
}

type Fn struct {
	f        *ssa.Function
	name     string
	once     sync.Once
	nregs    int
	nparams  int
	blocks   []Block
	consts   []Val
	hasDefer bool
	recover  int
	intr     intrinsic
	err      string
	pkg      string
	resTI    *TInfo
	nres     int
	size     int
}

type intrinsic func(w *Worker, fr *Frame, a []Val) Val

type deferred struct {
	call func(w *Worker, fr *Frame) // executes with captured args
}

type Frame struct {
	w       *Worker
	fn      *Fn
	regs    []Val
	ret     Val
	caller  *Frame
	defers  []deferred
	panic   *targetPanic
	isDefer bool
	running bool // running defers
	blk     int
	prev    int
}

const globalBase = 1 << 28

func (fr *Frame) get(o int) Val {
	if uint(o) < uint(len(fr.regs)) {
		return fr.regs[o]
	}
	if o >= globalBase {
		return Val{r: fr.w.globals[o-globalBase]}
	}
	return fr.fn.consts[-1-o]
}

type compiler struct {
	e     *Engine
	fn    *Fn
	f     *ssa.Function
	reg   map[ssa.Value]int
	fresh map[ssa.Value]bool
}

func (e *Engine) fn(f *ssa.Function) *Fn {
	if x, ok := e.fns.Load(f); ok {
		return x.(*Fn)
	}
	fn := &Fn{f: f, name: f.String()}
	if f.Pkg != nil {
		fn.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fn.pkg = o.Pkg.Pkg.Path()
	}
	x, _ := e.fns.LoadOrStore(f, fn)
	return x.(*Fn)
}

func (fn *Fn) prepare(e *Engine) {
	fn.once.Do(func() {
		f := fn.f
		fn.nparams = len(f.Params)
		sig := f.Signature
		fn.nres = sig.Results().Len()
		if fn.nres == 1 {
			fn.resTI = e.tt.get(sig.Results().At(0).Type())
		} else if fn.nres > 1 {
			fn.resTI = e.tt.get(sig.Results())
		}
		if in := e.lookupIntrinsic(f, fn); in != nil {
			fn.intr = in
			fn.nregs = fn.nparams
			return
		}
		if f.Blocks == nil {
			fn.err = "no body: " + fn.name
			fn.nregs = fn.nparams
			return
		}
		c := &compiler{e: e, fn: fn, f: f, reg: map[ssa.Value]int{}}
		c.compile()
	})
}

func (c *compiler) compile() {
	f := c.f
	n := 0
	for _, p := range f.Params {
		c.reg[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.fn.hasDefer = true
			}
		}
	}
	c.fn.nregs = n
	c.fn.recover = -1
	if f.Recover != nil {
		c.fn.recover = f.Recover.Index
	}
	c.fn.blocks = make([]Block, len(f.Blocks))
	for i, b := range f.Blocks {
		blk := &c.fn.blocks[i]
		blk.preds = map[int]int{}
		for j, p := range b.Preds {
			blk.preds[p.Index] = j
		}
		for _, in := range b.Instrs {
			c.fn.size++
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phiIns{dst: c.reg[in]}
				for _, e := range in.Edges {
					ph.src = append(ph.src, c.opd(e))
				}
				blk.phis = append(blk.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
				blk.term = c.terminator(b, in)
			default:
				x := c.instr(in)
				if x != nil {
					blk.ins = append(blk.ins, x)
				}
			}
		}
		blk.cost = int64(len(b.Instrs))
	}
}

func (c *compiler) opd(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Const:
		return c.konst(c.constVal(v))
	case *ssa.Global:
		return globalBase + c.e.globalIdx[v]
	case *ssa.Function:
		return c.konst(Val{r: &Closure{fn: c.e.fn(v)}})
	case *ssa.Builtin:
		return c.konst(Val{r: &Closure{blt: v}})
	}
	r, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, c.f))
	}
	return r
}

func (c *compiler) konst(v Val) int {
	c.fn.consts = append(c.fn.consts, v)
	return -len(c.fn.consts)
}

func (c *compiler) constVal(k *ssa.Const) Val {
	ti := c.e.tt.get(k.Type())
	if k.Value == nil {
		return zero(ti)
	}
	switch ti.k {
	case kBool:
		return boolVal(constant.BoolVal(k.Value))
	case kInt:
		if ti.signed {
			return Val{n: uint64(k.Int64()) & maskW(ti.w)}
		}
		return Val{n: k.Uint64() & maskW(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return f64Val(f)
	case kString:
		return strVal(constant.StringVal(k.Value))
	case kComplex:
		return Val{}
	case kUnsafe:
		return Val{}
	}
	if tp, ok := k.Type().(*types.TypeParam); ok {
		panic("type param const " + tp.String())
	}
	panic(fmt.Sprintf("const %v of type %v", k, k.Type()))
}

func (c *compiler) terminator(b *ssa.BasicBlock, in ssa.Instruction) func(fr *Frame) int {
	switch in := in.(type) {
	case *ssa.Jump:
		n := b.Succs[0].Index
		return func(fr *Frame) int { return n }
	case *ssa.If:
		o := c.opd(in.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		return func(fr *Frame) int {
			v := fr.get(o)
			if v.r == nil {
				if v.n != 0 {
					return t
				}
				return f
			}
			if fr.w.decide(v.r.(*Term)) {
				return t
			}
			return f
		}
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(fr *Frame) int { return -1 }
		case 1:
			o := c.opd(in.Results[0])
			return func(fr *Frame) int {
				fr.ret = fr.get(o)
				return -1
			}
		default:
			os := c.opds(in.Results)
			return func(fr *Frame) int {
				t := &Tuple{v: make([]Val, len(os))}
				for i, o := range os {
					t.v[i] = fr.get(o)
				}
				fr.ret = Val{r: t}
				return -1
			}
		}
	case *ssa.Panic:
		o := c.opd(in.X)
		return func(fr *Frame) int {
			v := fr.get(o)
			panic(&targetPanic{v})
		}
	}
	panic("terminator")
}

func (c *compiler) opds(vs []ssa.Value) []int {
	r := make([]int, len(vs))
	for i, v := range vs {
		r[i] = c.opd(v)
	}
	return r
}

func (c *compiler) unsupported(msg string) ins {
	return func(fr *Frame) { panic(unsupported(msg)) }
}

func (c *compiler) instr(in ssa.Instruction) ins {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg[v]
	}
	tt := c.e.tt
	switch in := in.(type) {
	case *ssa.Alloc:
		ti := tt.get(in.Type().(*types.Pointer).Elem())
		if ti.k == kStruct || ti.k == kArray {
			return func(fr *Frame) {
				v := new(Val)
				*v = zero(ti)
				fr.regs[dst] = Val{r: v}
			}
		}
		return func(fr *Frame) { fr.regs[dst] = Val{r: new(Val)} }
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.Call:
		return c.call(&in.Call, dst)
	case *ssa.ChangeInterface:
		o := c.opd(in.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(o) }
	case *ssa.ChangeType:
		o := c.opd(in.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(o) }
	case *ssa.Convert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.SliceToArrayPointer:
		return c.unsupported("slice to array pointer")
	case *ssa.Extract:
		o := c.opd(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.regs[dst] = fr.get(o).r.(*Tuple).v[i] }
	case *ssa.Field:
		o := c.opd(in.X)
		i := in.Field
		return func(fr *Frame) { fr.regs[dst] = fr.get(o).r.(*Struct).f[i] }
	case *ssa.FieldAddr:
		o := c.opd(in.X)
		i := in.Field
		return func(fr *Frame) {
			p, ok := fr.get(o).r.(*Val)
			if !ok {
				if fr.get(o).r == nil {
					fr.w.nilPanic()
				}
				panic(unsupported("field of non-plain pointer"))
			}
			fr.regs[dst] = Val{r: &p.r.(*Struct).f[i]}
		}
	case *ssa.Index:
		return c.index(in, dst)
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst)
	case *ssa.Lookup:
		o, k := c.opd(in.X), c.opd(in.Index)
		xt := tt.get(in.X.Type())
		if xt.k == kString {
			return c.unsupported("string lookup")
		}
		commaOk := in.CommaOk
		et := xt.elem
		return func(fr *Frame) {
			m, _ := fr.get(o).r.(*Map)
			var v Val
			found := false
			if m != nil {
				i := fr.w.mapFind(m, fr.get(k))
				if i >= 0 {
					v = copyVal(m.ent[i].v)
					found = true
				}
			}
			if !found {
				v = zero(et)
			}
			if commaOk {
				fr.regs[dst] = Val{r: &Tuple{v: []Val{v, boolVal(found)}}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MakeClosure:
		fn := c.e.fn(in.Fn.(*ssa.Function))
		os := c.opds(in.Bindings)
		return func(fr *Frame) {
			env := make([]Val, len(os))
			for i, o := range os {
				env[i] = fr.get(o)
			}
			fr.regs[dst] = Val{r: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		o := c.opd(in.X)
		ti := tt.get(in.X.Type())
		return func(fr *Frame) { fr.regs[dst] = Val{r: &Iface{t: ti, v: fr.get(o)}} }
	case *ssa.MakeMap:
		ti := tt.get(in.Type())
		return func(fr *Frame) {
			m := newMap(ti)
			m.shared = !fr.w.inited
			fr.regs[dst] = Val{r: m}
		}
	case *ssa.MakeSlice:
		ti := tt.get(in.Type())
		l, cp := c.opd(in.Len), c.opd(in.Cap)
		return func(fr *Frame) {
			n := fr.w.cInt64(fr.get(l))
			k := fr.w.cInt64(fr.get(cp))
			if n < 0 || n > 1<<40 {
				fr.w.rtPanic("makeslice: len out of range")
			}
			if k < n {
				fr.w.rtPanic("makeslice: cap out of range")
			}
			if k > 1<<24 {
				panic(unsupported("huge allocation"))
			}
			a := &Arr{e: make([]Val, k)}
			if ti.elem.k == kStruct || ti.elem.k == kArray {
				for i := range a.e {
					a.e[i] = zero(ti.elem)
				}
			}
			fr.regs[dst] = Val{r: &Slice{a: a, len: n, cap: k}}
		}
	case *ssa.MakeChan:
		o := c.opd(in.Size)
		return func(fr *Frame) { fr.regs[dst] = Val{r: &Chan{cap: int(fr.get(o).n)}} }
	case *ssa.MapUpdate:
		m, k, v := c.opd(in.Map), c.opd(in.Key), c.opd(in.Value)
		return func(fr *Frame) {
			mm, _ := fr.get(m).r.(*Map)
			if mm == nil {
				panic(&targetPanic{Val{r: &Iface{t: fr.w.eng.rtErrT, v: strVal("assignment to entry in nil map")}}})
			}
			fr.w.mapSet(mm, fr.get(k), fr.get(v))
		}
	case *ssa.Range:
		o := c.opd(in.X)
		ti := tt.get(in.X.Type())
		if ti.k == kString {
			return func(fr *Frame) { fr.regs[dst] = Val{r: &strIter{s: fr.get(o)}} }
		}
		return func(fr *Frame) {
			m, _ := fr.get(o).r.(*Map)
			fr.regs[dst] = Val{r: fr.w.newMapIter(m)}
		}
	case *ssa.Next:
		o := c.opd(in.Iter)
		if in.IsString {
			return func(fr *Frame) {
				it := fr.get(o).r.(*strIter)
				fr.regs[dst] = Val{r: fr.w.strNext(it)}
			}
		}
		return func(fr *Frame) {
			it := fr.get(o).r.(*mapIter)
			t := &Tuple{v: make([]Val, 3)}
			if it.m != nil {
				for it.pos < len(it.m.ent) {
					e := &it.m.ent[it.pos]
					it.pos++
					if e.del {
						continue
					}
					t.v[0] = Val{n: 1}
					t.v[1] = e.k
					t.v[2] = copyVal(e.v)
					break
				}
			}
			fr.regs[dst] = Val{r: t}
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.Store:
		a, v := c.opd(in.Addr), c.opd(in.Val)
		nolog := c.isLocal(in.Addr)
		return func(fr *Frame) {
			switch p := fr.get(a).r.(type) {
			case *Val:
				x := fr.get(v)
				if nolog {
					switch x.r.(type) {
					case *Struct, *Arr:
						fr.w.store(p, x)
					default:
						*p = x
					}
					return
				}
				fr.w.store(p, x)
			case *SymAddr:
				i := fr.w.concretize(p.idx)
				fr.w.store(&p.e[i], fr.get(v))
			case nil:
				fr.w.nilPanic()
			default:
				panic(unsupported("store through special pointer"))
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Defer:
		return c.deferIns(in)
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.w.runDefers(fr)
			if fr.panic != nil {
				panic(fr.panic)
			}
		}
	case *ssa.Go:
		return c.unsupported("go statement")
	case *ssa.Send:
		return c.unsupported("channel send")
	case *ssa.Select:
		return c.unsupported("select")
	}
	return c.unsupported(fmt.Sprintf("instruction %T", in))
}

// isLocal: address rooted at an Alloc of this very function (fresh every activation).
func (c *compiler) isLocal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

func (c *compiler) index(in *ssa.Index, dst int) ins {
	o, k := c.opd(in.X), c.opd(in.Index)
	xt := c.e.tt.get(in.X.Type())
	it := c.e.tt.get(in.Index.Type())
	byteT := c.e.byteT
	return func(fr *Frame) {
		w := fr.w
		x := fr.get(o)
		i := fr.get(k)
		if xt.k == kString {
			n := strLen(x)
			if i.r == nil {
				idx := idxOf(i, it)
				if idx < 0 || idx >= n {
					w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, n))
				}
				fr.regs[dst] = strAt(x, idx)
				return
			}
			t := w.boundsCheck(i, it, n)
			fr.regs[dst] = w.tableRead(strBytes(x), t, byteT)
			return
		}
		e := x.r.(*Arr).e
		if i.r == nil {
			idx := idxOf(i, it)
			if idx < 0 || idx >= len(e) {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(e)))
			}
			fr.regs[dst] = e[idx]
			return
		}
		t := w.boundsCheck(i, it, len(e))
		fr.regs[dst] = w.tableRead(e, t, xt.elem)
	}
}

func idxOf(v Val, ti *TInfo) int {
	if ti.signed {
		return int(sext(v.n, ti.w))
	}
	if v.n > math.MaxInt64 {
		return -1
	}
	return int(v.n)
}

// boundsCheck forks on 0<=i<n; returns the 64-bit index term in range.
func (w *Worker) boundsCheck(i Val, it *TInfo, n int) *Term {
	t := i.r.(*Term)
	if it.signed {
		t = w.ts.SExt(t, 64)
	} else {
		t = w.ts.ZExt(t, 64)
	}
	if !w.decide(w.ts.Ult(t, w.ts.Const(64, uint64(n)))) {
		w.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return t
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) ins {
	o, k := c.opd(in.X), c.opd(in.Index)
	it := c.e.tt.get(in.Index.Type())
	xt := c.e.tt.get(in.X.Type())
	isPtr := xt.k == kPtr
	var et *TInfo
	if isPtr {
		et = xt.elem.elem
	} else {
		et = xt.elem
	}
	return func(fr *Frame) {
		w := fr.w
		x := fr.get(o)
		var e []Val
		if isPtr {
			p, ok := x.r.(*Val)
			if !ok {
				w.nilPanic()
			}
			e = p.r.(*Arr).e
		} else if x.r != nil {
			s := x.r.(*Slice)
			e = s.a.e[s.off : s.off+s.len]
		}
		i := fr.get(k)
		if i.r == nil {
			idx := idxOf(i, it)
			if idx < 0 || idx >= len(e) {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(e)))
			}
			fr.regs[dst] = Val{r: &e[idx]}
			return
		}
		t := w.boundsCheck(i, it, len(e))
		if et.k == kInt || et.k == kBool {
			fr.regs[dst] = Val{r: &SymAddr{e: e, idx: t, ti: et}}
			return
		}
		fr.regs[dst] = Val{r: &e[w.concretize(t)]}
	}
}

func (c *compiler) slice(in *ssa.Slice, dst int) ins {
	o := c.opd(in.X)
	lo, hi, mx := -1<<30, -1<<30, -1<<30
	const none = -1 << 30
	if in.Low != nil {
		lo = c.opd(in.Low)
	}
	if in.High != nil {
		hi = c.opd(in.High)
	}
	if in.Max != nil {
		mx = c.opd(in.Max)
	}
	xt := c.e.tt.get(in.X.Type())
	return func(fr *Frame) {
		w := fr.w
		x := fr.get(o)
		l, h, m := 0, -1, -1
		if lo != none {
			l = w.cInt64(fr.get(lo))
		}
		if hi != none {
			h = w.cInt64(fr.get(hi))
			if h < 0 {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d]", h))
			}
		}
		if mx != none {
			m = w.cInt64(fr.get(mx))
			if m < 0 {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d]", m))
			}
		}
		switch xt.k {
		case kString:
			n := strLen(x)
			if h == -1 {
				h = n
			}
			if h > n {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = subStr(x, l, h)
			return
		case kPtr:
			p, ok := x.r.(*Val)
			if !ok {
				w.nilPanic()
			}
			a := p.r.(*Arr)
			x = Val{r: &Slice{a: a, len: len(a.e), cap: len(a.e)}}
		}
		s, _ := x.r.(*Slice)
		if s == nil {
			if h == -1 {
				h = 0
			}
			if l != 0 || h != 0 || m > 0 {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity 0", l, h))
			}
			fr.regs[dst] = Val{}
			return
		}
		if h == -1 {
			h = s.len
		}
		if m == -1 {
			m = s.cap
		}
		if m > s.cap {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, s.cap))
		}
		if h > m {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, s.cap))
		}
		if l < 0 || l > h {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		fr.regs[dst] = Val{r: &Slice{a: s.a, off: s.off + l, len: h - l, cap: m - l}}
	}
}

func (e *Engine) implements(ti *TInfo, it *TInfo) bool {
	ti.implMu.Lock()
	defer ti.implMu.Unlock()
	if r, ok := ti.impl[it]; ok {
		return r
	}
	if ti.impl == nil {
		ti.impl = map[*TInfo]bool{}
	}
	e.typMu.Lock()
	r := types.Implements(ti.t, it.under.(*types.Interface))
	e.typMu.Unlock()
	ti.impl[it] = r
	return r
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) ins {
	o := c.opd(in.X)
	at := c.e.tt.get(in.AssertedType)
	commaOk := in.CommaOk
	z := zero(at)
	e := c.e
	return func(fr *Frame) {
		x := fr.get(o)
		var v Val
		ok := false
		if x.r != nil {
			i := x.r.(*Iface)
			if at.k == kIface {
				if e.implements(i.t, at) {
					ok = true
					v = x
				}
			} else if i.t == at {
				ok = true
				v = i.v
			}
		}
		if !ok {
			if !commaOk {
				dyn := "nil"
				if x.r != nil {
					dyn = x.r.(*Iface).t.String()
				}
				fr.w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at))
			}
			v = z
		}
		if commaOk {
			fr.regs[dst] = Val{r: &Tuple{v: []Val{v, boolVal(ok)}}}
		} else {
			fr.regs[dst] = v
		}
	}
}

func (c *compiler) unop(in *ssa.UnOp, dst int) ins {
	o := c.opd(in.X)
	ti := c.e.tt.get(in.Type())
	switch in.Op {
	case token.MUL:
		agg := ti.k == kStruct || ti.k == kArray
		var poison string
		if g, ok := in.X.(*ssa.Global); ok && g.Pkg != nil && !c.e.runInit(g.Pkg.Pkg.Path()) {
			if !c.e.globalOK[g.Pkg.Pkg.Path()+"."+g.Name()] {
				poison = "global of uninitialised package: " + g.String()
			}
		}
		if poison != "" {
			return c.unsupported(poison)
		}
		return func(fr *Frame) {
			switch p := fr.get(o).r.(type) {
			case *Val:
				if agg {
					fr.regs[dst] = copyVal(*p)
				} else {
					fr.regs[dst] = *p
				}
			case *SymAddr:
				fr.regs[dst] = fr.w.tableRead(p.e, p.idx, p.ti)
			case nil:
				fr.w.nilPanic()
			default:
				panic(unsupported(fmt.Sprintf("load through %T", p)))
			}
		}
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(o)
			if v.r == nil {
				fr.regs[dst] = Val{n: 1 - v.n}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.Not(v.r.(*Term)))
		}
	case token.SUB:
		if ti.k == kFloat {
			return func(fr *Frame) { fr.regs[dst] = f64Val(-f64(fr.get(o))) }
		}
		m := maskW(ti.w)
		return func(fr *Frame) {
			v := fr.get(o)
			if v.r == nil {
				fr.regs[dst] = Val{n: -v.n & m}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.Neg(v.r.(*Term)))
		}
	case token.XOR:
		m := maskW(ti.w)
		return func(fr *Frame) {
			v := fr.get(o)
			if v.r == nil {
				fr.regs[dst] = Val{n: ^v.n & m}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.BNot(v.r.(*Term)))
		}
	}
	return c.unsupported("unop " + in.Op.String())
}

func (c *compiler) binop(in *ssa.BinOp, dst int) ins {
	x, y := c.opd(in.X), c.opd(in.Y)
	ti := c.e.tt.get(in.X.Type())
	yt := c.e.tt.get(in.Y.Type())
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if ti.k != kIface && yt.k == kIface {
			ti = yt
		}
		// comparison with nil of iface against concrete handled by iface eq
		if ti.k == kInt || ti.k == kBool {
			w8 := ti.w
			return func(fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if a.r == nil && b.r == nil {
					fr.regs[dst] = boolVal((a.n == b.n) != neg)
					return
				}
				t := fr.w.ts.Eq(fr.w.term(a, w8), fr.w.term(b, w8))
				if neg {
					t = fr.w.ts.Not(t)
				}
				fr.regs[dst] = tv(t)
			}
		}
		return func(fr *Frame) {
			r := fr.w.eq(ti, fr.get(x), fr.get(y))
			if neg {
				if r.r == nil {
					r.n = 1 - r.n
				} else {
					r = tv(fr.w.ts.Not(r.r.(*Term)))
				}
			}
			fr.regs[dst] = r
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		orEq := op == token.LEQ || op == token.GEQ
		switch ti.k {
		case kInt:
			w8, sg := ti.w, ti.signed
			return func(fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if a.r == nil && b.r == nil {
					var r bool
					if sg {
						p, q := sext(a.n, w8), sext(b.n, w8)
						r = p < q || orEq && p == q
					} else {
						r = a.n < b.n || orEq && a.n == b.n
					}
					fr.regs[dst] = boolVal(r)
					return
				}
				ts := fr.w.ts
				p, q := fr.w.term(a, w8), fr.w.term(b, w8)
				var t *Term
				switch {
				case sg && orEq:
					t = ts.Sle(p, q)
				case sg:
					t = ts.Slt(p, q)
				case orEq:
					t = ts.Ule(p, q)
				default:
					t = ts.Ult(p, q)
				}
				fr.regs[dst] = tv(t)
			}
		case kString:
			return func(fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if orEq {
					r := fr.w.strLess(b, a)
					if r.r == nil {
						fr.regs[dst] = Val{n: 1 - r.n}
					} else {
						fr.regs[dst] = tv(fr.w.ts.Not(r.r.(*Term)))
					}
					return
				}
				fr.regs[dst] = fr.w.strLess(a, b)
			}
		case kFloat:
			return func(fr *Frame) {
				a, b := f64(fr.get(x)), f64(fr.get(y))
				fr.regs[dst] = boolVal(a < b || orEq && a == b)
			}
		}
		return c.unsupported("comparison")
	}
	switch ti.k {
	case kString:
		if op == token.ADD {
			return func(fr *Frame) { fr.regs[dst] = catStr(fr.get(x), fr.get(y)) }
		}
	case kFloat:
		f32 := ti.w == 32
		return func(fr *Frame) {
			a, b := f64(fr.get(x)), f64(fr.get(y))
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = f64Val(r)
		}
	case kInt:
		return c.intop(op, ti, yt, x, y, dst)
	case kBool:
		switch op {
		case token.AND:
			return func(fr *Frame) {
				fr.regs[dst] = tv(fr.w.ts.And(fr.w.term(fr.get(x), 0), fr.w.term(fr.get(y), 0)))
			}
		case token.OR:
			return func(fr *Frame) {
				fr.regs[dst] = tv(fr.w.ts.Or(fr.w.term(fr.get(x), 0), fr.w.term(fr.get(y), 0)))
			}
		}
	}
	return c.unsupported(fmt.Sprintf("binop %v on %v", op, ti))
}

func (c *compiler) intop(op token.Token, ti, yt *TInfo, x, y, dst int) ins {
	w8 := ti.w
	m := maskW(w8)
	switch op {
	case token.ADD:
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.r == nil && b.r == nil {
				fr.regs[dst] = Val{n: (a.n + b.n) & m}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.Bin(OAdd, fr.w.term(a, w8), fr.w.term(b, w8)))
		}
	case token.SUB:
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.r == nil && b.r == nil {
				fr.regs[dst] = Val{n: (a.n - b.n) & m}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.Bin(OSub, fr.w.term(a, w8), fr.w.term(b, w8)))
		}
	case token.AND_NOT:
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.r == nil && b.r == nil {
				fr.regs[dst] = Val{n: a.n &^ b.n}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.Bin(OBAnd, fr.w.term(a, w8), fr.w.ts.BNot(fr.w.term(b, w8))))
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		var o Op
		switch op {
		case token.MUL:
			o = OMul
		case token.AND:
			o = OBAnd
		case token.OR:
			o = OBOr
		case token.XOR:
			o = OBXor
		}
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.r == nil && b.r == nil {
				fr.regs[dst] = Val{n: evalBin(o, w8, a.n, b.n)}
				return
			}
			fr.regs[dst] = tv(fr.w.ts.Bin(o, fr.w.term(a, w8), fr.w.term(b, w8)))
		}
	case token.QUO, token.REM:
		var o Op
		switch {
		case op == token.QUO && ti.signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case ti.signed:
			o = OSRem
		default:
			o = OURem
		}
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			w := fr.w
			if b.r == nil {
				if b.n == 0 {
					w.rtPanic("integer divide by zero")
				}
			} else if w.decide(w.ts.Eq(b.r.(*Term), w.ts.Const(w8, 0))) {
				w.rtPanic("integer divide by zero")
			}
			if a.r == nil && b.r == nil {
				fr.regs[dst] = Val{n: evalBin(o, w8, a.n, b.n)}
				return
			}
			fr.regs[dst] = tv(w.ts.Bin(o, w.term(a, w8), w.term(b, w8)))
		}
	case token.SHL, token.SHR:
		yw := yt.w
		ysg := yt.signed
		o := OShl
		if op == token.SHR {
			o = OLShr
			if ti.signed {
				o = OAShr
			}
		}
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			w := fr.w
			if b.r == nil {
				n := b.n
				if ysg {
					s := sext(b.n, yw)
					if s < 0 {
						w.rtPanic("negative shift amount")
					}
					n = uint64(s)
				}
				if a.r == nil {
					fr.regs[dst] = Val{n: evalBin(o, w8, a.n, n)}
					return
				}
				if n >= uint64(w8) {
					n = uint64(w8)
					if o == OAShr {
						n--
					} else {
						fr.regs[dst] = Val{}
						return
					}
				}
				fr.regs[dst] = tv(w.ts.Bin(o, a.r.(*Term), w.ts.Const(w8, n)))
				return
			}
			bt := b.r.(*Term)
			if ysg && !smallPos(bt) {
				if w.decide(w.ts.Slt(bt, w.ts.Const(yw, 0))) {
					w.rtPanic("negative shift amount")
				}
			}
			at := w.term(a, w8)
			var sh *Term
			if yw <= w8 {
				sh = w.ts.ZExt(bt, w8)
				fr.regs[dst] = tv(w.ts.Bin(o, at, sh))
				return
			}
			sh = w.ts.Trunc(bt, w8)
			big := w.ts.Not(w.ts.Ult(bt, w.ts.Const(yw, uint64(w8))))
			var over *Term
			if o == OAShr {
				over = w.ts.Bin(OAShr, at, w.ts.Const(w8, uint64(w8-1)))
			} else {
				over = w.ts.Const(w8, 0)
			}
			fr.regs[dst] = tv(w.ts.Ite(big, over, w.ts.Bin(o, at, sh)))
		}
	}
	return c.unsupported("intop " + op.String())
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) ins {
	o := c.opd(xv)
	from := c.e.tt.get(xv.Type())
	ti := c.e.tt.get(to)
	switch {
	case from.k == kInt && ti.k == kInt:
		fw, tw, sg := from.w, ti.w, from.signed
		m := maskW(tw)
		return func(fr *Frame) {
			v := fr.get(o)
			if v.r == nil {
				if sg {
					fr.regs[dst] = Val{n: uint64(sext(v.n, fw)) & m}
				} else {
					fr.regs[dst] = Val{n: v.n & m}
				}
				return
			}
			t := v.r.(*Term)
			switch {
			case tw < fw:
				t = fr.w.ts.Trunc(t, tw)
			case tw > fw && sg:
				t = fr.w.ts.SExt(t, tw)
			case tw > fw:
				t = fr.w.ts.ZExt(t, tw)
			}
			fr.regs[dst] = tv(t)
		}
	case from.k == kInt && ti.k == kFloat:
		return func(fr *Frame) {
			v := fr.get(o)
			if v.r != nil {
				panic(unsupported("symbolic int to float"))
			}
			var f float64
			if from.signed {
				f = float64(sext(v.n, from.w))
			} else {
				f = float64(v.n)
			}
			if ti.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = f64Val(f)
		}
	case from.k == kFloat && ti.k == kInt:
		return func(fr *Frame) {
			f := f64(fr.get(o))
			if ti.signed {
				fr.regs[dst] = Val{n: uint64(int64(f)) & maskW(ti.w)}
			} else {
				fr.regs[dst] = Val{n: uint64(f) & maskW(ti.w)}
			}
		}
	case from.k == kFloat && ti.k == kFloat:
		return func(fr *Frame) {
			v := fr.get(o)
			if ti.w == 32 {
				v = f64Val(float64(float32(f64(v))))
			}
			fr.regs[dst] = v
		}
	case from.k == kString && ti.k == kString:
		return func(fr *Frame) { fr.regs[dst] = fr.get(o) }
	case from.k == kString && ti.k == kSlice:
		if ti.elem.w == 8 {
			return func(fr *Frame) {
				b := strBytes(fr.get(o))
				e := make([]Val, len(b))
				copy(e, b)
				fr.regs[dst] = mkSlice(e)
			}
		}
		return func(fr *Frame) {
			it := &strIter{s: fr.get(o)}
			var e []Val
			for {
				t := fr.w.strNext(it)
				if t.v[0].n == 0 {
					break
				}
				e = append(e, t.v[2])
			}
			fr.regs[dst] = mkSlice(e)
		}
	case from.k == kSlice && ti.k == kString:
		if from.elem.w == 8 {
			return func(fr *Frame) {
				e := sliceElems(fr.get(o))
				b := make([]Val, len(e))
				copy(b, e)
				fr.regs[dst] = symStr(b)
			}
		}
		return func(fr *Frame) {
			var out Val
			for _, r := range sliceElems(fr.get(o)) {
				out = catStr(out, fr.w.runeStr(r, 32, true))
			}
			fr.regs[dst] = out
		}
	case from.k == kInt && ti.k == kString:
		return func(fr *Frame) { fr.regs[dst] = fr.w.runeStr(fr.get(o), from.w, from.signed) }
	case from.k == kSlice && ti.k == kSlice, from.k == kPtr && ti.k == kPtr,
		from.k == kUnsafe && ti.k == kUnsafe:
		return func(fr *Frame) { fr.regs[dst] = fr.get(o) }
	case from.k == kPtr && ti.k == kUnsafe:
		return func(fr *Frame) { fr.regs[dst] = fr.get(o) }
	case from.k == kUnsafe && ti.k == kPtr:
		return func(fr *Frame) { fr.regs[dst] = fr.get(o) }
	}
	return c.unsupported(fmt.Sprintf("convert %v -> %v", from, ti))
}
