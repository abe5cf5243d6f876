package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 3000

// call runs fn. fill writes the arguments into the callee's registers (may be nil when args given).
func (w *Worker) call(fn *Fn, args []Val, env []Val, caller *Frame) Val {
	fn.prepare(w.eng)
	n := fn.nregs
	if n < len(args)+len(env) {
		n = len(args) + len(env)
	}
	sp := w.sp
	if sp+n > len(w.stack) {
		w.end(endDepth, "value stack exhausted")
	}
	regs := w.stack[sp : sp+n : sp+n]
	w.sp = sp + n
	copy(regs, args)
	copy(regs[len(args):], env)
	r := w.invoke(fn, regs, caller, false)
	w.sp = sp
	return r
}

func (w *Worker) invoke(fn *Fn, regs []Val, caller *Frame, isDefer bool) Val {
	if fn.intr != nil {
		prev := w.curFn
		w.curFn = fn
		fr := &Frame{w: w, fn: fn, regs: regs, caller: caller, isDefer: isDefer}
		r := fn.intr(w, fr, regs)
		w.curFn = prev
		return r
	}
	if fn.err != "" {
		panic(unsupported(fn.err))
	}
	w.depth++
	if w.depth > maxDepth {
		w.end(endDepth, "call depth limit in "+fn.name)
	}
	if !w.fnsUsed[fn] {
		w.fnsUsed[fn] = true
	}
	prev := w.curFn
	w.curFn = fn
	for len(w.frames) <= w.depth {
		w.frames = append(w.frames, &Frame{w: w})
	}
	fr := w.frames[w.depth]
	fr.fn, fr.regs, fr.caller, fr.isDefer = fn, regs, caller, isDefer
	fr.ret = Val{}
	fr.panic = nil
	fr.running = false
	fr.defers = fr.defers[:0]
	if fn.hasDefer {
		w.runDeferring(fr)
	} else {
		w.run(fr, 0)
	}
	w.curFn = prev
	w.depth--
	return fr.ret
}

func (w *Worker) run(fr *Frame, start int) {
	fn := fr.fn
	b := start
	prev := -1
	var tmp [8]Val
	for {
		blk := &fn.blocks[b]
		w.steps += blk.cost
		if w.steps > w.limit {
			w.end(endSteps, "step limit in "+fn.name)
		}
		if np := len(blk.phis); np > 0 {
			e := blk.preds[prev]
			if np == 1 {
				ph := &blk.phis[0]
				fr.regs[ph.dst] = fr.get(ph.src[e])
			} else {
				buf := tmp[:0]
				for i := range blk.phis {
					buf = append(buf, fr.get(blk.phis[i].src[e]))
				}
				for i := range blk.phis {
					fr.regs[blk.phis[i].dst] = buf[i]
				}
			}
		}
		for _, in := range blk.ins {
			in(fr)
		}
		next := blk.term(fr)
		if next < 0 {
			return
		}
		prev = b
		b = next
	}
}

// try runs f and returns the target panic it raised, if any.
func (w *Worker) try(f func()) (tp *targetPanic) {
	sp, depth, cur := w.sp, w.depth, w.curFn
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			w.sp, w.depth, w.curFn = sp, depth, cur
			tp = p
		}
	}()
	f()
	return nil
}

func (w *Worker) runDeferring(fr *Frame) {
	tp := w.try(func() { w.run(fr, 0) })
	if tp == nil {
		return
	}
	fr.panic = tp
	w.runDefers(fr)
	if fr.panic != nil {
		panic(fr.panic)
	}
	// recovered
	if fr.fn.recover >= 0 {
		w.run(fr, fr.fn.recover)
	} else if fr.fn.resTI != nil {
		fr.ret = zero(fr.fn.resTI)
	}
}

func (w *Worker) runDefers(fr *Frame) {
	fr.running = true
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if tp := w.try(func() { d.call(w, fr) }); tp != nil {
			fr.panic = tp
		}
	}
	fr.running = false
}

func (c *compiler) deferIns(in *ssa.Defer) ins {
	if in.DeferStack != nil {
		return c.unsupported("defer stack")
	}
	prep := c.prepCall(&in.Call)
	return func(fr *Frame) {
		fn, args, env, blt := prep(fr)
		a := append([]Val(nil), args...)
		var d deferred
		if blt != nil {
			d.call = func(w *Worker, fr *Frame) { blt(fr, a) }
		} else {
			d.call = func(w *Worker, fr *Frame) {
				fn.prepare(w.eng)
				n := fn.nregs
				if n < len(a)+len(env) {
					n = len(a) + len(env)
				}
				regs := make([]Val, n)
				copy(regs, a)
				copy(regs[len(a):], env)
				w.invoke(fn, regs, fr, true)
			}
		}
		fr.defers = append(fr.defers, d)
	}
}

type bltFn func(fr *Frame, a []Val) Val

// prepCall resolves callee and arguments dynamically (defer path).
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *Frame) (*Fn, []Val, []Val, bltFn) {
	os := c.opds(cc.Args)
	if cc.IsInvoke() {
		o := c.opd(cc.Value)
		m := cc.Method
		e := c.e
		return func(fr *Frame) (*Fn, []Val, []Val, bltFn) {
			x := fr.get(o)
			if x.r == nil {
				fr.w.nilPanic()
			}
			i := x.r.(*Iface)
			args := []Val{i.v}
			for _, a := range os {
				args = append(args, fr.get(a))
			}
			return e.method(i.t, m), args, nil, nil
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bf := c.builtin(b, cc)
		return func(fr *Frame) (*Fn, []Val, []Val, bltFn) {
			var args []Val
			for _, a := range os {
				args = append(args, fr.get(a))
			}
			return nil, args, nil, bf
		}
	}
	o := c.opd(cc.Value)
	return func(fr *Frame) (*Fn, []Val, []Val, bltFn) {
		f, _ := fr.get(o).r.(*Closure)
		if f == nil {
			fr.w.nilPanic()
		}
		var args []Val
		for _, a := range os {
			args = append(args, fr.get(a))
		}
		return f.fn, args, f.env, nil
	}
}

func (e *Engine) method(ti *TInfo, m *types.Func) *Fn {
	key := m.Id()
	if f, ok := ti.meth.Load(key); ok {
		return f.(*Fn)
	}
	e.typMu.Lock()
	f := e.prog.LookupMethod(ti.t, m.Pkg(), m.Name())
	e.typMu.Unlock()
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + ti.String()))
	}
	fn := e.fn(f)
	ti.meth.Store(key, fn)
	return fn
}

// methodByName finds an exported method of a dynamic type (nil if absent).
func (e *Engine) methodByName(ti *TInfo, name string) *Fn {
	key := "#" + name
	if f, ok := ti.meth.Load(key); ok {
		return f.(*Fn)
	}
	e.typMu.Lock()
	defer e.typMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(ti.t)
	sel := ms.Lookup(nil, name)
	var fn *Fn
	if sel != nil {
		if f := e.prog.MethodValue(sel); f != nil {
			fn = e.fn(f)
		}
	}
	ti.meth.Store(key, fn)
	return fn
}

func (c *compiler) call(cc *ssa.CallCommon, dst int) ins {
	os := c.opds(cc.Args)
	na := len(os)
	e := c.e
	if cc.IsInvoke() {
		o := c.opd(cc.Value)
		m := cc.Method
		var lastT *TInfo
		var lastF *Fn
		_ = lastT
		_ = lastF
		return func(fr *Frame) {
			w := fr.w
			x := fr.get(o)
			if x.r == nil {
				w.nilPanic()
			}
			i := x.r.(*Iface)
			fn := e.method(i.t, m)
			fn.prepare(e)
			n := fn.nregs
			if n < na+1 {
				n = na + 1
			}
			sp := w.sp
			if sp+n > len(w.stack) {
				w.end(endDepth, "value stack exhausted")
			}
			regs := w.stack[sp : sp+n : sp+n]
			w.sp = sp + n
			regs[0] = i.v
			for j, a := range os {
				regs[j+1] = fr.get(a)
			}
			r := w.invoke(fn, regs, fr, false)
			w.sp = sp
			fr.regs[dst] = r
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		bf := c.builtin(v, cc)
		if na == 1 {
			o0 := os[0]
			return func(fr *Frame) {
				var a [1]Val
				a[0] = fr.get(o0)
				fr.regs[dst] = bf(fr, a[:])
			}
		}
		return func(fr *Frame) {
			var a [4]Val
			x := a[:0]
			for _, o := range os {
				x = append(x, fr.get(o))
			}
			fr.regs[dst] = bf(fr, x)
		}
	case *ssa.Function:
		fn := e.fn(v)
		if v.Name() == "init" && v.Synthetic == "package initializer" {
			pkg := v.Pkg.Pkg.Path()
			if !e.runInit(pkg) {
				return nil
			}
		}
		return func(fr *Frame) {
			w := fr.w
			fn.prepare(e)
			n := fn.nregs
			if n < na {
				n = na
			}
			sp := w.sp
			if sp+n > len(w.stack) {
				w.end(endDepth, "value stack exhausted")
			}
			regs := w.stack[sp : sp+n : sp+n]
			w.sp = sp + n
			for j, a := range os {
				regs[j] = fr.get(a)
			}
			r := w.invoke(fn, regs, fr, false)
			w.sp = sp
			fr.regs[dst] = r
		}
	}
	o := c.opd(cc.Value)
	return func(fr *Frame) {
		w := fr.w
		f, _ := fr.get(o).r.(*Closure)
		if f == nil {
			w.nilPanic()
		}
		if f.fn == nil {
			panic(unsupported("builtin value call"))
		}
		fn := f.fn
		fn.prepare(e)
		n := fn.nregs
		if n < na+len(f.env) {
			n = na + len(f.env)
		}
		sp := w.sp
		if sp+n > len(w.stack) {
			w.end(endDepth, "value stack exhausted")
		}
		regs := w.stack[sp : sp+n : sp+n]
		w.sp = sp + n
		for j, a := range os {
			regs[j] = fr.get(a)
		}
		copy(regs[na:], f.env)
		r := w.invoke(fn, regs, fr, false)
		w.sp = sp
		fr.regs[dst] = r
	}
}

// callVal calls a function value from an intrinsic.
func (w *Worker) callVal(f Val, fr *Frame, args ...Val) Val {
	c, _ := f.r.(*Closure)
	if c == nil {
		w.nilPanic()
	}
	return w.call(c.fn, args, c.env, fr)
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) bltFn {
	tt := c.e.tt
	argT := func(i int) *TInfo { return tt.get(cc.Args[i].Type()) }
	switch b.Name() {
	case "len":
		ti := argT(0)
		return func(fr *Frame, a []Val) Val {
			switch ti.k {
			case kString:
				return intVal(strLen(a[0]))
			case kSlice:
				return intVal(sliceLen(a[0]))
			case kMap:
				if a[0].r == nil {
					return Val{}
				}
				return intVal(a[0].r.(*Map).live)
			case kArray:
				return intVal(ti.n)
			case kPtr:
				return intVal(ti.elem.n)
			case kChan:
				if a[0].r == nil {
					return Val{}
				}
				return intVal(len(a[0].r.(*Chan).buf))
			}
			panic(unsupported("len " + ti.String()))
		}
	case "cap":
		ti := argT(0)
		return func(fr *Frame, a []Val) Val {
			switch ti.k {
			case kSlice:
				if a[0].r == nil {
					return Val{}
				}
				return intVal(a[0].r.(*Slice).cap)
			case kArray:
				return intVal(ti.n)
			case kPtr:
				return intVal(ti.elem.n)
			}
			panic(unsupported("cap " + ti.String()))
		}
	case "append":
		ti := argT(0)
		yk := argT(1).k
		return func(fr *Frame, a []Val) Val {
			var add []Val
			if yk == kString {
				add = strBytes(a[1])
			} else {
				add = sliceElems(a[1])
			}
			return fr.w.appendVals(a[0], add, ti)
		}
	case "copy":
		yk := argT(1).k
		return func(fr *Frame, a []Val) Val {
			d := sliceElems(a[0])
			var s []Val
			if yk == kString {
				s = strBytes(a[1])
			} else {
				s = sliceElems(a[1])
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if n == 0 {
				return Val{}
			}
			tmp := make([]Val, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				fr.w.store(&d[i], tmp[i])
			}
			return intVal(n)
		}
	case "delete":
		return func(fr *Frame, a []Val) Val {
			m, _ := a[0].r.(*Map)
			fr.w.mapDel(m, a[1])
			return Val{}
		}
	case "clear":
		ti := argT(0)
		return func(fr *Frame, a []Val) Val {
			switch ti.k {
			case kMap:
				m, _ := a[0].r.(*Map)
				if m != nil {
					fr.w.mapTouch(m)
					m.idx = map[any]int{}
					m.ent = nil
					m.live, m.nsym = 0, 0
				}
			case kSlice:
				e := sliceElems(a[0])
				for i := range e {
					fr.w.store(&e[i], zero(ti.elem))
				}
			}
			return Val{}
		}
	case "panic":
		return func(fr *Frame, a []Val) Val { panic(&targetPanic{a[0]}) }
	case "recover":
		return func(fr *Frame, a []Val) Val {
			if fr.isDefer && fr.caller != nil && fr.caller.panic != nil && fr.caller.running {
				v := fr.caller.panic.v
				fr.caller.panic = nil
				return v
			}
			return Val{}
		}
	case "print", "println":
		return func(fr *Frame, a []Val) Val { return Val{} }
	case "min", "max":
		ti := argT(0)
		isMin := b.Name() == "min"
		return func(fr *Frame, a []Val) Val {
			r := a[0]
			for _, y := range a[1:] {
				var lt Val
				switch ti.k {
				case kInt:
					if r.r == nil && y.r == nil {
						if ti.signed {
							lt = boolVal(sext(y.n, ti.w) < sext(r.n, ti.w))
						} else {
							lt = boolVal(y.n < r.n)
						}
					} else {
						p, q := fr.w.term(y, ti.w), fr.w.term(r, ti.w)
						if ti.signed {
							lt = tv(fr.w.ts.Slt(p, q))
						} else {
							lt = tv(fr.w.ts.Ult(p, q))
						}
					}
				case kString:
					lt = fr.w.strLess(y, r)
				default:
					panic(unsupported("min/max"))
				}
				if ti.k == kInt && lt.r != nil {
					c := lt.r.(*Term)
					p, q := fr.w.term(y, ti.w), fr.w.term(r, ti.w)
					if isMin {
						r = tv(fr.w.ts.Ite(c, p, q))
					} else {
						r = tv(fr.w.ts.Ite(c, q, p))
					}
					continue
				}
				if fr.w.cond(lt) == isMin {
					r = y
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, a []Val) Val {
			if a[0].r == nil {
				fr.w.nilPanic()
			}
			return a[0]
		}
	case "SliceData":
		return func(fr *Frame, a []Val) Val {
			s, _ := a[0].r.(*Slice)
			if s == nil {
				return Val{}
			}
			return Val{r: &sliceData{s}}
		}
	case "StringData":
		return func(fr *Frame, a []Val) Val {
			if a[0].r == nil {
				return Val{}
			}
			return Val{r: &strData{a[0]}}
		}
	case "String":
		return func(fr *Frame, a []Val) Val {
			n := fr.w.cInt64(a[1])
			if n == 0 {
				return Val{}
			}
			switch p := a[0].r.(type) {
			case *sliceData:
				e := p.s.a.e[p.s.off : p.s.off+n]
				b := make([]Val, n)
				copy(b, e)
				return symStr(b)
			case *strData:
				return subStr(p.s, 0, n)
			}
			panic(unsupported("unsafe.String"))
		}
	case "Slice":
		return func(fr *Frame, a []Val) Val {
			n := fr.w.cInt64(a[1])
			switch p := a[0].r.(type) {
			case nil:
				return Val{}
			case *sliceData:
				return Val{r: &Slice{a: p.s.a, off: p.s.off, len: n, cap: n}}
			case *strData:
				e := append([]Val(nil), strBytes(p.s)[:n]...)
				return mkSlice(e)
			}
			panic(unsupported("unsafe.Slice"))
		}
	case "close":
		return func(fr *Frame, a []Val) Val { panic(unsupported("close")) }
	}
	name := b.Name()
	return func(fr *Frame, a []Val) Val { panic(unsupported("builtin " + name)) }
}

type sliceData struct{ s *Slice }
type strData struct{ s Val }

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func (w *Worker) appendVals(s Val, add []Val, ti *TInfo) Val {
	if len(add) == 0 {
		return s
	}
	sl, _ := s.r.(*Slice)
	oldLen, oldCap := 0, 0
	if sl != nil {
		oldLen, oldCap = sl.len, sl.cap
	}
	n := oldLen + len(add)
	if sl != nil && n <= oldCap {
		tmp := add
		// aliasing-safe copy
		tmp = make([]Val, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			p := &sl.a.e[sl.off+oldLen+i]
			w.store(p, tmp[i])
		}
		return Val{r: &Slice{a: sl.a, off: sl.off, len: n, cap: sl.cap}}
	}
	// growth as in runtime.growslice
	newcap := oldCap
	doublecap := newcap + newcap
	if n > doublecap {
		newcap = n
	} else if oldCap < 256 {
		newcap = doublecap
	} else {
		for newcap < n {
			newcap += (newcap + 3*256) >> 2
		}
	}
	es := w.eng.tt.sizeof(ti.elem)
	if es > 0 {
		newcap = int(roundSize(int64(newcap)*es) / es)
	}
	e := make([]Val, newcap)
	if oldLen > 0 {
		for i := 0; i < oldLen; i++ {
			e[i] = copyVal(sl.a.e[sl.off+i])
		}
	}
	for i := range add {
		e[oldLen+i] = copyVal(add[i])
	}
	if ti.elem.k == kStruct || ti.elem.k == kArray {
		for i := n; i < newcap; i++ {
			e[i] = zero(ti.elem)
		}
	}
	return Val{r: &Slice{a: &Arr{e: e}, len: n, cap: newcap}}
}

func (w *Worker) newMapIter(m *Map) *mapIter {
	if m == nil {
		return &mapIter{}
	}
	if w.mapRev && m.live > 1 {
		r := &Map{kt: m.kt, vt: m.vt}
		for i := len(m.ent) - 1; i >= 0; i-- {
			if !m.ent[i].del {
				r.ent = append(r.ent, m.ent[i])
			}
		}
		return &mapIter{m: r}
	}
	return &mapIter{m: m}
}

// strNext decodes the next rune of a (possibly symbolic) string: (ok, index, rune).
func (w *Worker) strNext(it *strIter) *Tuple {
	t := &Tuple{v: make([]Val, 3)}
	n := strLen(it.s)
	if it.pos >= n {
		return t
	}
	t.v[0] = Val{n: 1}
	t.v[1] = intVal(it.pos)
	b := strAt(it.s, it.pos)
	if b.r == nil && b.n < 0x80 {
		t.v[2] = b
		it.pos++
		return t
	}
	if b.r != nil && w.decide(w.ts.Ult(b.r.(*Term), w.ts.Const(8, 0x80))) {
		t.v[2] = tv(w.ts.ZExt(b.r.(*Term), 32))
		it.pos++
		return t
	}
	var buf []byte
	for i := it.pos; i < n && len(buf) < 4; i++ {
		c := byte(w.cInt(strAt(it.s, i), nil))
		buf = append(buf, c)
		if utf8.FullRune(buf) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf)
	t.v[2] = Val{n: uint64(uint32(r))}
	it.pos += sz
	return t
}

// runeStr converts an integer to its UTF-8 string.
func (w *Worker) runeStr(v Val, wd uint8, signed bool) Val {
	if t, ok := v.r.(*Term); ok {
		if w.decide(w.ts.Ult(t, w.ts.Const(t.w, 0x80))) {
			return symStr([]Val{tv(w.ts.Trunc(w.ts.ZExt(t, 64), 8))})
		}
		v = Val{n: w.concretize(t)}
	}
	var x int64
	if signed {
		x = sext(v.n, wd)
	} else {
		x = int64(v.n)
		if x < 0 {
			x = -1
		}
	}
	if x != int64(int32(x)) {
		return strVal("\uFFFD")
	}
	return strVal(string(rune(x)))
}

var _ = fmt.Sprint
