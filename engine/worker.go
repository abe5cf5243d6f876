package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	v uint64
	f uint8 // 1 taken, 2 forced
}

type endReason uint8

const (
	endDone endReason = iota
	endAssume
	endViolation
	endUnsupported
	endSteps
	endUnknown
	endDepth
	endStop
)

type pathEnd struct {
	why endReason
	msg string
}

type targetPanic struct {
	v Val // interface value
}

type trailEnt struct {
	p   *Val
	old Val
}

type workItem struct {
	h     *Harness
	decs  []Dec
	model []uint64
}

type group struct {
	cons []int32
	vars []int32
}

type obsRec struct {
	tag string
	v   []Val
}

type Worker struct {
	eng     *Engine
	id      int
	ts      *TermStore
	solver  *SolverProc
	solver2 *SolverProc
	globals []*Val

	// path state
	h        *Harness
	prefix   []Dec
	pos      int
	decs     []Dec
	model    []uint64
	varW     []uint8
	varName  []string
	pc       []*Term
	known    map[*Term]bool
	grp      map[int32]*group
	steps    int64
	limit    int64
	depth    int
	trail    []trailEnt
	mtrail   []*Map
	logging  bool
	stack    []Val
	sp       int
	obs      []obsRec
	reach    []string
	holes    []Val
	files    []Val
	args     []string
	out      Val
	outOn    bool
	inited   bool
	incon    int
	fnsUsed  map[*Fn]bool
	curFn    *Fn
	stdout   []byte
	frames   []*Frame
	mapRev   bool
	dom      map[int32]*byteSet
	domModel []uint64
	rngs     map[rngKey][2]uint64
	inAssert bool
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{eng: e, id: id, ts: NewTermStore(), stack: make([]Val, 1<<20), fnsUsed: map[*Fn]bool{}}
	w.solver = newSolverProc(e.solverCmd, e.solverMs)
	w.globals = make([]*Val, len(e.globals))
	for i, g := range e.globals {
		v := zero(e.tt.get(g.Type().(*types.Pointer).Elem()))
		if t, ok := e.embeds[g.String()]; ok {
			v = strVal(t)
		}
		w.globals[i] = &v
	}
	return w
}

func (w *Worker) initPackages() error {
	w.logging = false
	w.limit = 1 << 40
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if w.eng.debug {
					fmt.Println("cur:", w.curFn.name)
					debug.PrintStack()
				}
				err = fmt.Errorf("package initialisation failed: %v", panicText(w, r))
			}
		}()
		w.call(w.eng.fn(w.eng.mainPkg.Func("init")), nil, nil, nil)
	}()
	w.inited = true
	return err
}

func panicText(w *Worker, r any) string {
	switch r := r.(type) {
	case *targetPanic:
		return "panic: " + describe(r.v)
	case *unsupportedErr:
		s := "unsupported: " + r.msg
		if w != nil && w.curFn != nil {
			s += " in " + w.curFn.name
		}
		return s
	case *pathEnd:
		return r.msg
	default:
		return fmt.Sprint(r)
	}
}

type pathResult struct {
	why   endReason
	msg   string
	model []uint64
}

// runPath executes one path of the harness from its prefix.
func (w *Worker) runPath(it *workItem) (res pathResult) {
	w.h = it.h
	w.prefix = it.decs
	w.pos = 0
	w.decs = w.decs[:0]
	w.model = append([]uint64(nil), it.model...)
	w.ts.Invalidate()
	w.varW = w.varW[:0]
	w.varName = w.varName[:0]
	w.pc = w.pc[:0]
	w.known = map[*Term]bool{}
	w.grp = map[int32]*group{}
	w.dom = map[int32]*byteSet{}
	w.inAssert = false
	w.steps = 0
	w.limit = w.eng.stepLimit
	w.depth = 0
	w.trail = w.trail[:0]
	w.mtrail = w.mtrail[:0]
	w.sp = 0
	w.obs = w.obs[:0]
	w.reach = w.reach[:0]
	w.holes = w.holes[:0]
	w.files = w.files[:0]
	w.outOn = false
	w.stdout = w.stdout[:0]
	w.logging = true
	w.mapRev = false
	if len(w.ts.tab) > 3_000_000 {
		w.ts = NewTermStore()
	}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				res = pathResult{why: r.why, msg: r.msg}
			case *targetPanic:
				res = pathResult{why: endViolation, msg: "panic: " + w.panicMsg(r)}
			case *unsupportedErr:
				s := r.msg
				if w.curFn != nil {
					s += " [in " + w.curFn.name + "]"
				}
				res = pathResult{why: endUnsupported, msg: s}
			default:
				if w.eng.debug {
					panic(r)
				}
				s := fmt.Sprint(r)
				if w.curFn != nil {
					s += " [in " + w.curFn.name + "]"
				}
				res = pathResult{why: endUnsupported, msg: "engine: " + s}
			}
		}
		res.model = append([]uint64(nil), w.model...)
		for len(res.model) < len(w.varW) {
			res.model = append(res.model, 0)
		}
		res.model = res.model[:len(w.varW)]
		for i := range res.model {
			res.model[i] &= maskW(w.varW[i])
		}
		// undo heap effects on shared (initial) state
		for i := len(w.trail) - 1; i >= 0; i-- {
			*w.trail[i].p = w.trail[i].old
		}
		for _, m := range w.mtrail {
			s := m.snap
			m.idx, m.ent, m.live, m.nsym = s.idx, s.ent, s.live, s.nsym
			m.snap = nil
		}
		w.logging = false
	}()
	w.call(it.h.fn, nil, nil, nil)
	return pathResult{why: endDone}
}

func (w *Worker) panicMsg(p *targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = describe(p.v)
		}
	}()
	v := w.fmtValue(p.v, 'v', "")
	if c, ok := conc(v); ok {
		return c
	}
	return w.evalStr(v)
}

// evalStr renders a (symbolic) string under the current model.
func (w *Worker) evalStr(v Val) string {
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(w.evalVal(b[i]))
	}
	return string(r)
}

func (w *Worker) evalVal(v Val) uint64 {
	if t, ok := v.r.(*Term); ok {
		return w.ts.Eval(t, w.model)
	}
	return v.n
}

func (w *Worker) end(why endReason, msg string) { panic(&pathEnd{why, msg}) }

func (w *Worker) newVar(width uint8, name string) *Term {
	idx := len(w.varW)
	w.varW = append(w.varW, width)
	w.varName = append(w.varName, name)
	for len(w.model) <= idx {
		w.model = append(w.model, 0)
	}
	return w.ts.Var(width, idx)
}

// ---- path condition ----

func (w *Worker) addCons(c *Term) {
	if c.op == OConst {
		return
	}
	if w.known[c] {
		return
	}
	w.known[c] = true
	if c.op == OAnd {
		w.addCons(c.a)
		w.addCons(c.b)
		return
	}
	w.domAdd(c)
	idx := int32(len(w.pc))
	w.pc = append(w.pc, c)
	var g *group
	for _, v := range c.vars {
		h := w.grp[v]
		if h == nil {
			continue
		}
		if g == nil {
			g = h
			continue
		}
		if h != g {
			g.cons = mergeSorted(g.cons, h.cons)
			for _, x := range h.vars {
				w.grp[x] = g
			}
			g.vars = append(g.vars, h.vars...)
		}
	}
	if g == nil {
		g = &group{}
	}
	for _, v := range c.vars {
		if w.grp[v] != g {
			w.grp[v] = g
			g.vars = append(g.vars, v)
		}
	}
	g.cons = append(g.cons, idx)
}

func mergeSorted(a, b []int32) []int32 {
	r := make([]int32, 0, len(a)+len(b)+4)
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func (w *Worker) sliceFor(c *Term) []*Term {
	var gs []*group
	for _, v := range c.vars {
		g := w.grp[v]
		if g == nil {
			continue
		}
		dup := false
		for _, x := range gs {
			if x == g {
				dup = true
				break
			}
		}
		if !dup {
			gs = append(gs, g)
		}
	}
	var idx []int32
	if len(gs) == 1 {
		idx = gs[0].cons
	} else {
		for _, g := range gs {
			idx = append(idx, g.cons...)
		}
		sort.Slice(idx, func(i, j int) bool { return idx[i] < idx[j] })
	}
	cs := make([]*Term, 0, len(idx)+1)
	for _, i := range idx {
		cs = append(cs, w.pc[i])
	}
	return append(cs, c)
}

// feasible asks whether pc && c is satisfiable; on sat returns an updated model.
func (w *Worker) feasible(c *Term) (satResult, []uint64) {
	if !w.inAssert && w.domRefutes(c) {
		w.eng.stats.domain.Add(1)
		return resUnsat, nil
	}
	res, vars, vals := w.Solve(w.sliceFor(c))
	if res != resSat {
		return res, nil
	}
	m := append([]uint64(nil), w.model...)
	for i, v := range vars {
		m[v.idx] = vals[i]
	}
	return resSat, m
}

func (w *Worker) decideWith(c *Term, dv uint64) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if w.known[c] {
		return true
	}
	nc := w.ts.Not(c)
	if w.known[nc] {
		return false
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		taken := d.f&1 != 0
		if d.f&2 == 0 {
			if taken {
				w.addCons(c)
			} else {
				w.addCons(nc)
			}
		} else if taken {
			w.known[c] = true
		} else {
			w.known[nc] = true
		}
		return taken
	}
	if w.eng.stop.Load() || w.h.stop.Load() {
		w.end(endStop, "stopped")
	}
	taken := w.ts.Eval(c, w.model) != 0
	mine, other := c, nc
	if !taken {
		mine, other = nc, c
	}
	w.eng.nDecisions.Add(1)
	res, m := w.feasible(other)
	var f uint8
	if taken {
		f = 1
	}
	switch res {
	case resSat:
		nd := make([]Dec, len(w.decs)+1)
		copy(nd, w.decs)
		nd[len(w.decs)] = Dec{dv, f ^ 1}
		w.eng.push(&workItem{h: w.h, decs: nd, model: m})
		w.addCons(mine)
	case resUnsat:
		f |= 2
		w.known[mine] = true
	default:
		w.h.unknown.Add(1)
		w.addCons(mine)
	}
	w.decs = append(w.decs, Dec{dv, f})
	return taken
}

func (w *Worker) decide(c *Term) bool { return w.decideWith(c, 0) }

func (w *Worker) cond(v Val) bool {
	if v.r == nil {
		return v.n != 0
	}
	return w.decide(v.r.(*Term))
}

// concretize forks over the feasible values of t.
func (w *Worker) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	for {
		v := w.ts.Eval(t, w.model)
		c := w.ts.Eq(t, w.ts.Const(t.w, v))
		if c.op == OConst || w.known[c] {
			return v
		}
		if w.pos < len(w.prefix) {
			v = w.prefix[w.pos].v
			c = w.ts.Eq(t, w.ts.Const(t.w, v))
		}
		if w.decideWith(c, v) {
			return v
		}
	}
}

func (w *Worker) cInt(v Val, ti *TInfo) uint64 {
	if t, ok := v.r.(*Term); ok {
		return w.concretize(t)
	}
	return v.n
}
func (w *Worker) cInt64(v Val) int {
	if t, ok := v.r.(*Term); ok {
		return int(int64(w.concretize(t)))
	}
	return int(int64(v.n))
}

// assume restricts the path.
func (w *Worker) assume(v Val) {
	if v.r == nil {
		if v.n == 0 {
			w.end(endAssume, "")
		}
		return
	}
	c := v.r.(*Term)
	if w.known[c] {
		return
	}
	if w.ts.Eval(c, w.model) != 0 {
		w.addCons(c)
		return
	}
	res, m := w.feasible(c)
	switch res {
	case resSat:
		w.model = m
		w.ts.Invalidate()
		w.addCons(c)
	case resUnsat:
		w.end(endAssume, "")
	default:
		w.end(endUnknown, "assumption undecided")
	}
}

func (w *Worker) store(p *Val, v Val) {
	switch s := v.r.(type) {
	case *Struct:
		if d, ok := p.r.(*Struct); ok {
			if d == s {
				return
			}
			for i := range s.f {
				w.store(&d.f[i], s.f[i])
			}
			return
		}
		v = copyVal(v)
	case *Arr:
		if d, ok := p.r.(*Arr); ok {
			if d == s {
				return
			}
			for i := range s.e {
				w.store(&d.e[i], s.e[i])
			}
			return
		}
		v = copyVal(v)
	}
	if w.logging {
		w.trail = append(w.trail, trailEnt{p, *p})
	}
	*p = v
}

// ---- maps ----

func newMap(ti *TInfo) *Map { return &Map{kt: ti.key, vt: ti.elem, idx: map[any]int{}} }

func (w *Worker) mapTouch(m *Map) {
	if !w.inited {
		m.shared = true
		return
	}
	if m.shared && m.snap == nil {
		s := &Map{idx: m.idx, ent: m.ent, live: m.live, nsym: m.nsym}
		m.snap = s
		w.mtrail = append(w.mtrail, m)
		ni := make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			ni[k] = v
		}
		m.idx = ni
		m.ent = append([]mapEntry(nil), m.ent...)
	}
}

func (w *Worker) mapFind(m *Map, k Val) int {
	key, ok := mapKey(m.kt, k)
	if ok {
		if i, ok := m.idx[key]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	// candidates by symbolic equality; try the model's match first
	first := -1
	type cand struct {
		i int
		c *Term
	}
	var cs []cand
	for i := range m.ent {
		e := &m.ent[i]
		if e.del {
			continue
		}
		if ok {
			if _, ek := mapKey(m.kt, e.k); ek {
				continue // concrete and different
			}
		}
		c := w.eq(m.kt, e.k, k)
		switch r := c.r.(type) {
		case nil:
			if c.n != 0 {
				return i
			}
		case *Term:
			cs = append(cs, cand{i, r})
			_ = first
		}
	}
	for _, c := range cs {
		if w.decide(c.c) {
			return c.i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *Map, k, v Val) {
	w.mapTouch(m)
	i := w.mapFind(m, k)
	if i >= 0 {
		m.ent[i].v = copyVal(v)
		return
	}
	key, ok := mapKey(m.kt, k)
	m.ent = append(m.ent, mapEntry{k: copyVal(k), v: copyVal(v)})
	if ok {
		m.idx[key] = len(m.ent) - 1
	} else {
		m.nsym++
	}
	m.live++
}

func (w *Worker) mapDel(m *Map, k Val) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	e := &m.ent[i]
	if key, ok := mapKey(m.kt, e.k); ok {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	e.del = true
	e.v = Val{}
	m.live--
}

// ---- equality ----

func (w *Worker) term(v Val, width uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return w.ts.Const(width, v.n)
}

func tv(t *Term) Val {
	if t.op == OConst {
		return Val{n: t.k}
	}
	return Val{r: t}
}

func (w *Worker) eq(ti *TInfo, x, y Val) Val {
	switch ti.k {
	case kBool, kInt:
		if x.r == nil && y.r == nil {
			return boolVal(x.n == y.n)
		}
		return tv(w.ts.Eq(w.term(x, ti.w), w.term(y, ti.w)))
	case kFloat:
		return boolVal(f64(x) == f64(y))
	case kString:
		if strLen(x) != strLen(y) {
			return Val{}
		}
		if xs, ok := conc(x); ok {
			if ys, ok := conc(y); ok {
				return boolVal(xs == ys)
			}
		}
		return tv(w.bytesEq(strBytes(x), strBytes(y)))
	case kPtr, kChan, kUnsafe, kMap, kSlice:
		if x.r == nil || y.r == nil {
			return boolVal(x.r == nil && y.r == nil)
		}
		return boolVal(x.r == y.r)
	case kFunc:
		if x.r == nil || y.r == nil {
			return boolVal(x.r == nil && y.r == nil)
		}
		panic(unsupported("func comparison"))
	case kIface:
		if x.r == nil || y.r == nil {
			return boolVal(x.r == nil && y.r == nil)
		}
		a, b := x.r.(*Iface), y.r.(*Iface)
		if a.t != b.t {
			return Val{}
		}
		switch a.t.k {
		case kSlice, kMap, kFunc:
			w.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return w.eq(a.t, a.v, b.v)
	case kStruct:
		a, b := x.r.(*Struct), y.r.(*Struct)
		r := w.ts.T
		for i, f := range ti.fields {
			c := w.eq(f, a.f[i], b.f[i])
			r = w.ts.And(r, w.term(c, 0))
			if r == w.ts.F {
				return Val{}
			}
		}
		return tv(r)
	case kArray:
		a, b := x.r.(*Arr), y.r.(*Arr)
		r := w.ts.T
		for i := range a.e {
			c := w.eq(ti.elem, a.e[i], b.e[i])
			r = w.ts.And(r, w.term(c, 0))
			if r == w.ts.F {
				return Val{}
			}
		}
		return tv(r)
	}
	panic(unsupported("equality on " + ti.String()))
}

func (w *Worker) bytesEq(a, b []Val) *Term {
	r := w.ts.T
	for i := range a {
		if a[i].r == nil && b[i].r == nil {
			if a[i].n != b[i].n {
				return w.ts.F
			}
		}
	}
	for i := range a {
		if a[i].r == nil && b[i].r == nil {
			continue
		}
		r = w.ts.And(r, w.ts.Eq(w.term(a[i], 8), w.term(b[i], 8)))
		if r == w.ts.F {
			return r
		}
	}
	return r
}

// strLess is x<y lexicographically.
func (w *Worker) strLess(x, y Val) Val {
	xs, ok1 := conc(x)
	ys, ok2 := conc(y)
	if ok1 && ok2 {
		return boolVal(xs < ys)
	}
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := w.ts.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(a[i], 8), w.term(b[i], 8)
		r = w.ts.Or(w.ts.Ult(p, q), w.ts.And(w.ts.Eq(p, q), r))
	}
	return tv(r)
}

// ---- panics ----

func (w *Worker) rtPanic(msg string) {
	panic(&targetPanic{Val{r: &Iface{t: w.eng.rtErrT, v: strVal(msg)}}})
}
func (w *Worker) nilPanic() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

// table read with a symbolic index (already bounds-checked).
func (w *Worker) tableRead(e []Val, idx *Term, ti *TInfo) Val {
	if len(e) == 0 {
		return Val{}
	}
	allConc := true
	for i := range e {
		if e[i].r != nil {
			allConc = false
			break
		}
	}
	scalar := ti.k == kInt || ti.k == kBool
	if !scalar {
		i := w.concretize(idx)
		return copyVal(e[i])
	}
	if !allConc {
		if len(e) > 64 {
			i := w.concretize(idx)
			return e[i]
		}
		r := w.term(e[len(e)-1], ti.w)
		for i := len(e) - 2; i >= 0; i-- {
			r = w.ts.Ite(w.ts.Eq(idx, w.ts.Const(idx.w, uint64(i))), w.term(e[i], ti.w), r)
		}
		return tv(r)
	}
	// affine runs: value = const, or value = idx + c
	type run struct {
		lo, hi int
		affine bool
		k      uint64
	}
	m := maskW(ti.w)
	var runs []run
	for i := 0; i < len(e); {
		j := i + 1
		for j < len(e) && e[j].n == e[i].n {
			j++
		}
		if j-i >= 2 || ti.w == 0 {
			runs = append(runs, run{i, j - 1, false, e[i].n})
			i = j
			continue
		}
		j = i + 1
		for j < len(e) && e[j].n == (e[i].n+uint64(j-i))&m {
			j++
		}
		if j-i >= 3 {
			runs = append(runs, run{i, j - 1, true, (e[i].n - uint64(i)) & m})
			i = j
			continue
		}
		runs = append(runs, run{i, i, false, e[i].n})
		i++
	}
	if len(runs) > 400 {
		return e[w.concretize(idx)]
	}
	var ex *Term
	if ti.w > 0 {
		if idx.w > ti.w {
			ex = w.ts.Trunc(idx, ti.w)
		} else {
			ex = w.ts.ZExt(idx, ti.w)
		}
	}
	val := func(r run) *Term {
		if r.affine {
			return w.ts.Bin(OAdd, ex, w.ts.Const(ti.w, r.k))
		}
		return w.ts.Const(ti.w, r.k)
	}
	// default: most frequent constant
	cnt := map[uint64]int{}
	best, bestN := uint64(0), -1
	for _, r := range runs {
		if !r.affine {
			cnt[r.k] += r.hi - r.lo + 1
			if cnt[r.k] > bestN {
				best, bestN = r.k, cnt[r.k]
			}
		}
	}
	var res *Term
	if bestN >= 0 {
		res = w.ts.Const(ti.w, best)
	} else {
		res = val(runs[len(runs)-1])
		runs = runs[:len(runs)-1]
	}
	for i := len(runs) - 1; i >= 0; i-- {
		r := runs[i]
		if bestN >= 0 && !r.affine && r.k == best {
			continue
		}
		var c *Term
		if r.lo == r.hi {
			c = w.ts.Eq(idx, w.ts.Const(idx.w, uint64(r.lo)))
		} else {
			c = w.ts.And(w.ts.Ule(w.ts.Const(idx.w, uint64(r.lo)), idx), w.ts.Ule(idx, w.ts.Const(idx.w, uint64(r.hi))))
		}
		res = w.ts.Ite(c, val(r), res)
	}
	return tv(res)
}

func (w *Worker) stackTrace() string {
	return strings.TrimSpace("")
}

var _ = ssa.NaiveForm
