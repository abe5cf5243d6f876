package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Term is a hash-consed bit-vector / boolean expression. w==0 means boolean.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OIte
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc", "ite"}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	id      uint32
	vars    []int32
	gen     uint32
	val     uint64
	mark    uint32
	cnt     uint32
	nm      int32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

type TermStore struct {
	doms map[*Term]*byteSet
	tab  map[termKey]*Term
	next uint32
	T, F *Term
	gen  uint32
	mark uint32
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: map[termKey]*Term{}, gen: 1, doms: map[*Term]*byteSet{}}
	s.T = s.mk(OConst, 0, nil, nil, nil, 1)
	s.F = s.mk(OConst, 0, nil, nil, nil, 0)
	return s
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (s *TermStore) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := s.tab[key]; ok {
		return t
	}
	s.next++
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: s.next}
	if op == OVar {
		t.vars = []int32{int32(k)}
	} else if op != OConst {
		t.vars = a.vars
		if b != nil {
			t.vars = unionVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = unionVars(t.vars, c.vars)
		}
	}
	s.tab[key] = t
	return t
}

func unionVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// subset tests
	if len(x) >= len(y) && subset(y, x) {
		return x
	}
	if len(y) > len(x) && subset(x, y) {
		return y
	}
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			r = append(r, x[i])
			i++
		case x[i] > y[j]:
			r = append(r, y[j])
			j++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	r = append(r, x[i:]...)
	r = append(r, y[j:]...)
	return r
}

func subset(x, y []int32) bool {
	j := 0
	for _, v := range x {
		for j < len(y) && y[j] < v {
			j++
		}
		if j == len(y) || y[j] != v {
			return false
		}
	}
	return true
}

func maskW(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (s *TermStore) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return s.T
		}
		return s.F
	}
	return s.mk(OConst, w, nil, nil, nil, v&maskW(w))
}
func (s *TermStore) Var(w uint8, idx int) *Term { return s.mk(OVar, w, nil, nil, nil, uint64(idx)) }

func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.T
	}
	return s.F
}

func (s *TermStore) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return s.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return s.mk(OUle, 0, a.b, a.a, nil, 0)
	case OUle:
		return s.mk(OUlt, 0, a.b, a.a, nil, 0)
	case OSlt:
		return s.mk(OSle, 0, a.b, a.a, nil, 0)
	case OSle:
		return s.mk(OSlt, 0, a.b, a.a, nil, 0)
	}
	return s.mk(ONot, 0, a, nil, nil, 0)
}

func (s *TermStore) And(a, b *Term) *Term {
	if a == s.F || b == s.F {
		return s.F
	}
	if a == s.T {
		return b
	}
	if b == s.T || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return s.F
	}
	return s.mk(OAnd, 0, a, b, nil, 0)
}

func (s *TermStore) Or(a, b *Term) *Term {
	if a == s.T || b == s.T {
		return s.T
	}
	if a == s.F {
		return b
	}
	if b == s.F || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return s.T
	}
	return s.mk(OOr, 0, a, b, nil, 0)
}

// umax returns an upper bound of the unsigned value of t.
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZExt:
		return umax(t.a)
	case OBAnd:
		x, y := umax(t.a), umax(t.b)
		if x < y {
			return x
		}
		return y
	case OIte:
		x, y := umax(t.b), umax(t.c)
		if x > y {
			return x
		}
		return y
	case OURem:
		if t.b.op == OConst && t.b.k > 0 {
			return t.b.k - 1
		}
	case OAdd:
		x, y := umax(t.a), umax(t.b)
		if sum, c := bits.Add64(x, y, 0); c == 0 && sum <= maskW(t.w) {
			return sum
		}
	case OMul:
		x, y := umax(t.a), umax(t.b)
		if hi, lo := bits.Mul64(x, y); hi == 0 && lo <= maskW(t.w) {
			return lo
		}
	case OLShr:
		if t.b.op == OConst && t.b.k < 64 {
			return umax(t.a) >> t.b.k
		}
	case OBOr:
		x := umax(t.a) | umax(t.b)
		n := bits.Len64(x)
		return maskW64(n)
	}
	return maskW(t.w)
}

func maskW64(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << n) - 1
}

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.op == OConst && b.op == OConst {
		return s.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b == s.T {
			return a
		}
		if b == s.F {
			return s.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			if b.k > maskW(a.a.w) {
				return s.F
			}
			return s.Eq(a.a, s.Const(a.a.w, b.k))
		case OSExt:
			if uint64(sext(b.k&maskW(a.a.w), a.a.w))&maskW(a.w) != b.k {
				return s.F
			}
			return s.Eq(a.a, s.Const(a.a.w, b.k))
		case OAdd:
			if a.b.op == OConst {
				return s.Eq(a.a, s.Const(a.w, b.k-a.b.k))
			}
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				switch {
				case a.b.k == b.k && a.c.k == b.k:
					return s.T
				case a.b.k == b.k:
					return a.a
				case a.c.k == b.k:
					return s.Not(a.a)
				default:
					return s.F
				}
			}
			x, y := s.Eq(a.b, b), s.Eq(a.c, b)
			return s.IteB(a.a, x, y)
		}
		if b.k > umax(a) {
			return s.F
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return s.Eq(a.a, b.a)
	} else if b.id < a.id {
		a, b = b, a
	}
	return s.mk(OEq, 0, a, b, nil, 0)
}

// IteB is a boolean if-then-else built from and/or.
func (s *TermStore) IteB(c, x, y *Term) *Term {
	if c == s.T || x == y {
		return x
	}
	if c == s.F {
		return y
	}
	if x == s.T {
		return s.Or(c, y)
	}
	if x == s.F {
		return s.And(s.Not(c), y)
	}
	if y == s.T {
		return s.Or(s.Not(c), x)
	}
	if y == s.F {
		return s.And(c, x)
	}
	return s.Or(s.And(c, x), s.And(s.Not(c), y))
}

func (s *TermStore) Ite(c, x, y *Term) *Term {
	if c == s.T || x == y {
		return x
	}
	if c == s.F {
		return y
	}
	if x.w == 0 {
		return s.IteB(c, x, y)
	}
	if c.op == ONot {
		return s.mk(OIte, x.w, c.a, y, x, 0)
	}
	return s.mk(OIte, x.w, c, x, y, 0)
}

func (s *TermStore) Ult(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.op == OConst && b.op == OConst {
		return s.Bool(a.k < b.k)
	}
	if b.op == OConst {
		if b.k == 0 {
			return s.F
		}
		if umax(a) < b.k {
			return s.T
		}
		if b.k == 1 {
			return s.Eq(a, s.Const(a.w, 0))
		}
		if a.op == OZExt {
			if b.k > maskW(a.a.w) {
				return s.T
			}
			return s.Ult(a.a, s.Const(a.a.w, b.k))
		}
	}
	if a.op == OConst {
		if a.k >= umax(b) {
			return s.F
		}
		if b.op == OZExt {
			return s.Ult(s.Const(b.a.w, a.k), b.a)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return s.Ult(a.a, b.a)
	}
	return s.mk(OUlt, 0, a, b, nil, 0)
}
func (s *TermStore) Ule(a, b *Term) *Term { return s.Not(s.Ult(b, a)) }

func smallPos(t *Term) bool { return umax(t) <= maskW(t.w)>>1 }

func (s *TermStore) Slt(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.op == OConst && b.op == OConst {
		return s.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	if smallPos(a) && smallPos(b) {
		return s.Ult(a, b)
	}
	if b.op == OConst && sext(b.k, b.w) <= 0 && smallPos(a) {
		return s.F
	}
	if a.op == OConst && sext(a.k, a.w) < 0 && smallPos(b) {
		return s.T
	}
	return s.mk(OSlt, 0, a, b, nil, 0)
}
func (s *TermStore) Sle(a, b *Term) *Term { return s.Not(s.Slt(b, a)) }

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := maskW(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return s.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return s.Bin(OAdd, a.a, s.Const(w, a.b.k+b.k))
			}
		} else if b.id < a.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return s.Const(w, 0)
		}
		if b.op == OConst {
			return s.Bin(OAdd, a, s.Const(w, -b.k))
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch b.k {
			case 0:
				return b
			case 1:
				return a
			}
		} else if b.id < a.id {
			a, b = b, a
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == maskW(w) {
				return a
			}
			// mask covering all possible bits
			if um := umax(a); b.k&(b.k+1) == 0 && um <= b.k {
				return a
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return s.Const(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if op != OAShr && b.k >= uint64(w) {
				return s.Const(w, 0)
			}
			if op == OLShr && umax(a)>>b.k == 0 {
				return s.Const(w, 0)
			}
		}
	case OUDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
		if b.op == OConst && b.k != 0 && umax(a) < b.k {
			return s.Const(w, 0)
		}
	case OURem:
		if b.op == OConst && b.k == 1 {
			return s.Const(w, 0)
		}
		if b.op == OConst && b.k != 0 && umax(a) < b.k {
			return a
		}
	case OSDiv:
		if smallPos(a) && smallPos(b) {
			return s.Bin(OUDiv, a, b)
		}
	case OSRem:
		if smallPos(a) && smallPos(b) {
			return s.Bin(OURem, a, b)
		}
	}
	return s.mk(op, w, a, b, nil, 0)
}

func (s *TermStore) BNot(a *Term) *Term {
	if a.op == OConst {
		return s.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return s.mk(OBNot, a.w, a, nil, nil, 0)
}
func (s *TermStore) Neg(a *Term) *Term {
	if a.op == OConst {
		return s.Const(a.w, -a.k)
	}
	return s.mk(ONeg, a.w, a, nil, nil, 0)
}

func (s *TermStore) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return s.Const(w, a.k)
	case OZExt:
		return s.ZExt(a.a, w)
	case OIte:
		if a.b.op == OConst && a.c.op == OConst {
			return s.Ite(a.a, s.Const(w, a.b.k), s.Const(w, a.c.k))
		}
	}
	return s.mk(OZExt, w, a, nil, nil, 0)
}
func (s *TermStore) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return s.Const(w, uint64(sext(a.k, a.w)))
	}
	if smallPos(a) {
		return s.ZExt(a, w)
	}
	return s.mk(OSExt, w, a, nil, nil, 0)
}
func (s *TermStore) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return s.Const(w, a.k)
	case OZExt, OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return s.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return s.ZExt(a.a, w)
		}
		return s.SExt(a.a, w)
	case OTrunc:
		return s.Trunc(a.a, w)
	case OAdd, OSub, OBAnd, OBOr, OBXor, OMul:
		// modular: push truncation inside when an operand narrows
		if a.a.op == OZExt || a.b.op == OZExt || a.a.op == OConst || a.b.op == OConst {
			return s.Bin(a.op, s.Trunc(a.a, w), s.Trunc(a.b, w))
		}
	case OIte:
		return s.Ite(a.a, s.Trunc(a.b, w), s.Trunc(a.c, w))
	}
	return s.mk(OTrunc, w, a, nil, nil, 0)
}

// Eval evaluates t under the model (values by variable index); memoised per generation.
func (s *TermStore) Eval(t *Term, m []uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.gen == s.gen {
		return t.val
	}
	var v uint64
	switch t.op {
	case OVar:
		if int(t.k) < len(m) {
			v = m[t.k] & maskW(t.w)
		}
	case ONot:
		v = 1 - s.Eval(t.a, m)
	case OAnd:
		v = s.Eval(t.a, m)
		if v != 0 {
			v = s.Eval(t.b, m)
		}
	case OOr:
		v = s.Eval(t.a, m)
		if v == 0 {
			v = s.Eval(t.b, m)
		}
	case OEq:
		v = b2u(s.Eval(t.a, m) == s.Eval(t.b, m))
	case OUlt:
		v = b2u(s.Eval(t.a, m) < s.Eval(t.b, m))
	case OUle:
		v = b2u(s.Eval(t.a, m) <= s.Eval(t.b, m))
	case OSlt:
		v = b2u(sext(s.Eval(t.a, m), t.a.w) < sext(s.Eval(t.b, m), t.a.w))
	case OSle:
		v = b2u(sext(s.Eval(t.a, m), t.a.w) <= sext(s.Eval(t.b, m), t.a.w))
	case OBNot:
		v = ^s.Eval(t.a, m) & maskW(t.w)
	case ONeg:
		v = -s.Eval(t.a, m) & maskW(t.w)
	case OZExt:
		v = s.Eval(t.a, m)
	case OSExt:
		v = uint64(sext(s.Eval(t.a, m), t.a.w)) & maskW(t.w)
	case OTrunc:
		v = s.Eval(t.a, m) & maskW(t.w)
	case OIte:
		if s.Eval(t.a, m) != 0 {
			v = s.Eval(t.b, m)
		} else {
			v = s.Eval(t.c, m)
		}
	default:
		v = evalBin(t.op, t.w, s.Eval(t.a, m), s.Eval(t.b, m))
	}
	t.gen = s.gen
	t.val = v
	return v
}

// Invalidate drops memoised evaluations (call when the model changes).
func (s *TermStore) Invalidate() { s.gen++ }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// printer emits an SMT-LIB script for a conjunction with canonical variable names.
type printer struct {
	s     *TermStore
	sb    strings.Builder
	ren   map[int32]int // var idx -> canonical
	order []varRef
	names int
}
type varRef struct {
	idx int32
	w   uint8
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *printer) count(t *Term) {
	if t.op == OConst {
		return
	}
	if t.mark != p.s.mark {
		t.mark = p.s.mark
		t.cnt = 1
		t.nm = -1
		if t.op == OVar {
			if _, ok := p.ren[int32(t.k)]; !ok {
				p.ren[int32(t.k)] = len(p.order)
				p.order = append(p.order, varRef{int32(t.k), t.w})
			}
			return
		}
		p.count(t.a)
		if t.b != nil {
			p.count(t.b)
		}
		if t.c != nil {
			p.count(t.c)
		}
		return
	}
	t.cnt++
}

func (p *printer) expr(sb *strings.Builder, t *Term) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.k, t.w)
		return
	case OVar:
		fmt.Fprintf(sb, "v%d", p.ren[int32(t.k)])
		return
	}
	if t.nm >= 0 {
		fmt.Fprintf(sb, "t%d", t.nm)
		return
	}
	if t.cnt > 1 {
		var in strings.Builder
		p.raw(&in, t)
		t.nm = int32(p.names)
		p.names++
		fmt.Fprintf(&p.sb, "(define-fun t%d () %s %s)\n", t.nm, sortOf(t.w), in.String())
		fmt.Fprintf(sb, "t%d", t.nm)
		return
	}
	p.raw(sb, t)
}

func (p *printer) raw(sb *strings.Builder, t *Term) {
	switch t.op {
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a.w)
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a.w)
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		sb.WriteByte(' ')
	}
	p.expr(sb, t.a)
	if t.b != nil {
		sb.WriteByte(' ')
		p.expr(sb, t.b)
	}
	if t.c != nil {
		sb.WriteByte(' ')
		p.expr(sb, t.c)
	}
	sb.WriteByte(')')
}

// Script renders the conjunction; returns body (asserts and defs), and the canonical variables.
func (s *TermStore) Script(cs []*Term) (string, []varRef) {
	s.mark++
	p := &printer{s: s, ren: map[int32]int{}}
	for _, c := range cs {
		p.count(c)
	}
	for _, c := range cs {
		var in strings.Builder
		p.expr(&in, c)
		p.sb.WriteString("(assert ")
		p.sb.WriteString(in.String())
		p.sb.WriteString(")\n")
	}
	var hd strings.Builder
	for i, v := range p.order {
		fmt.Fprintf(&hd, "(declare-const v%d %s)\n", i, sortOf(v.w))
	}
	return hd.String() + p.sb.String(), p.order
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return fmt.Sprintf("x%d", t.k)
	}
	r := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + x.String()
		}
	}
	return r + ")"
}
