package main

import "math/bits"

// Byte domains: for every 8-bit variable the set of values left by the path
// constraints that mention only that variable. It refutes branch conditions
// without a solver call; assertions are always put to the solver.

type byteSet [4]uint64

func (b *byteSet) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }

func (w *Worker) unary(c *Term) bool {
	return len(c.vars) == 1 && w.varW[c.vars[0]] == 8
}

// setOf is the set of values of its only variable satisfying c.
func (w *Worker) setOf(c *Term) *byteSet {
	if s, ok := w.ts.doms[c]; ok {
		return s
	}
	s := &byteSet{}
	idx := c.vars[0]
	m := w.domModel
	for len(m) <= int(idx) {
		m = append(m, 0)
	}
	w.domModel = m
	for v := 0; v < 256; v++ {
		m[idx] = uint64(v)
		w.ts.Invalidate()
		if w.ts.Eval(c, m) != 0 {
			s[v>>6] |= 1 << (v & 63)
		}
	}
	w.ts.Invalidate()
	w.ts.doms[c] = s
	return s
}

func (w *Worker) domAdd(c *Term) {
	if !w.unary(c) {
		return
	}
	s := w.setOf(c)
	d := w.dom[c.vars[0]]
	if d == nil {
		x := *s
		w.dom[c.vars[0]] = &x
		return
	}
	for i := range d {
		d[i] &= s[i]
	}
}

// domRefutes tells that no value of some byte satisfies c on this path.
func (w *Worker) domRefutes(c *Term) bool {
	if c.op == OAnd {
		return w.domRefutes(c.a) || w.domRefutes(c.b)
	}
	if c.op == OOr {
		return w.domRefutes(c.a) && w.domRefutes(c.b)
	}
	if c.op == OConst {
		return c.k == 0
	}
	if !w.unary(c) {
		return w.rangeRefutes(c)
	}
	d := w.dom[c.vars[0]]
	if d == nil {
		return false
	}
	s := w.setOf(c)
	return d[0]&s[0]|d[1]&s[1]|d[2]&s[2]|d[3]&s[3] == 0
}

// rng is an interval holding the unsigned value of t on this path.
func (w *Worker) rng(t *Term) (uint64, uint64) {
	if t.op == OConst {
		return t.k, t.k
	}
	if len(t.vars) == 1 && w.varW[t.vars[0]] == 8 && w.dom[t.vars[0]] != nil {
		d := w.dom[t.vars[0]]
		key := rngKey{t, *d}
		if r, ok := w.rngs[key]; ok {
			return r[0], r[1]
		}
		idx := t.vars[0]
		m := w.domModel
		for len(m) <= int(idx) {
			m = append(m, 0)
		}
		w.domModel = m
		lo, hi := ^uint64(0), uint64(0)
		for v := 0; v < 256; v++ {
			if d[v>>6]>>(v&63)&1 == 0 {
				continue
			}
			m[idx] = uint64(v)
			w.ts.Invalidate()
			x := w.ts.Eval(t, m)
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		w.ts.Invalidate()
		if lo > hi {
			lo, hi = 0, maskW(t.w)
		}
		if w.rngs == nil || len(w.rngs) > 1<<16 {
			w.rngs = map[rngKey][2]uint64{}
		}
		w.rngs[key] = [2]uint64{lo, hi}
		return lo, hi
	}
	switch t.op {
	case OZExt:
		return w.rng(t.a)
	case OAdd:
		al, ah := w.rng(t.a)
		bl, bh := w.rng(t.b)
		if sum, c := bits.Add64(ah, bh, 0); c == 0 && sum <= maskW(t.w) {
			return al + bl, sum
		}
	case OMul:
		al, ah := w.rng(t.a)
		bl, bh := w.rng(t.b)
		if hi, lo := bits.Mul64(ah, bh); hi == 0 && lo <= maskW(t.w) {
			return al * bl, lo
		}
	}
	return 0, umax(t)
}

type rngKey struct {
	t *Term
	d byteSet
}

// rangeRefutes tells that the intervals of the two sides contradict c.
func (w *Worker) rangeRefutes(c *Term) bool {
	neg := false
	for c.op == ONot {
		neg = !neg
		c = c.a
	}
	if c.op != OUlt && c.op != OEq || c.a.w == 0 {
		return false
	}
	al, ah := w.rng(c.a)
	bl, bh := w.rng(c.b)
	if c.op == OUlt {
		if neg {
			return ah < bl
		}
		// x+y < x without overflow
		if c.a.op == OAdd && (c.a.a == c.b || c.a.b == c.b) {
			_, xh := w.rng(c.a.a)
			_, yh := w.rng(c.a.b)
			if sum, cy := bits.Add64(xh, yh, 0); cy == 0 && sum <= maskW(c.a.w) {
				return true
			}
		}
		return al >= bh
	}
	if neg {
		return al == ah && bl == bh && al == bl
	}
	return ah < bl || bh < al
}

// peel splits t into 10*rest+digit; ok tells that the parts were found.
func (w *Worker) peel(t *Term) (rest, digit *Term, ok bool) {
	ten := func(x *Term) *Term {
		if x.op == OMul && x.b.op == OConst && x.b.k == 10 {
			if _, h := w.rng(x.a); h <= (maskW(t.w)-9)/10 {
				return x.a
			}
		}
		if x.op == OConst && x.k%10 == 0 && x.k != 0 {
			return w.ts.Const(t.w, x.k/10)
		}
		return nil
	}
	if t.op == OAdd {
		for i := 0; i < 2; i++ {
			a, b := t.a, t.b
			if i == 1 {
				a, b = b, a
			}
			if _, h := w.rng(b); h < 10 {
				if r := ten(a); r != nil {
					// the sum must not wrap
					if _, rh := w.rng(r); rh <= (maskW(t.w)-9)/10 {
						return r, b, true
					}
				}
			}
		}
	}
	if r := ten(t); r != nil && t.op != OConst {
		return r, w.ts.Const(t.w, 0), true
	}
	return nil, nil, false
}
