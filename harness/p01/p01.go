// Package p01 decides that analysing any source, and any query on the result, returns.
// A crash, an index outside a slice or a nil dereference on any path is a violation.
package p01

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/v"
)

type rng struct{ l1, c1, l2, c2 int }

func (r rng) StartLine() int      { return r.l1 }
func (r rng) StartCharacter() int { return r.c1 }
func (r rng) EndLine() int        { return r.l2 }
func (r rng) EndCharacter() int   { return r.c2 }

// queries asks everything at line l, character ch, and over the range from
// there to line l2.
func queries(r *teal.ProcessResult, l, ch, l2, ch2 int) {
	arg, idx, ok := r.ArgAt(l, ch)
	if ok {
		v.Assert(idx >= 0, "argument index")
		r.ArgVals(arg)
		v.Reach("argument")
	}
	vals := r.ArgValsAt(l, ch)
	doc := r.DocAt(l, ch)
	p := rng{l, ch, l, ch}
	name := r.SymOrRefAt(p)
	r.SymByName(name)
	r.SymRefByName(name)
	a := len(r.SymbolsWithin(p)) + len(r.SymbolRefsWithin(p)) + len(r.SymbolsForRefWithin(p))
	w := rng{l, ch, l2, ch2}
	b := len(r.SymbolsWithin(w)) + len(r.SymbolRefsWithin(w)) + len(r.SymbolsForRefWithin(w))
	h := r.InlayHints(w)
	v.Obs("q", len(vals), doc, name, a, b, len(h.Named), len(h.Decoded))
}

func pos(n int, width int) (int, int, int, int) {
	l := v.Pick("line", n+2)
	l2 := l + v.Pick("lines", 2)
	return l, v.Int("ch", 0, width), l2, v.Int("ch2", 0, width)
}

func result(r *teal.ProcessResult) {
	v.Assert(r != nil, "no result")
	v.Assert(r.Version >= 1, "no version")
	for _, d := range r.Diagnostics {
		v.Assert(d.String() != "" && d.Rule() != "", "empty diagnostic")
		d.Severity()
	}
	for i := range r.Listing {
		v.Assert(r.Listing[i] != nil, "nil listing entry")
	}
	v.Obs("r", len(r.Lines), len(r.Diagnostics), r.Version)
}

// CheckBytes: every source of at most 4 (thorough 5) arbitrary bytes.
func CheckBytes() {
	result(teal.Process(v.Str("src", v.Pick("len", 5+v.Tier()))))
}

// CheckQueries: every source of at most 2 (thorough 3) arbitrary bytes, every query at every
// position inside or after it.
func CheckQueries() {
	s := v.Str("src", v.Pick("len", 3+v.Tier()))
	r := teal.Process(s)
	result(r)
	l, a, l2, b := pos(len(r.Lines), len(s)+1)
	queries(r, l, a, l2, b)
}

// CheckOps: every opcode followed by 2 (thorough 3) arbitrary bytes below 0x80 in place of its
// immediates, every query at every position on that line.
func CheckOps() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	t := v.Str("imm", 2+v.Tier())
	for i := 0; i < len(t); i++ {
		v.Assume(t[i] < 0x80)
	}
	s := op.Name + " " + t
	r := teal.Process(s)
	result(r)
	queries(r, 0, v.Int("ch", 0, len(s)+1), 0, len(s))
}

// CheckTails: every opcode with valid immediates followed by 2 (thorough 3) arbitrary bytes.
func CheckTails() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	s := op.Name + libavm.Sample(op.Imm) + v.Str("tail", 2+v.Tier())
	r := teal.Process(s)
	result(r)
	queries(r, 0, v.Int("ch", 0, len(s)+1), 0, len(s))
}

var heads = []string{"byte base32 ", "byte b64(", "byte \"", "byte 0x", "int 0x", "int ", "method \"", "#pragma ", "#pragma version ", "//#pragma mode ", "pushints 1 ", "txna ", "addr "}

// CheckLiterals: 13 literal and pragma beginnings followed by 4 (thorough 5) arbitrary ASCII bytes.
func CheckLiterals() {
	t := v.Str("lit", 4+v.Tier())
	for i := 0; i < len(t); i++ {
		v.Assume(t[i] < 0x80)
	}
	result(teal.Process(heads[v.Pick("head", len(heads))] + t))
}

var words = []string{"", "b", "b x", "x:", "proto 1 2", "//c", "switch x y", "return", "txn 0", "byte 0x41", "#pragma version 9", "nosuch", ":", "int"}

// CheckPrograms: every program of 3 (thorough 4) lines out of 14, with every query at every position.
func CheckPrograms() {
	s := ""
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "\n"
		}
		s += words[v.Pick("word", len(words))]
	}
	r := teal.Process(s)
	result(r)
	l, a, l2, b := pos(len(r.Lines), 12)
	queries(r, l, a, l2, b)
}

// CheckFar: sources of 300 repetitions of one of ten fragments, in one or many lines, before and behind one of the words above,
// with every query on the last line.
func CheckFar() {
	u := []string{"a ", "\"", "//", "x:", "b x", "int 1", "switch x x x x x x x x", "(", "\\", "byte 0x00"}[v.Pick("unit", 10)]
	sep := []string{"", " ", "\n"}[v.Pick("sep", 3)]
	long := u
	n := 1
	for len(long) < 600 {
		long += sep + u
		n++
	}
	w := words[v.Pick("word", len(words))]
	s := w + sep + long + sep + w
	r := teal.Process(s)
	result(r)
	l := 0
	if sep == "\n" {
		l = n + 1
	}
	c := v.Pick("ch", 3)
	queries(r, l, c, l, c+9)
}
