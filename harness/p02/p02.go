// Package p02 decides that line numbers reported by the analysis are the true source lines.
package p02

import (
	"github.com/dragmz/teal"
	g "github.com/dragmz/teal/zzverif/libgen"
	src "github.com/dragmz/teal/zzverif/libsrc"
	"github.com/dragmz/teal/zzverif/v"
)

// shape checks what must hold for any source.
func shape(s string) (*teal.ProcessResult, []src.L) {
	ls := src.Split(s)
	r := teal.Process(s)
	n := len(ls)
	if src.Blank(ls[n-1].Text) {
		n-- // nothing after the last line end
	}
	v.Assert(len(r.Lines) == n, "not one line entry per source line")
	v.Assert(len(r.Listing) == n, "not one listing entry per source line")
	for i := range r.Lines {
		b := 0
		for _, t := range r.Lines[i] {
			v.Assert(t.Type() == teal.TokenValue || t.Type() == teal.TokenComment && len(r.Lines[i]) == 1, "a line entry holds more than words")
			v.Assert(t.Line() == i, "a line entry holds a token of another line")
			v.Assert(t.Begin() >= b && t.End() <= len(ls[i].Text), "a line entry holds a token outside its line")
			b = t.End()
		}
		if src.Blank(ls[i].Text) {
			v.Assert(len(r.Lines[i]) == 0, "tokens on a blank line")
		} else {
			v.Assert(len(r.Lines[i]) > 0, "no tokens on a line with text")
			v.Assert(src.Blank(ls[i].Text[:r.Lines[i][0].Begin()]), "the first token of a line is missing")
		}
	}
	for _, d := range r.Diagnostics {
		v.Assert(d.Line() >= 0 && d.Line() < n, "diagnostic outside the source")
		v.Assert(d.Begin() >= 0 && d.Begin() <= d.End() && d.End() <= len(ls[d.Line()].Text), "diagnostic outside its line")
	}
	at := func(ts []teal.Token, what string) {
		for _, t := range ts {
			v.Assert(t.Line() >= 0 && t.Line() < n, what+" outside the source")
			v.Assert(t.Begin() >= 0 && t.Begin() < t.End() && t.End() <= len(ls[t.Line()].Text), what+" outside its line")
			x := ls[t.Line()].Text[t.Begin():t.End()]
			if x[0] != '"' {
				v.Assert(x == t.String(), what+" does not stand where it is reported")
			}
		}
	}
	at(r.SymbolRefs, "label operand")
	at(r.Ops, "opcode")
	at(r.Numbers, "number")
	at(r.Strings, "string")
	at(r.Keywords, "keyword")
	at(r.Macros, "macro")
	for _, y := range r.Symbols {
		v.Assert(y.Line() >= 0 && y.Line() < n, "label outside the source")
		v.Assert(y.Begin() >= 0 && y.End() <= len(ls[y.Line()].Text), "label outside its line")
		v.Assert(ls[y.Line()].Text[y.Begin():y.End()] == y.Name()+":", "label does not stand where it is reported")
	}
	for _, d := range r.Redundants {
		v.Assert(d.Line() >= 0 && d.Line() < n, "redundant line outside the source")
	}
	v.Obs("n", len(r.Lines), len(r.Diagnostics), len(r.Tokens))
	return r, ls
}

// CheckBytes: every source of at most 4 (thorough 5) arbitrary bytes.
func CheckBytes() {
	shape(v.Str("src", v.Pick("len", 5+v.Tier())))
}

// CheckShapes: every source of 6 (thorough 7) bytes out of blank, line ends, quote,
// backslash, slash, colon and the letter b (a branch opcode).
func CheckShapes() {
	s := v.Str("src", 6+v.Tier())
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.Or(v.Or(v.Or(c == ' ', c == '\n'), v.Or(c == '\r', c == '"')), v.Or(v.Or(c == '\\', c == '/'), v.Or(c == ':', c == 'b'))))
	}
	shape(s)
}

// heads are line beginnings, one per group of opcodes that read their operands alike.
var heads = []string{"b ", "int ", "byte ", "txn ", "method ", "gtxna 0 ", "pushints 1 ", "switch x ", "#pragma version ", "proto 1 "}

// CheckOperands: an instruction of ten operand shapes followed by 4 (thorough 5) arbitrary ASCII
// bytes, a label line and a branch to it; the three last lines stay where they are.
func CheckOperands() {
	t := v.Str("tail", 4+v.Tier())
	for i := 0; i < len(t); i++ {
		v.Assume(t[i] < 0x80)
	}
	s := heads[v.Pick("head", len(heads))] + t + "\nq:\nb q\nz"
	r, ls := shape(s)
	k := len(ls)
	l, ok := r.Listing[k-3].(*teal.LabelExpr)
	v.Assert(ok && l.Name == "q", "the listing entry of a label line is not that label")
	b, ok := r.Listing[k-2].(*teal.BExpr)
	v.Assert(ok && b.Label.Name == "q", "the listing entry of a branch line is not that branch")
	found := false
	for _, y := range r.Symbols {
		if y.Name() == "q" && y.Line() == k-3 {
			found = true
		}
	}
	v.Assert(found, "label reported on another line")
	bad := false
	for _, d := range r.Diagnostics {
		if d.Line() == k-1 && d.Begin() == 0 && d.End() == 1 {
			bad = true
		}
	}
	v.Assert(bad, "an unknown opcode is not reported on its line")
}

var menu = []int{g.Blank, g.Comment, g.Label, g.B, g.Switch2, g.Op, g.Return, g.Pragma, g.Bad, g.TooMany, g.PragmaB, g.BIndent}

// CheckPrograms: programs of 4 lines (thorough 5) out of 12 line forms and the
// three line ends, with or without a final one: every listing entry is that of
// its line and each parse error stands on its line.
func CheckPrograms() {
	eol := []string{"\n", "\r\n", "\r"}[v.Pick("eol", 3)]
	ls := g.Program(menu, 4+v.Tier(), g.Name1(2))
	s := g.Source(ls, eol)
	if v.Bool("final") {
		s += eol
	}
	r, _ := shape(s)
	n := len(r.Listing)
	for i := range ls {
		l := &ls[i]
		if i >= n {
			break
		}
		errs := 0
		for _, d := range r.Diagnostics {
			if d.Line() == i && d.Rule() == "PARSE" {
				errs++
			}
		}
		switch op := r.Listing[i].(type) {
		case *teal.LabelExpr:
			v.Assert(l.IsLabel() && op.Name == l.Def, "label entry on a wrong line")
		case *teal.BExpr:
			v.Assert(l.IsB() && op.Label.Name == l.Uses[0].Name, "branch entry on a wrong line")
		case *teal.SwitchExpr:
			v.Assert(l.Kind == g.Switch2 && len(op.Targets) == 2, "switch entry on a wrong line")
		case *teal.IntExpr:
			v.Assert(l.Kind == g.Op, "int entry on a wrong line")
		case *teal.ReturnExpr:
			v.Assert(l.Kind == g.Return, "return entry on a wrong line")
		case *teal.PragmaExpr:
			v.Assert(l.Kind == g.Pragma, "pragma entry on a wrong line")
		default:
			v.Assert(!l.Instr() && !l.IsLabel() && l.Kind != g.Pragma, "empty entry for a line that holds something")
		}
		x := 0
		switch l.Kind {
		case g.Bad, g.TooMany, g.PragmaB:
			x = 1
		}
		v.Assert(errs == x, "parse errors do not stand on their lines")
	}
}

// CheckVeryFar: 300 lines of one of three forms, then a label, a branch to it and a line of one of four forms, with or without a final
// line end.
func CheckVeryFar() {
	k := []string{"int 1", "", "zz"}[v.Pick("filler", 3)]
	s := ""
	for i := 0; i < 300; i++ {
		s += k + "\n"
	}
	last := []string{"q:", "b q", "zz", "// c"}[v.Pick("last", 4)]
	s += "q:\nb q\n" + last
	if v.Bool("final") {
		s += "\n"
	}
	r, _ := shape(s)
	v.Assert(len(r.Listing) == 303, "not one listing entry per source line")
	l, ok := r.Listing[300].(*teal.LabelExpr)
	v.Assert(ok && l.Name == "q", "the listing entry of a label line is not that label")
	b, ok := r.Listing[301].(*teal.BExpr)
	v.Assert(ok && b.Label.Name == "q", "the listing entry of a branch line is not that branch")
	_, ok = r.Listing[302].(*teal.BExpr)
	v.Assert(ok == (last == "b q"), "the listing entry of the last line is another one's")
	_, ok = r.Listing[302].(*teal.LabelExpr)
	v.Assert(ok == (last == "q:"), "the listing entry of the last line is another one's")
	bad := 0
	for _, d := range r.Diagnostics {
		if d.Line() == 302 && d.Rule() == "PARSE" {
			bad++
		}
	}
	v.Assert((bad == 1) == (last == "zz") && bad <= 1, "parse errors do not stand on their lines")
}

// CheckFar: 90 lines of one of six forms before two lines of the menu, and a line of 90 words.
func CheckFar() {
	n := g.Name1(2)
	k := []int{g.Op, g.Blank, g.Bad, g.Comment, g.TooMany, g.Switch0}[v.Pick("filler", 6)]
	var ls []g.Line
	f := g.Make(k, func() string { return "a" })
	for i := 0; i < 90; i++ {
		ls = append(ls, f)
	}
	if k == g.Switch0 {
		for i := 0; i < 90; i++ {
			ls[89].Text += " a"
		}
		ls = ls[80:]
	}
	m := []int{g.Label, g.B, g.Bad, g.Op, g.Blank}
	ls = append(ls, g.Gen(m, n), g.Gen(m, n), g.Make(g.Label, n))
	r, _ := shape(g.Source(ls, "\n"))
	for i := range ls {
		_, isB := r.Listing[i].(*teal.BExpr)
		_, isL := r.Listing[i].(*teal.LabelExpr)
		_, isI := r.Listing[i].(*teal.IntExpr)
		v.Assert(isB == ls[i].IsB() && isL == ls[i].IsLabel() && isI == (ls[i].Kind == g.Op), "an entry stands for another line")
		errs := 0
		for _, d := range r.Diagnostics {
			if d.Line() == i && d.Rule() == "PARSE" {
				errs++
			}
		}
		want := 0
		if ls[i].Kind == g.Bad || ls[i].Kind == g.TooMany {
			want = 1
		}
		v.Assert(errs == want, "parse errors do not stand on their lines")
	}
}
