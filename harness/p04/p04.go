// Package p04 decides that label definitions, references and label diagnostics are exact.
package p04

import (
	"strings"

	"github.com/dragmz/teal"
	g "github.com/dragmz/teal/zzverif/libgen"
	"github.com/dragmz/teal/zzverif/v"
)

var menu = []int{g.Label, g.B, g.Cond, g.Call, g.Switch2, g.LabelC, g.TooMany, g.Comment, g.Bad}

func check(ls []g.Line, eol string) {
	src := g.Source(ls, eol)
	r := teal.Process(src)

	// definitions, in order
	si := 0
	for i := range ls {
		l := &ls[i]
		if !l.IsLabel() {
			continue
		}
		v.Assert(si < len(r.Symbols), "a label definition is not reported")
		s := r.Symbols[si]
		si++
		v.Assert(s.Name() == l.Def, "wrong label name reported")
		v.Assert(s.Line() == i && s.StartLine() == i && s.EndLine() == i, "wrong line of a label definition")
		v.Assert(s.Begin() == l.DefB && s.StartCharacter() == l.DefB, "wrong column of a label definition")
		v.Assert(s.End() == l.DefB+len(l.Def)+1 && s.EndCharacter() == s.End(), "wrong end of a label definition")
	}
	v.Assert(si == len(r.Symbols), "a label definition is reported that the source does not contain")

	// operands, in order, and those without a definition
	ui, mi := 0, 0
	for i := range ls {
		for _, u := range ls[i].Uses {
			v.Assert(ui < len(r.SymbolRefs), "a label operand is not reported")
			t := r.SymbolRefs[ui]
			ui++
			v.Assert(t.String() == u.Name, "wrong name of a label operand")
			v.Assert(t.Line() == i && t.Begin() == u.B && t.End() == u.E, "wrong position of a label operand")
			if len(g.Defs(ls, u.Name)) == 0 {
				v.Assert(mi < len(r.MissRefs), "an undefined label operand is not listed as missing")
				m := r.MissRefs[mi]
				mi++
				v.Assert(m.String() == u.Name && m.Line() == i && m.Begin() == u.B && m.End() == u.E, "wrong operand listed as missing")
			}
			v.Assert(r.RefCounts[u.Name] == g.UseCount(ls, u.Name), "wrong reference count")
		}
	}
	v.Assert(ui == len(r.SymbolRefs), "a label operand is reported that the source does not contain")
	v.Assert(mi == len(r.MissRefs), "a label operand is listed as missing wrongly")
	for i := range ls {
		if ls[i].IsLabel() {
			v.Assert(r.RefCounts[ls[i].Def] == g.UseCount(ls, ls[i].Def), "wrong reference count of a defined label")
		}
	}

	// diagnostics per line
	for i := range ls {
		l := &ls[i]
		dup, unused, missing := 0, 0, 0
		for _, d := range r.Diagnostics {
			if d.Line() != i {
				continue
			}
			switch d.Rule() {
			case "LINT0001":
				dup++
				v.Assert(d.Severity() == teal.DiagErr, "duplicate labels are errors")
			case "LINT0002":
				unused++
				v.Assert(d.Severity() == teal.DiagWarn, "unused labels are warnings")
			case "LINT0005":
				if strings.HasPrefix(d.String(), "missing label") {
					missing++
					v.Assert(d.Severity() == teal.DiagErr, "missing labels are errors")
				}
			}
		}
		xd, xu, xm := 0, 0, 0
		if l.IsLabel() {
			if len(g.Defs(ls, l.Def)) > 1 {
				xd = 1
			}
			if g.UseCount(ls, l.Def) == 0 {
				xu = 1
			}
		}
		for _, u := range l.Uses {
			if len(g.Defs(ls, u.Name)) == 0 {
				xm++
			}
		}
		v.Assert(dup == xd, "duplicate-label errors are not exact")
		v.Assert(unused == xu, "unused-label warnings are not exact")
		v.Assert(missing == xm, "missing-label errors are not exact")
	}
	for _, d := range r.Diagnostics {
		switch d.Rule() {
		case "LINT0001", "LINT0002", "LINT0005":
			v.Assert(d.Line() >= 0 && d.Line() < len(ls), "label diagnostic outside the source")
		}
	}
	v.Obs("r", len(r.Symbols), len(r.SymbolRefs), len(r.MissRefs), len(r.Diagnostics))
	if len(r.Symbols) > 1 {
		v.Reach("two labels")
	}
	if len(r.MissRefs) > 0 {
		v.Reach("missing reference")
	}
}

// CheckLabels: every program of 3 lines (thorough 4) out of 9 line forms with
// label names over a three letter alphabet, iterating maps in both orders.
func CheckLabels() {
	v.MapOrder(v.Bool("order"))
	check(g.Program(menu, 3+v.Tier(), g.Name1(3)), "\n")
}

// CheckLong: programs of 5 lines (thorough 6) of labels, branches and two-way switches over two letters.
func CheckLong() {
	check(g.Program([]int{g.Label, g.B, g.Switch2}, 5+v.Tier(), g.Name1(2)), "\n")
}

// CheckNames: 2 lines, label names of one or two arbitrary printable bytes
// (not blank, quote, slash, colon, hash), all three line ends.
func CheckNames() {
	eol := []string{"\n", "\r\n", "\r"}[v.Pick("eol", 3)]
	check(g.Program([]int{g.Label, g.B, g.Call, g.Switch2, g.LabelC, g.BIndent}, 2, g.NameAny(2)), eol)
}

// CheckOperands: switch or match with up to six (thorough eight) operands out of three letters, before or behind
// a label: every operand is a reference of its own.
func CheckOperands() {
	n := 3 + v.Pick("operands", 4+2*v.Tier())
	name := g.Name1(3)
	l := g.SwitchN(n, name)
	d := g.Line{Kind: g.Label, Def: name()}
	d.Text = d.Def + ":"
	ls := []g.Line{d, l}
	if v.Bool("behind") {
		ls = []g.Line{l, d}
	}
	check(ls, "\n")
}

// CheckMany: a switch or match of 9, 20 or 40 operands, three of which are arbitrary letters, and 40 labels of two letters.
func CheckMany() {
	n := []int{9, 20, 40}[v.Pick("operands", 3)]
	i := 0
	nm := g.Name1(3)
	l := g.SwitchN(n, func() string {
		i++
		if i == 1 || i >= n-1 {
			return nm()
		}
		return "a" + string([]byte{'A' + byte(i%26)})
	})
	ls := []g.Line{l}
	for j := 0; j < 40; j++ {
		d := g.Line{Kind: g.Label, Def: "a" + string([]byte{'A' + byte(j)})}
		if j == 20 || j == 39 {
			d.Def = nm()
		}
		d.Text = d.Def + ":"
		ls = append(ls, d)
	}
	check(ls, "\n")
}

// CheckColons: names of up to three bytes, each a colon or a letter: a label is named by what precedes the last colon.
func CheckColons() {
	nm := func() string {
		n := 1 + v.Pick("namelen", 3)
		s := v.Str("name", n)
		for i := 0; i < n; i++ {
			v.Assume(v.Or(s[i] == 'a', s[i] == ':'))
		}
		return s
	}
	d := g.Line{Kind: g.Label, Def: nm()}
	d.Text = d.Def + ":"
	u := g.Use{Name: nm(), B: 2}
	u.E = 2 + len(u.Name)
	check([]g.Line{d, {Kind: g.B, Text: "b " + u.Name, Uses: []g.Use{u}}}, "\n")
}

// CheckDocs: labels preceded by up to eight comment lines and followed by proto carry those comments and signature.
func CheckDocs() {
	a, b := v.Int("args", 0, 255), v.Int("results", 0, 255)
	v.Assume(a < 12 && b < 12)
	name := g.Name1(3)()
	src, doc := "", ""
	n := v.Pick("comments", 9)
	for i := 0; i < n; i++ {
		src += "//" + itoa(i) + "one\n"
		if i > 0 {
			doc += "\n"
		}
		doc += itoa(i) + "one"
	}
	src += name + ":\nproto " + itoa(a) + " " + itoa(b) + "\nx:\nb " + name
	r := teal.Process(src)
	v.Assert(len(r.Symbols) == 2, "two labels")
	v.Assert(r.Symbols[0].Docs() == doc, "label comments")
	v.Assert(r.Symbols[1].Docs() == "", "comments of another label")
	v.Assert(r.Symbols[0].Signature() == "in: "+itoa(a)+", out: "+itoa(b), "label signature")
	v.Assert(r.Symbols[1].Signature() == "", "signature of another label")
	v.Obs("sig", r.Symbols[0].Signature())
}

func itoa(n int) string {
	s := ""
	for {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}
