// Package p06 decides that infinite-loop and pragma-placement errors are exact.
package p06

import (
	"strings"

	"github.com/dragmz/teal"
	g "github.com/dragmz/teal/zzverif/libgen"
	"github.com/dragmz/teal/zzverif/v"
)

func check(ls []g.Line, eol string) {
	r := teal.Process(g.Source(ls, eol))
	before := false
	for i := range ls {
		l := &ls[i]
		loop := false
		if l.IsB() {
			for j := i - 1; j >= 0; j-- {
				if ls[j].IsLabel() && ls[j].Def == l.Uses[0].Name {
					loop = !escapes(ls, j, i)
					break
				}
			}
		}
		misplaced := l.Kind == g.Pragma && before
		if l.Instr() || l.Kind == g.Pragma {
			before = true
		}
		nl, np := 0, 0
		for _, d := range r.Diagnostics {
			if d.Line() != i {
				continue
			}
			switch d.Rule() {
			case "LINT0005":
				if strings.HasPrefix(d.String(), "infinite loop") {
					nl++
					v.Assert(d.Severity() == teal.DiagErr, "an infinite loop is an error")
				}
			case "LINT0006":
				np++
				v.Assert(d.Severity() == teal.DiagErr, "a misplaced pragma is an error")
			}
		}
		v.Assert(nl == btoi(loop), "infinite-loop errors are not exact")
		v.Assert(np == btoi(misplaced), "misplaced-pragma errors are not exact")
		if loop {
			v.Reach("infinite loop")
		}
		if misplaced {
			v.Reach("misplaced pragma")
		}
	}
	v.Obs("r", len(r.Diagnostics))
}

func escapes(ls []g.Line, from, to int) bool {
	for i := from; i <= to; i++ {
		switch ls[i].Kind {
		case g.Return, g.Err, g.Retsub:
			return true
		}
		for _, u := range ls[i].Uses {
			for _, d := range g.Defs(ls, u.Name) {
				if d < from || d > to {
					return true
				}
			}
		}
	}
	return false
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// CheckLoops: every program of 4 lines (thorough 5) out of 8 line forms, two label names.
func CheckLoops() {
	check(g.Program([]int{g.Label, g.B, g.Op, g.Cond, g.Return, g.Err, g.Switch2, g.Retsub}, 4+v.Tier(), g.Name1(2)), "\n")
}

// CheckForms: 3 lines (thorough 4) over all line forms, two label names.
func CheckForms() {
	check(g.Program([]int{g.Label, g.LabelC, g.B, g.BIndent, g.TooMany, g.Cond, g.Call, g.Switch0, g.Switch1, g.Switch2, g.Op, g.Return, g.Err,
		g.Retsub, g.Comment, g.Bad, g.Pragma}, 3+v.Tier(), g.Name1(2)), "\n")
}

// CheckLong: 6 lines (thorough 7) of label, branch, conditional branch.
func CheckLong() {
	check(g.Program([]int{g.Label, g.B, g.Cond}, 6, g.Name1(2)), "\n")
}

// CheckPragma: 4 lines (thorough 5) of pragma, label, instruction, comment, blank, bad line.
func CheckPragma() {
	check(g.Program([]int{g.Pragma, g.Label, g.Op, g.Comment, g.CommentM, g.Blank, g.Bad, g.PragmaB}, 4+v.Tier(), g.Name1(1)), "\n")
}

// CheckFar: two lines, 70 or 300 instructions, comments or pragmas, two lines: a long loop body changes nothing.
func CheckFar() {
	menu := []int{g.Label, g.B, g.Cond, g.Return, g.Pragma}
	n := g.Name1(2)
	ls := g.Program(menu, 2, n)
	k := []int{g.Op, g.Comment}[v.Pick("filler", 2)]
	c := []int{70, 300}[v.Pick("count", 2)]
	for i := 0; i < c; i++ {
		ls = append(ls, g.Make(k, n))
	}
	check(append(ls, g.Program(menu, 2, n)...), "\n")
}

// CheckWide: a loop holding a switch or match of three to five targets (thorough seven) out of three names, one of
// them outside the loop: the loop can be left exactly when one of the targets is outside.
func CheckWide() {
	n := g.Name1(3)
	in, out := g.Make(g.Label, n), g.Make(g.Label, n)
	br := g.Make(g.B, n)
	check([]g.Line{in, g.SwitchN(3+v.Pick("operands", 3+2*v.Tier()), n), br, out}, "\n")
}

// CheckNested: two loops, one inside the other or crossing it, with an escape somewhere.
func CheckNested() {
	n := g.Name1(3)
	a, b := g.Make(g.Label, n), g.Make(g.Label, n)
	x := g.Gen([]int{g.Op, g.Cond, g.Return, g.Call}, n)
	c := g.Make(g.B, n)
	y := g.Gen([]int{g.Op, g.Cond, g.Retsub, g.Label}, n)
	d := g.Make(g.B, n)
	check([]g.Line{a, b, x, c, y, d}, "\n")
}
