// Package p05 decides that unreachable-code and redundant-branch warnings are exact.
package p05

import (
	"github.com/dragmz/teal"
	g "github.com/dragmz/teal/zzverif/libgen"
	"github.com/dragmz/teal/zzverif/v"
)

func check(ls []g.Line, eol string) {
	r := teal.Process(g.Source(ls, eol))
	dead := false
	for i := range ls {
		l := &ls[i]
		if l.IsLabel() && g.UseCount(ls, l.Def) > 0 {
			dead = false
		}
		wantDead := dead && l.Instr()
		if l.IsB() || l.Kind == g.Return || l.Kind == g.Err {
			dead = true
		}

		wantB := false
		if l.IsB() {
			for j := i + 1; j < len(ls); j++ {
				if ls[j].IsLabel() {
					wantB = ls[j].Def == l.Uses[0].Name
					break
				}
				if ls[j].Instr() {
					break
				}
			}
		}
		wantL := l.IsLabel() && g.UseCount(ls, l.Def) == 0

		nd, nb := 0, 0
		for _, d := range r.Diagnostics {
			if d.Line() != i {
				continue
			}
			switch d.Rule() {
			case "LINT0003":
				nd++
				v.Assert(d.Severity() == teal.DiagWarn, "unreachable code is a warning")
			case "LINT0004":
				nb++
				v.Assert(d.Severity() == teal.DiagWarn, "a redundant branch is a warning")
			}
		}
		nr := 0
		for _, x := range r.Redundants {
			if x.Line() == i {
				nr++
			}
		}
		v.Assert(nd == btoi(wantDead), "unreachable-code warnings are not exact")
		v.Assert(nb == btoi(wantB), "redundant-branch warnings are not exact")
		v.Assert(nr == btoi(wantB)+btoi(wantL), "lines offered for removal are not exact")
		if wantDead {
			v.Reach("unreachable")
		}
		if wantB {
			v.Reach("redundant branch")
		}
	}
	for _, x := range r.Redundants {
		v.Assert(x.Line() >= 0 && x.Line() < len(ls), "removal offered outside the source")
	}
	v.Obs("r", len(r.Diagnostics), len(r.Redundants))
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// CheckFlow: every program of 4 lines (thorough 5) out of 8 line forms, two label names.
func CheckFlow() {
	check(g.Program([]int{g.Label, g.B, g.Op, g.Return, g.Err, g.Blank, g.Cond, g.Pragma}, 4+v.Tier(), g.Name1(2)), "\n")
}

// CheckForms: 3 lines (thorough 4) over all 17 line forms, two label names.
func CheckForms() {
	check(g.Program([]int{g.Label, g.LabelC, g.B, g.BIndent, g.TooMany, g.Cond, g.Call, g.Switch0, g.Switch1, g.Switch2, g.Op, g.Return, g.Err,
		g.Retsub, g.Comment, g.Bad, g.Pragma}, 3+v.Tier(), g.Name1(2)), "\n")
}

// CheckLong: 6 lines (thorough 7) of branch, label, instruction.
func CheckLong() {
	check(g.Program([]int{g.Label, g.B, g.Op}, 6+v.Tier(), g.Name1(2)), "\r\n")
}

// CheckFar: two lines, 70 or 300 instructions or comments, two lines: what is far away still counts.
func CheckFar() {
	check(far([]int{g.Label, g.B, g.Return, g.Op, g.Switch2}), "\n")
}

func far(menu []int) []g.Line {
	n := g.Name1(2)
	ls := g.Program(menu, 2, n)
	k := []int{g.Op, g.Comment}[v.Pick("filler", 2)]
	c := []int{70, 300}[v.Pick("count", 2)]
	for i := 0; i < c; i++ {
		ls = append(ls, g.Make(k, n))
	}
	return append(ls, g.Program(menu, 2, n)...)
}

// CheckWide: a switch or match of three to five targets (thorough seven) out of three names behind, or before,
// return, a label and an instruction.
func CheckWide() {
	n := g.Name1(3)
	l := g.SwitchN(3+v.Pick("operands", 3+2*v.Tier()), n)
	lb := g.Make(g.Label, n)
	t := []g.Line{g.Make(g.Return, n), lb, g.Make(g.Op, n)}
	if v.Bool("behind") {
		check(append(t, l), "\n")
		return
	}
	check(append([]g.Line{l}, t...), "\n")
}
