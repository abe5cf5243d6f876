// Package p11 decides that optimising a program preserves its behaviour.
package p11

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libops"
	"github.com/dragmz/teal/zzverif/v"
)

// outcomes are the results of the conditional branches, shared by both runs.
type outcomes struct {
	made []int
	max  int // outcomes from here on are the first one
}

func (o *outcomes) at(i int, n int) int {
	if o.max > 0 && i >= o.max {
		return 0
	}
	for len(o.made) <= i {
		o.made = append(o.made, v.Pick("outcome", n))
	}
	return o.made[i]
}

type step struct {
	name string
	imm  []libops.Imm
	end  bool
}

// instr is one line of a listing: its name and immediates, or nothing.
type instr struct {
	name string
	imm  []libops.Imm
	nop  bool
}

func lines(l teal.Listing) []instr {
	var r []instr
	for _, op := range l {
		n, x := libops.Of(op)
		_, isNop := op.(teal.Nop)
		r = append(r, instr{n, x, isNop && n != ":"})
	}
	return r
}

func find(ls []instr, label string) int {
	for i := range ls {
		if ls[i].name == ":" && ls[i].imm[0].S == label {
			return i
		}
	}
	return -1
}

// trace runs ls for at most max effective instructions.
func trace(ls []instr, o *outcomes, max int) []step {
	var ts []step
	var calls []int
	pc, idle, k := 0, 0, 0
	end := func(how string) []step { return append(ts, step{name: how, end: true}) }
	for len(ts) < max {
		if pc >= len(ls) {
			return end("end")
		}
		if idle > len(ls) {
			return end("loop")
		}
		in := &ls[pc]
		if in.nop || in.name == ":" {
			pc++
			idle++
			continue
		}
		if in.name == "b" {
			pc = find(ls, in.imm[0].S)
			if pc < 0 {
				return end("missing label")
			}
			idle++
			continue
		}
		idle = 0
		ts = append(ts, step{name: in.name, imm: in.imm})
		switch in.name {
		case "bz", "bnz", "switch", "match":
			c := o.at(k, len(in.imm)+1)
			k++
			if c > len(in.imm) {
				c = 0
			}
			if c == 0 {
				pc++
			} else {
				pc = find(ls, in.imm[c-1].S)
				if pc < 0 {
					return end("missing label")
				}
			}
		case "callsub":
			calls = append(calls, pc+1)
			pc = find(ls, in.imm[0].S)
			if pc < 0 {
				return end("missing label")
			}
		case "retsub":
			if len(calls) == 0 {
				return end("no caller")
			}
			pc = calls[len(calls)-1]
			calls = calls[:len(calls)-1]
		case "return", "err":
			return end("stop")
		default:
			pc++
		}
	}
	return ts
}

func labelsOk(ls []instr) bool {
	for i := range ls {
		if ls[i].name == ":" {
			if find(ls, ls[i].imm[0].S) != i {
				return false
			}
			continue
		}
		switch ls[i].name {
		case "b", "bz", "bnz", "callsub", "switch", "match":
			for j := range ls[i].imm {
				if find(ls, ls[i].imm[j].S) < 0 {
					return false
				}
			}
		}
	}
	return true
}

func run(src string, steps int) {
	optimise(teal.Process(src).Listing, steps, 0)
}

func optimise(l teal.Listing, steps int, max int) {
	ls := lines(l)
	v.Assume(labelsOk(ls))
	before := l.String()
	res := l.Optimize()
	v.Assert(l.String() == before, "optimising changes the program it was given")
	os := lines(res)
	v.Assert(labelsOk(os), "optimising leaves a label missing or duplicate")
	v.Assert(len(os) <= len(ls), "optimising adds lines")
	v.Obs("n", len(os))
	if len(os) < len(ls) {
		v.Reach("shortened")
	}
	o := &outcomes{max: max}
	a := trace(ls, o, steps)
	b := trace(os, o, steps)
	v.Assert(len(a) == len(b), "the optimised program runs longer or shorter")
	for i := range a {
		v.Assert(a[i].name == b[i].name && a[i].end == b[i].end && len(a[i].imm) == len(b[i].imm), "the optimised program runs another instruction")
		for j := range a[i].imm {
			x, y := a[i].imm[j], b[i].imm[j]
			if a[i].name == "bz" || a[i].name == "bnz" || a[i].name == "callsub" || a[i].name == "switch" || a[i].name == "match" {
				continue // where they lead shows in the rest of the run
			}
			v.Assert(x.N == y.N && x.S == y.S, "the optimised program runs an instruction with other immediates")
		}
	}
	v.Reach("compared")
}

func label(n int) string {
	s := v.Str("label", 1)
	v.Assume(v.And(s[0] >= 'a', s[0] < byte('a'+n)))
	return s
}

func line(k int, i int, labels int) string {
	switch k {
	case 0:
		return label(labels) + ":"
	case 1:
		return "b " + label(labels)
	case 2:
		return "bz " + label(labels)
	case 3:
		return "int " + "0123456789"[i:i+1]
	case 4:
		return "retsub"
	case 5:
		return "return"
	case 6:
		return "callsub " + label(labels)
	case 7:
		return "err"
	case 8:
		return "// c"
	case 9:
		return "proto 0 0"
	case 10:
		return "switch " + label(labels) + " " + label(labels)
	case 11:
		return ""
	}
	return ""
}

// CheckPrograms: programs of up to four (thorough five) lines, each any of twelve kinds (labels,
// branches, calls, returns, switch, constants, comments, blank lines), with any labels out of two,
// run for five (thorough six) effective instructions under any outcomes.
func CheckPrograms() {
	n := 1 + v.Pick("len", 4+v.Tier())
	src := ""
	for i := 0; i < n; i++ {
		src += line(v.Pick("kind", 12), i, 2) + "\n"
	}
	run(src, 5+v.Tier())
}

// CheckJumps: programs of five (thorough six) lines out of labels, unconditional and conditional branches and
// constants, with any labels out of two, run for five (thorough six) effective instructions under any outcomes.
func CheckJumps() {
	src := ""
	for i := 0; i < 5+v.Tier(); i++ {
		src += line(v.Pick("kind", 4), i, 2) + "\n"
	}
	run(src, 5+v.Tier())
}

// CheckSubroutines: a call, then five (thorough six) lines out of labels, branches, constants, retsub, return and proto.
func CheckSubroutines() {
	src := "callsub a\n"
	kinds := []int{0, 1, 3, 4, 5, 9}
	for i := 0; i < 5+v.Tier(); i++ {
		src += line(kinds[v.Pick("kind", len(kinds))], i, 2) + "\n"
	}
	run(src, 5+v.Tier())
}

// CheckUses: programs of four (thorough five) lines out of labels, constants, return and uses of labels, which are all
// bnz, all match with none or two operands or all switch with one operand, with any labels out of two.
func CheckUses() {
	use := []string{"bnz", "match", "match", "switch"}
	u := v.Pick("use", len(use))
	n := []int{1, 0, 2, 1}[u]
	kinds := []int{0, 3, 5}
	src := ""
	for i := 0; i < 4+v.Tier(); i++ {
		k := v.Pick("kind", 4)
		if k < 3 {
			src += line(kinds[k], i, 2) + "\n"
			continue
		}
		src += use[u]
		for j := 0; j < n; j++ {
			src += " " + label(2)
		}
		src += "\n"
	}
	run(src, 3+v.Tier())
}

// CheckBuilt: programs of five (thorough six) instructions out of labels, branches, calls, constants and return,
// built in Go, where a label and its uses are one object.
func CheckBuilt() {
	ls := []*teal.LabelExpr{teal.Label("a"), teal.Label("b")}
	pick := func() *teal.LabelExpr { return ls[v.Pick("label", 2)] }
	var l teal.Listing
	for i := 0; i < 5+v.Tier(); i++ {
		switch v.Pick("kind", 6) {
		case 0:
			l = append(l, pick())
		case 1:
			l = append(l, teal.B(pick()))
		case 2:
			l = append(l, teal.Bnz(pick()))
		case 3:
			l = append(l, teal.Int(uint64(i)))
		case 4:
			l = append(l, teal.Return)
		case 5:
			l = append(l, teal.CallSub(pick()))
		}
	}
	optimise(l, 5+v.Tier(), 0)
}

// CheckFar: programs of two lines, 60 constants (or blank lines) and two (thorough three) lines, each any of four kinds (labels,
// branches, return, match with three operands), with any labels out of two, run
// for 63 steps, the first two outcomes being arbitrary.
func CheckFar() {
	kinds := []int{0, 1, 5}
	gen := func(i int) string {
		k := v.Pick("kind", 4)
		if k == 3 {
			return "match a a " + label(2) + "\n"
		}
		return line(kinds[k], i, 2) + "\n"
	}
	src := gen(0) + gen(1)
	u := []string{"int ", "// "}[v.Pick("filler", 2)]
	for i := 0; i < 60; i++ {
		src += u + "0123456789"[i%10:i%10+1] + "\n"
	}
	src += gen(2) + gen(3)
	if v.Tier() > 0 {
		src += gen(4)
	}
	optimise(teal.Process(src).Listing, 63, 2)
}

// CheckWideUses: a switch or match of 20 targets, the last or one of them (any) being the only use of a label behind return, which an arbitrary outcome
// takes.
func CheckWideUses() {
	at := v.Pick("at", 20)
	src := []string{"switch", "match"}[v.Pick("op", 2)]
	for i := 0; i < 20; i++ {
		if i == at {
			src += " y"
		} else {
			src += " x"
		}
	}
	src += "\nint 1\nreturn\nx:\nint 2\nreturn\ny:\n" + []string{"int 3", "x2:", "b x", "err"}[v.Pick("behind", 4)]
	run(src, 4)
}

// CheckManyLabels: 30 labels behind one another, of which three (any) are used, the rest being unused, in a program of 40 lines.
func CheckManyLabels() {
	src := ""
	for i := 0; i < 3; i++ {
		src += []string{"bz ", "callsub ", "b "}[i] + "l" + itoa(10*i+v.Pick("used", 10)) + "\n"
	}
	for i := 0; i < 30; i++ {
		src += "l" + itoa(i) + ":\n"
		if i%3 == 0 {
			src += "int " + itoa(i) + "\n"
		}
	}
	run(src, 30)
}

func itoa(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return itoa(n/10) + itoa(n%10)
}
