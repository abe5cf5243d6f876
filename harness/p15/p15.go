// Package p15 decides that the simulator honours budget and breakpoints.
package p15

import (
	"strconv"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/v"
)

// costs are the AVM's costs other than 1 (from version 2 on).
var costs = map[string]int{
	"sha256": 35, "keccak256": 130, "sha512_256": 45, "sha3_256": 130,
	"ed25519verify": 1900, "ed25519verify_bare": 1900,
	"ecdsa_verify": 1700, "ecdsa_pk_decompress": 650, "ecdsa_pk_recover": 2000,
	"divmodw": 20, "expw": 10, "sqrt": 4, "bsqrt": 40, "vrf_verify": 5700,
	"b+": 10, "b-": 10, "b*": 20, "b/": 20, "b%": 20,
	"b|": 6, "b&": 6, "b^": 6, "b~": 4,
}

// costs1 are those of version 1.
var costs1 = map[string]int{"sha256": 7, "keccak256": 26, "sha512_256": 9}

// r1 are the costs for the second ECDSA curve.
var r1 = map[string]int{"ecdsa_verify": 2500, "ecdsa_pk_decompress": 2400}

func costOf(name string, version int) int {
	if version == 1 {
		if c, ok := costs1[name]; ok {
			return c
		}
	}
	if c, ok := costs[name]; ok {
		return c
	}
	return 1
}

// one steps the instruction on the last line of src with any budget and expects it to cost c.
func one(vm *teal.Vm, c int) {
	b := vm.Branch
	budget := v.Int("budget", 0, 6000)
	b.Budget = budget
	n, k := len(b.Trace), len(b.Stack.Items)
	line := b.Line
	vm.Step()
	v.Obs("b", b.Budget, len(b.Trace))
	if budget < c {
		v.Assert(len(b.Trace) == n && len(b.Stack.Items) == k, "an instruction is executed without the budget for it")
		v.Assert(b.Budget == budget, "budget is spent on an instruction that is not executed")
		vm.Step()
		v.Assert(len(b.Trace) == n, "a branch goes on without budget")
		v.Reach("short")
		return
	}
	if vm.Error != nil {
		v.Assert(b.Budget >= 0, "the budget is overdrawn")
		v.Reach("error")
		return
	}
	v.Assert(len(b.Trace) == n+1 && b.Trace[n] == vm.Process.Listing[line], "an instruction is not executed although the budget covers it")
	v.Assert(b.Budget == budget-c, "the budget does not fall by the cost of the instruction")
	for _, f := range vm.Branches {
		v.Assert(f.Budget == budget-c, "a branch split off has another budget")
	}
	v.Reach("ran")
}

// CheckCosts: every opcode but the pairing ones (and those whose cost depends on a length) on a stack of twelve values,
// at versions 1 to 10 and 300, with any budget from 0 to 6000.
func CheckCosts() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	v.Assume(op.Sig != 9 && op.Name != "base64_decode" && op.Name != "json_ref")
	ver := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 300}[v.Pick("version", 11)]
	text := op.Name + libavm.Sample(op.Imm)
	c := costOf(op.Name, ver)
	if x, ok := r1[op.Name]; ok && v.Bool("r1") {
		v.Assume(ver >= 7)
		text, c = op.Name+" Secp256r1", x
	}
	r := teal.Process("#pragma version " + strconv.Itoa(ver) + "\n" + text + "\nint 0\nx:\nint 1\n")
	_, isNop := r.Listing[1].(teal.Nop)
	v.Assume(!isNop) // not available
	vm := teal.NewVm(r)
	for i := 0; i < 12; i++ {
		vm.Branch.Stack.Items = append(vm.Branch.Stack.Items, teal.VmValue{T: teal.VmTypeAny})
	}
	one(vm, c)
}

// hex is a byte literal of n bytes.
func hex(n int) string {
	s := "0x"
	for i := 0; i < n; i++ {
		s += "61"
	}
	return s
}

// CheckLengthCosts: base64_decode of a constant of up to 35 (thorough 70) bytes and json_ref of one of up to 24
// (thorough 48) with a key of 0, 1 or 9 bytes, constants pushed by byte or pushbytes, possibly by way of a
// scratch slot or dup.
func CheckLengthCosts() {
	src := "#pragma version 8\n"
	push := []string{"byte ", "pushbytes "}[v.Pick("push", 2)]
	via := []string{"", "store 3\nload 3\n", "dup\n", "int 1\nswap\n"}[v.Pick("via", 4)]
	var c, steps int
	if v.Bool("json") {
		n := v.Pick("len", 25+24*v.Tier())
		k := []int{0, 1, 9}[v.Pick("key", 3)]
		src += push + hex(n) + "\n" + via + push + hex(k) + "\njson_ref JSONString\n"
		c = 25 + 2*((n+6)/7)
		steps = 2
	} else {
		n := v.Pick("len", 36+35*v.Tier())
		src += push + hex(n) + "\n" + via + "base64_decode StdEncoding\n"
		c = 1 + (n+15)/16
		steps = 1
	}
	switch via {
	case "":
	case "dup\n":
		steps++
	default:
		steps += 2
	}
	vm := teal.NewVm(teal.Process(src))
	for i := 0; i < steps; i++ {
		vm.Step()
	}
	v.Assert(vm.Error == nil && vm.Branch != nil, "pushing constants fails")
	one(vm, c)
}

// CheckStart: a run starts with a budget of 700, for any first line out of the opcodes without immediates.
func CheckStart() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	vm := teal.NewVm(teal.Process("#pragma version 8\n" + op.Name + libavm.Sample(op.Imm) + "\nint 1\n"))
	v.Assert(vm.Branch != nil && vm.Branch.Budget == 700, "a run does not start with a budget of 700")
}

var texts = []string{"int 1", "b a", "bz a", "callsub b", "retsub", "a:", "b:", "// c", "return", "switch a b", "sqrt", "pop", "#bad", ""}

func program(n int, kinds int) (string, []bool) {
	src := "int 1\ndup\n"
	ins := []bool{true, true}
	na, nb := 0, 0
	for i := 0; i < n; i++ {
		k := v.Pick("kind", kinds)
		src += texts[k] + "\n"
		if k == 5 {
			na++
		}
		if k == 6 {
			nb++
		}
		ins = append(ins, k != 5 && k != 6 && k != 7 && k < 12)
	}
	v.Assume(na < 2 && nb < 2)
	return src, ins
}

type snap struct {
	line, budget, trace int
}

func snaps(vm *teal.Vm) []snap {
	var r []snap
	for _, b := range vm.Branches {
		r = append(r, snap{b.Line, b.Budget, len(b.Trace)})
	}
	return r
}

func over(s snap, n int) bool { return s.line < 0 || s.line >= n }

// runTo steps vm until a branch arrives at one of the lines, all have ended or a step fails.
func runTo(vm *teal.Vm, n int, at func(int) bool) (stopped bool) {
	for k := 0; k < 60; k++ {
		before := snaps(vm)
		left := false
		for _, s := range before {
			if !over(s, n) {
				left = true
			}
		}
		if !left || vm.Error != nil {
			return false
		}
		vm.Step()
		if vm.Error != nil {
			return false
		}
		for i, s := range snaps(vm) {
			if (i >= len(before) || s.trace != before[i].trace) && !over(s, n) && at(s.line) {
				return true
			}
		}
	}
	v.Assume(false)
	return false
}

// CheckRun: programs of two pushes and up to three (thorough four) lines of thirteen kinds with a budget of six,
// breakpoints on any two of the lines -1 to one past the end, and up to three runs: each run stops where
// stepping one by one first arrives at a breakpoint on an instruction, or at the end, or at an error, and
// every branch has spent exactly the cost of what it executed.
func CheckRun() {
	src, ins := program(1+v.Pick("len", 3+v.Tier()), 13)
	n := len(ins)
	lns := []int{v.Pick("bp", n+3) - 1}
	if v.Bool("second") {
		lns = append(lns, v.Pick("bp", n+3)-1)
	}
	check(src, ins, lns, 6)
}

// CheckRunLong: the same with one breakpoint, programs that loop and a budget of ten.
func CheckRunLong() {
	src, ins := program(1+v.Pick("len", 2+v.Tier()), 6)
	src += "a:\nint 1\n" + []string{"b a", "bnz a", "callsub a"}[v.Pick("loop", 3)] + "\n"
	ins = append(ins, false, true, true)
	check(src, ins, []int{v.Pick("bp", len(ins))}, 10)
}

// CheckSets: breakpoints set two (thorough three) times, each time none, one or two of the lines of a program of eight
// lines, with or without a run in between: only the last set counts.
func CheckSets() {
	src := "int 1\nint 2\n// c\nint 3\na:\nint 4\nint 5\nint 6\n"
	ins := []bool{true, true, false, true, false, true, true, true}
	vm := teal.NewVm(teal.Process(src))
	line := 0
	for i := 0; i < 2+v.Tier(); i++ {
		var lns []int
		a := v.Pick("bp", 9)
		if a < 8 {
			lns = append(lns, a)
			if b := v.Pick("bp", 9-a); b > 0 && a+b < 9 {
				if a+b < 8 {
					lns = append(lns, a+b)
				}
			}
		}
		vm.SetBreakpoints(lns)
		if i > 0 || v.Bool("run") {
			vm.Run()
			next := len(ins)
			for _, l := range lns {
				if ins[l] && l > line && l < next {
					next = l
				}
			}
			line = next
			v.Assert(vm.Error == nil, "a run fails")
			if next == len(ins) {
				v.Assert(vm.Branch == nil && len(vm.Triggered) == 0, "a run stops though no breakpoint is set there")
				v.Reach("ended")
			} else {
				v.Assert(vm.Branch != nil && vm.Branch.Line == next && len(vm.Triggered[0]) > 0 && vm.Triggered[0][0] == next, "a run does not stop at the first breakpoint of those last set")
				v.Reach("stopped")
			}
		}
	}
}

func check(src string, ins []bool, lns []int, budget int) {
	n := len(ins)
	p := teal.Process(src)
	vm, ref := teal.NewVm(p), teal.NewVm(p)
	vm.Branch.Budget, ref.Branch.Budget = budget, budget
	verified := vm.SetBreakpoints(lns)
	at := func(l int) bool {
		for _, x := range lns {
			if x == l && ins[l] {
				return true
			}
		}
		return false
	}
	for _, l := range lns {
		v.Assert(verified[l] == (l >= 0 && l < n && ins[l]), "a breakpoint is not accepted exactly on instruction lines")
	}
	for k := 0; k < 3; k++ {
		if vm.Error != nil {
			break
		}
		vm.Run()
		stopped := runTo(ref, n, at)
		a, b := snaps(vm), snaps(ref)
		v.Assert((vm.Error == nil) == (ref.Error == nil), "a run fails where stepping does not, or the reverse")
		v.Assert(len(a) == len(b), "a run goes on past, or stops before, a breakpoint or the end")
		for i := range a {
			v.Assert(a[i].trace == b[i].trace && a[i].budget == b[i].budget && (a[i].line == b[i].line || over(a[i], n) && over(b[i], n)),
				"a run goes on past, or stops before, a breakpoint or the end")
		}
		v.Assert((len(vm.Triggered) > 0) == stopped || vm.Error != nil, "a stop at a breakpoint is not announced exactly when there is one")
		for id, ls := range vm.Triggered {
			for _, l := range ls {
				v.Assert(at(l), "a breakpoint is announced that was not set")
				for _, b := range vm.Branches {
					v.Assert(b.Id != id || b.Line == l, "a breakpoint is announced for a branch that is elsewhere")
				}
			}
		}
		for _, b := range vm.Branches {
			spent := 0
			for _, op := range b.Trace {
				spent += costOf(op.String(), 1)
			}
			v.Assert(b.Budget >= 0 && b.Budget == budget-spent, "a branch has not spent the cost of what it executed")
		}
		v.Obs("r", len(a), stopped, vm.Error != nil)
		if stopped {
			v.Reach("stopped")
		} else {
			v.Reach("ended")
		}
	}
}

// CheckFar: a program of 122 instructions (and comments) with up to ten breakpoints, two of which are on any of the last
// twelve lines, the last being an instruction, run and resumed until the end: it stops at each of them once; a loop runs until its budget of 700 is spent.
func CheckFar() {
	src := ""
	var ins []bool
	for i := 0; i < 122; i++ {
		if i > 0 {
			src += "\n"
		}
		src += []string{"int 1", "pop", "// c"}[i%3]
		ins = append(ins, i%3 != 2)
	}
	bps := map[int]bool{}
	var lns []int
	for i := 0; i < 7; i++ {
		lns = append(lns, 13*i+1)
	}
	for i := 0; i < 2; i++ {
		lns = append(lns, 110+v.Pick("bp", 12))
	}
	for _, l := range lns {
		if ins[l] {
			bps[l] = true
		}
	}
	vm := teal.NewVm(teal.Process(src))
	got := vm.SetBreakpoints(lns)
	for _, l := range lns {
		v.Assert(got[l] == ins[l], "a breakpoint is not accepted exactly on instruction lines")
	}
	for l := 1; l < 122; l++ {
		if bps[l] {
			vm.Run()
			v.Assert(vm.Error == nil && vm.Branch != nil && vm.Branch.Line == l, "a run does not stop at the next breakpoint")
			v.Assert(len(vm.Triggered) == 1 && len(vm.Triggered[0]) > 0, "no breakpoint is announced")
			for _, x := range vm.Triggered[0] {
				v.Assert(x == l, "another breakpoint is announced")
			}
		}
	}
	vm.Run()
	v.Assert(vm.Error == nil && vm.Branch == nil && len(vm.Triggered) == 0, "a run does not end")
	v.Assert(vm.Branches[0].Budget == 700-82 && len(vm.Branches[0].Trace) == 82, "a run has not spent the cost of what it executed")
}

// CheckLoop: an endless loop of one to three instructions of costs 1, 4 and 7 ends when the next one costs more than is left of
// any budget up to 700.
func CheckLoop() {
	src := "a:\n"
	var cs []int
	for i := 0; i < 1+v.Pick("len", 3); i++ {
		k := v.Pick("op", 3)
		src += []string{"int 9\n", "int 9\nsqrt\n", "byte 0x\nsha256\n"}[k]
		cs = append(cs, [][]int{{1}, {1, 4}, {1, 7}}[k]...)
	}
	src += "b a\n"
	cs = append(cs, 1)
	vm := teal.NewVm(teal.Process(src))
	b := vm.Branch
	budget := []int{0, 1, 30, 64, 119, 120, 121, 699, 700}[v.Pick("budget", 9)]
	b.Budget = budget
	vm.Run()
	n, left := 0, budget
	for left >= cs[n%len(cs)] {
		left -= cs[n%len(cs)]
		n++
	}
	v.Assert(len(b.Trace) == n && b.Budget == left, "a loop does not end exactly when its budget is spent")
	v.Assert(vm.Branch == nil, "a run without budget goes on")
}

// CheckLongCosts: base64_decode and json_ref of a constant of 100 to 4096 bytes around powers of two.
func CheckLongCosts() {
	n := []int{100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4096}[v.Pick("len", 11)]
	src := "#pragma version 8\npushbytes " + hex(n) + "\n"
	c := 1 + (n+15)/16
	if v.Bool("json") {
		src += "byte 0x61\njson_ref JSONString\n"
		c = 25 + 2*((n+6)/7)
	} else {
		src += "base64_decode StdEncoding\n"
	}
	vm := teal.NewVm(teal.Process(src))
	vm.Step()
	if c >= 25+2*(n/7) {
		vm.Step()
	}
	v.Assert(vm.Error == nil && vm.Branch != nil, "pushing constants fails")
	one(vm, c)
}

// CheckForkBudget: none or 320 instructions, up to six nested calls, then a split by a conditional branch or a switch or match of three targets, with any budget: all
// branches have the same left, and each spends its own.
func CheckForkBudget() {
	n := v.Pick("calls", 7)
	src := "#pragma version 8\n"
	pre := 320 * v.Pick("before", 2)
	for i := 0; i < pre; i += 2 {
		src += "int 1\npop\n"
	}
	src += "int 1\nint 1\nint 1\nint 1\n"
	for i := 0; i < n; i++ {
		src += "callsub f" + strconv.Itoa(i) + "\nf" + strconv.Itoa(i) + ":\n"
		if i == 2 {
			src += "proto 1 1\n"
		}
	}
	k := v.Pick("op", 3)
	src += []string{"bz a", "switch a a a", "match a a a"}[k] + "\nint 1\nint 2\na:\nint 3\n"
	vm := teal.NewVm(teal.Process(src))
	budget := v.Int("budget", 20+pre, 700)
	vm.Branch.Budget = budget
	steps := pre + 5 + n
	if n > 2 {
		steps++
	}
	for i := 0; i < steps; i++ {
		vm.Step()
		v.Assert(vm.Error == nil, "a step fails")
	}
	v.Assert(len(vm.Branches) == []int{2, 4, 4}[k], "the run does not split")
	for _, b := range vm.Branches {
		v.Assert(b.Budget == budget-steps && len(b.Trace) == steps, "a branch split off has another budget")
	}
	i := v.Pick("branch", len(vm.Branches))
	vm.Switch(vm.Branches[i].Id)
	vm.Step()
	for j, b := range vm.Branches {
		w := budget - steps
		if j == i {
			w--
		}
		v.Assert(b.Budget == w, "a step is paid by another branch")
	}
}

// CheckRunMany: a switch or match of 60 targets out of two labels behind which one of four lines stands: one run brings all 61 branches to
// their ends, and with a breakpoint there it stops once for each.
func CheckRunMany() {
	src := "#pragma version 8\n"
	n := 1
	op := v.Pick("op", 2)
	if op == 1 {
		n = 61
	}
	for i := 0; i < n; i++ {
		src += "int 1\n"
	}
	src += []string{"switch", "match"}[op]
	for i := 0; i < 60; i++ {
		src += []string{" a", " b"}[i%7%2]
	}
	k := v.Pick("line", 4)
	src += "\nint 1\na:\n" + []string{"int 2", "b b", "callsub b", "err"}[k] + "\nb:\nint 1\nreturn"
	r := teal.Process(src)
	vm := teal.NewVm(r)
	last := len(r.Listing) - 1
	if v.Bool("stop") {
		vm.SetBreakpoints([]int{last})
		stops := 0
		for vm.Branch != nil && stops < 70 {
			vm.Run()
			v.Assert(vm.Error == nil, "a run fails")
			if len(vm.Triggered) > 0 {
				stops++
			}
		}
		want := 0
		for _, b := range vm.Branches {
			for _, op := range b.Trace {
				if op == r.Listing[last] {
					want++
				}
			}
		}
		v.Assert(stops == want && want > 20, "a run does not stop once for each branch at the breakpoint")
	} else {
		vm.Run()
	}
	v.Assert(vm.Error == nil && vm.Branch == nil && len(vm.Branches) == 61, "a run does not bring all branches to their ends")
	for i, b := range vm.Branches {
		v.Assert(b.Line < 0 || b.Line > last, "a run does not bring all branches to their ends")
		at := "a"
		if i > 0 {
			at = []string{"a", "b"}[(i-1)%7%2]
		}
		w := n + 1 + 2
		switch {
		case i == 0 && k == 3:
			w = n + 1 + 2
		case i == 0:
			w++
			w++
		case at == "a" && k == 3:
			w--
		case at == "a":
			w++
		}
		v.Assert(len(b.Trace) == w, "a branch does not execute what the program leads it to")
	}
}
