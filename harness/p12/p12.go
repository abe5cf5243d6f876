// Package p12 decides that the simulator applies every opcode's stack effect.
package p12

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/v"
)

func typ(c byte) int {
	switch c {
	case 'U':
		return teal.VmTypeUint64
	case 'B':
		return teal.VmTypeBytes
	}
	return teal.VmTypeAny
}

// fits tells that a value of type t can be taken where c is expected.
func fits(t teal.VmDataType, c byte) bool {
	if c == '.' {
		return true
	}
	return v.Or(t == teal.VmTypeAny, t == teal.VmDataType(typ(c)))
}

// step runs the line text, the second of a program, on a stack of n entries of
// any types and compares with the opcode taking args and leaving rets.
func step(text string, args, rets string, n int, deep int, forks int) {
	r := teal.Process("#pragma version 9\n" + text + "\nint 0\nx:\nint 1\n")
	v.Assert(len(r.Listing) == 5, "five lines")
	_, isNop := r.Listing[1].(teal.Nop)
	v.Assert(!isNop, "the instruction is not understood")
	vm := teal.NewVm(r)
	b := vm.Branch
	v.Assert(b != nil && b.Line == 1, "the program starts at its first instruction")
	b.Budget = 1000000
	var ts []teal.VmDataType
	for i := 0; i < n; i++ {
		t := teal.VmDataType(teal.VmTypeAny)
		if !few || i >= n-2 {
			t = teal.VmDataType(1 + v.Int("type", 0, 2))
		}
		ts = append(ts, t)
		b.Stack.Items = append(b.Stack.Items, teal.VmValue{T: t})
	}
	ok := n >= len(args)
	if ok {
		for i := 0; i < len(args); i++ {
			ok = v.And(ok, fits(ts[n-len(args)+i], args[i]))
		}
	}
	if deep >= 0 {
		ok = n >= deep
	}
	vm.Step()
	v.Obs("o", vm.Error != nil, len(b.Stack.Items), b.Line)
	v.Assert((vm.Error == nil) == ok, "an opcode does not fail exactly when its arguments are missing or of a wrong type")
	if vm.Error != nil {
		v.Reach("failed")
		return
	}
	got := b.Stack.Items
	base := n - len(args)
	v.Assert(len(got) == base+len(rets), "an opcode leaves another number of values")
	for i := 0; i < base; i++ {
		v.Assert(got[i].T == ts[i], "an opcode changes values it does not take")
	}
	for i := 0; i < len(rets); i++ {
		switch rets[i] {
		case '.':
			v.Assert(got[base+i].T != teal.VmTypeNone, "a result has no type")
		case 'u', 'b': // the type of the field or the general one
			v.Assert(v.Or(got[base+i].T == teal.VmTypeAny, got[base+i].T == teal.VmDataType(typ(rets[i]-32))), "a result has a wrong type")
		default:
			v.Assert(got[base+i].T == teal.VmDataType(typ(rets[i])), "a result has a wrong type")
		}
	}
	v.Assert(len(vm.Branches) == 1+forks, "an opcode splits the run wrongly")
	for _, o := range vm.Branches {
		if o == b {
			continue
		}
		v.Assert(len(o.Stack.Items) == len(got), "a branch starts with another stack")
		for i := range got {
			v.Assert(o.Stack.Items[i].T == got[i].T, "a branch starts with another stack")
		}
	}
	v.Reach("stepped")
}

func special(name string) bool {
	switch name {
	case "popn", "dupn", "dig", "bury", "cover", "uncover", "frame_dig", "frame_bury", "retsub", "proto",
		"pushbytess", "pushints", "match", "switch", "bz", "bnz", "replace":
		return true
	}
	return false
}

// CheckOps: every opcode in each of its forms with valid immediates, on a stack of up to one entry
// more than it takes (and at least two), each of any type.
func CheckOps() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	v.Assume(!special(op.Name))
	s, req := libavm.Letters(op.Imm)
	k := req
	if len(s) > req && v.Bool("optional") {
		k = len(s)
	}
	args := op.Args
	if libavm.Canon(op.Name, k) == "extract3" {
		args = "BUU"
	}
	max := len(args) + 1
	if max < 2 {
		max = 2
	}
	rets := op.Rets
	form := libavm.Forms(op, k)
	text := op.Name
	for i := 0; i < len(form); i++ {
		c := form[i]
		switch c {
		case 't', 'a', 'g', 'p', 'P', 'c', 'h', 'k', 'j':
			g := c
			if c == 'a' {
				g = 't'
			}
			f := field(g, c)
			text += " " + f.Name
			ty := string([]byte{libavm.TypeOf(f)})
			if c == 'j' {
				ty = []string{"b", "u", "b"}[f.Value]
			}
			// the field's type is that of the first result
			rets = ty + rets[1:]
		default:
			text += libavm.Sample(form[i : i+1])
		}
	}
	step(text, args, rets, v.Pick("depth", max+1), -1, 0)
}

func field(g, c byte) *libavm.Field {
	var fs []*libavm.Field
	for i := range libavm.Fields {
		f := &libavm.Fields[i]
		if f.Group == g && (c != 't' || !f.Array) && (c != 'a' || f.Array) {
			fs = append(fs, f)
		}
	}
	return fs[v.Pick("field", len(fs))]
}

// CheckBranches: the stack effect of conditional and multi-way branches with up to three targets.
func CheckBranches() {
	n := v.Pick("depth", 5)
	switch v.Pick("op", 4) {
	case 0:
		step("bz x", "U", "", n, -1, 1)
	case 1:
		step("bnz x", "U", "", n, -1, 1)
	case 2:
		k := v.Pick("targets", 4)
		step("switch"+" x x x"[:2*k], "U", "", n, -1, k)
	case 3:
		k := v.Pick("targets", 4)
		step("match"+" x x x"[:2*k], "...."[:k+1], "", n, -1, k)
	}
}

// CheckPushes: pushints and pushbytess with up to three constants, popn, dupn and cover/uncover with
// small operands.
func CheckPushes() {
	n := v.Pick("depth", 4)
	k := v.Pick("count", 4)
	d := "0123"[k : k+1]
	any := "....."
	switch v.Pick("op", 4) {
	case 0:
		v.Assume(k > 0)
		step("pushints"+" 1 2 3"[:2*k], "", "UUU"[:k], n, -1, 0)
	case 1:
		v.Assume(k > 0)
		step("pushbytess"+" 0x01 0x02 0x03"[:5*k], "", "BBB"[:k], n, -1, 0)
	case 2:
		step("popn "+d, any[:k], "", n, -1, 0)
	case 3:
		step("dupn "+d, ".", any[:k+1], n, -1, 0)
	}
}

// CheckMany: match and switch with up to 20 targets, pushints and pushbytess with up to 20 constants, popn and dupn
// with operands up to 20, on a stack of as many entries, one more or one less than needed.
func CheckMany() {
	k := []int{5, 9, 20}[v.Pick("count", 3)]
	op := v.Pick("op", 6)
	d := []string{"4", "5", "6", "8", "9", "10", "19", "20", "21"}
	name := d[map[int]int{5: 1, 9: 4, 20: 7}[k]]
	n := k + v.Pick("depth", 3)
	list := func(h, x string) string {
		for i := 0; i < k; i++ {
			h += x
		}
		return h
	}
	any := list("", ".")
	switch op {
	case 0:
		step1(list("switch", " x"), "U", "", v.Pick("low", 2), k)
	case 1:
		step1(list("match", " x"), any+".", "", n, k)
	case 2:
		step1(list("pushints", " 3"), "", list("", "U"), 1, 0)
	case 3:
		step1(list("pushbytess", " 0x"), "", list("", "B"), 1, 0)
	case 4:
		step1("popn "+name, any, "", n-1, 0)
	case 5:
		step1("dupn "+name, ".", any+".", v.Pick("low", 2), 0)
	}
}

// step1 is step with the types of all entries but the top two fixed.
func step1(text, args, rets string, n, forks int) {
	few = true
	step(text, args, rets, n, -1, forks)
	few = false
}

var few bool

// contexts are places at which an instruction can stand, with the steps that lead there.
var contexts = []struct {
	before string
	steps  int
	id     int
}{
	{"int 1\ncallsub s\ns:\nproto 1 2\n", 3, 0},
	{"callsub s\ns:\n", 1, 0},
	{"int 1\nbnz y\nint 5\nreturn\ny:\n", 2, 1},
	{"int 1\nstore 9\nint 0\nswitch y y\nint 5\nreturn\ny:\ncallsub s\ns:\nproto 0 1\n", 4, 2},
	{"int 1\nint 1\nint 1\nint 1\nint 1\nint 1\ncallsub s\ns:\nproto 1 1\npopn 6\n", 9, 0},
	{"callsub s\ns:\ncallsub t\nt:\ncallsub u\nu:\nproto 0 0\n", 4, 0},
}

// CheckContexts: every opcode inside of subroutines with and without a prototype and on other branches, at the version given or none, with
// as many values as it takes or one less, the top two of any types: its stack effect is the same everywhere.
func CheckContexts() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	v.Assume(!special(op.Name))
	c := contexts[v.Pick("context", len(contexts))]
	_, req := libavm.Letters(op.Imm)
	args := op.Args
	if libavm.Canon(op.Name, req) == "extract3" {
		args = "BUU"
	}
	head := "#pragma version 9\n"
	r := teal.Process(head + c.before + op.Name + libavm.Sample(libavm.Forms(op, req)) + "\nint 1\nx:\nint 1\n")
	vm := teal.NewVm(r)
	for i := 0; i < c.steps; i++ {
		vm.Step()
		v.Assert(vm.Error == nil, "a step fails")
	}
	b := vm.Branches[c.id]
	vm.Switch(b.Id)
	for c.id == 2 && len(b.Frames) == 0 || len(b.Frames) > 0 && r.Listing[b.Line].String() == "proto 0 1" {
		vm.Step()
		v.Assert(vm.Error == nil, "a step fails")
	}
	b.Budget = 1000000
	missing := len(args) > 0 && v.Bool("missing")
	b.Stack.Items = nil
	var ts []teal.VmDataType
	n := len(args)
	if missing {
		n--
	}
	ok := !missing
	for i := 0; i < n; i++ {
		t := teal.VmDataType(typ(args[i]))
		if i >= n-2 {
			t = teal.VmDataType(1 + v.Int("type", 0, 2))
			if !missing {
				ok = v.And(ok, fits(t, args[i]))
			}
		}
		ts = append(ts, t)
		b.Stack.Items = append(b.Stack.Items, teal.VmValue{T: t})
	}
	k := len(vm.Branches)
	vm.Step()
	v.Assert((vm.Error == nil) == ok, "an opcode does not fail exactly when its arguments are missing or of a wrong type")
	if vm.Error != nil {
		return
	}
	v.Assert(len(b.Stack.Items) == len(op.Rets), "an opcode leaves another number of values")
	v.Assert(len(vm.Branches) == k, "an opcode splits the run wrongly")
	for i := range b.Stack.Items {
		t := b.Stack.Items[i].T
		switch op.Rets[i] {
		case '.', 'u', 'b':
			v.Assert(t != teal.VmTypeNone, "a result has no type")
		default:
			v.Assert(t == teal.VmTypeAny || t == teal.VmDataType(typ(op.Rets[i])), "a result has a wrong type")
		}
	}
	v.Reach("stepped")
}
