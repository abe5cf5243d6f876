// Package p13 decides that stack-rearranging, frame and scratch opcodes move exactly the right values.
package p13

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/v"
)

func itoa(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return itoa(n/10) + itoa(n%10)
}

func byteArg() (string, int) {
	s := v.Str("operand", 2)
	for i := 0; i < 2; i++ {
		v.Assume(v.Or(v.And(s[i] >= '0', s[i] <= '9'), v.And(s[i] >= 'a', s[i] <= 'f')))
	}
	return "0x" + s, 16*nib(s[0]) + nib(s[1])
}

// slot is one of nine scratch slots.
func slot() (string, int) {
	s := v.Str("slot", 2)
	v.Assume(v.Or(s[0] == '0', v.Or(s[0] == '7', s[0] == 'f')))
	v.Assume(v.Or(s[1] == '0', v.Or(s[1] == '8', s[1] == 'f')))
	return "0x" + s, 16*nib(s[0]) + nib(s[1])
}

func nib(c byte) int {
	if c <= '9' {
		return int(c - '0')
	}
	return int(c-'a') + 10
}

// run executes the program and returns the strings of its stack; ok is false
// when a step failed. want is the number of instructions to execute.
func run(src string, steps int) (st []string, ok bool) {
	r := teal.Process("#pragma version 8\n" + src)
	vm := teal.NewVm(r)
	b := vm.Branch
	for i := 0; i < steps; i++ {
		v.Assert(vm.Branch == b, "the program ended early")
		vm.Step()
		if vm.Error != nil {
			return nil, false
		}
	}
	for _, x := range b.Stack.Items {
		st = append(st, x.String())
	}
	return st, true
}

// fill is a program pushing n different values and their strings: every third is a byte string.
func fill(n int) (string, []string) {
	src := ""
	var st []string
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			src += "byte 0x0" + itoa(i%10) + "\n"
		} else {
			src += "int " + itoa(20+i) + "\n"
		}
	}
	return src, st
}

// base runs fill alone: the values an opcode then rearranges.
func base(n int) (string, []string) {
	src, _ := fill(n)
	if n == 0 {
		return "", nil
	}
	st, ok := run(src, n)
	v.Assert(ok && len(st) == n, "pushing constants does not leave them on the stack")
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			v.Assert(st[i] != st[j], "different constants look alike")
		}
	}
	return src, st
}

func same(got []string, ok bool, want []string, good bool, what string) {
	v.Assert(ok == good, what+" does not fail exactly when its operand reaches outside the stack")
	v.Obs("o", ok, len(got))
	if !ok {
		v.Reach("failed")
		return
	}
	v.Assert(len(got) == len(want), what+" leaves another number of values")
	for i := range want {
		if want[i] == "?" {
			continue
		}
		v.Assert(got[i] == want[i], what+" moves the wrong values")
	}
	v.Reach("moved")
}

func cat(parts ...[]string) []string {
	var r []string
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// CheckMoves: dup, dup2, swap, pop, select and any operand (0 to 255) of dig, bury, cover, uncover,
// popn and dupn, on a stack of up to five (thorough seven) different values.
func CheckMoves() {
	n := v.Pick("height", 6+2*v.Tier())
	src, st := base(n)
	if v.Bool("plain") {
		op := []string{"dup", "dup2", "swap", "pop", "select"}[v.Pick("op", 5)]
		var want []string
		good := n >= 1
		switch op {
		case "dup":
			if good {
				want = cat(st, st[n-1:])
			}
		case "dup2":
			good = n >= 2
			if good {
				want = cat(st, st[n-2:])
			}
		case "swap":
			good = n >= 2
			if good {
				want = cat(st[:n-2], st[n-1:], st[n-2:n-1])
			}
		case "pop":
			if good {
				want = st[:n-1]
			}
		case "select":
			good = n >= 3 && (n-1)%3 != 2 // the topmost value must be an integer
			if good {
				want = cat(st[:n-3], []string{"?"})
			}
		}
		got, ok := run(src+op+"\n", n+1)
		same(got, ok, want, good, op)
		return
	}
	op := []string{"dig", "bury", "cover", "uncover", "popn", "dupn"}[v.Pick("op", 6)]
	text, k := byteArg()
	got, ok := run(src+op+" "+text+"\n", n+1)
	var want []string
	good := n >= 1
	switch op {
	case "dig":
		good = k < n
		if good {
			k = v.Concrete(k)
			want = cat(st, st[n-1-k:n-k])
		}
	case "bury":
		good = k >= 1 && k < n
		if good {
			k = v.Concrete(k)
			want = cat(st[:n-1])
			want[n-1-k] = st[n-1]
		}
	case "cover":
		good = k < n
		if good {
			k = v.Concrete(k)
			want = cat(st[:n-1-k], st[n-1:], st[n-1-k:n-1])
		}
	case "uncover":
		good = k < n
		if good {
			k = v.Concrete(k)
			want = cat(st[:n-1-k], st[n-k:], st[n-1-k:n-k])
		}
	case "popn":
		good = k <= n
		if good {
			k = v.Concrete(k)
			want = st[:n-k]
		}
	case "dupn":
		if good {
			v.Assert(ok, "dupn does not fail exactly when its operand reaches outside the stack")
			v.Assert(len(got) == n+k, "dupn leaves another number of values")
			for i := 0; i < n; i++ {
				v.Assert(got[i] == st[i], "dupn moves the wrong values")
			}
			for i := n; i < len(got); i++ {
				v.Assert(got[i] == st[n-1], "dupn moves the wrong values")
			}
			return
		}
	}
	same(got, ok, want, good, op)
}

// CheckTall: dig, bury and popn with any operand on a stack of 300 values.
func CheckTall() {
	op := []string{"dig", "bury", "cover", "uncover"}[v.Pick("op", 4)]
	src := "int 1\ndupn 99\nint 2\ndupn 99\nint 3\ndupn 98\nint 4\n"
	st, ok := run(src, 7)
	v.Assert(ok && len(st) == 300, "dupn leaves another number of values")
	text, k := byteArg()
	v.Assume(v.Or(k%50 == 0, v.Or(k%50 == 49, k == 255)))
	got, ok := run(src+op+" "+text+"\n", 8)
	k = v.Concrete(k)
	var want []string
	switch op {
	case "dig":
		want = cat(st, st[299-k:300-k])
	case "bury":
		if k > 0 {
			want = cat(st[:299])
			want[299-k] = st[299]
		}
	case "cover":
		want = cat(st[:299-k], st[299:], st[299-k:299])
	case "uncover":
		want = cat(st[:299-k], st[300-k:], st[299-k:300-k])
	}
	same(got, ok, want, op != "bury" || k > 0, op)
}

// CheckFrames: a call with up to two values below and up to two arguments, a subroutine declaring any of
// zero to two arguments (or none at all), with up to two locals, then frame_dig or frame_bury
// with any operand -128 to 127.
func CheckFrames() {
	below, args, locals := v.Pick("below", 2+v.Tier()), v.Pick("args", 3), v.Pick("locals", 3)
	n := below + args
	src, _ := fill(n)
	_, st := base(n + locals)
	lsrc, _ := fill(n + locals)
	proto := v.Bool("proto")
	src += "callsub f\nf:\n"
	steps := n + 1
	if proto {
		src += "proto " + itoa(args) + " 0\n"
		steps++
	}
	src += lsrc[len2(n):]
	steps += locals
	d := v.Str("digits", 3)
	for i := 0; i < 3; i++ {
		v.Assume(v.And(d[i] >= '0', d[i] <= '9'))
	}
	k := 100*int(d[0]-'0') + 10*int(d[1]-'0') + int(d[2]-'0')
	neg := v.Bool("neg")
	text := d
	if neg {
		text = "-" + d
		k = -k
	}
	v.Assume(v.And(k >= -128, k <= 127))
	op := []string{"frame_dig", "frame_bury"}[v.Pick("op", 2)]
	h := n + locals
	idx := n + k
	good := v.And(idx >= 0, idx < h)
	if proto {
		good = v.And(good, k >= -args)
	}
	got, ok := run(src+op+" "+text+"\n", steps+1)
	var want []string
	if op == "frame_bury" {
		good = v.And(v.And(good, idx < h-1), h > 0)
		if good {
			idx = v.Concrete(idx)
			want = cat(st[:h-1])
			want[idx] = st[h-1]
		}
	} else if good {
		idx = v.Concrete(idx)
		want = cat(st, st[idx:idx+1])
	}
	same(got, ok, want, good, op)
}

// len2 is the length of the text of the first n constants.
func len2(n int) int {
	s, _ := fill(n)
	return len(s)
}

// CheckReturn: a subroutine with any declared numbers of arguments and results (zero to three), or
// none, returning with up to three values above two or three others.
func CheckReturn() {
	n := 2 + v.Pick("height", 2)
	locals := v.Pick("locals", 4)
	src, _ := fill(n)
	lsrc, _ := fill(n + locals)
	_, st := base(n + locals)
	a, r := v.Pick("args", 4), v.Pick("results", 4)
	src += "callsub f\nint 99\nf:\n"
	steps := n + 1
	proto := v.Bool("proto")
	good := true
	var want []string
	if proto {
		src += "proto " + itoa(a) + " " + itoa(r) + "\n"
		steps++
		good = a <= n && r <= locals
		if good {
			want = cat(st[:n-a], st[n+locals-r:])
		}
	} else {
		want = st
	}
	src += lsrc[len2(n):]
	steps += locals
	got, ok := run(src+"retsub\n", steps+1)
	same(got, ok, want, good, "retsub")
}

// CheckNoFrame: frame opcodes, proto and retsub fail outside of a subroutine.
func CheckNoFrame() {
	n := v.Pick("height", 3)
	src, _ := fill(n)
	op := []string{"frame_dig 0", "frame_dig -1", "frame_bury 0", "proto 0 0", "retsub"}[v.Pick("op", 5)]
	_, ok := run(src+op+"\n", n+1)
	v.Assert(!ok, op+" works outside of a subroutine")
}

// CheckScratch: up to three (thorough four) stores of integers or bytes, by immediate or by constant on the stack, to slots with
// nine numbers between 0 and 255, then a load of any slot: it yields the last value stored there.
func CheckScratch() {
	n := 1 + v.Pick("stores", 2+v.Tier())
	src := ""
	steps := 0
	var slots []int
	var wants []string
	for i := 0; i < n; i++ {
		text, k := slot()
		value, is := "int "+itoa(40+i), "uint64: "+itoa(40+i)
		if v.Bool("bytes") {
			value = "byte 0x" + itoa(40+i)
			st, _ := run(value, 1)
			is = st[0]
		}
		wants = append(wants, is)
		if v.Bool("stores") {
			src += []string{"int ", "pushint "}[i%2] + text + "\n" + value + "\nstores\n"
			steps += 3
		} else {
			src += value + "\nstore " + text + "\n"
			steps += 2
		}
		slots = append(slots, k)
	}
	text, k := slot()
	got, ok := run(src+"load "+text+"\n", steps+1)
	v.Assert(ok, "using scratch space fails")
	v.Assert(len(got) == 1, "using scratch space leaves another number of values")
	for i := n - 1; i >= 0; i-- {
		if slots[i] == k {
			want := wants[i]
			v.Assert(got[0] == want || got[0] == "any: "+want, "loading yields another value than the last stored")
			v.Reach("stored")
			return
		}
	}
	for i := 0; i < n; i++ {
		v.Assert(!ends(got[0], itoa(40+i)), "loading yields a value stored elsewhere")
	}
	v.Reach("empty")
}

func ends(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

// CheckScratchLimit: storing beyond slot 255 fails.
func CheckScratchLimit() {
	d := v.Str("digits", 3)
	for i := 0; i < 3; i++ {
		v.Assume(v.And(d[i] >= '0', d[i] <= '9'))
	}
	v.Assume(d[0] != '0')
	k := 100*int(d[0]-'0') + 10*int(d[1]-'0') + int(d[2]-'0')
	_, ok := run("int "+d+"\nint 1\nstores\n", 3)
	v.Assert(ok == (k < 256), "stores does not fail exactly for slots that do not exist")
}

// CheckNestedFrames: three nested calls, each with one to two arguments of its own, declared or not; frame_dig -1 in the
// innermost and, after each return, in its caller: it yields the caller's own last argument.
func CheckNestedFrames() {
	proto := v.Bool("proto")
	depth := 3
	src := ""
	steps := 0
	at := 20
	var last []string
	for i := 0; i < depth; i++ {
		n := 1 + v.Pick("args", 2)
		for j := 0; j < n; j++ {
			src += "int " + itoa(at) + "\n"
			at++
			steps++
		}
		last = append(last, "uint64: "+itoa(at-1))
		f := "f" + itoa(i)
		src += "callsub " + f + "\n"
		steps++
		if i == 0 {
			src += "int 99\nreturn\n"
		} else {
			src += "frame_dig -1\nretsub\n"
		}
		src += f + ":\n"
		if proto {
			src += "proto " + itoa(n) + " 1\n"
			steps++
		}
	}
	src += "frame_dig -1\nretsub\n"
	back := v.Pick("returns", depth)
	got, ok := run(src, steps+1+2*back)
	v.Assert(ok, "a frame is lost")
	v.Assert(len(got) > 0 && got[len(got)-1] == last[depth-1-back], "frame_dig yields another frame's value")
	v.Reach("nested")
}

// CheckAllSlots: all 256 scratch slots hold different values, then any of them is stored to again and any is loaded.
func CheckAllSlots() {
	src := ""
	for i := 0; i < 256; i++ {
		src += "int " + itoa(1000+i) + "\nstore " + itoa(i) + "\n"
	}
	texta, a := slot()
	textb, b := slot()
	got, ok := run(src+"int 7\nstore "+texta+"\nload "+textb+"\n", 515)
	v.Assert(ok && len(got) == 1, "using scratch space fails")
	want := "uint64: 7"
	if a != b {
		want = "uint64: " + itoa(1000+v.Concrete(b))
	}
	v.Assert(got[0] == want || got[0] == "any: "+want, "loading yields another value than the last stored")
	v.Reach("loaded")
}

// CheckTallFrames: a subroutine with 60 arguments and 100 locals; frame_dig and frame_bury with any operand that is a
// multiple of 20 or next to one.
func CheckTallFrames() {
	src := ""
	for i := 0; i < 60; i++ {
		src += "int " + itoa(1000+i) + "\n"
	}
	src += "callsub f\nf:\nproto 60 0\n"
	for i := 60; i < 160; i++ {
		src += "int " + itoa(1000+i) + "\n"
	}
	k := []int{-60, -59, -40, -21, -1, 0, 1, 19, 20, 80, 98, 99, 100, -61, 127, -128}[v.Pick("operand", 16)]
	text := itoa(k * k / max(abs(k), 1))
	if k < 0 {
		text = "-" + text
	}
	var st []string
	for i := 0; i < 160; i++ {
		st = append(st, "uint64: "+itoa(1000+i))
	}
	op := []string{"frame_dig", "frame_bury"}[v.Pick("op", 2)]
	good := k >= -60 && k < 100
	var want []string
	if op == "frame_dig" {
		if good {
			want = cat(st, st[60+k:61+k])
		}
	} else {
		good = good && k < 99
		if good {
			want = cat(st[:159])
			want[60+k] = st[159]
		}
	}
	got, ok := run(src+op+" "+text+"\n", 163)
	same(got, ok, want, good, op)
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// CheckTallReturn: a subroutine with 200 arguments and up to 255 results above ten other values.
func CheckTallReturn() {
	a := []int{0, 1, 127, 128, 200}[v.Pick("args", 5)]
	r := []int{0, 1, 127, 128, 200, 255}[v.Pick("results", 6)]
	src := ""
	var st []string
	n := 0
	push := func(k int) {
		for i := 0; i < k; i++ {
			src += "int " + itoa(1000+n) + "\n"
			st = append(st, "uint64: "+itoa(1000+n))
			n++
		}
	}
	push(10 + a)
	src += "callsub f\nint 99\nf:\nproto " + itoa(a) + " " + itoa(r) + "\n"
	more := v.Pick("more", 3) - 1
	v.Assume(r+more >= 0)
	push(r + more)
	got, ok := run(src+"retsub\n", n+3)
	if more < 0 {
		same(got, ok, nil, false, "retsub")
		return
	}
	same(got, ok, cat(st[:10], st[n-r:]), true, "retsub")
}
