// Package p10 decides that a printed program reads back as the same program.
package p10

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/libops"
	"github.com/dragmz/teal/zzverif/v"
)

func errs(r *teal.ProcessResult) int {
	n := 0
	for _, d := range r.Diagnostics {
		if d.Severity() == teal.DiagErr {
			n++
		}
	}
	return n
}

// trip prints what src was read as and reads it back.
func trip(src string) *teal.ProcessResult {
	r := teal.Process(src)
	v.Assume(errs(r) == 0)
	out := r.Listing.String()
	v.Obs("text", out)
	r2 := teal.Process(out)
	v.Assert(errs(r2) == 0, "the printed program has errors")
	v.Assert(len(r2.Listing) == len(r.Listing), "the printed program has another number of lines")
	for i := range r.Listing {
		v.Assert(libops.Same(r.Listing[i], r2.Listing[i]), "an instruction reads back as another one")
	}
	v.Assert(r2.Version == r.Version, "the version is lost")
	v.Reach("trip")
	return r
}

func hexDigits(n int) string {
	s := v.Str("hex", n)
	for i := 0; i < n; i++ {
		v.Assume(v.Or(v.And(s[i] >= '0', s[i] <= '9'), v.And(s[i] >= 'a', s[i] <= 'f')))
	}
	return s
}

func decimals(n int) string {
	s := v.Str("digit", n)
	for i := 0; i < n; i++ {
		v.Assume(v.And(s[i] >= '0', s[i] <= '9'))
	}
	return s
}

func name(n int) string {
	s := v.Str("name", n)
	for i := 0; i < n; i++ {
		c := s[i]
		v.Assume(v.And(v.And(c > ' ', c < 0x7f), v.And(v.And(c != '"', c != '/'), v.And(c != ':', v.And(c != '#', c != ';')))))
	}
	return s
}

// imm is the text of an arbitrary immediate of kind k.
func imm(k byte) string {
	switch k {
	case 'u':
		return "0x" + hexDigits(2)
	case 's':
		return []string{"", "-"}[v.Pick("sign", 2)] + "1" + decimals(2)
	case 'i', 'I', 'N':
		return "1844674407370" + decimals(4)
	case 'y', 'Y':
		return "0x" + hexDigits(4)
	case 'A':
		return []string{"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ", "7777777777777777777777777777777777777777777777777774MSJUVU"}[v.Pick("addr", 2)]
	case 'm':
		s := v.Str("method", 3)
		for i := 0; i < 3; i++ {
			v.Assume(v.And(v.And(s[i] >= ' ', s[i] < 0x7f), v.And(s[i] != '"', s[i] != '\\')))
		}
		return "\"" + s + "(uint64)void\""
	case 'l', 'L':
		return "x"
	}
	g := k
	if k == 'a' || k == 'x' {
		g = 't'
	}
	n := 0
	for i := range libavm.Fields {
		if use(&libavm.Fields[i], k, g) {
			n++
		}
	}
	c := v.Pick("field", n)
	for i := range libavm.Fields {
		f := &libavm.Fields[i]
		if use(f, k, g) {
			if c == 0 {
				if v.Bool("numeric") {
					return itoa(f.Value)
				}
				return f.Name
			}
			c--
		}
	}
	return ""
}

func use(f *libavm.Field, k, g byte) bool {
	if f.Group != g {
		return false
	}
	switch k {
	case 't':
		return !f.Array
	case 'a':
		return f.Array
	case 'x':
		return f.Itx != 0
	}
	return true
}

func itoa(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return itoa(n/10) + itoa(n%10)
}

// each prints and reads back one instruction with k arbitrary immediates.
func each(op libavm.Op, k int) {
	form := libavm.Forms(op, k)
	text := op.Name
	for i := 0; i < len(form); i++ {
		text += " " + imm(form[i])
	}
	r := trip("#pragma version 9\n" + text + "\nx:\n")
	v.Assert(len(r.Listing) == 3, "three lines")
	got, vals := libops.Of(r.Listing[1])
	v.Assert(got == libavm.Canon(op.Name, k), "an instruction goes by another name")
	v.Assert(len(vals) == k, "an immediate is lost")
}

// CheckEach: every opcode in each of its forms, with any 8-bit immediates, any named or numbered
// field, integers with four arbitrary low digits, two arbitrary bytes, and method signatures with
// three arbitrary characters.
func CheckEach() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	s, req := libavm.Letters(op.Imm)
	each(op, req+v.Pick("optional", len(s)-req+1))
}

// CheckBytes: every instruction taking byte literals with literals of up to three (thorough five)
// arbitrary bytes, in every notation, alone or in a list of two.
func CheckBytes() {
	var lit string
	k := v.Pick("form", 4)
	n := v.Pick("len", 4+2*v.Tier())
	switch k {
	case 0:
		lit = "0x" + hexDigits(2*n)
	case 1:
		s := v.Str("text", n)
		for i := 0; i < n; i++ {
			v.Assume(v.And(v.And(s[i] != '"', s[i] != '\\'), v.And(s[i] != '\n', s[i] != '\r')))
		}
		lit = "\"" + s + "\""
	case 2:
		lit = "b64(" + []string{"", "QQ==", "QUI=", "/+8A"}[v.Pick("sample", 4)] + ")"
	case 3:
		lit = "base32 " + []string{"ME", "MFRGG", "MFRGGZDF"}[v.Pick("sample", 3)]
	}
	heads := []string{"byte ", "pushbytes ", "pushbytess ", "pushbytess 0x ", "pushbytess \"a b\" ", "bytecblock ", "bytecblock 0x00 "}
	trip("#pragma version 8\n" + heads[v.Pick("op", len(heads))] + lit + "\n")
}

// CheckInts: integers of up to eight (thorough fourteen) arbitrary decimal digits, the largest
// 64-bit ones, octal ones of three digits and hexadecimal ones of three, in every instruction
// taking one, alone or in lists.
func CheckInts() {
	var lit string
	switch v.Pick("form", 4) {
	case 0:
		lit = decimals(1 + v.Pick("len", 8+6*v.Tier()))
		v.Assume(lit[0] != '0')
	case 1:
		d := decimals(1)
		v.Assume(d[0] <= '5')
		lit = "1844674407370955161" + d
	case 2:
		lit = "0" + decimals(3)
	case 3:
		lit = "0x" + hexDigits(3)
	}
	heads := []string{"int ", "pushint ", "pushints ", "pushints 0 ", "pushints 0 1 ", "intcblock ", "intcblock 7 "}
	trip("#pragma version 8\n" + heads[v.Pick("op", len(heads))] + lit + "\n")
}

// CheckNamed: every named integer constant.
func CheckNamed() {
	c := libavm.Consts[v.Pick("const", len(libavm.Consts))]
	r := trip("int " + c.Name + "\n")
	_, x := libops.Of(r.Listing[0])
	v.Assert(len(x) == 1 && x[0].N == c.Value, "a constant has another value")
}

// CheckLabels: label names of one to three arbitrary word characters (no quotes, slashes, colons,
// hashes), defined and used by every branching instruction.
func CheckLabels() {
	l := name(1 + v.Pick("len", 3))
	m := name(1)
	v.Assume(l != m)
	k := v.Pick("op", 6)
	uses := []string{"b " + l, "bz " + l, "bnz " + m, "callsub " + l, "switch " + m + " " + l, "match " + l + " " + l + " " + m}
	r := trip("#pragma version 8\n" + l + ":\n" + uses[k] + "\n" + m + ":\n")
	got, x := libops.Of(r.Listing[1])
	v.Assert(got == ":" && len(x) == 1 && x[0].S == l, "a label has another name")
	_, x = libops.Of(r.Listing[2])
	switch k {
	case 4:
		v.Assert(len(x) == 2 && x[0].S == m && x[1].S == l, "a target has another name")
	case 5:
		v.Assert(len(x) == 3 && x[0].S == l && x[1].S == l && x[2].S == m, "a target has another name")
	case 2:
		v.Assert(len(x) == 1 && x[0].S == m, "a target has another name")
	default:
		v.Assert(len(x) == 1 && x[0].S == l, "a target has another name")
	}
}

// CheckVersion: version pragmas with one or two arbitrary digits (accepted ones).
func CheckVersion() {
	trip("#pragma version " + decimals(1+v.Pick("len", 2)) + "\nint 1\n")
}

// CheckSequences: programs of up to three (thorough four) lines out of blank and comment lines,
// labels, branches, constants and instructions, with or without a last line end.
func CheckSequences() {
	menu := []string{"", "  ", "// c", "x:", "b x", "bz y", "int 1 // one", "\tpushint 0x10", "byte \"a // b\"", "return", "retsub", "method \"a()void\"", "txn Fee", "txna Accounts 1", "y: // y", "extract 1 2", "frame_dig -1", "proto 1 2", "addr AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"}
	src := "#pragma version 8"
	n := 1 + v.Pick("len", 3+v.Tier())
	for i := 0; i < n; i++ {
		src += "\n" + menu[v.Pick("line", len(menu))]
	}
	trip(src + []string{"", "\n"}[v.Pick("end", 2)])
}

// CheckLong: lists of 3 to 70 integers, byte strings or labels, with two arbitrary ones, and constants of up to 200 bytes.
func CheckLong() {
	h := []string{"intcblock", "pushints", "bytecblock", "pushbytess", "switch", "match", "byte", "pushbytes", "method"}[v.Pick("op", 9)]
	n := []int{3, 20, 70}[v.Pick("count", 3)]
	text := h
	for i := 0; i < n; i++ {
		e := i == 2 || i == n-1
		switch h {
		case "intcblock", "pushints":
			if e {
				text += " 1" + decimals(2)
			} else {
				text += " 18446744073709551615"
			}
		case "bytecblock", "pushbytess":
			if e {
				text += " 0x" + hexDigits(2)
			} else {
				text += " \"a b\""
			}
		case "switch", "match":
			text += []string{" x", " y"}[i%2]
		case "method":
			if i == 0 {
				text += " \"a("
			}
			text += "uint64,"
		default:
			if i == 0 {
				text += " 0x"
			}
			if e {
				text += hexDigits(2)
			} else {
				text += "00ff"
			}
		}
	}
	if h == "method" {
		text += "byte[])void\""
	}
	r := trip("#pragma version 8\n" + text + "\nx:\ny:\n")
	got, vals := libops.Of(r.Listing[1])
	v.Assert(got == h, "an instruction goes by another name")
	switch h {
	case "byte", "pushbytes", "method":
		v.Assert(len(vals) == 1, "an immediate is lost")
	default:
		v.Assert(len(vals) == n, "an immediate is lost")
	}
}

// CheckManyLines: 60 instructions, blank lines or labels before and between two of the forms below.
func CheckManyLines() {
	menu := []string{"", "// c", "y:", "b x", "byte \"a // b\"", "frame_dig -1", "callsub x"}
	u := []string{"", "int 1", "byte 0x00ff", "b x"}[v.Pick("filler", 4)]
	src := "#pragma version 8\n" + menu[v.Pick("line", len(menu))]
	for i := 0; i < 60; i++ {
		src += "\n" + u
	}
	trip(src + "\n" + menu[v.Pick("line", len(menu))] + "\nx:\n")
}
