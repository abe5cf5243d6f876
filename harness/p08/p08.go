// Package p08 decides that immediate arguments are accepted exactly when valid.
package p08

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/libnum"
	"github.com/dragmz/teal/zzverif/libops"
	"github.com/dragmz/teal/zzverif/v"
)

// run analyses one instruction under version ver; ok tells that it was accepted.
func run(ver string, line string) (name string, imm []libops.Imm, ok bool) {
	r := teal.Process("#pragma version " + ver + "\n" + line)
	v.Assert(len(r.Listing) == 2, "two lines")
	errs := 0
	for _, d := range r.Diagnostics {
		if d.Line() == 1 && (d.Rule() == "PARSE" || d.Rule() == "SYNTAX") {
			errs++
			v.Assert(d.Severity() == teal.DiagErr, "invalid immediates are errors")
		}
	}
	name, imm = libops.Of(r.Listing[1])
	if errs == 0 {
		v.Assert(name != "", "an accepted line has no instruction")
	}
	v.Obs("o", errs, name, len(imm))
	return name, imm, errs == 0
}

// word restricts s to bytes that form one word: no blanks, quotes, slashes or underscores.
func word(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.And(v.And(c > ' ', c < 0x7f), v.And(c != '"', v.And(c != '/', c != '_'))))
	}
	return s
}

// comment is nothing or a comment behind an instruction.
func comment() string {
	return []string{"", " // 1 x", "\t//"}[v.Pick("comment", 3)]
}

// names of the instruction that op with k immediates stands for.
func canon(name string, k int) string {
	switch name {
	case "txn":
		if k == 2 {
			return "txna"
		}
	case "gtxn":
		if k == 3 {
			return "gtxna"
		}
	case "gtxns":
		if k == 2 {
			return "gtxnsa"
		}
	case "extract":
		if k == 0 {
			return "extract3"
		}
	case "replace":
		if k == 0 {
			return "replace3"
		}
		return "replace2"
	}
	return name
}

// letters is imm without its brackets and the number of required ones.
func letters(imm string) (string, int) {
	s, req := "", -1
	for i := 0; i < len(imm); i++ {
		switch imm[i] {
		case '[':
			req = len(s)
		case ']':
		default:
			s += imm[i : i+1]
		}
	}
	if req < 0 {
		req = len(s)
	}
	return s, req
}

func withIndex(op libavm.Op, s string, k int) string {
	// with an index the field must be an array field
	if k == len(s) {
		t := ""
		for i := 0; i < k; i++ {
			if s[i] == 't' && k > 1 && s[k-1] == 'u' && op.Imm[len(op.Imm)-1] == ']' {
				t += "a"
			} else {
				t += s[i : i+1]
			}
		}
		return t
	}
	return s[:k]
}

// CheckCount: every opcode with zero to one more than its number of immediates, all of them valid, with or without a comment behind:
// accepted exactly when the AVM takes that many.
func CheckCount() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	s, req := letters(op.Imm)
	k := v.Pick("count", len(s)+2)
	arr := len(s) == 1 && (s == "N" || s == "Y" || s == "L")
	text := op.Name
	n := k
	if n > len(s) {
		n = len(s)
	}
	text += libavm.Sample(withIndex(op, s, n))
	for i := n; i < k; i++ {
		if arr {
			text += libavm.Sample(s)
		} else {
			text += " 0"
		}
	}
	want := k == len(s) || k == req
	if arr {
		want = true
	}
	text += comment()
	name, imm, ok := run("9", text)
	v.Assert(ok == want, "the number of immediates is not checked exactly")
	if ok {
		v.Assert(name == canon(op.Name, k), "a line is read as another instruction")
		v.Assert(len(imm) == k, "an instruction does not hold its immediates")
	}
}

var kinds8 = func() []libavm.Op {
	var r []libavm.Op
	for _, o := range libavm.Ops {
		for i := 0; i < len(o.Imm); i++ {
			if o.Imm[i] == 'u' || o.Imm[i] == 's' {
				r = append(r, o)
				break
			}
		}
	}
	return r
}()

// CheckBytes8: every opcode with 8-bit immediates, one of them (any) an arbitrary word of one to
// three (thorough four) characters, one more for signed ones: accepted exactly when it is a literal in range, and kept.
func CheckBytes8() {
	op := kinds8[v.Pick("op", len(kinds8))]
	s, _ := letters(op.Imm)
	all := withIndex(op, s, len(s))
	at := v.Pick("at", len(s))
	v.Assume(s[at] == 'u' || s[at] == 's')
	more := 0
	if s[at] == 's' {
		more = 1 // room for a sign
	}
	w := word(v.Str("word", 1+v.Pick("len", 3+more+v.Tier())))
	text := op.Name
	for i := 0; i < len(s); i++ {
		if i == at {
			text += " " + w
		} else {
			text += libavm.Sample(all[i : i+1])
		}
	}
	var val uint64
	var good bool
	if s[at] == 's' {
		x, g := libnum.Int8(w)
		val, good = uint64(int64(x)), g
	} else {
		val, good = libnum.Uint(w, 255)
	}
	name, imm, ok := run("9", text)
	v.Assert(ok == good, "an 8-bit immediate is not accepted exactly when valid")
	if ok {
		v.Assert(name == canon(op.Name, len(s)) && len(imm) == len(s), "a line is read as another instruction")
		for i := range imm {
			if i == at {
				v.Assert(imm[i].Num && imm[i].N == val, "an immediate is changed")
			} else if s[i] == 'u' {
				v.Assert(imm[i].N == 1, "another immediate is changed")
			}
		}
		v.Reach("accepted")
	}
}

var heads64 = []string{"int ", "pushint ", "intcblock ", "pushints ", "intcblock 1 ", "pushints 1 "}

// CheckInts: opcodes with 64-bit immediates followed by an arbitrary word of up to three (thorough
// four) characters.
func CheckInts() {
	k := v.Pick("op", len(heads64))
	w := word(v.Str("word", 1+v.Pick("len", 3+v.Tier())))
	val, good := libnum.Uint(w, 1<<64-1)
	if k == 0 {
		for _, c := range libavm.Consts {
			if w == c.Name {
				val, good = c.Value, true
			}
		}
	}
	_, imm, ok := run("9", heads64[k]+w)
	v.Assert(ok == good, "a 64-bit immediate is not accepted exactly when valid")
	if ok {
		n := 1
		if k > 3 {
			n = 2
			v.Assert(imm[0].N == 1, "a list entry is changed")
		}
		v.Assert(len(imm) == n && imm[n-1].N == val, "an integer is changed")
	}
}

var pad = func() []libavm.Op {
	var r []libavm.Op
	for _, o := range libavm.Ops {
		for i := 0; i < len(o.Imm); i++ {
			switch o.Imm[i] {
			case 't', 'a', 'x', 'g', 'e', 'h', 'p', 'P', 'c', 'v', 'k', '6', 'j', 'G':
				r = append(r, o)
			}
		}
	}
	return r
}()

// usable tells whether field f may stand for letter l at version n.
func usable(f libavm.Field, l byte, n uint64) bool {
	switch l {
	case 't':
		return f.Group == 't' && !f.Array && n >= f.Version
	case 'a':
		return f.Group == 't' && f.Array && n >= f.Version
	case 'x':
		return f.Group == 't' && f.Itx != 0 && n >= f.Itx
	}
	return f.Group == l && n >= f.Version
}

func group(l byte) byte {
	if l == 'a' || l == 'x' {
		return 't'
	}
	return l
}

// digit1 is a version of one digit, or one of four large ones.
func digit1() (string, uint64) {
	if v.Bool("late") {
		k := v.Pick("version", 4)
		return []string{"10", "127", "256", "18446744073709551615"}[k], []uint64{10, 127, 256, 1<<64 - 1}[k]
	}
	s := v.Str("version", 1)
	v.Assume(v.And(s[0] >= '1', s[0] <= '9'))
	return s, uint64(s[0] - '0')
}

// fieldLine is op with text in place of its field; index tells whether an optional index is given.
func fieldLine(op libavm.Op, text string, index bool) (string, byte) {
	s, req := letters(op.Imm)
	k := req
	if index {
		k = len(s)
	}
	all := withIndex(op, s, k)
	line := op.Name
	var l byte
	for i := 0; i < k; i++ {
		switch all[i] {
		case 'u':
			line += " 1"
		default:
			line += " " + text
			l = all[i]
		}
	}
	return line, l
}

// CheckFields: every opcode that takes a field, every named field of every group, every version
// of one digit, with and without the optional index: accepted exactly when usable, and kept.
func CheckFields() {
	op := pad[v.Pick("op", len(pad))]
	f := libavm.Fields[v.Pick("field", len(libavm.Fields))]
	opt := op.Imm[len(op.Imm)-1] == ']'
	index := opt && v.Bool("index")
	ver, n := digit1()
	line, l := fieldLine(op, f.Name, index)
	_, imm, ok := run(ver, line)
	v.Assert(ok == usable(f, l, n), "a named field is not accepted exactly when it is usable")
	if ok {
		found := false
		for i := range imm {
			if imm[i].N == uint64(f.Value) {
				found = true
			}
		}
		v.Assert(found, "a field is changed")
		v.Reach("accepted")
	}
}

// CheckFieldNumbers: the same with a field number of one to three decimal digits.
func CheckFieldNumbers() {
	op := pad[v.Pick("op", len(pad))]
	opt := op.Imm[len(op.Imm)-1] == ']'
	index := opt && v.Bool("index")
	ver, n := digit1()
	k := 1 + v.Pick("digits", 3)
	s := v.Str("num", k)
	num := 0
	for i := 0; i < k; i++ {
		v.Assume(v.And(s[i] >= '0', s[i] <= '9'))
		num = num*10 + int(s[i]-'0')
	}
	if k > 1 {
		v.Assume(s[0] != '0')
	}
	line, l := fieldLine(op, s, index)
	_, imm, ok := run(ver, line)
	want := false
	for _, f := range libavm.Fields {
		if f.Group == group(l) && f.Value == num {
			want = usable(f, l, n)
		}
	}
	v.Assert(ok == want, "a field number is not accepted exactly when it denotes a usable field")
	if ok {
		found := false
		for i := range imm {
			if imm[i].N == uint64(num) {
				found = true
			}
		}
		v.Assert(found, "a field number is changed")
	}
}

// CheckFieldTypos: the first field of each group with one character (any) replaced by an arbitrary one,
// appended or dropped: accepted only when that is again the name of a usable field.
func CheckFieldTypos() {
	op := pad[v.Pick("op", len(pad))]
	s, _ := letters(op.Imm)
	name := ""
	var l byte
	for i := 0; i < len(s); i++ {
		if s[i] != 'u' {
			l = s[i]
			name = libavm.Sample(s[i : i+1])[1:]
		}
	}
	c := word(v.Str("char", 1))
	switch v.Pick("edit", 3) {
	case 0:
		at := v.Pick("at", len(name))
		name = name[:at] + c + name[at+1:]
	case 1:
		name += c
	default:
		name = name[:len(name)-1]
	}
	line, _ := fieldLine(op, name, false)
	_, _, ok := run("9", line)
	want := false
	for _, f := range libavm.Fields {
		if f.Group == group(l) && f.Name == name {
			want = usable(f, l, 9)
		}
	}
	v.Assert(ok == want, "a misspelt field is accepted")
}

// CheckLabelsAndSignatures: label operands and quoted signatures of up to three arbitrary characters are kept.
func CheckLabelsAndSignatures() {
	w := word(v.Str("word", 1+v.Pick("len", 3)))
	switch v.Pick("kind", 4) {
	case 0:
		h := []string{"b", "bz", "bnz", "callsub"}[v.Pick("op", 4)]
		name, imm, ok := run("9", h+" "+w)
		v.Assert(ok && name == h && len(imm) == 1 && imm[0].S == w, "a label operand is changed")
	case 1:
		h := []string{"switch", "match"}[v.Pick("op", 2)]
		name, imm, ok := run("9", h+" "+w+" x "+w)
		v.Assert(ok && name == h && len(imm) == 3, "a label operand is missing")
		v.Assert(imm[0].S == w && imm[1].S == "x" && imm[2].S == w, "a label operand is changed")
	case 2:
		_, imm, ok := run("9", "method \""+w+" )\"")
		// a trailing backslash escapes nothing here: a blank follows
		v.Assert(ok && len(imm) == 1 && imm[0].S == w+" )", "a method signature is changed")
	case 3:
		_, _, ok := run("9", "method "+w)
		v.Assert(!ok, "a method signature without quotes is accepted")
	}
}

// CheckAddr: a valid address with one of its checksum characters replaced by an arbitrary word character:
// accepted only unchanged; truncated addresses are rejected.
func CheckAddr() {
	const a = "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"
	at := 52 + v.Pick("at", 5)
	c := word(v.Str("char", 1))
	x := a[:at] + c + a[at+1:]
	name, imm, ok := run("9", "addr "+x)
	v.Assert(ok == (x == a), "an address is not accepted exactly when its checksum is right")
	if ok {
		v.Assert(name == "addr" && imm[0].S == a, "an address is changed")
	}
	_, _, ok = run("9", "addr "+a[:v.Pick("cut", 58)])
	v.Assert(!ok, "a truncated address is accepted")
}

// CheckSurplus: every opcode with all its immediates followed by two to eight numbers: rejected, unless it takes a list.
func CheckSurplus() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	s, _ := letters(op.Imm)
	k := 2 + v.Pick("surplus", 7)
	text := op.Name + libavm.Sample(withIndex(op, s, len(s)))
	for i := 0; i < k; i++ {
		text += " 0"
	}
	_, imm, ok := run("9", text)
	arr := s == "N" || s == "L"
	v.Assert(ok == arr, "surplus immediates are accepted")
	if ok {
		v.Assert(len(imm) == len(libavm.Sample(s))/2+k, "an instruction does not hold its immediates")
	}
}

// CheckLists: lists of 3, 20 or 70 integers, byte strings or labels, one of them (any of the last three) arbitrary, with or without a comment behind: all are kept.
func CheckLists() {
	h := []string{"intcblock", "pushints", "bytecblock", "pushbytess", "switch", "match"}[v.Pick("op", 6)]
	n := []int{3, 20, 70}[v.Pick("count", 3)]
	at := n - 1 - v.Pick("at", 3)
	c := v.Str("digit", 2)
	for i := 0; i < 2; i++ {
		v.Assume(v.And(c[i] >= '1', c[i] <= '9'))
	}
	text := h
	for i := 0; i < n; i++ {
		text += " "
		if h == "bytecblock" || h == "pushbytess" {
			text += "0x"
		}
		if i == at {
			text += c
		} else {
			text += "77"
		}
	}
	text += comment()
	name, imm, ok := run("9", text)
	v.Assert(ok && name == h && len(imm) == n, "a list loses or gains an entry")
	for i := range imm {
		w := "77"
		if i == at {
			w = c
		}
		switch h {
		case "intcblock", "pushints":
			v.Assert(imm[i].N == 10*uint64(w[0]-'0')+uint64(w[1]-'0'), "a list entry is changed")
		case "switch", "match":
			v.Assert(imm[i].S == w, "a list entry is changed")
		default:
			v.Assert(len(imm[i].S) == 1 && imm[i].S[0] == (w[0]-'0')<<4+(w[1]-'0'), "a list entry is changed")
		}
	}
}

// CheckQuotes: method signatures of which one or both quotes are missing are rejected.
func CheckQuotes() {
	w := word(v.Str("word", 1+v.Pick("len", 2)))
	a, b := v.Bool("open"), v.Bool("close")
	s := w
	if a {
		s = "\"" + s
	}
	if b {
		v.Assume(w[len(w)-1] != '\\')
		s += "\""
	}
	_, imm, ok := run("9", "method "+s)
	v.Assert(ok == (a && b), "a method signature is not accepted exactly when it is quoted")
	if ok {
		v.Assert(len(imm) == 1 && imm[0].S == w, "a method signature is changed")
	}
}
