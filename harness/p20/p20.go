// Package p20 decides that applying an offered code action yields the document it promises.
package p20

import (
	"encoding/json"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

const uri = "file:///d/a.teal"

type action struct {
	Title   string `json:"title"`
	Command struct {
		Command   string          `json:"command"`
		Arguments json.RawMessage `json:"arguments"`
	} `json:"command"`
}

// offered are the actions for a range of the text.
func offered(text string, rg string) []action {
	out := liblsp.Talk(liblsp.Open(uri, text), liblsp.Ask(1, "textDocument/codeAction", uri, rg+`,"context":{"diagnostics":[]}`))
	var as []action
	liblsp.ResultOf(out, 1, &as)
	return as
}

type apply struct {
	Params struct {
		Edit struct {
			Changes         map[string][]liblsp.Edit `json:"changes"`
			DocumentChanges []struct {
				TextDocument struct {
					Uri string `json:"uri"`
				} `json:"textDocument"`
				Edits []liblsp.Edit `json:"edits"`
			} `json:"documentChanges"`
		} `json:"edit"`
	} `json:"params"`
}

// performed is the text after the command was executed and its edits applied.
func performed(text string, a action) string {
	out := liblsp.Talk(liblsp.Open("file:///d/b.teal", "b zz\n"), liblsp.Open(uri, text),
		`{"jsonrpc":"2.0","id":4,"method":"workspace/executeCommand","params":{"command":"`+a.Command.Command+`","arguments":`+string(a.Command.Arguments)+`}}`)
	n, r := 0, text
	for _, b := range out {
		h := liblsp.HeadOf(b)
		if h.Method == "" {
			v.Assert(string(h.Id) == "4" && len(h.Error) == 0, "an offered command fails")
			continue
		}
		v.Assert(h.Method == "workspace/applyEdit", "a command asks for something else than an edit")
		var e apply
		liblsp.Parse(b, &e)
		n++
		v.Assert(len(e.Params.Edit.DocumentChanges)+len(e.Params.Edit.Changes) == 1, "a command edits not exactly one document")
		for _, d := range e.Params.Edit.DocumentChanges {
			v.Assert(d.TextDocument.Uri == uri, "a command edits another document")
			r = liblsp.Apply(text, d.Edits)
		}
		for u, es := range e.Params.Edit.Changes {
			v.Assert(u == uri, "a command edits another document")
			r = liblsp.Apply(text, es)
		}
	}
	v.Assert(n == 1, "a command does not edit once")
	return r
}

type named struct {
	Uri  string `json:"uri"`
	Name string `json:"name"`
	Line int    `json:"line"`
}

func args(a action) named {
	var x []named
	liblsp.Parse(string(a.Command.Arguments), &x)
	v.Assert(len(x) == 1 && x[0].Uri == uri, "an action's arguments are not about the document")
	return x[0]
}

func letter() string {
	s := v.Str("letter", 1)
	v.Assume(v.And(s[0] >= 'a', s[0] <= 'b'))
	return s
}

// In a template, @ begins a label: a letter and the lower case letters after it.
var templates = []string{"@:", "b @", "callsub @x", "int 1", "switch @x @ // c", "", "\t@x: // c", " b @x"}

type occ struct {
	line, begin, end int
	name             string
	def, b           bool
}

func build(t string, line int) (string, []occ) {
	r := ""
	var os []occ
	for i := 0; i < len(t); i++ {
		if t[i] != '@' {
			r += t[i : i+1]
			continue
		}
		o := occ{line: line, begin: len(r), name: letter(), b: strings.TrimSpace(t[:i]) == "b"}
		for i+1 < len(t) && t[i+1] >= 'a' && t[i+1] <= 'z' {
			i++
			o.name += t[i : i+1]
		}
		r += o.name
		o.end = len(r)
		o.def = i+1 < len(t) && t[i+1] == ':'
		os = append(os, o)
	}
	return r, os
}

// labels offers and performs the actions about labels of a program of n lines.
func labels(n, forms int) {
	eol := "\n"
	if v.Bool("crlf") {
		eol = "\r\n"
	}
	text := ""
	var os []occ
	var ts []string
	for i := 0; i < n; i++ {
		t := templates[v.Pick("t", forms)]
		ts = append(ts, t)
		s, o := build(t, i)
		text += s
		if i+1 < n || v.Bool("end") {
			text += eol
		}
		os = append(os, o...)
	}
	l1, c1, l2, c2 := 0, 0, n, 0
	if v.Bool("point") {
		l1 = v.Pick("line", n)
		c1 = v.Int("char", 0, 9)
		l2, c2 = l1, c1
	}
	as := offered(text, liblsp.Over(l1, c1, l2, c2))
	missing := func(name string) bool {
		for _, o := range os {
			if o.def && o.name == name {
				return false
			}
		}
		return true
	}
	st, en := liblsp.Lines(text)
	for _, a := range as {
		if a.Command.Command == "teal.version.update" {
			continue
		}
		g := args(a)
		got := performed(text, a)
		switch a.Command.Command {
		case "teal.label.create":
			v.Reach("create")
			used := false
			for _, o := range os {
				used = used || !o.def && o.name == g.Name && l1 <= o.line && o.line <= l2
			}
			v.Assert(used && missing(g.Name), "a label is created that is not missing")
			v.Assert(strings.Contains(a.Title, g.Name), "the title names another label")
			// the new text is the old one and one definition on a line of its own
			want := 0
			lines, ends := liblsp.Lines(got)
			rest := ""
			for i := range lines {
				if got[lines[i]:ends[i]] == g.Name+":" {
					want++
				} else {
					rest += got[lines[i]:ends[i]]
				}
			}
			old := ""
			for i := range st {
				old += text[st[i]:en[i]]
			}
			v.Assert(want == 1 && rest == old, "creating a label does not just add its line")
			for _, r := range teal.Process(got).MissRefs {
				v.Assert(r.String() != g.Name, "the created label is still missing")
			}
		case "teal.line.remove":
			v.Reach("remove")
			v.Assert(g.Line >= l1 && g.Line <= l2 && g.Line < n, "a line outside the range is removed")
			ok := false
			for _, o := range os {
				if o.line != g.Line {
					continue
				}
				if o.def {
					used := false
					for _, p := range os {
						used = used || !p.def && p.name == o.name
					}
					ok = ok || !used
					v.Assert(strings.Contains(a.Title, o.name), "the title names another label")
				} else if o.b {
					for _, p := range os {
						ok = ok || p.def && p.name == o.name && p.line > o.line
					}
				}
			}
			v.Assert(ok, "a line is removed that is not redundant")
			end := len(text)
			if g.Line+1 < len(st) {
				end = st[g.Line+1]
			}
			v.Assert(got == text[:st[g.Line]]+text[end:], "removing a line does not just remove it")
		default:
			v.Assert(false, "an action of another kind is offered")
		}
	}
	// what must be offered
	for _, o := range os {
		if !o.def && missing(o.name) && (l2 > o.line && l1 <= o.line || l1 == o.line && o.begin <= c1 && c1 <= o.end) {
			found := false
			for _, a := range as {
				found = found || a.Command.Command == "teal.label.create" && args(a).Name == o.name
			}
			v.Assert(found, "a missing label is not offered to be created")
		}
		if o.def && l1 <= o.line && o.line <= l2 {
			used := false
			for _, p := range os {
				used = used || !p.def && p.name == o.name
			}
			if !used {
				found := false
				for _, a := range as {
					found = found || a.Command.Command == "teal.line.remove" && args(a).Line == o.line
				}
				v.Assert(found, "an unused label is not offered to be removed")
			}
		}
	}
}

// CheckLabels: programs of two lines out of 8 forms (label definitions, branches, calls, switch, others) and of three
// lines out of 5 (thorough 8), names out of four, with LF or CR LF, ending in a line end or not; the range is
// the whole document or any position.
func CheckLabels() {
	if v.Bool("three") {
		labels(3, 5+3*v.Tier())
	} else {
		labels(2, len(templates))
	}
}

// CheckNames: a missing label of one or two arbitrary printable characters that may be part of a word is created by
// that name, in a text that defines a longer and a shorter one.
func CheckNames() {
	n := 1 + v.Pick("len", 2)
	name := v.Str("name", n)
	for i := 0; i < n; i++ {
		v.Assume(v.And(name[i] > ' ', name[i] < 127))
		v.Assume(v.And(name[i] != '"', v.And(name[i] != '\\', name[i] != '/')))
		v.Assume(v.And(name[i] != '(', name[i] != ')'))
	}
	v.Assume(name[0] != '#')
	text := "#pragma version 8\n" + name + "_:\nb " + name + "_\nb " + name + "\n"
	k := 0
	for _, a := range offered(text, liblsp.Over(3, 3, 3, 3)) {
		v.Assert(a.Command.Command == "teal.label.create" && args(a).Name == name, "another label is created")
		v.Assert(strings.Contains(a.Title, name), "the title names another label")
		k++
		got := performed(text, a)
		v.Assert(strings.HasPrefix(got, text) && strings.TrimSpace(got[len(text):]) == name+":", "creating a label does not just add its line")
		r := teal.Process(got)
		v.Assert(len(r.MissRefs) == 0 && len(r.Symbols) == 2 && r.Symbols[1].Name() == name, "the created label is still missing")
	}
	v.Assert(k == 1, "a missing label is not offered to be created")
}

// CheckRemoveLabel: the command that removes a label removes exactly its definitions, of which there are up to three
// among three labels with names out of four, wherever they stand in their lines.
func CheckRemoveLabel() {
	name := letter()
	text, want := "", ""
	for i := 0; i < 3; i++ {
		s := letter()
		if v.Bool("long") {
			s += "x"
		}
		pre := []string{"", "\t"}[v.Pick("indent", 2)]
		text += pre + s + ": // " + name + ":\nb " + name + "\n"
		want += pre
		if s != name {
			want += s + ":"
		}
		want += " // " + name + ":\nb " + name + "\n"
	}
	var a action
	a.Command.Command = "teal.label.remove"
	a.Command.Arguments = json.RawMessage(`[{"uri":"` + uri + `","name":"` + name + `"}]`)
	v.Assert(performed(text, a) == want, "removing a label does not just remove its definitions")
}

// CheckVersion: every opcode, at every declared version from 1 to 9 (decimal, hexadecimal or octal) or none, in either mode, before or after a
// comment: the version is offered to be raised to the one that introduced the opcode exactly if it is lower.
func CheckVersion() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	if op.Name == "replace" || op.Name == "extract" {
		return // stand for several opcodes
	}
	sig := v.Bool("sig")
	text, decl, lines, radix := "", "1", 0, ""
	if v.Bool("comment") {
		text += "// c\n"
		lines++
	}
	at := -1
	if v.Bool("declared") {
		decl = v.Str("version", 1)
		v.Assume(v.And(decl[0] >= '1', decl[0] <= '9'))
		at = len(text) + len("#pragma version ")
		if !sig && lines == 0 {
			radix = []string{"", "0x", "0"}[v.Pick("radix", 3)]
			v.Assume(radix != "0" || decl[0] < '8')
		}
		text += "#pragma version " + radix + decl + "\n"
		lines++
	}
	if sig {
		text += "//#pragma mode logicsig\n"
		lines++
	}
	text += "x:\n" + op.Name + libavm.Sample(op.Imm) + "\n"
	min := op.App
	if sig {
		min = op.Sig
	}
	as := offered(text, liblsp.Over(lines+1, 0, lines+1, 0))
	n := 0
	for _, a := range as {
		if a.Command.Command != "teal.version.update" {
			continue
		}
		n++
		got := performed(text, a)
		digit := string(rune('0' + min))
		if at >= 0 {
			v.Assert(got == text[:at]+digit+text[at+len(radix)+1:], "updating the version does not just replace it")
		} else {
			k := strings.Index(got, text)
			v.Assert(k >= 0, "updating the version changes other text")
			v.Assert(strings.TrimSpace(got[:k]+got[k+len(text):]) == "#pragma version "+digit, "updating the version does not declare it")
		}
		r := teal.Process(got)
		v.Assert(r.Version == min, "the version is not the updated one")
		v.Assert(len(r.Versions) == 0, "the updated version does not suffice")
		v.Reach("updated")
	}
	low := min > 0 && min > uint64(decl[0]-'0')
	if low {
		v.Assert(n == 1, "a version that is too low is not offered to be raised")
	} else {
		v.Assert(n == 0, "a version that suffices is offered to be raised")
	}
}

// CheckNamed: every opcode with immediates that are fields, the field given as an arbitrary number of one to three digits:
// an offered replacement is the name of that value and replaces just the number.
func CheckNamed() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	imm, _ := libavm.Letters(op.Imm)
	before, after := "#pragma version 9\n"+op.Name, ""
	var group byte
	for i := 0; i < len(imm); i++ {
		if strings.IndexByte("taxgehpPcvk6jG", imm[i]) >= 0 {
			group = imm[i]
		} else if group == 0 {
			before += libavm.Sample(imm[i : i+1])
		} else {
			after += libavm.Sample(imm[i : i+1])
		}
	}
	v.Assume(group != 0)
	if group == 'a' || group == 'x' {
		group = 't'
	}
	num := v.Str("number", 1+v.Pick("digits", 3))
	val := 0
	for i := 0; i < len(num); i++ {
		v.Assume(v.And(num[i] >= '0', num[i] <= '9'))
		val = val*10 + int(num[i]-'0')
	}
	v.Assume(len(num) == 1 || num[0] != '0')
	text := before + " " + num + after + " // 1\n"
	for _, a := range offered(text, liblsp.Over(1, 0, 1, 90)) {
		if a.Command.Command != "teal.value.replace" {
			continue
		}
		got := performed(text, a)
		v.Assert(len(got) > len(before)+1+len(after)+6 && strings.HasPrefix(got, before+" ") && strings.HasSuffix(got, after+" // 1\n"), "replacing a value changes other text")
		name := got[len(before)+1 : len(got)-len(after)-6]
		found := false
		for _, f := range libavm.Fields {
			if f.Group == group && f.Name == name {
				found = true
				v.Assert(f.Value == val, "the replacement is the name of another value")
			}
		}
		v.Assert(found, "the replacement is no name of a value")
		v.Assert(strings.Contains(a.Title, name), "the title has another name")
		v.Reach("named")
	}
}

func hexDigit() (string, byte) {
	s := v.Str("hex", 1)
	c := s[0]
	v.Assume(v.Or(v.And(c >= '0', c <= '9'), v.And(c >= 'a', c <= 'f')))
	d := c - '0'
	if c >= 'a' {
		d = c - 'a' + 10
	}
	return s, d
}

// unquote reads a string literal.
func unquote(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", false
	}
	s = s[1 : len(s)-1]
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			return "", false
		}
		if s[i] != '\\' {
			r += s[i : i+1]
			continue
		}
		i++
		if i == len(s) {
			return "", false
		}
		switch s[i] {
		case 'n':
			r += "\n"
		case 'r':
			r += "\r"
		case 't':
			r += "\t"
		case '\\', '"':
			r += s[i : i+1]
		default:
			return "", false
		}
	}
	return r, true
}

var bytesOps = []string{"byte", "pushbytes", "bytecblock 0x00", "bytecblock", "pushbytess", "pushbytess \"x\""}

// CheckLiteral: byte literals of an arbitrary byte, alone or next to one of 3 others or 12 that are escaped (thorough: two arbitrary bytes),
// in each opcode that takes byte literals: an offered replacement is a string literal of the same bytes and
// replaces just the literal.
func CheckLiteral() {
	before := "#pragma version 8\n " + bytesOps[v.Pick("op", len(bytesOps))] + " "
	lit, want := "0x", ""
	any := func() {
		h, x := hexDigit()
		l, y := hexDigit()
		lit += h + l
		want += string([]byte{x*16 + y})
	}
	other := func() {
		k := v.Pick("other", 3)
		lit += []string{"5c", "22", "61"}[k]
		want += []string{"\\", "\"", "a"}[k]
	}
	switch v.Pick("n", 5+v.Tier()) {
	case 1:
		any()
	case 4:
		// many to be escaped
		k := v.Pick("many", 3)
		lit += strings.Repeat([]string{"22", "5c", "225c61"}[k], 12)
		want += strings.Repeat([]string{"\"", "\\", "\"\\a"}[k], 12)
		any()
	case 2:
		any()
		other()
	case 3:
		other()
		any()
	case 5:
		any()
		any()
	}
	after := " // 0x61\nint 1\n"
	text := before + lit + after
	for _, a := range offered(text, liblsp.Over(1, 0, 1, 90)) {
		if a.Command.Command != "teal.value.replace" {
			continue
		}
		got := performed(text, a)
		if strings.HasSuffix(before, "0x00 ") && !strings.Contains(got, "0x00") {
			v.Assert(false, "a byte that is not printable is replaced")
		}
		v.Assert(strings.HasPrefix(got, before) && strings.HasSuffix(got, after), "replacing a literal changes other text")
		s, ok := unquote(got[len(before) : len(got)-len(after)])
		v.Assert(ok, "the replacement is no string literal")
		v.Assert(s == want, "the replacement denotes other bytes")
		v.Reach("literal")
	}
}

// CheckFarLabels: programs of 80 or 301 lines in which the line of interest, at any of five places, uses a missing label, defines an unused
// one (defined twice or not) or branches to the next line: what is offered for that line, for a range of lines around it or for the whole
// document, and what it yields.
func CheckFarLabels() {
	at := []int{1, 20, 40, 60, 78}[v.Pick("at", 5)]
	n := 80
	if at == 78 && v.Bool("very") {
		at, n = 299, 301
	}
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, []string{"int 1", "// c", "", "\tpop // é", "bnz end"}[i%5])
	}
	kind := v.Pick("kind", 4)
	name := letter() + "x"
	switch kind {
	case 0:
		ls[at] = "bz " + name
	case 1:
		ls[at] = name + ":"
	case 2:
		ls[at], ls[at+1] = "b "+name, name+":"
		ls[0] = "bnz " + name
	case 3:
		ls[at] = name + ": // twice"
		ls[0] = name + ":"
	}
	text := strings.Join(ls, "\n") + "\nend:\n"
	rg := liblsp.Over(at, 0, at, 9)
	switch v.Pick("range", 3) {
	case 1:
		rg = liblsp.Over(at-1, 0, at+1, 1)
	case 2:
		rg = liblsp.Over(0, 0, n+1, 0)
	}
	done := 0
	for _, a := range offered(text, rg) {
		if a.Command.Command == "teal.version.update" {
			continue
		}
		g := args(a)
		if a.Command.Command == "teal.label.create" {
			v.Assert(kind == 0 && g.Name == name, "another label is created")
			got := performed(text, a)
			v.Assert(strings.HasPrefix(got, text) && strings.TrimSpace(got[len(text):]) == name+":", "creating a label does not just add its line")
			done++
			continue
		}
		v.Assert(a.Command.Command == "teal.line.remove" && kind != 0, "an action of another kind is offered")
		if kind == 3 && g.Line == 0 {
			continue
		}
		v.Assert(g.Line == at, "a line is removed that is not redundant")
		got := performed(text, a)
		rest := append(append([]string{}, ls[:at]...), ls[at+1:]...)
		v.Assert(got == strings.Join(rest, "\n")+"\nend:\n", "removing a line does not just remove it")
		done++
	}
	v.Assert(done >= 1, "a repair is not offered")
	v.Reach("offered")
}

// CheckManyActions: 12 missing labels, each used once, and 12 unused ones: each is offered once for the whole document and, performed, makes
// just its own repair; for the line of one of them only that is offered.
func CheckManyActions() {
	text := "int 1\n"
	for i := 0; i < 12; i++ {
		c := string(rune('a' + i))
		text += "bnz m" + c + "\nint 1\nu" + c + ":\n"
	}
	k := v.Pick("which", 12)
	c := string(rune('a' + k))
	all := offered(text, liblsp.Over(0, 0, 37, 0))
	one := offered(text, liblsp.Over(1+3*k, 4, 1+3*k, 6))
	create, remove := 0, 0
	for _, a := range all {
		if a.Command.Command == "teal.label.create" && args(a).Name == "m"+c {
			create++
			got := performed(text, a)
			v.Assert(strings.HasPrefix(got, text) && strings.TrimSpace(got[len(text):]) == "m"+c+":", "creating a label does not just add its line")
		}
		if a.Command.Command == "teal.line.remove" && args(a).Line == 3+3*k {
			remove++
			v.Assert(performed(text, a) == strings.Replace(text, "u"+c+":\n", "", 1), "removing a line does not just remove it")
		}
	}
	v.Assert(create == 1 && remove == 1, "a repair is not offered once")
	n := 0
	for _, a := range one {
		if a.Command.Command == "teal.label.create" {
			n++
			v.Assert(args(a).Name == "m"+c, "another label is created")
		}
	}
	v.Assert(n == 1, "a missing label is not offered to be created")
}

// CheckFarLiterals: literals on any of four lines of a program of 60 lines, or behind up to 30 others on their line: an offered replacement
// denotes the same and replaces just that.
func CheckFarLiterals() {
	text := "#pragma version 8\n"
	at := []int{2, 20, 40, 58}[v.Pick("at", 4)]
	n := []int{0, 3, 30}[v.Pick("n", 3)]
	before, after, lit, want := "", "", "", ""
	if v.Bool("named") {
		lit, want = "0", "Sender"
		for i := 1; i < 60; i++ {
			l := "txn "
			if i == at {
				before, text = text+l, ""
				after = "\n"
			} else if text != "" {
				text += l + "Fee\n"
			} else {
				after += l + "Fee\n"
			}
		}
		_ = n
	} else {
		h, x := hexDigit()
		lit, want = "0x6"+h, "\""+string([]byte{0x60 + x})+"\""
		v.Assume(x != 15)
		for i := 1; i < 60; i++ {
			if i == at {
				before = text + "bytecblock " + strings.Repeat("0x00 ", n)
				text = ""
				after = strings.Repeat(" 0x01", n) + " // 0x61\n"
			} else if text != "" {
				text += "byte 0x00\n"
			} else {
				after += "byte 0x00\n"
			}
		}
	}
	k := 0
	for _, a := range offered(before+lit+after, liblsp.Over(at, 0, at, 900)) {
		if a.Command.Command != "teal.value.replace" {
			continue
		}
		got := performed(before+lit+after, a)
		v.Assert(got == before+want+after, "replacing a literal changes other text")
		k++
	}
	v.Assert(k == 1, "a literal is not offered to be replaced once")
}

// CheckFarVersion: a version declared on any of six lines up to the 70th, behind comments and blanks, and an opcode that needs a newer one up
// to 200 lines below: raising it replaces just the declared version.
func CheckFarVersion() {
	n := []int{0, 1, 9, 10, 11, 70}[v.Pick("line", 6)]
	m := []int{0, 50, 200}[v.Pick("below", 3)]
	head := strings.Repeat("// c\n", n)
	if v.Bool("blank") {
		head = strings.Repeat("\n", n)
	}
	pre := "#pragma version "
	d := v.Str("version", 1)
	v.Assume(v.And(d[0] >= '1', d[0] <= '7'))
	tail := " // v\n" + strings.Repeat("int 1\npop\n", m/2) + "int 1\nbox_del\n"
	text := head + pre + d + tail
	k := 0
	for _, a := range offered(text, liblsp.Over(n+m+2, 0, n+m+2, 3)) {
		if a.Command.Command != "teal.version.update" {
			continue
		}
		k++
		v.Assert(performed(text, a) == head+pre+"8"+tail, "updating the version does not just replace it")
	}
	v.Assert(k == 1, "a version that is too low is not offered to be raised")
}
