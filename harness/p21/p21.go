// Package p21 decides that hover, completion, signature help and inlay hints are those of what stands at the position.
package p21

import (
	"strconv"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

const uri = "file:///d/a.teal"

func ask(text, method, rest string, into any) {
	out := liblsp.Talk(liblsp.Open(uri, text), liblsp.Ask(1, "textDocument/"+method, uri, rest))
	liblsp.ResultOf(out, 1, into)
}

func group(c byte) byte {
	if c == 'a' || c == 'x' {
		return 't'
	}
	return c
}

func isField(c byte) bool { return strings.IndexByte("taxgehpPcvk6jG", c) >= 0 }

// available tells that the field is a value of an immediate of kind c at the version.
func available(f *libavm.Field, c byte, ver uint64) bool {
	if f.Group != group(c) || f.Version > ver {
		return false
	}
	switch c {
	case 'a':
		return f.Array
	case 'x':
		return f.Itx > 0 && f.Itx <= ver
	}
	return true
}

type signatures struct {
	Signatures []struct {
		Label      string `json:"label"`
		Parameters []struct {
			Label string `json:"label"`
		} `json:"parameters"`
		ActiveParameter *int `json:"activeParameter"`
	} `json:"signatures"`
}

// CheckSignature: every opcode with valid immediates, required ones or all, arrays of one, two or five elements, one or two
// blanks between them: at every column the signature is the opcode's and the active parameter the immediate under
// the cursor or else the next one (the array itself from its first element on).
func CheckSignature() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	imm, req := libavm.Letters(op.Imm)
	k := req
	if req < len(imm) && v.Bool("optional") {
		k = len(imm)
	}
	array := imm != "" && strings.IndexByte("NYL", imm[len(imm)-1]) >= 0
	words := libavm.Forms(op, k)
	if array {
		words += strings.Repeat(words[len(words)-1:], []int{0, 1, 4}[v.Pick("more", 3)])
	}
	gap := ""
	if v.Bool("gap") {
		gap = " "
	}
	line := " " + op.Name
	var ends []int
	for i := 0; i < len(words); i++ {
		line += gap + libavm.Sample(words[i:i+1])
		ends = append(ends, len(line))
	}
	at := v.Int("column", 0, len(line)+2)
	var sh signatures
	ask("#pragma version 9\n"+line+"\nint 1\n", "signatureHelp", liblsp.At(1, at), &sh)
	v.Assert(len(sh.Signatures) == 1, "an opcode has not one signature")
	s := sh.Signatures[0]
	v.Assert(s.Label == op.Name || strings.HasPrefix(s.Label, op.Name+" "), "the signature is another opcode's")
	v.Assert(strings.Count(s.Label, "[") == strings.Count(s.Label, "]"), "the signature's brackets do not match")
	v.Assert(len(s.Parameters) == len(imm), "the signature has more or fewer parameters than the opcode immediates")
	for _, p := range s.Parameters {
		v.Assert(strings.Contains(s.Label, p.Label), "a parameter is not in the signature")
	}
	want := 0
	for _, e := range ends {
		if e < at {
			want++
		}
	}
	if array && want >= len(imm) {
		want = len(imm) - 1
	}
	v.Assert(s.ActiveParameter != nil, "there is no active parameter")
	if s.ActiveParameter != nil && want < len(imm) {
		v.Assert(*s.ActiveParameter == want, "the active parameter is another one")
		v.Reach("active")
	}
}

// CheckNoSignature: lines that hold no opcode have no signature, at any position, nor lines without text.
func CheckNoSignature() {
	lines := []string{"", "// int 1", "x:", "#pragma version 8", "foo 1 2", "int 1"}
	var sh signatures
	l := v.Pick("line", len(lines)+1)
	ask(strings.Join(lines, "\n"), "signatureHelp", liblsp.At(l, v.Int("column", 0, 20)), &sh)
	if l == 5 {
		v.Assert(len(sh.Signatures) == 1, "an opcode has no signature")
	} else {
		v.Assert(len(sh.Signatures) == 0, "there is a signature for no opcode")
	}
}

type item struct {
	Label        string `json:"label"`
	LabelDetails *struct {
		Detail      string `json:"detail"`
		Description string `json:"description"`
	} `json:"labelDetails"`
	Documentation struct {
		Value string `json:"value"`
	} `json:"documentation"`
	InsertText string `json:"insertText"`
}

func version() (string, uint64) {
	if v.Bool("late") {
		k := v.Pick("version", 3)
		return "#pragma version " + []string{"10", "256", "18446744073709551615"}[k] + "\n", []uint64{10, 256, 1<<64 - 1}[k]
	}
	s := v.Str("version", 1)
	v.Assume(v.And(s[0] >= '1', s[0] <= '9'))
	return "#pragma version " + s + "\n", uint64(s[0] - '0')
}

// CheckValues: every opcode with fields as immediates at every version from 1 to 10, 256 and 2^64-1: the values completed at
// that immediate (under the cursor or about to be typed) are exactly the fields available at that version,
// with their numbers.
func CheckValues() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	imm, _ := libavm.Letters(op.Imm)
	pragma, ver := version()
	line := op.Name
	i := 0
	for i < len(imm) && !isField(imm[i]) {
		line += libavm.Sample(imm[i : i+1])
		i++
	}
	v.Assume(i < len(imm))
	at := len(line) + 1
	if v.Bool("typed") {
		line += libavm.Sample(imm[i : i+1])
		at = v.Int("column", at, len(line))
	} else {
		line += " "
	}
	var items []item
	ask(pragma+line+"\nint 1\n", "completion", liblsp.At(1, at), &items)
	n := 0
	for j := range libavm.Fields {
		f := &libavm.Fields[j]
		if !available(f, imm[i], ver) {
			continue
		}
		n++
		k := 0
		for _, it := range items {
			if it.Label == f.Name {
				k++
				v.Assert(it.LabelDetails != nil && it.LabelDetails.Detail == " = "+strconv.Itoa(f.Value), "a value is completed with another number")
			}
		}
		v.Assert(k == 1, "a value available is not completed once")
	}
	if n == 0 {
		v.Assert(len(items) == 1 && items[0].Label == "", "a value is completed that is not available")
	} else {
		v.Assert(len(items) == n, "a value is completed that is not available")
	}
	v.Reach("values")
}

// CheckConstants: the constants completed for int have the values the AVM gives them.
func CheckConstants() {
	var items []item
	line := "int " + []string{"", "1", "pay"}[v.Pick("line", 3)]
	ask("#pragma version 8\n"+line, "completion", liblsp.At(1, v.Int("column", 4, len(line))), &items)
	for _, it := range items {
		found := false
		for _, c := range libavm.Consts {
			if c.Name == it.Label {
				found = true
				v.Assert(it.LabelDetails != nil && it.LabelDetails.Detail == " = "+strconv.FormatUint(c.Value, 10), "a constant is completed with another value")
			}
		}
		v.Assert(found, "a constant is completed that there is not")
	}
	for _, name := range []string{"pay", "keyreg", "acfg", "axfer", "afrz", "appl", "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication"} {
		k := 0
		for _, it := range items {
			if it.Label == name {
				k++
			}
		}
		v.Assert(k == 1, "a constant is not completed once")
	}
}

// CheckLabels: at the operands of branches, calls, switch and match the labels of the document are completed, with
// arbitrary names, and nothing else.
func CheckLabels() {
	ops := []string{"b ", "bz ", "bnz ", "callsub ", "switch ", "switch x ", "match ", "match x x "}
	line := ops[v.Pick("op", len(ops))]
	name := v.Str("name", 2)
	v.Assume(v.And(v.And(name[0] >= 'a', name[0] <= 'z'), v.And(name[1] >= 'a', name[1] <= 'z')))
	at := len(line)
	if v.Bool("typed") {
		line += "x"
		at = v.Int("column", at, at+1)
	}
	text := "#pragma version 8\n" + line + "\nx:\n"
	two := v.Bool("two")
	if two {
		text += "//" + name + "d\n" + name + ": // " + name + "c\nproto 1 2\n"
	}
	var items []item
	ask(text, "completion", liblsp.At(1, at), &items)
	if two {
		v.Assert(len(items) == 2, "other than the labels are completed")
		v.Assert(items[0].Label == "x" && items[1].Label == name || items[1].Label == "x" && items[0].Label == name, "a label is not completed")
		for _, it := range items {
			if it.Label == name && name != "x" {
				v.Assert(it.Documentation.Value == name+"d", "a label is completed with other text than its comment")
				v.Assert(it.LabelDetails != nil && it.LabelDetails.Detail == " in: 1, out: 2", "a label is completed with another signature")
			} else {
				v.Assert(it.Documentation.Value == "" && it.LabelDetails == nil, "a label is completed with another's comment or signature")
			}
		}
	} else {
		v.Assert(len(items) == 1 && items[0].Label == "x", "other than the label is completed")
	}
}

// CheckLabelLayouts: three labels, or 30, next to one another or with a blank line, a comment, an instruction or a prototype in
// between, before and behind the line of the cursor, are all completed, each with its own comments and signature.
func CheckLabelLayouts() {
	gaps := []string{"", "\n", "// c%\n", "int 1\n", "proto 1 3\n", "// c% // d\n\n// e\n"}
	n := 3
	if v.Bool("many") {
		n = 30
	}
	at := v.Pick("at", 3) // the line of the cursor is behind that many labels
	text := "#pragma version 8\n"
	use := []string{"b ", "match a "}[v.Pick("op", 2)]
	line := -1
	doc, sig := map[string]string{}, map[string]string{}
	last, docs := "", ""
	g := 0
	for i := 0; i < n; i++ {
		if i == at {
			line = strings.Count(text, "\n")
			text += use + "\n"
		}
		if i < 3 {
			g = v.Pick("gap", len(gaps))
		}
		switch g {
		case 2:
			docs = " c%"
		case 4:
			if last != "" {
				sig[last] = " in: 1, out: 3"
			}
		case 5:
			docs = " c% // d\n e"
		}
		last = "l" + strconv.Itoa(i)
		doc[last] = docs
		docs = ""
		text += gaps[g] + last + ":\n"
	}
	var items []item
	ask(text, "completion", liblsp.At(line, len(use)), &items)
	v.Assert(len(items) == n, "other than the labels are completed")
	for _, it := range items {
		d, ok := doc[it.Label]
		v.Assert(ok, "a label is not completed")
		v.Assert(it.Documentation.Value == d, "a label is completed with other text than its comment")
		if w := sig[it.Label]; w != "" {
			v.Assert(it.LabelDetails != nil && it.LabelDetails.Detail == w, "a label is completed with another signature")
		} else {
			v.Assert(it.LabelDetails == nil, "a label is completed with another's signature")
		}
		doc[it.Label] = "-"
	}
}

// expand gives the text of a snippet with its placeholders' default text; placeholders of the same number stand for
// the same text, those of different numbers for different text unless they are literals.
func expand(s string) string {
	r := ""
	names := map[string]string{}
	bare := 0
	for {
		i := strings.IndexByte(s, '$')
		if i < 0 {
			v.Assert(bare <= 1, "a snippet leaves the cursor at several places")
			return r + s
		}
		r += s[:i]
		s = s[i+1:]
		if s != "" && s[0] == '{' {
			j := strings.IndexByte(s, '}')
			v.Assert(j > 0, "a placeholder is not closed")
			n, text, ok := strings.Cut(s[1:j], ":")
			_, err := strconv.Atoi(n)
			v.Assert(err == nil, "a placeholder has no number")
			old, seen := names[n]
			v.Assert(!seen || ok && old == text, "two placeholders of the same number stand for different text")
			for m, t := range names {
				v.Assert(m == n || text == "" || text >= "0" && text <= "9" || t != text, "two placeholders stand for the same name")
			}
			names[n] = text
			r += text
			s = s[j+1:]
			continue
		}
		j := 0
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		v.Assert(j > 0, "a placeholder has no number")
		_, seen := names[s[:j]]
		v.Assert(!seen, "the cursor is left at a placeholder")
		names[s[:j]] = ""
		bare++
		s = s[j:]
	}
}

// CheckSnippets: the snippets for a switch on OnCompletion and for a subroutine insert programs without errors, in
// which each case other than the last branches behind the last one.
func CheckSnippets() {
	var items []item
	ask("#pragma version 8\n", "completion", liblsp.At(1, 0), &items)
	n := 0
	for _, it := range items {
		if it.LabelDetails != nil {
			continue
		}
		n++
		text := expand(it.InsertText)
		r := teal.Process("#pragma version 8\n" + text)
		for _, d := range r.Diagnostics {
			v.Assert(d.Severity() != teal.DiagErr, "a snippet inserts an erroneous program")
		}
		if it.Label == "soc" {
			cases := []string{"noop", "optin", "closeout", "clearstate", "updateapplication", "deleteapplication"}
			want := "txn OnCompletion\nswitch " + strings.Join(cases, " ") + "\n" + strings.Join(cases, ":\nb then\n") + ":\nthen:\n"
			v.Assert(tidy(text) == want, "the snippet does not switch on the completion")
		} else {
			v.Assert(tidy(text) == "sub:\nproto 0 0\nretsub\n", "the snippet is no subroutine")
		}
	}
	v.Assert(n == 2, "a snippet is not offered")
}

// tidy drops empty lines and blanks around lines.
func tidy(s string) string {
	r := ""
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r += l + "\n"
		}
	}
	return r
}

// CheckOptions: each of the options left out, on or off: exactly the features switched off are not announced and not
// served.
func CheckOptions() {
	names := []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"}
	on := []bool{true, true, true, true}
	options := ""
	for i, n := range names {
		k := v.Pick(n, 3)
		if k == 0 {
			continue
		}
		if options != "" {
			options += ","
		}
		on[i] = k == 1
		options += `"` + n + `":` + []string{"true", "false"}[k-1]
	}
	out := liblsp.Talk(`{"jsonrpc":"2.0","id":9,"method":"initialize","params":{"initializationOptions":{`+options+`}}}`,
		liblsp.Open(uri, "#pragma version 8\na:\nb a\ntxn 0\nbyte 0x61\n"),
		liblsp.Ask(1, "textDocument/inlayHint", uri, liblsp.Over(0, 0, 5, 0)),
		liblsp.Ask(2, "textDocument/codeLens", uri, ""))
	var init struct {
		Capabilities struct {
			SemanticTokensProvider *struct {
				Full bool `json:"full"`
			} `json:"semanticTokensProvider"`
			InlayHintProvider bool `json:"inlayHintProvider"`
		} `json:"capabilities"`
	}
	liblsp.ResultOf(out, 9, &init)
	var hs []hint
	liblsp.ResultOf(out, 1, &hs)
	var lenses []struct {
		Command struct {
			Title string `json:"title"`
		} `json:"command"`
	}
	liblsp.ResultOf(out, 2, &lenses)
	s := init.Capabilities.SemanticTokensProvider
	v.Assert((s != nil && s.Full) == on[0], "semantic tokens are not announced exactly when they are switched on")
	v.Assert(init.Capabilities.InlayHintProvider == (on[1] || on[2]), "hints are not announced exactly when some are switched on")
	named, decoded := 0, 0
	for _, h := range hs {
		switch h.Label {
		case "Sender":
			named++
		case "a":
			decoded++
		default:
			v.Assert(false, "a hint shows another name")
		}
	}
	v.Assert((named == 1) == on[1] && named <= 1, "named hints are not shown exactly when they are switched on")
	v.Assert((decoded == 1) == on[2] && decoded <= 1, "decoded hints are not shown exactly when they are switched on")
	v.Assert((len(lenses) == 1) == on[3] && len(lenses) <= 1, "lenses are not shown exactly when they are switched on")
}

var prefixes = []string{"", "a", "ar", "b", "b+", "gtx", "int", "zz", "txn"}

// CheckOpcodes: at every version from 1 to 10, 256 and 2^64-1 (or none declared) the opcodes completed at the beginning of a line are
// those of the prefix (one of 9, at version 10 each whole opcode, also with one more character) that the version has, with the immediates of each; documentation is that shown on hover.
func CheckOpcodes() {
	pragma, ver := "", uint64(1)
	if v.Bool("declared") {
		pragma, ver = version()
	}
	p := ""
	if pragma == "#pragma version 10\n" {
		// each opcode, typed in full and further
		p = libavm.Ops[v.Pick("op", len(libavm.Ops))].Name + []string{"", "_"}[v.Pick("more", 2)]
	} else {
		p = prefixes[v.Pick("prefix", len(prefixes))]
	}
	var items []item
	l := 0
	if pragma != "" {
		l = 1
	}
	ask(pragma+p+"\n", "completion", liblsp.At(l, v.Pick("column", 2)*len(p)), &items)
	snippets := 0
	for _, it := range items {
		if it.LabelDetails == nil {
			snippets++
			continue
		}
		op := libavm.Find(it.Label)
		v.Assert(op.Name != "", "an opcode is completed that there is not")
		v.Assert(strings.HasPrefix(op.Name, p), "an opcode is completed that has not the prefix")
		v.Assert(op.App > 0 && op.App <= ver || op.Sig > 0 && op.Sig <= ver, "an opcode is completed that the version does not have")
		imm, _ := libavm.Letters(op.Imm)
		v.Assert(strings.Count(it.InsertText, "${") == len(imm), "an opcode is completed with more or fewer immediates")
		v.Assert(imm == "" || strings.HasPrefix(it.InsertText, op.Name+" "), "another opcode is inserted")
		expand(it.InsertText)
		v.Assert(imm == "" || strings.Count(it.InsertText, "} ${") == len(imm)-1, "the immediates inserted are not separate words")
		need := op.App
		if need == 0 {
			need = op.Sig
		}
		v.Assert(it.LabelDetails.Description == "v"+strconv.FormatUint(need, 10), "an opcode is completed with another version")
	}
	for _, op := range libavm.Ops {
		if strings.HasPrefix(op.Name, p) && op.App > 0 && op.App <= ver {
			k := 0
			for _, it := range items {
				if it.LabelDetails != nil && it.Label == op.Name {
					k++
				}
			}
			v.Assert(k == 1, "an opcode that the version has is not completed once")
		}
	}
	v.Assert(snippets <= 2, "a completion is no opcode")
	v.Reach("opcodes")
}

type hover struct {
	Contents struct {
		Value string `json:"value"`
	} `json:"contents"`
}

// CheckHoverFields: every field of every group, by name or by number, in an opcode that takes it, at every column: on
// the field its name and number are shown, on the opcode and elsewhere they are not.
func CheckHoverFields() {
	f := &libavm.Fields[v.Pick("field", len(libavm.Fields))]
	v.Assume(f.Group != 'G')
	var ops []libavm.Op
	for _, o := range libavm.Ops {
		imm, _ := libavm.Letters(o.Imm)
		for i := 0; i < len(imm); i++ {
			if isField(imm[i]) && available(f, imm[i], 9) {
				ops = append(ops, o)
			}
		}
	}
	v.Assume(len(ops) > 0)
	op := ops[v.Pick("op", len(ops))]
	imm, _ := libavm.Letters(op.Imm)
	line, begin, end := op.Name, 0, 0
	for i := 0; i < len(imm); i++ {
		if isField(imm[i]) {
			begin = len(line) + 1
			if v.Bool("numeric") {
				line += " " + strconv.Itoa(f.Value)
			} else {
				line += " " + f.Name
			}
			end = len(line)
		} else {
			line += libavm.Sample(imm[i : i+1])
		}
	}
	at := v.Int("column", 0, len(line)+1)
	var h hover
	ask("#pragma version 8\n"+line+" // x\n", "hover", liblsp.At(1, at), &h)
	head := f.Name + " = " + strconv.Itoa(f.Value)
	if begin <= at && at <= end {
		v.Reach("field")
		v.Assert(strings.HasPrefix(h.Contents.Value, head), "hovering a field shows another")
		rest := h.Contents.Value[len(head):]
		v.Assert(rest == "" || rest[0] == '\r' || rest[0] == '\n', "hovering a field shows another")
	} else {
		v.Assert(!strings.Contains(h.Contents.Value, head), "hovering elsewhere shows the field")
		if at > len(op.Name) {
			v.Assert(h.Contents.Value == "", "hovering no field shows something")
		}
	}
}

// CheckHoverOps: hovering an opcode shows the documentation that completion gives it, at every column of its name, and
// that of no other line.
func CheckHoverOps() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	text := "#pragma version 9\n " + op.Name + libavm.Sample(op.Imm) + "\nint 1\nx:\n// addr\n"
	var h hover
	at := v.Int("column", 0, len(op.Name)+1)
	l := 1 + v.Pick("line", 5)
	ask(text, "hover", liblsp.At(l, at), &h)
	if l > 1 {
		// int, a label, a comment and the line behind the text have no documentation
		v.Assert(h.Contents.Value == "", "hovering something else shows an opcode's documentation")
		return
	}
	var items []item
	ask("#pragma version 9\n"+op.Name, "completion", liblsp.At(1, 1), &items)
	for _, it := range items {
		if it.Label == op.Name {
			if at >= 1 {
				v.Assert(strings.HasPrefix(h.Contents.Value, it.Documentation.Value), "hovering an opcode shows another documentation")
				v.Assert(it.Documentation.Value != "" || op.Name == "replace" || strings.IndexByte("IyAmG", (op.Imm + " ")[0]) >= 0, "an opcode has no documentation")
			} else {
				v.Assert(h.Contents.Value == "", "hovering before an opcode shows its documentation")
			}
			v.Reach("documented")
		}
	}
}

type hint struct {
	Position liblsp.Position `json:"position"`
	Label    string          `json:"label"`
}

func hints(text, options string, rg string) []hint {
	out := liblsp.Talk(`{"jsonrpc":"2.0","id":9,"method":"initialize","params":{"initializationOptions":{`+options+`}}}`, liblsp.Open(uri, text), liblsp.Ask(1, "textDocument/inlayHint", uri, rg))
	var hs []hint
	liblsp.ResultOf(out, 1, &hs)
	return hs
}

// CheckNamedHints: every opcode with a field immediate given as an arbitrary number of one or two digits: the hint
// behind it is the name of that value if it has one of that kind; there is no hint when they are switched off or
// for a range that does not reach it.
func CheckNamedHints() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	imm, _ := libavm.Letters(op.Imm)
	line, begin, end := "\t"+op.Name, 0, 0
	var kind byte
	num := v.Str("number", 1+v.Pick("digits", 2))
	val := 0
	for i := 0; i < len(num); i++ {
		v.Assume(v.And(num[i] >= '0', num[i] <= '9'))
		val = val*10 + int(num[i]-'0')
	}
	v.Assume(len(num) == 1 || num[0] != '0')
	for i := 0; i < len(imm); i++ {
		if isField(imm[i]) {
			kind = imm[i]
			begin = len(line) + 1
			line += " " + num
			end = len(line)
		} else {
			line += libavm.Sample(imm[i : i+1])
		}
	}
	v.Assume(kind != 0)
	want := ""
	for j := range libavm.Fields {
		f := &libavm.Fields[j]
		if f.Group == group(kind) && f.Value == val && (kind != 'a' || f.Array) && (kind != 'x' || f.Itx > 0) {
			want = f.Name
		}
	}
	text := "#pragma version 9\n" + line + "\nint 1 // 0\n"
	options, on := "", true
	switch v.Pick("options", 3) {
	case 1:
		options = `"inlayDecoded":false`
	case 2:
		options, on = `"inlayNamed":false`, false
	}
	rg := liblsp.Over(0, 0, 3, 0)
	switch v.Pick("range", 4) {
	case 1:
		rg = liblsp.Over(1, begin, 1, end)
	case 2:
		rg, on = liblsp.Over(2, 0, 3, 0), false
	case 3:
		rg, on = liblsp.Over(0, 0, 1, begin-1), false
	}
	hs := hints(text, options, rg)
	if on && want != "" {
		v.Assert(len(hs) == 1, "a field given as a number has not one hint")
		v.Assert(hs[0].Label == want, "a hint shows another name")
		v.Assert(hs[0].Position.Line == 1 && hs[0].Position.Character == end, "a hint is elsewhere")
		v.Reach("hint")
	} else {
		v.Assert(len(hs) == 0, "there is a hint for no field")
	}
}

var byteLines = []string{"byte ", "pushbytes ", "bytecblock 0x00 ", "pushbytess ", "int ", "pushint ", "arg ", "byte b32 ", "byte base64 ", "byte b64 ", "pushbytess 0xff base32 ", "addr ", "b ", "byte 0xff // "}

// CheckDecodedHints: an arbitrary byte in hexadecimal (alone, with a letter or with 150 of them), as a literal of each opcode
// that takes bytes and as something else: the hint shows the text exactly if it is a printable byte literal.
func CheckDecodedHints() {
	k := v.Pick("line", len(byteLines))
	line := byteLines[k]
	h, l := v.U8("high"), v.U8("low")
	v.Assume(v.And(h < 16, l < 16))
	digits := "0123456789abcdef"
	hx := func(b byte) string {
		if b < 10 {
			return string([]byte{'0' + b})
		}
		return string([]byte{'a' + b - 10})
	}
	_ = digits
	lit, want := "0x"+hx(h)+hx(l), string([]byte{h*16 + l})
	switch v.Pick("more", 4) {
	case 1:
		lit, want = lit+"41", want+"A"
	case 3:
		for i := 0; i < 150; i++ {
			lit, want = lit+"7e", want+"~"
		}
	case 2:
		lit, want = "0x6D"+hx(h)+hx(l), "m"+want
	}
	text := line + lit + " // 0x61\nint 1"
	options, on := "", true
	if v.Bool("off") {
		options, on = `"inlayDecoded":false`, false
	}
	hs := hints(text, options, liblsp.Over(0, 0, 2, 0))
	c := h*16 + l
	if on && k < 4 && c >= ' ' && c < 127 {
		v.Assert(len(hs) == 1, "a printable byte literal has not one hint")
		v.Assert(hs[0].Label == want, "a hint shows other text")
		v.Assert(hs[0].Position.Line == 0 && hs[0].Position.Character == len(line)+len(lit), "a hint is elsewhere")
		v.Reach("hint")
	} else {
		v.Assert(len(hs) == 0, "there is a hint for no printable byte literal")
	}
}
