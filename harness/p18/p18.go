// Package p18 decides that the language server answers for the latest text of each document.
package p18

import (
	"github.com/dragmz/teal"
	g "github.com/dragmz/teal/zzverif/libgen"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

// asks is one of each request about a document.
func asks(id int, uri string) []string {
	here := liblsp.At(1, 2)
	all := liblsp.Over(0, 0, 9, 0)
	return []string{
		liblsp.Ask(id, "textDocument/diagnostic", uri, ""),
		liblsp.Ask(id+1, "textDocument/documentSymbol", uri, ""),
		liblsp.Ask(id+2, "textDocument/semanticTokens/full", uri, ""),
		liblsp.Ask(id+3, "textDocument/definition", uri, here),
		liblsp.Ask(id+4, "textDocument/documentHighlight", uri, here),
		liblsp.Ask(id+5, "textDocument/rename", uri, here+`,"newName":"n"`),
		liblsp.Ask(id+6, "textDocument/prepareRename", uri, here),
		liblsp.Ask(id+7, "textDocument/codeLens", uri, ""),
		liblsp.Ask(id+8, "textDocument/inlayHint", uri, all),
		liblsp.Ask(id+9, "textDocument/codeAction", uri, all+`,"context":{"diagnostics":[]}`),
		liblsp.Ask(id+10, "textDocument/hover", uri, here),
		liblsp.Ask(id+11, "textDocument/signatureHelp", uri, here),
		liblsp.Ask(id+12, "textDocument/completion", uri, here),
	}
}

func letter(name string) string {
	s := v.Str(name, 1)
	v.Assume(v.And(s[0] >= 'a', s[0] <= 'b'))
	return s
}

// text is a program whose label operand and definition are arbitrary.
func text(name string, shape int) string {
	if shape == 2 {
		return ""
	}
	if shape == 1 {
		return "int 1\nb " + letter(name) + "\nb:\n"
	}
	return "a: // x\nb " + letter(name) + "\n"
}

func without(out []string, ids int) []string {
	// the answers to the last ids requests
	v.Assert(len(out) >= ids, "a request is not answered")
	return out[len(out)-ids:]
}

func compare(msgs []string, uri string, open bool, last string, other string, hasOther bool, wuri string) {
	tail := append(asks(100, uri), asks(200, wuri)...)
	got := without(liblsp.Talk(append(msgs, tail...)...), len(tail))
	var fresh []string
	if open {
		fresh = append(fresh, liblsp.Open(uri, last))
	}
	want := without(liblsp.Talk(append(fresh, asks(100, uri)...)...), 13)
	for i := range want {
		if i == 12 && open && last == "" {
			continue // the order of the opcodes offered is not defined
		}
		v.Assert(v.JEq(got[i], want[i]), "an answer is not that of a server that only knows the last text")
	}
	fresh = nil
	if hasOther {
		fresh = append(fresh, liblsp.Open(wuri, other))
	}
	want = without(liblsp.Talk(append(fresh, asks(200, wuri)...)...), 13)
	for i := range want {
		v.Assert(v.JEq(got[13+i], want[i]), "an answer about the other document is not that of a server that only knows its last text")
	}
	v.Reach("compared")
}

// history runs n arbitrary messages about two documents and compares the answers with a fresh server's.
func history(n int) {
	uri, wuri := "file:///d/a.teal", "file:///d/b.teal"
	var msgs []string
	open, last := false, ""
	hasOther, other := false, ""
	for i := 0; i < n; i++ {
		t := "t" + string(rune('0'+i))
		switch v.Pick("op", 10) {
		case 0:
			last, open = text(t, 0), true
			msgs = append(msgs, liblsp.Open(uri, last))
		case 1:
			other, hasOther = text(t, 1), true
			msgs = append(msgs, liblsp.Open(wuri, other))
		case 2:
			x := text(t, 1)
			msgs = append(msgs, liblsp.Change(uri, x))
			if open {
				last = x
			}
		case 3:
			x := text(t, 0)
			msgs = append(msgs, liblsp.Change(uri, "b zz\n", x))
			if open {
				last = x
			}
		case 4:
			x := text(t, 0)
			msgs = append(msgs, liblsp.Change(wuri, x))
			if hasOther {
				other = x
			}
		case 5:
			msgs = append(msgs, liblsp.Close(uri))
			open, last = false, ""
		case 6:
			// fills the caches
			msgs = append(msgs, asks(10, uri)...)
		case 7:
			msgs = append(msgs, liblsp.Save(uri), liblsp.Change(uri))
		case 9:
			last, open = "", true
			msgs = append(msgs, liblsp.Open(uri, last))
		case 8:
			msgs = append(msgs, asks(40, wuri)[:2]...)
			msgs = append(msgs, asks(10, uri)[0])
		}
	}
	compare(msgs, uri, open, last, other, hasOther, wuri)
}

// CheckHistories: every sequence of 3 (thorough 4) messages out of opening either of two documents (also with no text), changing
// either (one or two full texts), closing, saving, an empty change, and asking about them; the texts are programs of
// two or three lines with an arbitrary label operand; 13 kinds of request about both documents are compared
// with a fresh server that was sent only the last text.
func CheckHistories() {
	history(3 + v.Tier())
}

// CheckReopen: a document opened (or not), asked about, changed, asked about, closed and opened again or not,
// with arbitrary operands in each of its texts or no text, changed by up to three texts at once, next to a document, opened or not, whose URI differs in its folder, case, scheme,
// escaping, query or end.
func CheckReopen() {
	w := v.Pick("w", len(others))
	uri, wuri := "file:///d/a.teal", others[w]
	var msgs []string
	hasOther := !v.Bool("absent")
	if hasOther {
		msgs = append(msgs, liblsp.Open(wuri, "b b\nb b\n"))
	}
	last, open := text("t0", 0), true
	msgs = append(msgs, liblsp.Open(uri, last))
	msgs = append(msgs, asks(10, uri)[v.Pick("ask", 3)*4])
	last = text("t1", v.Pick("s1", 3))
	ch := 0
	if w < 2 {
		ch = v.Pick("changes", 3)
	}
	switch ch {
	case 0:
		msgs = append(msgs, liblsp.Change(uri, last))
	case 1:
		msgs = append(msgs, liblsp.Change(uri, "", last))
	case 2:
		msgs = append(msgs, liblsp.Change(uri, last, "b zz\n", last))
	}
	msgs = append(msgs, asks(10, uri)[v.Pick("ask", 3)*4])
	switch v.Pick("end", 4) {
	case 1:
		msgs = append(msgs, liblsp.Close(uri))
		last, open = "", false
	case 2:
		last = text("t2", 1)
		msgs = append(msgs, liblsp.Close(uri), liblsp.Open(uri, last))
	case 3:
		last = text("t2", 1+v.Pick("s2", 2))
		msgs = append(msgs, liblsp.Open(uri, last))
	}
	compare(msgs, uri, open, last, "b b\nb b\n", hasOther, wuri)
}

var versions = []string{"", "0", "1", "-1", "2147483647"}

// CheckVersions: whatever versions the client gives to a document it opens, changes twice and opens again (closed before or not), with
// a text or none, the last text counts.
func CheckVersions() {
	uri, wuri := "file:///d/a.teal", "file:///d/b.teal"
	ver := func() string { return versions[v.Pick("version", len(versions))] }
	msgs := []string{liblsp.OpenAs(uri, ver(), "b zz\n")}
	if v.Bool("asked") {
		msgs = append(msgs, asks(10, uri)[0])
	}
	last := text("t1", v.Pick("s1", 3))
	msgs = append(msgs, liblsp.ChangeAs(uri, ver(), last))
	switch v.Pick("end", 3) {
	case 1:
		last = text("t2", 1+v.Pick("s2", 2))
		if v.Bool("closed") {
			msgs = append(msgs, liblsp.Close(uri))
		}
		msgs = append(msgs, liblsp.OpenAs(uri, ver(), last))
	case 2:
		last = text("t2", 1+v.Pick("s2", 2))
		msgs = append(msgs, liblsp.ChangeAs(uri, ver(), last))
	}
	compare(msgs, uri, true, last, "", false, wuri)
}

var others = []string{"file:///e/a.teal", "file:///d/A.teal", "untitled:/d/a.teal", "file:///d/%61.teal", "file:///d/a.teal?x", "file:///d/a.teal ", ""}

type report struct {
	Items []struct {
		Range    liblsp.Range `json:"range"`
		Severity int          `json:"severity"`
		Message  string       `json:"message"`
	} `json:"items"`
}

var malformed = []string{"\"", "byte \"x", "int", " txn Foo // c", "int 1 2", "byte b64", "#pragma version", "gtxn 256 Sender", "\tint 1 \"\r\n\r"}

// CheckDiagnostics: programs of two lines (thorough three) out of 20 forms with arbitrary labels, the last one possibly
// malformed: the diagnostics
// answered are exactly those of the analysis, at its positions and with its severities, also after a change.
func CheckDiagnostics() {
	kinds := make([]int, 20)
	for i := range kinds {
		kinds[i] = i
	}
	uri := "file:///d/a.teal"
	n := 2 + v.Tier()
	tail := ""
	if v.Bool("malformed") {
		n--
		tail = "\n" + malformed[v.Pick("tail", len(malformed))]
	}
	text := g.Source(g.Program(kinds, n, g.Name1(2)), "\n") + tail
	msgs := []string{liblsp.Open(uri, text)}
	if v.Bool("changed") {
		msgs = []string{liblsp.Open(uri, "b zz\n"), liblsp.Ask(1, "textDocument/diagnostic", uri, ""), liblsp.Change(uri, text)}
	}
	out := liblsp.Talk(append(msgs, liblsp.Ask(2, "textDocument/diagnostic", uri, ""))...)
	var rep report
	liblsp.ResultOf(out, 2, &rep)
	ds := teal.Process(text).Diagnostics
	v.Assert(len(rep.Items) == len(ds), "there are more or fewer diagnostics than those of the analysis")
	used := make([]bool, len(ds))
	for _, it := range rep.Items {
		found := false
		for i, d := range ds {
			if found || used[i] {
				continue
			}
			r := it.Range
			if r.Start.Line == d.Line() && r.End.Line == d.Line() && r.Start.Character == d.Begin() && r.End.Character == d.End() &&
				it.Severity == int(d.Severity()) && it.Message == d.String() {
				found, used[i] = true, true
			}
		}
		v.Assert(found, "a diagnostic is not one of the analysis")
	}
	if len(ds) > 1 {
		v.Reach("several")
	}
}

// CheckManyDocuments: 24 documents are open, one of which is then changed, closed or closed and opened again, another one is
// asked about: its answers are those of a server that only knows it.
func CheckManyDocuments() {
	name := func(i int) string { return "file:///d/" + string(rune('a'+i)) + ".teal" }
	texts := make([]string, 24)
	var msgs []string
	for i := range texts {
		texts[i] = "int 1\nb " + string(rune('a'+i)) + "\n" + string(rune('a'+i%3)) + ":\n"
		msgs = append(msgs, liblsp.Open(name(i), texts[i]))
		if i%5 == 0 {
			msgs = append(msgs, asks(10, name(i))[:4]...)
		}
	}
	k := v.Pick("touched", 24)
	open := true
	switch v.Pick("how", 3) {
	case 0:
		texts[k] = text("t", 0)
		msgs = append(msgs, liblsp.Change(name(k), texts[k]))
	case 1:
		msgs = append(msgs, liblsp.Close(name(k)))
		open = false
	case 2:
		texts[k] = text("t", 0)
		msgs = append(msgs, liblsp.Close(name(k)), liblsp.Open(name(k), texts[k]))
	}
	w := (k + 1 + v.Pick("other", 3)*7) % 24
	compare(msgs, name(k), open, texts[k], texts[w], true, name(w))
}

// CheckManyChanges: a document is changed 5, 20 or 40 times, also by up to 40 texts at once, and asked about in between or not.
func CheckManyChanges() {
	uri, wuri := "file:///d/a.teal", "file:///d/b.teal"
	n := []int{5, 20, 40}[v.Pick("n", 3)]
	msgs := []string{liblsp.Open(uri, "a:\n"), liblsp.Open(wuri, "b b\nb b\n")}
	asked := v.Bool("asked")
	last := text("t", v.Pick("shape", 3))
	var all []string
	for i := 0; i < n; i++ {
		t := "b a\n\n" + "a:\nint 1\nb:\n"[:i%10]
		if i == n-1 {
			t = last
		}
		all = append(all, t)
	}
	if v.Bool("at once") {
		msgs = append(msgs, liblsp.Change(uri, all...))
	} else {
		for i, t := range all {
			msgs = append(msgs, liblsp.Change(uri, t))
			if asked {
				msgs = append(msgs, asks(10, uri)[i%12])
			}
		}
	}
	compare(msgs, uri, true, last, "b b\nb b\n", true, wuri)
}
