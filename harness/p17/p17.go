// Package p17 decides that definition, highlight, rename and symbols cover exactly a label's occurrences.
package p17

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

const uri = "file:///d/a.teal"

// In a template, @ begins a label (a letter and the lower case letters after it), % is a letter elsewhere.
var templates = []string{
	"@:",
	"b @",
	"switch @ @x",
	"int 1 // % %:",
	"@x: // %",
	"\tbnz  @",
	"callsub @x // %",
	"byte \"%\"",
	"match @x @ @",
	"bz @y",
	"  b @x",
	"#pragma version 8",
	" @:",
}

type occ struct {
	line, begin, end int
	name             string
	def              bool
}

func letter() string {
	s := v.Str("letter", 1)
	v.Assume(v.And(s[0] >= 'a', s[0] <= 'b'))
	return s
}

// build makes the line of a template.
func build(t string, line int) (string, []occ) {
	r := ""
	var os []occ
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '%':
			r += letter()
		case '@':
			o := occ{line: line, begin: len(r), name: letter()}
			for i+1 < len(t) && t[i+1] >= 'a' && t[i+1] <= 'z' {
				i++
				o.name += t[i : i+1]
			}
			r += o.name
			o.end = len(r)
			o.def = i+1 < len(t) && t[i+1] == ':'
			os = append(os, o)
		default:
			r += t[i : i+1]
		}
	}
	return r, os
}

func (o occ) is(r liblsp.Range) bool {
	return r.Start.Line == o.line && r.End.Line == o.line && r.Start.Character == o.begin && r.End.Character == o.end
}

// cover asserts that the ranges are exactly the occurrences chosen, each once.
func cover(rs []liblsp.Range, os []occ, name string, def bool, what string) {
	n := 0
	for _, o := range os {
		if o.name != name || def && !o.def {
			continue
		}
		n++
		k := 0
		for _, r := range rs {
			if o.is(r) {
				k++
			}
		}
		v.Assert(k == 1, what+" misses an occurrence or has it twice")
	}
	v.Assert(len(rs) == n, what+" has a range that is no occurrence")
}

// renamed is the text with the occurrences of the name replaced.
func renamed(text string, os []occ, name, to string) string {
	st, _ := liblsp.Lines(text)
	r, at := "", 0
	for _, o := range os {
		if o.name == name {
			r += text[at:st[o.line]+o.begin] + to
			at = st[o.line] + o.end
		}
	}
	return r + text[at:]
}

type location struct {
	Uri   string       `json:"uri"`
	Range liblsp.Range `json:"range"`
}

type edits struct {
	Changes map[string][]liblsp.Edit `json:"changes"`
}

type prepared struct {
	Range       *liblsp.Range `json:"range"`
	Placeholder string        `json:"placeholder"`
}

type symbol struct {
	Name           string       `json:"name"`
	Range          liblsp.Range `json:"range"`
	SelectionRange liblsp.Range `json:"selectionRange"`
}

type lens struct {
	Range   liblsp.Range `json:"range"`
	Command struct {
		Title string `json:"title"`
	} `json:"command"`
}

// program asks about the text at an arbitrary position.
func program(lines []string, eol string) {
	text := ""
	var os []occ
	var widths []int
	for i, t := range lines {
		s, o := build(t, i)
		text += s + eol
		widths = append(widths, len(t))
		os = append(os, o...)
	}
	to := "zzz"
	if v.Bool("short") {
		to = "q"
	}
	query(text, os, append(widths, 0), to)
}

// query asks about a position of the lines of the given widths.
func query(text string, os []occ, widths []int, to string) {
	line := v.Pick("line", len(widths))
	queryAt(text, os, line, v.Int("char", 0, widths[line]+1), to)
}

func queryAt(text string, os []occ, line, ch int, to string) {
	at := liblsp.At(line, ch)
	out := liblsp.Talk(liblsp.Open(uri, text),
		liblsp.Ask(1, "textDocument/definition", uri, at),
		liblsp.Ask(2, "textDocument/documentHighlight", uri, at),
		liblsp.Ask(3, "textDocument/rename", uri, at+`,"newName":`+v.JStr(to)),
		liblsp.Ask(4, "textDocument/prepareRename", uri, at),
		liblsp.Ask(5, "textDocument/documentSymbol", uri, ""),
		liblsp.Ask(6, "textDocument/codeLens", uri, ""))

	var defs []location
	var highs []struct {
		Range liblsp.Range `json:"range"`
	}
	var ren edits
	var prep prepared
	var syms []symbol
	var lenses []lens
	liblsp.ResultOf(out, 1, &defs)
	liblsp.ResultOf(out, 2, &highs)
	liblsp.ResultOf(out, 3, &ren)
	liblsp.ResultOf(out, 4, &prep)
	liblsp.ResultOf(out, 5, &syms)
	liblsp.ResultOf(out, 6, &lenses)

	// symbols and reference counts of the document
	n := 0
	for _, o := range os {
		if !o.def {
			continue
		}
		k := 0
		for _, s := range syms {
			if s.Name == o.name && s.Range.Start.Line == o.line && s.Range.Start.Character == o.begin {
				k++
				v.Assert(v.And(s.Range.End.Line == o.line, v.Or(s.Range.End.Character == o.end, s.Range.End.Character == o.end+1)), "a symbol ends elsewhere")
			}
		}
		v.Assert(k == 1, "a label is no symbol of the document")
		refs := 0
		for _, p := range os {
			if !p.def && p.name == o.name {
				refs++
			}
		}
		k = 0
		for _, l := range lenses {
			if l.Range.Start.Line == o.line {
				k++
				v.Assert(l.Command.Title == "refs: "+strconv.Itoa(refs), "a lens counts other than the operands")
			}
		}
		v.Assert(k == 1 || k == 0 && refs == 0, "a label used has no lens")
		n++
	}
	v.Assert(len(syms) == n, "a symbol is no label")
	v.Assert(len(lenses) <= n, "a lens is on no label")

	// the occurrence at the position
	for _, o := range os {
		if o.line == line && o.begin <= ch && ch <= o.end {
			v.Reach("on")
			name := o.name
			if !o.def {
				var rs []liblsp.Range
				for _, d := range defs {
					v.Assert(d.Uri == uri, "a definition is in another document")
					rs = append(rs, d.Range)
				}
				cover(rs, os, name, true, "the definition")
			}
			var rs []liblsp.Range
			for _, h := range highs {
				rs = append(rs, h.Range)
			}
			cover(rs, os, name, false, "the highlight")
			v.Assert(len(ren.Changes) == 1, "rename changes another document")
			v.Assert(liblsp.Apply(text, ren.Changes[uri]) == renamed(text, os, name, to), "the renamed document is another")
			v.Assert(prep.Range != nil, "rename is not offered")
			if prep.Range != nil {
				v.Assert(o.is(*prep.Range) && prep.Placeholder == name, "rename is offered for other text")
			}
			return
		}
		if o.line == line && o.def && ch == o.end+1 {
			// behind the colon: on the label or not
			return
		}
	}
	v.Reach("off")
	v.Assert(len(defs) == 0, "there is a definition for no label")
	v.Assert(len(highs) == 0, "there is a highlight for no label")
	v.Assert(len(ren.Changes[uri]) == 0, "rename changes text for no label")
	v.Assert(prep.Range == nil, "rename is offered for no label")
}

var _ = json.RawMessage{}

// CheckPairs: every program of two lines out of 13 forms (definitions, operands of all branch opcodes, comments,
// strings), labels one of four names each, every position, two new names, LF or CR LF.
func CheckPairs() {
	eol := "\n"
	if v.Bool("crlf") {
		eol = "\r\n"
	}
	program([]string{templates[v.Pick("t", len(templates))], templates[v.Pick("t", len(templates))]}, eol)
}

// CheckTriples: every program of three lines out of the first 7 (thorough all 12) forms.
func CheckTriples() {
	n := 7 + 5*v.Tier()
	program([]string{templates[v.Pick("t", n)], templates[v.Pick("t", n)], templates[v.Pick("t", n)]}, "\n")
}

// CheckNames: names of one or two arbitrary printable characters that may be part of a word, the label defined twice
// and used twice next to a longer and a shorter name, renamed to a name that is arbitrary itself.
func CheckNames() {
	word := func(name string, n int) string {
		s := v.Str(name, n)
		for i := 0; i < n; i++ {
			v.Assume(v.And(s[i] > ' ', s[i] < 127))
			v.Assume(v.And(s[i] != '"', v.And(s[i] != '\\', s[i] != '/')))
			v.Assume(v.And(s[i] != '(', s[i] != ')'))
		}
		v.Assume(s[0] != '#')
		return s
	}
	name := word("name", 1+v.Pick("len", 2))
	other := name + ":"
	if v.Bool("other") {
		other = name + "_"
	}
	to := "n" + word("to", 1)
	text := ""
	var os []occ
	var widths []int
	add := func(head, name, tail string) {
		os = append(os, occ{line: len(widths), begin: len(head), end: len(head) + len(name), name: name, def: tail == ":"})
		text += head + name + tail + "\n"
		widths = append(widths, len(head)+len(name)+len(tail))
	}
	add("", name, ":")
	add("b ", name, "")
	add(" ", other, ":")
	add("bz ", other, " //")
	add("callsub ", name, "")
	add("", name, ":")
	query(text, os, widths, to)
}

// CheckMany: 60 (thorough 90) lines that use or define one label, among lines that use another, defined once or six times, with an operand list of 20
// labels and an arbitrary name of the label used on the last two lines.
func CheckMany() {
	text := ""
	var os []occ
	var widths []int
	add := func(head, name, tail string) {
		os = append(os, occ{line: len(widths), begin: len(head), end: len(head) + len(name), name: name, def: tail == ":"})
		text += head + name + tail + "\n"
		widths = append(widths, len(head)+len(name)+len(tail))
	}
	add("", "a", ":")
	add("", "b", ":")
	dup := v.Bool("duplicates")
	for i := 0; i < 60+30*v.Tier(); i++ {
		if dup && i%12 == 0 {
			add("", "a", ":")
		}
		add("b ", []string{"a", "b", "a", "c"}[i%4], "")
	}
	l := "switch"
	for i := 0; i < 20; i++ {
		n := []string{"a", "b", "ab"}[i%3]
		os = append(os, occ{line: len(widths), begin: len(l) + 1, end: len(l) + 1 + len(n), name: n})
		l += " " + n
	}
	text += l + "\n"
	widths = append(widths, len(l))
	add("bnz ", letter(), "")
	add("", []string{"c", "d"}[v.Pick("last", 2)], ":")
	// positions on the first and the last four lines
	n := len(widths)
	at := []int{0, 1, 40, n - 3, n - 2, n - 1}[v.Pick("at", 6)]
	queryAt(text, os, at, v.Int("char", 0, widths[at]+1), "zz")
}

// CheckFar: a label defined and used on one line or two behind 0, 70 or 300 other lines (of no occurrence or each of one) and as many
// columns, at any column of these lines.
func CheckFar() {
	text := ""
	var os []occ
	n := []int{0, 70, 300}[v.Pick("lines", 3)]
	used := v.Bool("used")
	for i := 0; i < n; i++ {
		if used {
			os = append(os, occ{line: i, begin: 2, end: 3, name: "a"})
			text += "b a\n"
		} else {
			text += "int 1\n"
		}
	}
	gap := strings.Repeat(" ", []int{1, 12, 300}[v.Pick("columns", 3)])
	l := "match"
	for i := 0; i < 4; i++ {
		name := []string{"a", "bbbb", "a", "a"}[i]
		if i == 3 {
			name = letter()
		}
		l += gap
		os = append(os, occ{line: n, begin: len(l), end: len(l) + len(name), name: name})
		l += name
	}
	d := letter()
	os = append(os, occ{line: n + 1, begin: len(gap), end: len(gap) + 1, name: d, def: true})
	text += l + " // a\n" + gap + d + ": // a\n"
	if v.Bool("definition") {
		queryAt(text, os, n+1, v.Int("char", 0, len(gap)+8), "zz")
	} else {
		queryAt(text, os, n, v.Int("char", 0, len(l)+5), "zz")
	}
}
