// Package liblsp drives the language server through its message streams.
package liblsp

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"

	"github.com/dragmz/teal/lsp"
	"github.com/dragmz/teal/zzverif/v"
)

// Frame is a message with its header.
func Frame(body string) string {
	return "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
}

// Raw runs a server on the bytes in and returns what it wrote and its exit code.
func Raw(in string) (string, int) {
	var out bytes.Buffer
	l, err := lsp.New(strings.NewReader(in), &out)
	v.Assert(err == nil, "no server")
	code, err := l.Run()
	v.Assert(err == nil, "the server fails")
	return out.String(), code
}

// Split cuts written bytes into message bodies; each must be framed correctly.
func Split(s string) []string {
	var r []string
	const head = "Content-Length: "
	for len(s) > 0 {
		v.Assert(strings.HasPrefix(s, head), "a message without Content-Length")
		e := strings.Index(s, "\r\n\r\n")
		v.Assert(e > 0, "a message without an end of header")
		n, err := strconv.Atoi(s[len(head):e])
		v.Assert(err == nil && n >= 0 && e+4+n <= len(s), "a message with a wrong length")
		r = append(r, s[e+4:e+4+n])
		s = s[e+4+n:]
	}
	return r
}

// Talk runs a server on the messages.
func Talk(msgs ...string) []string {
	in := ""
	for _, m := range msgs {
		in += Frame(m)
	}
	out, _ := Raw(in)
	return Split(out)
}

// Head is the part common to all messages.
type Head struct {
	Id     json.RawMessage `json:"id"`
	Method string          `json:"method"`
	Result json.RawMessage `json:"result"`
	Error  json.RawMessage `json:"error"`
	Params json.RawMessage `json:"params"`
}

func Parse(body string, into any) {
	err := json.Unmarshal([]byte(body), into)
	if err != nil {
		v.Log(body + err.Error())
	}
	v.Assert(err == nil, "a message that is no JSON")
}

func HeadOf(body string) Head {
	var h Head
	Parse(body, &h)
	return h
}

// Open, Change, Close and Ask are the messages of a client; params are the rest of the params object.
func Open(uri, text string) string {
	return `{"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":` + v.JStr(uri) + `,"version":1,"text":` + v.JStr(text) + `}}}`
}

// OpenAs and ChangeAs give the version as it stands, or none.
func OpenAs(uri, version, text string) string {
	if version != "" {
		version = `"version":` + version + `,`
	}
	return `{"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":` + v.JStr(uri) + `,` + version + `"languageId":"teal","text":` + v.JStr(text) + `}}}`
}

func Change(uri string, texts ...string) string { return ChangeAs(uri, "2", texts...) }

func ChangeAs(uri, version string, texts ...string) string {
	if version != "" {
		version = `,"version":` + version
	}
	s := ""
	for i, t := range texts {
		if i > 0 {
			s += ","
		}
		s += `{"text":` + v.JStr(t) + `}`
	}
	return `{"jsonrpc":"2.0","method":"textDocument/didChange","params":{"textDocument":{"uri":` + v.JStr(uri) + version + `},"contentChanges":[` + s + `]}}`
}

func Close(uri string) string {
	return `{"jsonrpc":"2.0","method":"textDocument/didClose","params":{"textDocument":{"uri":` + v.JStr(uri) + `}}}`
}

func Save(uri string) string {
	return `{"jsonrpc":"2.0","method":"textDocument/didSave","params":{"textDocument":{"uri":` + v.JStr(uri) + `}}}`
}

func Ask(id int, method, uri, rest string) string {
	return `{"jsonrpc":"2.0","id":` + v.JInt(id) + `,"method":"` + method + `","params":{"textDocument":{"uri":` + v.JStr(uri) + `}` + rest + `}}`
}

func Pos(l, c int) string {
	return `{"line":` + v.JInt(l) + `,"character":` + v.JInt(c) + `}`
}

func At(l, c int) string { return `,"position":` + Pos(l, c) }

func Over(l, c, m, d int) string {
	return `,"range":{"start":` + Pos(l, c) + `,"end":` + Pos(m, d) + `}`
}

type Position struct {
	Line      int `json:"line"`
	Character int `json:"character"`
}

type Range struct {
	Start Position `json:"start"`
	End   Position `json:"end"`
}

type Edit struct {
	Range   Range  `json:"range"`
	NewText string `json:"newText"`
}

// ResultOf is the result of the only answer with that id, parsed into.
func ResultOf(out []string, id int, into any) {
	n := 0
	for _, b := range out {
		h := HeadOf(b)
		if h.Method == "" && string(h.Id) == strconv.Itoa(id) {
			n++
			v.Assert(len(h.Error) == 0, "a request fails")
			Parse(string(h.Result), into)
		}
	}
	v.Assert(n == 1, "a request is not answered once")
}

// Lines cuts a text at its line ends (LF, CR LF or CR); starts are the offsets of the lines.
func Lines(s string) (starts, ends []int) {
	p := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\r' {
			starts, ends = append(starts, p), append(ends, i)
			if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			p = i + 1
		}
	}
	return append(starts, p), append(ends, len(s))
}

// Offset is the offset of a position, clamped like clients do.
func Offset(s string, p Position) int {
	st, en := Lines(s)
	return offset(s, st, en, p)
}

func offset(s string, st, en []int, p Position) int {
	if p.Line >= len(st) {
		return len(s)
	}
	o := st[p.Line] + p.Character
	if o > en[p.Line] {
		o = en[p.Line]
	}
	return o
}

// Apply applies edits, which must not overlap.
func Apply(s string, es []Edit) string {
	type span struct {
		a, b int
		t    string
	}
	var ps []span
	st, en := Lines(s)
	for _, e := range es {
		a, b := offset(s, st, en, e.Range.Start), offset(s, st, en, e.Range.End)
		v.Assert(a <= b, "an edit ends before it begins")
		ps = append(ps, span{a, b, e.NewText})
	}
	for i := range ps {
		for j := i; j > 0 && ps[j].a < ps[j-1].a; j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	r, at := "", 0
	for _, p := range ps {
		v.Assert(p.a >= at, "two edits overlap")
		r += s[at:p.a] + p.t
		at = p.b
	}
	return r + s[at:]
}
