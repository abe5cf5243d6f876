// Package p19 decides that the language server answers each request once and survives every message.
package p19

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/dragmz/teal/lsp"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

const uri = "file:///a.teal"
const doc = "#pragma version 2\nb a\nb b\na:\nint 0\nbyte 0x61\n"

var requests = []string{
	"initialize", "shutdown", "workspace/executeCommand",
	"textDocument/prepareRename", "textDocument/rename", "textDocument/inlineValue", "textDocument/codeLens",
	"textDocument/inlayHint", "textDocument/completion", "textDocument/hover", "textDocument/definition",
	"textDocument/signatureHelp", "textDocument/codeAction", "textDocument/diagnostic",
	"textDocument/documentHighlight", "textDocument/documentSymbol", "textDocument/semanticTokens/full",
	"textDocument/unknown", "$/unknown", "x", "textDocument/formatting",
}

var notes = []string{
	"initialized", "textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose",
	"$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "y",
}

// params are shapes of the params member, from missing over malformed to complete ones.
var shapes = []string{
	``,
	`,"params":null`,
	`,"params":{}`,
	`,"params":[]`,
	`,"params":7`,
	`,"params":"p"`,
	`,"params":true`,
	`,"params":{"textDocument":null}`,
	`,"params":{"textDocument":{}}`,
	`,"params":{"textDocument":7}`,
	`,"params":{"textDocument":{"uri":7}}`,
	`,"params":{"textDocument":{"uri":"file:///unknown"}}`,
	`,"params":{"textDocument":{"uri":"file:///unknown"},"position":{"line":0,"character":0},"contentChanges":[{"text":"x"}]}`,
	`,"params":{"textDocument":{"uri":"file:///a.teal"},"position":null,"range":null,"contentChanges":null,"context":null}`,
	`,"params":{"textDocument":{"uri":"file:///a.teal"},"position":{"line":"0"},"range":{"start":7},"contentChanges":[7]}`,
	`,"params":{"textDocument":{"uri":"file:///a.teal"},"position":{"line":1.5,"character":1e30},"range":[],"contentChanges":{}}`,
	`,"params":{"textDocument":{"uri":"file:///a.teal"},"contentChanges":[null]}`,
	`,"params":{"textDocument":{"uri":"file:///a.teal"}}`,
}

func message(id, method, params string) string {
	return `{"jsonrpc":"2.0"` + id + `,"method":"` + method + `"` + params + `}`
}

const probe = `{"jsonrpc":"2.0","id":"probe","method":"textDocument/diagnostic","params":{"textDocument":{"uri":"file:///other.teal"}}}`

// answers checks that out is the answer with the id (none if id is "") and at most requests of the server, then
// the answer to the probe; it returns the first answer.
func answers(out []string, id string) liblsp.Head {
	var first liblsp.Head
	n := 0
	for i, b := range out {
		h := liblsp.HeadOf(b)
		if h.Method != "" {
			v.Assert(i < len(out)-1, "the server asks after the last answer")
			continue
		}
		v.Assert((len(h.Result) > 0) != (len(h.Error) > 0), "an answer has not exactly one of result and error")
		n++
		if i == len(out)-1 {
			v.Assert(v.JEq(string(h.Id), `"probe"`), "the server answers out of order")
			v.Assert(len(h.Error) == 0, "the server does not go on serving")
		} else {
			v.Assert(id != "", "a notification is answered")
			v.Assert(v.JEq(string(h.Id), id), "an answer has another id than the request")
			first = h
		}
	}
	if id == "" {
		v.Assert(n == 1, "a message is answered too often or the server stops serving")
	} else {
		v.Assert(n == 2, "a request is not answered exactly once or the server stops serving")
	}
	v.Reach("answered")
	return first
}

func anId() string {
	switch v.Pick("id", 9) {
	case 0:
		return "0"
	case 1:
		return "-2147483648"
	case 2:
		return "2147483647"
	case 3:
		return `""`
	case 4:
		s := v.Str("s", 2)
		v.Assume(v.And(v.And(s[0] >= ' ', s[0] < 127), v.And(s[1] >= ' ', s[1] < 127)))
		return v.JStr(s)
	case 5:
		return "4294967297"
	case 6:
		return "9007199254740991"
	case 7:
		return "1.5"
	}
	return `"\u00e9\"\\<"`
}

func opened() string { return liblsp.Frame(liblsp.Open(uri, doc)) }

// CheckMalformed: each of 20 methods (known and unknown) with each of 18 shapes of params, from missing over
// wrongly typed to a document that is open or not, as a request, with a document open or not.
func CheckMalformed() {
	m := requests[v.Pick("method", len(requests)-1)]
	in := ""
	if v.Bool("open") {
		in = opened()
	}
	if m == "shutdown" {
		out, _ := liblsp.Raw(in + liblsp.Frame(message(`,"id":5`, m, shapes[v.Pick("shape", len(shapes))])))
		bs := liblsp.Split(out)
		v.Assert(len(bs) == 1, "shutdown is not answered once")
		h := liblsp.HeadOf(bs[0])
		v.Assert(string(h.Id) == "5" && len(h.Error) == 0, "shutdown fails")
		return
	}
	out, _ := liblsp.Raw(in + liblsp.Frame(message(`,"id":5`, m, shapes[v.Pick("shape", len(shapes))])) + liblsp.Frame(probe))
	answers(liblsp.Split(out), "5")
}

// CheckNotifications: each of 9 notifications (known and unknown) with each of 18 shapes of params, with a document
// open or not; also requests' methods sent without id.
func CheckNotifications() {
	in := ""
	if v.Bool("open") {
		in = opened()
	}
	var m string
	if v.Bool("known") {
		m = notes[v.Pick("note", len(notes))]
	} else {
		m = requests[3+v.Pick("request", len(requests)-4)]
	}
	out, _ := liblsp.Raw(in + liblsp.Frame(message("", m, shapes[v.Pick("shape", len(shapes))])) + liblsp.Frame(probe))
	answers(liblsp.Split(out), "")
}

// CheckValid: each request about an open document with an arbitrary position or range of one of its lines is answered
// with a result, whatever the id (integers, strings with arbitrary printable characters).
func CheckValid() {
	m := requests[3+v.Pick("method", 14)]
	l := v.Pick("line", 6)
	c := v.Int("char", 0, 12)
	p := `,"params":{"textDocument":{"uri":"` + uri + `"}` + liblsp.At(l, c) + liblsp.Over(l, c, l, c) + `,"newName":"n","context":{"diagnostics":[]}}`
	id := anId()
	out, _ := liblsp.Raw(opened() + liblsp.Frame(message(`,"id":`+id, m, p)) + liblsp.Frame(probe))
	h := answers(liblsp.Split(out), id)
	v.Assert(len(h.Error) == 0, "a valid request fails")
}

// CheckPositions: each request about an open document with arbitrary 64-bit line and character numbers.
func CheckPositions() {
	m := requests[3+v.Pick("method", 14)]
	l, c := int(v.U64("line")), int(v.U64("char"))
	p := `,"params":{"textDocument":{"uri":"` + uri + `"}` + liblsp.At(l, c) + liblsp.Over(l, c, int(v.U64("toline")), int(v.U64("tochar"))) + `,"newName":"n"}`
	out, _ := liblsp.Raw(opened() + liblsp.Frame(message(`,"id":5`, m, p)) + liblsp.Frame(probe))
	answers(liblsp.Split(out), "5")
}

var commands = []string{"teal.version.update", "teal.value.replace", "teal.line.remove", "teal.label.remove", "teal.label.create", "teal.unknown", ""}

var arguments = []string{
	``, `,"arguments":null`, `,"arguments":[]`, `,"arguments":{}`, `,"arguments":7`, `,"arguments":[null]`, `,"arguments":[7]`,
	`,"arguments":[{}]`, `,"arguments":[{"uri":"file:///unknown"}]`, `,"arguments":[{"uri":"file:///a.teal"},{"uri":"file:///a.teal"}]`,
	`,"arguments":[{"uri":7,"name":8,"line":"x","version":-1}]`, `,"arguments":[{"uri":"file:///a.teal","line":"x","name":7,"version":-1,"range":7}]`,
	`,"arguments":[{"uri":"file:///a.teal"}]`,
}

// CheckCommands: each command (known or not) with each of 13 shapes of arguments; a valid command is answered before
// the server's own request, which has an id of its own.
func CheckCommands() {
	cmd := commands[v.Pick("command", len(commands))]
	a := v.Pick("arguments", len(arguments))
	msg := message(`,"id":5`, "workspace/executeCommand", `,"params":{"command":"`+cmd+`"`+arguments[a]+`}`)
	in := opened() + liblsp.Frame(msg) + liblsp.Frame(probe)
	out, _ := liblsp.Raw(in)
	h := answers(liblsp.Split(out), "5")
	if a == len(arguments)-1 && strings.HasPrefix(cmd, "teal.") && cmd != "teal.unknown" {
		v.Assert(len(h.Error) == 0, "a valid command fails")
		second := message(`,"id":6`, "workspace/executeCommand", `,"params":{"command":"`+cmd+`"`+arguments[a]+`}`)
		raw, _ := liblsp.Raw(opened() + liblsp.Frame(msg) + liblsp.Frame(`{"jsonrpc":"2.0","id":"1","result":{"applied":true}}`) + liblsp.Frame(second) + liblsp.Frame(probe))
		var ids, from []string
		for _, b := range liblsp.Split(raw) {
			h := liblsp.HeadOf(b)
			if h.Method != "" {
				v.Assert(len(h.Id) > 0, "the server's request has no id")
				from = append(from, string(h.Id))
			} else {
				ids = append(ids, string(h.Id))
			}
		}
		v.Assert(len(ids) == 3 && ids[0] == "5" && ids[1] == "6", "two commands are not answered in order")
		v.Assert(len(from) == 2 && from[0] != from[1], "the server's requests share an id")
	}
}

// CheckSequences: every sequence of 3 (thorough 4) messages out of 10, requests numbered in order; the answers are
// those of the requests, in order.
func CheckSequences() {
	in := ""
	var want []string
	for i := 0; i < 3+v.Tier(); i++ {
		id := string(rune('1' + i))
		ask := func(m, p string) {
			in += liblsp.Frame(message(`,"id":`+id, m, p))
			want = append(want, id)
		}
		switch v.Pick("message", 10) {
		case 0:
			in += opened()
		case 1:
			in += liblsp.Frame(liblsp.Close(uri))
		case 2:
			ask("textDocument/hover", `,"params":{"textDocument":{"uri":"`+uri+`"},"position":{"line":1,"character":0}}`)
		case 3:
			ask("nope", "")
		case 4:
			in += liblsp.Frame(message("", "nope", ""))
		case 5:
			ask("initialize", `,"params":{"initializationOptions":{"semanticTokens":false}}`)
		case 6:
			in += liblsp.Frame(`{"jsonrpc":"2.0","id":"` + id + `","result":null}`)
		case 7:
			in += liblsp.Frame(`{"jsonrpc":"2.0","id":` + id + `,"error":{"code":1,"message":"m"}}`)
		case 8:
			ask("shutdown", "")
		case 9:
			ask("textDocument/rename", "")
		}
	}
	raw, _ := liblsp.Raw(in)
	out := liblsp.Split(raw)
	v.Assert(len(out) == len(want), "the answers are not those of the requests")
	for i, b := range out {
		v.Assert(string(liblsp.HeadOf(b).Id) == want[i], "an answer is out of order")
	}
}

// CheckExit: every sequence of up to 3 messages out of shutdown, exit, a request and a notification: the exit code
// is zero exactly if shutdown came before exit, messages after exit are not served, requests after shutdown fail.
func CheckExit() {
	in := ""
	n := 0
	shut, exited, code := false, false, 0
	var errs []bool
	for i := 0; i < v.Pick("n", 4); i++ {
		switch v.Pick("message", 4) {
		case 0:
			in += liblsp.Frame(message(`,"id":7`, "shutdown", ""))
			if !exited {
				n++
				errs = append(errs, shut)
				shut = true
			}
		case 1:
			in += liblsp.Frame(message("", "exit", ""))
			if !exited {
				exited = true
				if !shut {
					code = 1
				}
			}
		case 2:
			in += liblsp.Frame(probe)
			if !exited {
				n++
				errs = append(errs, shut)
			}
		case 3:
			in += opened()
		}
	}
	raw, got := liblsp.Raw(in)
	out := liblsp.Split(raw)
	v.Assert(len(out) == n, "a request is not answered before exit or one is after it")
	if exited {
		v.Assert(got == code, "the exit code does not tell whether shutdown came first")
	}
	for i, b := range out {
		v.Assert((len(liblsp.HeadOf(b).Error) > 0) == errs[i], "only requests after shutdown fail")
	}
}

var bodies = []string{"", "{", "[]", "5", "null", `"x"`, `{}`, `{"id":1}`, `{"method":5,"id":1}`, `{"id":1,"id":2}`, "\x00", `{"jsonrpc":"2.0","method":""}`, "Content-Length: 3\r\n\r\n{}"}

var heads = []string{"Content-Length: ", "content-length:", "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: ", "X: y\r\ncontent-LENGTH: "}

// CheckFraming: bodies that are no message (13) under headers of four forms do not disturb the next request.
func CheckFraming() {
	b := bodies[v.Pick("body", len(bodies))]
	f := liblsp.Frame(b)
	h := heads[v.Pick("head", len(heads))]
	p := liblsp.Frame(probe)
	out, _ := liblsp.Raw(h + f[len("Content-Length: "):] + h + p[len("Content-Length: "):])
	bs := liblsp.Split(out)
	n := 0
	for _, b := range bs {
		if string(liblsp.HeadOf(b).Id) == `"probe"` {
			n++
		}
	}
	v.Assert(n == 1 && len(bs) <= 2, "a body that is no message disturbs the next request")
}

// CheckHeaders: headers with no, a negative, a huge or a malformed length or no header at all, with an arbitrary
// printable character in them, end the server or not, but do not crash it.
func CheckHeaders() {
	hs := []string{"X: y", "Content-Length: -5", "Content-Length: 4611686018427387904", "Content-Length: 99999999999999999999", "Content-Length: x", "Content-Length", "", ":", "Content-Length: 5\r\nContent-Length: 7"}
	s := hs[v.Pick("head", len(hs))]
	if v.Bool("more") {
		c := v.Str("c", 1)
		v.Assume(v.And(c[0] >= ' ', c[0] < 127))
		s += c
	}
	liblsp.Raw(s + "\r\n\r\n" + opened()[len("Content-Length: "):])
	v.Reach("survived")
}

// broken serves s and then fails.
type broken struct {
	s   string
	err error
}

func (b *broken) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, b.err
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

// CheckCut: input that ends or fails at an arbitrary byte ends the server, with the requests before it answered.
func CheckCut() {
	p := liblsp.Frame(probe)
	in := opened() + p + p
	at := v.Pick("at", len(in)+1)
	var err error = io.EOF
	if v.Bool("fails") {
		err = errors.New("connection reset")
	}
	var out bytes.Buffer
	l, e := lsp.New(&broken{in[:at], err}, &out)
	v.Assert(e == nil, "no server")
	l.Run()
	n := 0
	if at >= len(in)-len(p) {
		n = 1
	}
	if at == len(in) {
		n = 2
	}
	v.Assert(len(liblsp.Split(out.String())) == n, "the requests before the end of input are not answered")
	v.Reach("ended")
}

var starts = []string{"", "b ", "int ", "byte ", "#pragma version ", "txn ", "a:\nb a ", "method ", "//"}

// CheckTexts: all requests about an open document, whose text is one of 9 beginnings and 2 (thorough 3) arbitrary
// ASCII characters, are answered in order with results.
func CheckTexts() {
	t := starts[v.Pick("start", len(starts))]
	s := v.Str("text", 2+v.Tier())
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 128)
	}
	l := v.Pick("line", 2)
	c := v.Pick("char", 2) * 3
	in := liblsp.Frame(liblsp.Open(uri, t+s))
	for i, m := range requests[3:17] {
		p := `,"params":{"textDocument":{"uri":"` + uri + `"}` + liblsp.At(l, c) + liblsp.Over(0, 0, 2, 0) + `,"newName":"n","context":{"diagnostics":[]}}`
		in += liblsp.Frame(message(`,"id":`+v.JInt(i), m, p))
	}
	raw, _ := liblsp.Raw(in)
	out := liblsp.Split(raw)
	v.Assert(len(out) == 14, "a request about some text is not answered exactly once")
	for i, b := range out {
		h := liblsp.HeadOf(b)
		v.Assert(string(h.Id) == v.JInt(i) && len(h.Error) == 0, "a request about some text fails")
	}
	v.Reach("answered")
}

// chunks delivers s in pieces of n bytes.
type chunks struct {
	s string
	n int
}

func (b *chunks) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, io.EOF
	}
	n := b.n
	if n > len(b.s) {
		n = len(b.s)
	}
	n = copy(p, b.s[:n])
	b.s = b.s[n:]
	return n, nil
}

func served(r io.Reader) string {
	var out bytes.Buffer
	l, e := lsp.New(r, &out)
	v.Assert(e == nil, "no server")
	_, e = l.Run()
	v.Assert(e == nil, "the server fails")
	return out.String()
}

// CheckChunks: input that arrives in pieces of any size up to the whole.
func CheckChunks() {
	in := liblsp.Frame(liblsp.Ask(5, "textDocument/diagnostic", uri, "")) + liblsp.Frame(probe)
	answers(liblsp.Split(served(&chunks{in, 1 + v.Pick("n", len(in))})), "5")
}

// CheckLong: a document of about 5000, 9000, 70000 or 140000 bytes, longer than the buffers of a stream, that arrives in pieces of
// five sizes, is held and served whole.
func CheckLong() {
	n := []int{5000, 9000, 70000, 140000}[v.Pick("length", 4)]
	text := "//" + strings.Repeat("x", n) + "\nb a\na:\n"
	in := liblsp.Frame(liblsp.Open(uri, text)) + liblsp.Frame(liblsp.Ask(5, "textDocument/definition", uri, liblsp.At(1, 2))) + liblsp.Frame(probe)
	sizes := []int{1000, 4096, 4097, 8192, len(in)}
	h := answers(liblsp.Split(served(&chunks{in, sizes[v.Pick("n", len(sizes))]})), "5")
	v.Assert(strings.Contains(string(h.Result), `"line":2`), "a long document is not held whole")
}

// CheckManyMessages: 70 requests of up to four kinds, and notifications among them, are answered in order; one of them, at any
// of 70 places, is of any of 18 kinds with any of 18 shapes of params or is no message at all.
func CheckManyMessages() {
	in := opened()
	at := v.Pick("at", 7) * 11
	for i := 0; i < 70; i++ {
		m := requests[9+i%4]
		p := `,"params":{"textDocument":{"uri":"` + uri + `"}` + liblsp.At(i%7, i%5) + `,"context":{"diagnostics":[]}` + liblsp.Over(0, 0, 6, 0) + `}`
		if i == at {
			m = requests[2+v.Pick("method", len(requests)-3)]
			p = shapes[v.Pick("shape", 6)*3]
			if v.Bool("garbage") {
				in += liblsp.Frame("{")
			}
		}
		in += liblsp.Frame(message(`,"id":`+v.JInt(i), m, p))
		if i%9 == 0 {
			in += liblsp.Frame(message("", notes[i/9], ""))
		}
	}
	raw, _ := liblsp.Raw(in)
	n := 0
	for _, b := range liblsp.Split(raw) {
		h := liblsp.HeadOf(b)
		if h.Method != "" {
			continue
		}
		if v.JEq(string(h.Id), "null") {
			continue // an answer to what is no message
		}
		v.Assert(string(h.Id) == v.JInt(n), "an answer is out of order")
		v.Assert((len(h.Result) > 0) != (len(h.Error) > 0), "an answer has not exactly one of result and error")
		n++
	}
	v.Assert(n == 70, "a request is not answered exactly once")
	v.Reach("answered")
}

// CheckLongAnswers: a document of 20, 100 or 400 labels, references and hints: each request about it is answered by one framed
// message, however long.
func CheckLongAnswers() {
	n := []int{20, 100, 400}[v.Pick("n", 3)]
	text := "#pragma version 8\n"
	for i := 0; i < n; i++ {
		text += "l" + v.JInt(i) + ": // label\nb x\ntxn 0\n"
	}
	m := requests[3+v.Pick("method", 14)]
	p := `,"params":{"textDocument":{"uri":"` + uri + `"}` + liblsp.At(2, 3) + liblsp.Over(0, 0, 3*n, 0) + `,"newName":"n","context":{"diagnostics":[]}}`
	raw, _ := liblsp.Raw(liblsp.Frame(liblsp.Open(uri, text)) + liblsp.Frame(message(`,"id":5`, m, p)) + liblsp.Frame(probe))
	h := answers(liblsp.Split(raw), "5")
	v.Assert(len(h.Error) == 0, "a valid request fails")
	if n == 400 && len(h.Result) > 10000 {
		v.Reach("long")
	}
}
