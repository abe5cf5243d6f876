// Package p22 decides that the debug adapter answers each request once and survives every message.
package p22

import (
	"errors"
	"io"
	"strings"

	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/libdap"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

const program = "#pragma version 8\nint 1\nbnz a\ncallsub f\na:\nstore 3\nerr\nf:\nint 2\nretsub\n"

var commands = []string{
	"initialize", "launch", "disconnect", "evaluate", "setFunctionBreakpoints", "setBreakpoints",
	"setInstructionBreakpoints", "setExceptionBreakpoints", "threads", "pause", "continue", "configurationDone", "next",
	"variables", "scopes", "stackTrace", "attach", "stepIn", "Threads", "",
}

// shapes are forms of the arguments member, from missing over malformed to complete ones.
var shapes = []string{
	``,
	`,"arguments":null`,
	`,"arguments":{}`,
	`,"arguments":[]`,
	`,"arguments":7`,
	`,"arguments":"p"`,
	`,"arguments":true`,
	`,"arguments":{"program":null,"threadId":null,"frameId":null,"variablesReference":null,"source":null,"breakpoints":null,"start":null,"count":null,"startFrame":null,"levels":null,"linesStartAt1":null}`,
	`,"arguments":{"program":7,"threadId":"0","frameId":"0","variablesReference":"1","source":7,"breakpoints":7,"linesStartAt1":7}`,
	`,"arguments":{"program":"/nonexistent/verif/program","threadId":-1,"frameId":-1,"variablesReference":-1,"breakpoints":[]}`,
	`,"arguments":{"threadId":1.5,"frameId":1e30,"variablesReference":99999999999999999999,"breakpoints":[null]}`,
	`,"arguments":{"threadId":7,"frameId":7,"variablesReference":71,"breakpoints":[{}]}`,
	`,"arguments":{"threadId":0,"frameId":0,"variablesReference":2,"source":{"path":"p"},"breakpoints":[{"line":0},{"line":-9},{"line":99}]}`,
	`,"arguments":{"threadId":0,"frameId":0,"variablesReference":3,"start":-1,"count":-1,"startFrame":-1,"levels":-1}`,
	`,"arguments":{"threadId":0,"frameId":0,"variablesReference":4,"start":999,"count":9223372036854775807,"startFrame":999,"levels":9223372036854775807}`,
}

// answers checks that the responses are one to the request and one to the probe behind it, and returns the first.
func answers(ms []libdap.Message, seq int, command string) libdap.Message {
	rs := libdap.Responses(ms)
	v.Assert(len(rs) == 2, "a request is not answered exactly once or the adapter stops serving")
	v.Assert(rs[0].RequestSeq == seq, "a response names another request")
	v.Assert(rs[0].Command == command, "a response names another command")
	v.Assert(rs[1].RequestSeq == 77 && rs[1].Command == "threads" && rs[1].Success, "the adapter does not go on serving")
	v.Reach("answered")
	return rs[0]
}

func probe() string { return libdap.Request(77, "threads", "") }

// start is the input up to the request of interest: nothing, or an adapter with a launched program; its responses are cut off by rest.
func start(launched bool) string {
	if launched {
		return libdap.Launch(1, v.File(program))
	}
	return ""
}

func rest(ms []libdap.Message, launched bool) []libdap.Message {
	if !launched {
		return ms
	}
	v.Assert(len(ms) > 0 && ms[0].Type == "response" && ms[0].RequestSeq == 1 && ms[0].Command == "launch" && ms[0].Success, "launch fails")
	return ms[1:]
}

// CheckMalformed: each of 20 commands (known and unknown) with each of 15 forms of arguments, from missing over
// wrongly typed to complete ones, with a program launched or not.
func CheckMalformed() {
	c := commands[v.Pick("command", len(commands))]
	l := v.Bool("launched")
	ms := libdap.Talk(start(l), libdap.Request(5, c, shapes[v.Pick("shape", len(shapes))]), probe())
	answers(rest(ms, l), 5, c)
}

// CheckNumbers: requests with arbitrary numbers (two per dialogue), each command, with a program launched or not: the
// responses name them, in order.
func CheckNumbers() {
	c := commands[v.Pick("command", len(commands))]
	l := v.Bool("launched")
	a, b := int(v.U64("a")), int(v.U64("b"))
	ms := rest(libdap.Talk(start(l), libdap.Request(a, c, ""), libdap.Request(b, "threads", ""), probe()), l)
	rs := libdap.Responses(ms)
	v.Assert(len(rs) == 3, "a request is not answered once")
	v.Assert(v.And(rs[0].RequestSeq == a, rs[1].RequestSeq == b), "a response names another request")
	v.Assert(rs[0].Command == c && rs[1].Command == "threads", "a response names another command")
}

// CheckArguments: each command with arbitrary 64-bit integers as its arguments (windows below 3
// or above 254), with a program launched or not.
func CheckArguments() {
	c := commands[v.Pick("command", len(commands))]
	l := v.Bool("launched")
	x, ny, nz := v.JInt(int(v.U64("x"))), int(v.U64("y")), int(v.U64("z"))
	v.Assume(v.And(v.Or(ny < 3, ny > 254), v.Or(nz < 3, nz > 254)))
	y, z := v.JInt(ny), v.JInt(nz)
	a := `,"arguments":{"program":"/nonexistent/verif/program","threadId":` + x + `,"frameId":` + x + `,"variablesReference":` + x + `,"start":` + y + `,"count":` + z + `,"startFrame":` + y + `,"levels":` + z + `,"breakpoints":[{"line":` + x + `},{"line":` + y + `}]}`
	ms := libdap.Talk(start(l), libdap.Request(5, c, a), probe())
	r := answers(rest(ms, l), 5, c)
	if l && c != "" && c != "launch" && c != "attach" && c != "stepIn" && c != "Threads" {
		v.Assert(r.Success, "a valid request fails")
	}
}

// CheckUnserved: an unknown command of arbitrary printable characters (1 to 4, 6 or 10 of them), a program that cannot be read,
// stepping and pausing without a program are answered with a failure that says why; so is launching a folder.
func CheckUnserved() {
	l := v.Bool("launched")
	var c, a string
	switch v.Pick("case", 4) {
	case 0:
		n := []int{1, 2, 3, 4, 6, 10}[v.Pick("n", 6)]
		c = v.Str("command", n)
		for i := 0; i < n; i++ {
			v.Assume(v.And(c[i] >= ' ', c[i] < 127))
		}
		for _, k := range commands[:16] {
			v.Assume(c != k)
		}
	case 1:
		c, a = "launch", `,"arguments":{"program":"/nonexistent/verif/program"}`
	case 2:
		c, l = "pause", false
	case 3:
		c, l = "next", false
	}
	r := answers(rest(libdap.Talk(start(l), libdap.Request(5, c, a), probe()), l), 5, c)
	v.Assert(!r.Success, "a request that cannot be served is answered with success")
	v.Assert(r.Message != "", "a failure does not say why")
}

// CheckSequences: every sequence of 3 (thorough 4) requests out of 13, numbered in order: the responses are those of
// the requests, in order, and a successful launch, step, pause or run is followed by its event.
func CheckSequences() {
	in := ""
	path := v.File(program)
	var want []string
	n := 3 + v.Tier()
	for i := 0; i < n; i++ {
		c, a := "", ""
		switch v.Pick("request", 13) {
		case 0:
			c = "initialize"
		case 1:
			in += libdap.Launch(i+1, path)
			want = append(want, "launch")
			continue
		case 2:
			c, a = "setBreakpoints", `,"arguments":{"breakpoints":[{"line":3},{"line":4}]}`
		case 3:
			c, a = "next", `,"arguments":{"threadId":0}`
		case 4:
			c, a = "next", `,"arguments":{"threadId":1}`
		case 5:
			c, a = "continue", `,"arguments":{"threadId":0}`
		case 6:
			c = "pause"
		case 7:
			c, a = "stackTrace", `,"arguments":{"threadId":0}`
		case 8:
			c, a = "scopes", `,"arguments":{"frameId":0}`
		case 9:
			c, a = "variables", `,"arguments":{"variablesReference":2}`
		case 10:
			c, a = "disconnect", ""
		case 11:
			c = "nope"
		case 12:
			// messages that are no requests are not answered
			c = ""
			in += liblsp.Frame(`{"seq":5,"type":"response","request_seq":1,"success":true,"command":"runInTerminal"}`)
			continue
		}
		in += libdap.Request(i+1, c, a)
		want = append(want, c)
	}
	rs := libdap.Responses(libdap.Talk(in))
	v.Assert(len(rs) == len(want), "the responses are not those of the requests")
	at := 0
	for i, r := range rs {
		v.Assert(r.Command == want[i], "a response is out of order")
		v.Assert(r.RequestSeq > at, "a response names another request")
		at = r.RequestSeq
	}
}

// CheckOthers: messages that are no requests (5 types, with an arbitrary printable character) are not answered.
func CheckOthers() {
	ts := []string{"event", "response", "", "Request", "request"}
	ty := ts[v.Pick("type", len(ts))]
	c := v.Str("c", 1)
	v.Assume(v.And(c[0] > ' ', c[0] < 127))
	ms := libdap.Talk(liblsp.Frame(`{"seq":5,"type":`+v.JStr(ty+c)+`,"command":"threads"}`), liblsp.Frame(`{"seq":6,"command":"threads"}`), probe())
	rs := libdap.Responses(ms)
	v.Assert(len(rs) == 1 && len(ms) == 1 && rs[0].RequestSeq == 77, "a message that is no request is answered")
}

var bodies = []string{"", "{", "[]", "5", "null", `"x"`, `{}`, `{"seq":1}`, `{"seq":"1","type":"request","command":"threads"}`, `{"seq":1,"type":7}`, "\x00", `{"seq":1,"type":"event"}`, "Content-Length: 3\r\n\r\n{}"}

var heads = []string{"Content-Length: ", "content-length:", "Content-Type: text/plain\r\nContent-Length: ", "X: y\r\ncontent-LENGTH: "}

// CheckFraming: bodies that are no request (13) under headers of four forms do not disturb the next request.
func CheckFraming() {
	f := liblsp.Frame(bodies[v.Pick("body", len(bodies))])
	h := heads[v.Pick("head", len(heads))]
	p := probe()
	ms := libdap.Talk(h+f[len("Content-Length: "):], h+p[len("Content-Length: "):])
	v.Assert(len(ms) == 1 && ms[0].RequestSeq == 77, "a body that is no request disturbs the next request")
}

// CheckHeaders: headers with no, a negative, a huge or a malformed length or no header at all, with an arbitrary
// printable character in them, end the adapter or not, but do not crash it.
func CheckHeaders() {
	hs := []string{"X: y", "Content-Length: -5", "Content-Length: 4611686018427387904", "Content-Length: 99999999999999999999", "Content-Length: x", "Content-Length", "", ":", "Content-Length: 5\r\nContent-Length: 7"}
	s := hs[v.Pick("head", len(hs))]
	if v.Bool("more") {
		c := v.Str("c", 1)
		v.Assume(v.And(c[0] >= ' ', c[0] < 127))
		s += c
	}
	libdap.Talk(s + "\r\n\r\n" + probe())
	v.Reach("survived")
}

// broken serves s and then fails.
type broken struct {
	s string
}

func (b *broken) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, errors.New("broken")
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

// CheckCut: a dialogue cut at any byte, by an end or a failure of the input: the adapter stops, having answered
// exactly the requests that arrived.
func CheckCut() {
	first := libdap.Request(5, "initialize", "")
	all := first + probe()
	at := v.Pick("at", len(all)+1)
	var r io.Reader = strings.NewReader(all[:at])
	if v.Bool("broken") {
		r = &broken{all[:at]}
	}
	rs := libdap.Responses(libdap.Messages(libdap.Raw(r)))
	n := 0
	if at >= len(first) {
		n++
	}
	if at >= len(all) {
		n++
	}
	v.Assert(len(rs) == n, "the adapter does not answer exactly the requests that arrived")
}

// chunks delivers s in pieces of n bytes.
type chunks struct {
	s string
	n int
}

func (b *chunks) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, io.EOF
	}
	n := b.n
	if n > len(b.s) {
		n = len(b.s)
	}
	n = copy(p, b.s[:n])
	b.s = b.s[n:]
	return n, nil
}

// CheckChunks: input that arrives in pieces of any size up to the whole.
func CheckChunks() {
	in := libdap.Request(5, "scopes", "") + probe()
	ms := libdap.Messages(libdap.Raw(&chunks{in, 1 + v.Pick("n", len(in))}))
	r := answers(ms, 5, "scopes")
	v.Assert(r.Success, "a request fails")
}

// CheckLong: a request of about 5000, 9000, 70000 or 140000 bytes, longer than the buffers of a stream, that arrives in pieces of
// five sizes, is answered as any other.
func CheckLong() {
	n := []int{5000, 9000, 70000, 140000}[v.Pick("length", 4)]
	in := libdap.Request(5, "scopes", `,"arguments":{"x":"`+strings.Repeat("x", n)+`"}`) + probe()
	sizes := []int{1000, 4096, 4097, 8192, len(in)}
	ms := libdap.Messages(libdap.Raw(&chunks{in, sizes[v.Pick("n", len(sizes))]}))
	r := answers(ms, 5, "scopes")
	v.Assert(r.Success, "a long request fails")
}

var beginnings = []string{"", "b ", "int ", "byte ", "txn ", "a:\nb a", "callsub f\nf:\n", "load 0\nint 1\n", "int 1\nswitch a ", "proto 1 1\n"}

// views are requests for everything there is to see.
func views() string {
	s := ""
	for i, a := range []string{`"threadId":0,"variablesReference":1,"frameId":0`, `"threadId":0,"variablesReference":2,"frameId":0`, `"threadId":0,"variablesReference":3,"frameId":0`, `"threadId":0,"variablesReference":4,"frameId":0,"count":4`, `"threadId":1,"variablesReference":12,"frameId":1`} {
		for _, c := range []string{"stackTrace", "scopes", "variables"} {
			s += libdap.Request(10+i, c, `,"arguments":{`+a+`}`)
		}
	}
	return s
}

func debug(text string) {
	in := libdap.Launch(1, v.File(text)) + views()
	in += libdap.Request(2, "setBreakpoints", `,"arguments":{"breakpoints":[{"line":0},{"line":1},{"line":2}]}`)
	in += libdap.Request(3, "next", `,"arguments":{"threadId":0}`) + views()
	in += libdap.Request(4, "next", `,"arguments":{"threadId":1}`) + views()
	in += libdap.Request(5, "continue", `,"arguments":{"threadId":0}`) + libdap.Request(6, "continue", `,"arguments":{"threadId":0}`) + views()
	rs := libdap.Responses(libdap.Talk(in, probe()))
	v.Assert(len(rs) == 6+15*4+1, "a request about some program is not answered once")
	for _, r := range rs {
		v.Assert(r.Success, "a request about some program fails")
	}
	v.Reach("debugged")
}

// CheckPrograms: programs of one of 10 beginnings and 2 (thorough 3) arbitrary ASCII characters are launched, stepped, run
// and looked at.
func CheckPrograms() {
	t := beginnings[v.Pick("start", len(beginnings))]
	s := v.Str("text", 2+v.Tier())
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 128)
	}
	debug(t + s)
}

// CheckOpcodes: programs that push one of four values three times (a constant, an unset scratch slot, a transaction field, an argument), then have
// any opcode with valid immediates, are launched, stepped, run and looked at.
func CheckOpcodes() {
	p := []string{"int 7", "load 9", "txn Sender", "arg_0"}[v.Pick("value", 4)]
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	debug("#pragma version 9\n" + p + "\n" + p + "\n" + p + "\n" + op.Name + libavm.Sample(op.Imm) + "\nx:\ny:\nint 1\n")
}

// CheckManyRequests: 60 requests, one of them, at any of six places, of any command with any of 15 forms of arguments.
func CheckManyRequests() {
	in := libdap.Launch(1, v.File(program))
	want := []string{"launch"}
	at := v.Pick("at", 6) * 10
	for i := 0; i < 60; i++ {
		c := commands[8+i%8]
		a := `,"arguments":{"threadId":` + v.JInt(i%3) + `,"frameId":0,"variablesReference":` + v.JInt(1+i%4) + `}`
		if i == at {
			c = commands[v.Pick("command", len(commands))]
			a = shapes[v.Pick("shape", len(shapes))]
		}
		in += libdap.Request(i+2, c, a)
		want = append(want, c)
	}
	rs := libdap.Responses(libdap.Talk(in))
	v.Assert(len(rs) == len(want), "the responses are not those of the requests")
	for i, r := range rs {
		v.Assert(r.Command == want[i] && r.RequestSeq == i+1, "a response is out of order")
	}
	v.Reach("answered")
}

// CheckLongAnswers: a program with a stack of up to 400 values, 200 scratch slots or 60 frames is looked at as a whole: each
// request is answered by one framed message, however long.
func CheckLongAnswers() {
	text, steps := "", 0
	switch v.Pick("program", 3) {
	case 0:
		text, steps = "byte 0x6162636465666768696a6b6c6d6e6f70\ndupn 200\ndupn 199\n", 3
	case 1:
		for i := 0; i < 200; i++ {
			text += "int 1000000\nstore " + v.JInt(i) + "\n"
		}
		steps = 400
	case 2:
		text, steps = "callsub f\nf:\ncallsub f\n", 60
	}
	in := libdap.Launch(1, v.File("#pragma version 8\n"+text))
	for i := 0; i < steps; i++ {
		in += libdap.Request(i+2, "next", `,"arguments":{"threadId":0}`)
	}
	rs := libdap.Responses(libdap.Talk(in, views(), probe()))
	v.Assert(len(rs) == 1+steps+15+1, "a request about some program is not answered once")
	for _, r := range rs {
		v.Assert(r.Success, "a request about some program fails")
	}
	v.Reach("answered")
}
