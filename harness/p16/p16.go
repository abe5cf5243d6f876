// Package p16 decides that the encoded semantic tokens are those of the source.
package p16

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

const uri = "file:///d/a.teal"

// decode turns the relative encoding back into tokens.
func decode(d []uint32) []teal.SemanticToken {
	v.Assert(len(d)%5 == 0, "the encoding is cut")
	var r []teal.SemanticToken
	line, at := uint32(0), uint32(0)
	for i := 0; i+5 <= len(d); i += 5 {
		if d[i] != 0 {
			line += d[i]
			at = 0
		}
		at += d[i+1]
		r = append(r, teal.SemanticToken{Line: int(line), Index: int(at), Length: int(d[i+2]), Type: int(d[i+3]), Modifiers: int(d[i+4])})
	}
	return r
}

func before(a, b teal.SemanticToken) bool {
	return v.Or(a.Line < b.Line, v.And(a.Line == b.Line, a.Index < b.Index))
}

func same(a, b teal.SemanticToken) bool {
	return v.And(v.And(a.Line == b.Line, a.Index == b.Index), v.And(a.Length == b.Length, v.And(a.Type == b.Type, a.Modifiers == b.Modifiers)))
}

// encode encodes n arbitrary tokens at different positions.
func encode(n int) {
	var in []teal.SemanticToken
	for i := 0; i < n; i++ {
		t := teal.SemanticToken{
			Line: v.Int("line", 0, 1<<20), Index: v.Int("index", 0, 1<<20), Length: v.Int("length", 0, 1<<20),
			Type: v.Int("type", 0, 8), Modifiers: v.Int("mods", 0, 255),
		}
		for _, o := range in {
			v.Assume(v.Or(before(o, t), before(t, o)))
		}
		in = append(in, t)
	}
	out := decode(append(teal.SemanticTokens{}, in...).Encode())
	v.Assert(len(out) == n, "the encoding has another number of tokens")
	for i := 1; i < len(out); i++ {
		v.Assert(before(out[i-1], out[i]), "the encoded tokens are not in document order")
	}
	for _, t := range in {
		c := false
		for _, o := range out {
			c = v.Or(c, same(t, o))
		}
		v.Assert(c, "a token is not in the encoding")
	}
	v.Reach("encoded")
}

// CheckEncode: up to 4 (thorough 5) tokens in any order at any lines and columns up to 2^20, all different, with
// arbitrary lengths, types and modifiers.
func CheckEncode() {
	encode(v.Pick("n", 5+v.Tier()))
}

// CheckEncodeEqual: two or three tokens, some at the same position, are all encoded.
func CheckEncodeEqual() {
	var in []teal.SemanticToken
	for i := 0; i < 2+v.Pick("n", 2); i++ {
		in = append(in, teal.SemanticToken{Line: v.Int("line", 0, 1), Index: v.Int("index", 0, 1), Length: i + 1, Type: v.Int("type", 0, 8)})
	}
	out := decode(append(teal.SemanticTokens{}, in...).Encode())
	v.Assert(len(out) == len(in), "the encoding has another number of tokens")
	for _, t := range in {
		c := false
		for _, o := range out {
			c = v.Or(c, same(t, o))
		}
		v.Assert(c, "a token is not in the encoding")
	}
	for i := 1; i < len(out); i++ {
		v.Assert(!before(out[i], out[i-1]), "the encoded tokens are not in document order")
	}
}

// Types of the legend.
const (
	keyword = 0
	str     = 1
	comment = 2
	method  = 3
	macro   = 4
	number  = 6
	none    = -1
)

type seg struct {
	text string
	kind int
}

// serve asks a server for the tokens of the text; the types are those of its legend.
func serve(text string) []teal.SemanticToken {
	out := liblsp.Talk(`{"jsonrpc":"2.0","id":1,"method":"initialize","params":{}}`,
		liblsp.Open(uri, text), liblsp.Ask(2, "textDocument/semanticTokens/full", uri, ""))
	var init struct {
		Capabilities struct {
			SemanticTokensProvider struct {
				Legend struct {
					TokenTypes []string `json:"tokenTypes"`
				} `json:"legend"`
			} `json:"semanticTokensProvider"`
		} `json:"capabilities"`
	}
	liblsp.ResultOf(out, 1, &init)
	var toks struct {
		Data []uint32 `json:"data"`
	}
	liblsp.ResultOf(out, 2, &toks)
	r := decode(toks.Data)
	for i := range r {
		v.Assert(r[i].Type >= 0 && r[i].Type < len(init.Capabilities.SemanticTokensProvider.Legend.TokenTypes), "a token's type is not in the legend")
		switch init.Capabilities.SemanticTokensProvider.Legend.TokenTypes[r[i].Type] {
		case "keyword":
			r[i].Type = keyword
		case "string":
			r[i].Type = str
		case "comment":
			r[i].Type = comment
		case "method":
			r[i].Type = method
		case "macro":
			r[i].Type = macro
		case "number":
			r[i].Type = number
		default:
			r[i].Type = 99
		}
	}
	return r
}

// expect checks that the tokens of the lines are exactly those of their segments.
func expect(lines [][]seg, eol string) {
	text := ""
	var want []teal.SemanticToken
	for i, l := range lines {
		at := 0
		for _, s := range l {
			if s.kind != none {
				want = append(want, teal.SemanticToken{Line: i, Index: at, Length: len(s.text), Type: s.kind})
			}
			text += s.text
			at += len(s.text)
		}
		if i+1 < len(lines) {
			text += eol
		}
	}
	got := serve(text)
	v.Assert(len(got) == len(want), "there are more or fewer tokens than in the source")
	for i, w := range want {
		v.Assert(got[i].Line == w.Line && got[i].Index == w.Index && got[i].Length == w.Length, "a token is not on its text")
		v.Assert(got[i].Type == w.Type && got[i].Modifiers == 0, "a token has the type of something else")
	}
	v.Reach("expected")
}

func char(lo, hi byte) string {
	s := v.Str("char", 1)
	v.Assume(v.And(s[0] >= lo, s[0] <= hi))
	return s
}

// line is the segments of one of the forms of lines.
func line(k int) []seg {
	sp := seg{" ", none}
	switch k {
	case 0:
		return []seg{{"int", keyword}, sp, {char('1', '9') + "7", number}}
	case 1:
		return []seg{{char('a', 'c') + "x:", method}}
	case 2:
		return []seg{{"b", keyword}, sp, {char('a', 'c') + "x", str}, sp, {"// " + char(' ', '~'), comment}}
	case 3:
		return []seg{{"\t", none}, {"byte", keyword}, {"  ", none}, {"\"" + char('a', 'z') + " // \"", str}}
	case 4:
		return []seg{{"byte", keyword}, sp, {"base64", keyword}, sp, {"AA" + char('A', 'D') + "=", str}}
	case 5:
		return []seg{}
	case 6:
		return []seg{{"//" + char(' ', '~') + " int 1", comment}}
	case 7:
		return []seg{{"bytecblock", keyword}, sp, {"0x0" + char('0', '9'), str}, sp, {"b32", keyword}, sp, {"ME", str}, sp, {"b64(YQ==)", str}}
	case 8:
		return []seg{{"txna", keyword}, sp, {"Accounts", str}, sp, {char('0', '9'), number}}
	case 9:
		return []seg{{"gtxn", keyword}, sp, {char('0', '9'), number}, sp, {"0", number}}
	case 10:
		return []seg{{"switch", keyword}, sp, {char('a', 'c'), str}, {"   ", none}, {char('a', 'c') + "x", str}}
	case 11:
		return []seg{{"  ", none}, {"intcblock", keyword}, sp, {char('0', '9'), number}, sp, {"0x1f", number}, {"\t", none}}
	case 12:
		return []seg{{char('a', 'c') + ":", method}, sp, {"//" + char(' ', '~'), comment}}
	case 13:
		return []seg{{"frame_dig", keyword}, sp, {"-" + char('0', '9'), number}}
	case 14:
		return []seg{{"method", keyword}, sp, {"\"m()" + char('a', 'z') + "\"", str}}
	case 15:
		return []seg{{"pushbytes", keyword}, sp, {"\"\\\"" + char('a', 'z') + "\\\\\"", str}, sp, {"//", comment}}
	case 16:
		return []seg{{"method", keyword}, sp, {"\"m\\\"" + char('a', 'z') + "\"", str}}
	}
	if k == 17 {
		w := []string{"base32", "b32", "b64"}[v.Pick("word", 3)]
		t := "AA" + char('A', 'D') + "A"
		return []seg{{"pushbytes", keyword}, sp, {w, keyword}, sp, {t, str}}
	}
	return []seg{{"addr", keyword}, sp, {"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ", str}, sp, {"//", comment}}
}

// CheckServer: every program of a version line and one or two lines out of 19 forms with an arbitrary character in
// each literal, name or comment, LF or CR LF.
func CheckServer() {
	eol := "\n"
	if v.Bool("crlf") {
		eol = "\r\n"
	}
	lines := [][]seg{{{"#pragma", macro}, {" ", none}, {"version", macro}, {" ", none}, {"8", number}}, line(v.Pick("line", 19))}
	if v.Bool("two") {
		lines = append(lines, line(v.Pick("line", 19)))
	}
	expect(lines, eol)
}

// CheckOpcodes: every opcode of the AVM with valid immediates, optional ones given or not, fields as names and as
// numbers.
func CheckOpcodes() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	imm, req := libavm.Letters(op.Imm)
	k := req
	if req < len(imm) && v.Bool("optional") {
		k = len(imm)
	}
	imm = libavm.Forms(op, k)
	numeric := v.Bool("numeric")
	l := []seg{{op.Name, keyword}}
	for i := 0; i < len(imm); i++ {
		t := libavm.Sample(imm[i : i+1])
		s := seg{t[1:], str}
		switch imm[i] {
		case 'u', 's', 'i', 'I', 'N':
			s.kind = number
		case 'y', 'Y', 'l', 'L', 'm', 'A':
		default:
			if numeric {
				for _, f := range libavm.Fields {
					g := imm[i]
					if g == 'a' || g == 'x' {
						g = 't'
					}
					if f.Group == g && f.Name == s.text {
						s = seg{v.JInt(f.Value), number}
						break
					}
				}
			}
		}
		l = append(l, seg{" ", none}, s)
	}
	expect([][]seg{{{"#pragma", macro}, {" ", none}, {"version", macro}, {" ", none}, {"9", number}}, l}, "\n")
}

var starts = []string{"", "b ", "int ", "byte ", "byte b64 ", "#pragma version ", "#pragma ", "txn ", "a:\nb a ", "switch a ", "int 1 ", "method ", "//", "txna Accounts "}

// CheckArbitrary: texts of one of 14 beginnings and 3 (thorough 4) arbitrary ASCII characters: the tokens are in
// order, not empty, within their line and do not overlap; comments are exactly the tokens that begin with two slashes
// (and #pragma lines that are none).
func CheckArbitrary() {
	s := v.Str("text", 3+v.Tier())
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 128)
	}
	t := starts[v.Pick("start", len(starts))] + s
	got := serve(t)
	st, en := liblsp.Lines(t)
	for i, g := range got {
		v.Assert(g.Line < len(st), "a token is behind the text")
		v.Assert(g.Length > 0 && st[g.Line]+g.Index+g.Length <= en[g.Line], "a token is not within its line")
		if i > 0 {
			p := got[i-1]
			v.Assert(p.Line < g.Line || p.Line == g.Line && p.Index+p.Length <= g.Index, "two tokens overlap")
		}
		x := t[st[g.Line]+g.Index : st[g.Line]+g.Index+g.Length]
		slashes := len(x) >= 2 && x[0] == '/' && x[1] == '/'
		if slashes {
			v.Assert(g.Type == comment, "a comment has the type of something else")
		}
		if g.Type == comment {
			v.Assert(slashes || x[0] == '#', "something has the type of a comment")
		}
		if g.Type == number {
			c := x[0]
			v.Assert(v.Or(v.And(c >= '0', c <= '9'), v.Or(c == '-', v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')))), "something has the type of a number")
		}
	}
	v.Reach("checked")
}

// CheckFar: three lines out of five forms with 90 blanks before the first, 90 lines between it and the second, and a list of 60
// numbers or byte strings between the second and the third.
func CheckFar() {
	gap := ""
	for i := 0; i < 90; i++ {
		gap += " "
	}
	n := []int{0, 1, 2, 8, 15}
	lines := [][]seg{{{"#pragma", macro}, {" ", none}, {"version", macro}, {" ", none}, {"8", number}}, append([]seg{{gap, none}}, line(n[v.Pick("line", len(n))])...)}
	for i := 0; i < 90; i++ {
		lines = append(lines, []seg{})
	}
	lines = append(lines, line(n[v.Pick("line", len(n))]))
	l := []seg{{"pushints", keyword}}
	e := seg{"9", number}
	if v.Bool("bytes") {
		l, e = []seg{{"pushbytess", keyword}}, seg{"0x" + gap0(90), str}
	}
	for i := 0; i < 60; i++ {
		l = append(l, seg{" ", none}, e)
	}
	lines = append(lines, l, line(n[v.Pick("line", len(n))]))
	expect(lines, "\n")
}

func gap0(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += "0"
	}
	return s
}

// CheckEncodeMany: 40 tokens in a rotated order, one of them at any line and column.
func CheckEncodeMany() {
	var in []teal.SemanticToken
	by := []int{1, 7, 39}[v.Pick("rotation", 3)]
	for i := 0; i < 40; i++ {
		k := (i*7 + by) % 40
		t := teal.SemanticToken{Line: 100 + k/3, Index: 5 * k, Length: k, Type: k % 9, Modifiers: k}
		if i == 20 {
			t.Line, t.Index = v.Int("line", 0, 1<<20), v.Int("index", 0, 1<<20)
			for _, o := range in {
				v.Assume(v.Or(before(o, t), before(t, o)))
			}
		}
		if i > 20 {
			v.Assume(v.Or(before(in[20], t), before(t, in[20])))
		}
		in = append(in, t)
	}
	out := decode(append(teal.SemanticTokens{}, in...).Encode())
	v.Assert(len(out) == 40, "the encoding has another number of tokens")
	for i := 1; i < len(out); i++ {
		v.Assert(before(out[i-1], out[i]), "the encoded tokens are not in document order")
	}
	for _, t := range in {
		c := false
		for _, o := range out {
			c = v.Or(c, same(t, o))
		}
		v.Assert(c, "a token is not in the encoding")
	}
}
