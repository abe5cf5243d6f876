// Package p03 decides that scanning a source yields tokens that reproduce it.
package p03

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/v"
)

// tok is a token of the reference scanner below, which works on bytes: the
// token delimiters are ASCII and no byte of a longer rune is.
type tok struct {
	typ  string
	text string // source text
	val  string // expected value
	l    int
	b, e int
}

func blank(c byte) bool { return v.Or(c == ' ', c == '\t') }
func eol(c byte) bool   { return v.Or(c == '\n', c == '\r') }

// scan is the specification: it returns the tokens and the number of
// unterminated strings.
func scan(s string) ([]tok, []int) {
	var ts []tok
	var bad []int
	line, lb := 0, 0
	i := 0
	for i < len(s) {
		c := s[i]
		if blank(c) {
			i++
			continue
		}
		b := i
		t := tok{l: line, b: b - lb}
		switch {
		case eol(c):
			i++
			if c == '\r' && i < len(s) && s[i] == '\n' {
				i++
			}
			t.typ = teal.TokenEol
			t.val = s[b:i]
		case c == '/' && i+1 < len(s) && s[i+1] == '/' && !after64(ts):
			i += 2
			for i < len(s) && !eol(s[i]) {
				i++
			}
			t.typ = teal.TokenComment
			t.val = s[b+2 : i]
		case c == '"':
			t.typ = teal.TokenValue
			i++
			closed := false
			val := "\""
			for i < len(s) && !closed {
				d := s[i]
				if eol(d) {
					break
				}
				i++
				if d == '\\' && i < len(s) && !eol(s[i]) {
					// the next byte is escaped; an escaped quote is unescaped
					if s[i] != '"' {
						val += "\\"
					}
					val += s[i : i+1]
					i++
					continue
				}
				val += string([]byte{d})
				closed = d == '"'
			}
			if closed {
				t.val = val
			} else {
				bad = append(bad, line)
				t.val = s[b:i] // raw
			}
		default:
			t.typ = teal.TokenValue
			for i < len(s) && !eol(s[i]) && !blank(s[i]) {
				i++
			}
			t.val = s[b:i]
		}
		t.e = i - lb
		t.text = s[b:i]
		ts = append(ts, t)
		if t.typ == teal.TokenEol {
			line++
			lb = i
		}
	}
	return ts, bad
}

// after64 tells that base64 text comes next: it may start with slashes.
func after64(ts []tok) bool {
	if len(ts) == 0 {
		return false
	}
	t := &ts[len(ts)-1]
	return t.typ == teal.TokenValue && (t.val == "b64" || t.val == "base64")
}

func check(s string) {
	want, bad := scan(s)
	z := &teal.Lexer{Source: []byte(s)}
	n := 0
	for z.Scan() {
		v.Assert(n < len(want), "the scanner yields a token the source does not contain")
		g := z.Curr()
		w := &want[n]
		n++
		v.Assert(string(g.Type()) == w.typ, "wrong token type")
		v.Assert(g.Line() == w.l && g.StartLine() == w.l && g.EndLine() == w.l, "wrong token line")
		v.Assert(g.Begin() == w.b && g.StartCharacter() == w.b, "wrong token begin")
		v.Assert(g.End() == w.e && g.EndCharacter() == w.e, "wrong token end")
		v.Assert(g.String() == w.val, "wrong token text")
	}
	v.Assert(n == len(want), "the scanner misses a token")
	es := z.Errors()
	v.Assert(len(es) == len(bad), "unterminated strings are not reported exactly")
	for i := range es {
		v.Assert(es[i].Line() == bad[i], "unterminated string reported on a wrong line")
		v.Assert(es[i].Severity() == teal.DiagErr, "an unterminated string is an error")
	}
	// the scanner can be run again over what it has read
	if n > 1 {
		v.Assert(z.Return(), "stepping back")
		g := z.Curr()
		v.Assert(g.Line() == want[n-1].l && g.Begin() == want[n-1].b, "stepping back yields the last token")
	}
	v.Obs("n", n, len(es))
	if n > 2 {
		v.Reach("three tokens")
	}
	if len(bad) > 0 {
		v.Reach("unterminated string")
	}
}

// CheckBytes: every source of at most 4 (thorough 5) arbitrary bytes.
func CheckBytes() {
	check(v.Str("src", v.Pick("len", 5+v.Tier())))
}

// CheckAscii: every source of 5 (thorough 6) arbitrary bytes below 0x80.
func CheckAscii() {
	s := v.Str("src", 5+v.Tier())
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 0x80)
	}
	check(s)
}

// CheckShapes: every source of 7 (thorough 9) bytes out of blank, line feed,
// carriage return, quote, backslash, slash and a letter.
func CheckShapes() {
	s := v.Str("src", 7+2*v.Tier())
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.Or(v.Or(v.Or(c == ' ', c == '\n'), v.Or(c == '\r', c == '"')), v.Or(v.Or(c == '\\', c == '/'), c == 'a')))
	}
	check(s)
}

// CheckStrings: a quoted string of up to 5 (thorough 6) arbitrary ASCII bytes
// between a word and a comment.
func CheckStrings() {
	s := v.Str("src", v.Pick("len", 6+v.Tier()))
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 0x80)
	}
	check("x \"" + s + "\"// y\nz")
}

// CheckBase64: a word b64 or base64 (or one with a wrong last character), on the first line or the 41st, up to two blanks or
// line ends and up to four characters out of slash, blank, line feed, quote and a letter.
func CheckBase64() {
	s := []string{"b64", "base64", "b65", "\"b64\"", "//b64", "b64 b64"}[v.Pick("word", 6)]
	gap := v.Str("gap", v.Pick("gaplen", 3))
	for i := 0; i < len(gap); i++ {
		v.Assume(v.Or(gap[i] == ' ', v.Or(gap[i] == '\t', gap[i] == '\n')))
	}
	t := v.Str("src", v.Pick("len", 5))
	for i := 0; i < len(t); i++ {
		c := t[i]
		v.Assume(v.Or(v.Or(c == ' ', c == '\n'), v.Or(c == '"', v.Or(c == '/', c == 'a'))))
	}
	before := ""
	if v.Bool("far") {
		for i := 0; i < 40; i++ {
			before += "b64 0 //b64\n"
		}
	}
	check(before + "byte " + s + gap + t)
}

// CheckRunes: three arbitrary bytes (any character of two or three bytes, or none) inside a comment, a word or a
// string, or alone, with something behind them.
func CheckRunes() {
	s := v.Str("src", 3)
	h := []string{"//x", "a", "\"x", "b64 "}[v.Pick("head", 4)]
	t := []string{"", "z\"\ny"}[v.Pick("tail", 2)]
	check(h + s + t)
}

// CheckFar: a word, string, comment or gap of 300 bytes, or 140 lines, before and between two (thorough three)
// bytes out of blank, line feed, quote, backslash, slash and a letter.
func CheckFar() {
	head := []string{"", "\"", "//", "b64 ", "\n"}[v.Pick("head", 5)]
	unit := []string{"a", " ", "a\n", "a ", "\\\\", "\"\" ", "\\\""}[v.Pick("unit", 7)]
	s := v.Str("src", 2+v.Tier())
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.Or(v.Or(c == ' ', c == '\n'), v.Or(v.Or(c == '\\', c == '"'), v.Or(c == '/', c == 'a'))))
	}
	long := ""
	for len(long) < 280 {
		long += unit
	}
	check(head + long + s + unit + unit + s)
}
