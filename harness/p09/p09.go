// Package p09 decides that byte and integer literals denote the right value.
package p09

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/libnum"
	"github.com/dragmz/teal/zzverif/libops"
	"github.com/dragmz/teal/zzverif/v"
)

func run(line string) (imm []libops.Imm, ok bool) {
	r := teal.Process("#pragma version 8\n" + line)
	v.Assert(len(r.Listing) == 2, "two lines")
	errs := 0
	for _, d := range r.Diagnostics {
		if d.Line() == 1 && (d.Rule() == "PARSE" || d.Rule() == "SYNTAX") {
			errs++
		}
	}
	name, imm := libops.Of(r.Listing[1])
	if errs == 0 {
		v.Assert(name != "", "an accepted literal has no instruction")
	}
	v.Obs("o", errs, len(imm))
	return imm, errs == 0
}

// bytesLit checks lit, in the position chosen, against the bytes it denotes.
func bytesLit(lit string, want string, good bool) {
	bytesIn(v.Pick("op", 4), lit, want, good)
}

func bytesIn(k int, lit string, want string, good bool) {
	head := []string{"byte ", "pushbytes ", "bytecblock 0x41 ", "pushbytess "}[k]
	tail := ""
	if k == 3 {
		tail = " b64 QQ=="
	}
	imm, ok := run(head + lit + tail)
	v.Assert(ok == good, "a byte literal is not accepted exactly when well-formed")
	if !ok {
		return
	}
	at, n := 0, 1
	if k == 2 {
		at, n = 1, 2
	} else if k == 3 {
		n = 2
	}
	v.Assert(len(imm) == n, "a byte literal is missing")
	v.Assert(imm[at].S == want, "a byte literal is decoded to other bytes")
	if n == 2 {
		v.Assert(imm[1-at].S == "A", "a neighbouring literal is changed")
	}
	v.Reach("accepted")
}

// word restricts s to bytes of one word without parentheses, quotes and slashes.
func word(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.And(v.And(c > ' ', c < 0x80), v.And(c != '"', v.And(c != '(', c != ')'))))
	}
	return s
}

func hex(c byte) (byte, bool) {
	if v.And(c >= '0', c <= '9') {
		return c - '0', true
	}
	if v.And(c >= 'a', c <= 'f') {
		return c - 'a' + 10, true
	}
	if v.And(c >= 'A', c <= 'F') {
		return c - 'A' + 10, true
	}
	return 0, false
}

func unhex(s string) (string, bool) {
	if len(s)%2 != 0 {
		return "", false
	}
	var r []byte
	for i := 0; i < len(s); i += 2 {
		a, ok := hex(s[i])
		b, ok2 := hex(s[i+1])
		if !ok || !ok2 {
			return "", false
		}
		r = append(r, a<<4|b)
	}
	return string(r), true
}

// CheckHex: 0x followed by up to four (thorough five) arbitrary word characters.
func CheckHex() {
	s := word(v.Str("digits", v.Pick("len", 5+v.Tier())))
	w, ok := unhex(s)
	bytesLit("0x"+s, w, ok)
}

// CheckLongHex: 0x followed by 16 (thorough 24) arbitrary hexadecimal digits.
func CheckLongHex() {
	n := 16 + 8*v.Tier()
	s := v.Str("digits", n)
	for i := 0; i < n; i++ {
		v.Assume(v.Or(v.And(s[i] >= '0', s[i] <= '9'), v.And(s[i] >= 'a', s[i] <= 'f')))
	}
	imm, ok := run("byte 0x" + s)
	v.Assert(ok && len(imm[0].S) == n/2, "a long hexadecimal literal is not accepted")
	for i := 0; i < n/2; i++ {
		b := imm[0].S[i]
		v.Assert(nib(b>>4) == s[2*i] && nib(b&15) == s[2*i+1], "a long hexadecimal literal is decoded to other bytes")
	}
}

func nib(b byte) byte { return "0123456789abcdef"[b] }

func val64(c byte) (byte, bool) {
	if v.And(c >= 'A', c <= 'Z') {
		return c - 'A', true
	}
	if v.And(c >= 'a', c <= 'z') {
		return c - 'a' + 26, true
	}
	if v.And(c >= '0', c <= '9') {
		return c - '0' + 52, true
	}
	if c == '+' {
		return 62, true
	}
	if c == '/' {
		return 63, true
	}
	return 0, false
}

// un64 decodes padded base64; the bits beyond the last byte do not matter.
func un64(s string) (string, bool) {
	if len(s)%4 != 0 {
		return "", false
	}
	pad := 0
	if len(s) > 0 && s[len(s)-1] == '=' {
		pad = 1
		if s[len(s)-2] == '=' {
			pad = 2
		}
	}
	var r []byte
	acc, bits := uint(0), uint(0)
	for i := 0; i < len(s)-pad; i++ {
		x, ok := val64(s[i])
		if !ok {
			return "", false
		}
		acc = acc<<6 | uint(x)
		bits += 6
		if bits >= 8 {
			bits -= 8
			r = append(r, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	return string(r), true
}

func form(names []string, s string) string {
	n := names[v.Pick("name", len(names))]
	if v.Bool("paren") {
		return n + "(" + s + ")"
	}
	v.Assume(len(s) > 0)
	if n == "base32" || n == "b32" {
		v.Assume(v.Or(s[0] != '/', len(s) < 2 || s[1] != '/')) // a comment
	}
	return n + " " + s
}

// CheckBase64: base64 literals of up to four arbitrary word characters, in both notations.
func CheckBase64() {
	s := word(v.Str("text", v.Pick("len", 5)))
	w, ok := un64(s)
	bytesIn(0, form([]string{"base64", "b64"}, s), w, ok)
}

// CheckBase64Long: base64 literals of eight characters, the first four any of the alphabet, the
// others a letter, a digit or padding.
func CheckBase64Long() {
	s := word(v.Str("text", 8))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if i < 4 {
			v.Assume(v.Or(v.And(c >= 'A', c <= 'Z'), v.Or(v.And(c >= 'a', c <= 'z'), v.Or(v.And(c >= '0', c <= '9'), v.Or(c == '+', c == '/')))))
		} else {
			v.Assume(v.Or(v.And(c >= 'A', c <= 'Z'), v.Or(c == '=', v.And(c >= '0', c <= '9'))))
		}
	}
	w, ok := un64(s)
	imm, got := run("byte b64 " + s)
	v.Assert(got == ok, "a base64 literal is not accepted exactly when well-formed")
	if ok {
		v.Assert(len(imm) == 1 && imm[0].S == w, "a base64 literal is decoded to other bytes")
	}
}

// un32 decodes base32 with or without padding.
func un32(s string) (string, bool) {
	pad := 0
	for pad < len(s) && s[len(s)-1-pad] == '=' {
		pad++
	}
	if pad > 0 {
		if len(s)%8 != 0 || (pad != 1 && pad != 3 && pad != 4 && pad != 6) {
			return "", false
		}
		s = s[:len(s)-pad]
	}
	var r []byte
	acc, bits := uint(0), uint(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		var x byte
		if v.And(c >= 'A', c <= 'Z') {
			x = c - 'A'
		} else if v.And(c >= '2', c <= '7') {
			x = c - '2' + 26
		} else {
			return "", false
		}
		acc = acc<<5 | uint(x)
		bits += 5
		if bits >= 8 {
			bits -= 8
			r = append(r, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	return string(r), true
}

// canonical32 excludes the lengths no base32 text has, which are left to the library.
func canonical32(s string) {
	n := 0
	for n < len(s) && s[n] != '=' {
		n++
	}
	v.Assume(n%8 != 1 && n%8 != 3 && n%8 != 6)
	for i := n; i < len(s); i++ {
		v.Assume(s[i] == '=' && i < (n+7)/8*8) // what follows the padding is left to the library
	}
}

// CheckBase32: base32 literals of up to three arbitrary word characters, in both notations
// (lengths that no base32 text has are left out).
func CheckBase32() {
	s := word(v.Str("text", v.Pick("len", 4)))
	canonical32(s)
	w, ok := un32(s)
	bytesIn(0, form([]string{"base32", "b32"}, s), w, ok)
}

// CheckBase32Long: base32 literals of four to nine (thorough ten) characters out of the alphabet, then padding.
func CheckBase32Long() {
	n := 4 + v.Pick("len", 6+v.Tier())
	s := word(v.Str("text", n))
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.Or(v.And(c >= 'A', c <= 'Z'), v.Or(v.And(c >= '2', c <= '7'), c == '=')))
	}
	canonical32(s)
	w, ok := un32(s)
	imm, got := run("byte base32 " + s)
	v.Assert(got == ok, "a base32 literal is not accepted exactly when well-formed")
	if ok {
		v.Assert(len(imm) == 1 && imm[0].S == w, "a base32 literal is decoded to other bytes")
	}
}

// unquote decodes the inside of a quoted string; end tells that the string
// stops inside s.
func unquote(s string) (w string, good bool, end bool) {
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			return "", false, true
		}
		if c != '\\' {
			r = append(r, c)
			continue
		}
		i++
		if i == len(s) {
			return "", false, true // escapes the closing quote
		}
		switch s[i] {
		case 'n':
			r = append(r, '\n')
		case 'r':
			r = append(r, '\r')
		case 't':
			r = append(r, '\t')
		case '\\':
			r = append(r, '\\')
		case '"':
			r = append(r, '"')
		case 'x':
			if i+2 >= len(s) {
				// the rest must still be a string for the reference to apply
				for j := i + 1; j < len(s); j++ {
					if s[j] == '"' || s[j] == '\\' {
						return "", false, true
					}
				}
				return "", false, false
			}
			a, ok := hex(s[i+1])
			b, ok2 := hex(s[i+2])
			if !ok || !ok2 {
				_, _, e := unquote(s[i+1:])
				return "", false, e
			}
			r = append(r, a<<4|b)
			i += 2
		default:
			_, _, e := unquote(s[i+1:])
			return "", false, e
		}
	}
	return string(r), true, false
}

// CheckStrings: quoted strings of up to four (thorough five) arbitrary bytes without line ends and
// inner unescaped quotes.
func CheckStrings() {
	s := v.Str("text", v.Pick("len", 5+v.Tier()))
	for i := 0; i < len(s); i++ {
		v.Assume(v.And(s[i] != '\n', s[i] != '\r'))
	}
	w, ok, end := unquote(s)
	v.Assume(!end)
	k := 0
	if len(s) < 4 {
		k = v.Pick("op", 4)
	}
	bytesIn(k, "\""+s+"\"", w, ok)
}

// CheckEscapes: quoted strings of six (thorough eight) characters out of backslash, x, n, a digit, a quote and a letter.
func CheckEscapes() {
	s := v.Str("text", 6+2*v.Tier())
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assume(v.Or(v.Or(c == '\\', c == 'x'), v.Or(v.Or(c == 'n', c == '4'), v.Or(c == '"', c == 'Z'))))
	}
	w, ok, end := unquote(s)
	v.Assume(!end)
	imm, got := run("byte \"" + s + "\"")
	v.Assert(got == ok, "a quoted string is not accepted exactly when well-formed")
	if ok {
		v.Assert(len(imm) == 1 && imm[0].S == w, "a quoted string is decoded to other bytes")
	}
}

// CheckOther: words of up to four characters that are no byte literal are rejected.
func CheckOther() {
	s := word(v.Str("text", 1+v.Pick("len", 4)))
	v.Assume(len(s) < 2 || s[0] != '0' || s[1] != 'x')
	v.Assume(s[0] != '/' || len(s) < 2 || s[1] != '/')
	_, ok := run("byte " + s)
	v.Assert(!ok, "a word that is no byte literal is accepted")
	_, ok = run("byte b64(" + s)
	v.Assert(!ok, "an unclosed literal is accepted")
	_, ok = run("byte base32(" + s)
	v.Assert(!ok, "an unclosed literal is accepted")
}

func intLit(s string) {
	val, good := libnum.Uint(s, 1<<64-1)
	k := v.Pick("op", 4)
	imm, ok := run([]string{"int ", "pushint ", "intcblock 7 ", "pushints 7 "}[k] + s)
	v.Assert(ok == good, "an integer literal is not accepted exactly when it denotes a 64-bit value")
	if ok {
		n := 0
		if k > 1 {
			n = 1
			v.Assert(imm[0].N == 7, "a neighbouring integer is changed")
		}
		v.Assert(len(imm) == n+1 && imm[n].N == val, "an integer literal is read as another value")
	}
}

// CheckDecimal: decimal literals of 1 to 21 digits, the last six (thorough ten) of them arbitrary,
// after the leading digits of 2^64.
func CheckDecimal() {
	const top = "184467440737095516150"
	n := 1 + v.Pick("len", 21)
	k := 6 + 4*v.Tier()
	if k > n {
		k = n
	}
	s := v.Str("digits", k)
	for i := 0; i < len(s); i++ {
		v.Assume(v.And(s[i] >= '0', s[i] <= '9'))
	}
	intLit(top[:n-k] + s)
}

// CheckHexInt: hexadecimal literals of 1 to 17 digits, six (thorough eight) of them arbitrary at
// either end and the others fixed.
func CheckHexInt() {
	n := []int{1, 6, 8, 15, 16, 17}[v.Pick("len", 6)]
	k := 6 + 2*v.Tier()
	if k > n {
		k = n
	}
	s := v.Str("digits", k)
	for i := 0; i < len(s); i++ {
		v.Assume(v.Or(v.And(s[i] >= '0', s[i] <= '9'), v.And(s[i] >= 'a', s[i] <= 'f')))
	}
	const rest = "f0000e00000000000"
	if v.Bool("front") {
		s = s + rest[:n-k]
	} else {
		s = rest[:n-k] + s
	}
	intLit([]string{"0x", "0X"}[v.Pick("prefix", 2)] + s)
}

// CheckOctBin: octal and binary literals around the 64-bit limit with six arbitrary digits.
func CheckOctBin() {
	s := v.Str("digits", 6)
	for i := 0; i < len(s); i++ {
		v.Assume(v.And(s[i] >= '0', s[i] <= '8'))
	}
	p := []string{"0", "0o", "0O", "01", "0o1777777777777777", "01777777777777777", "02000000000000000", "0b", "0B1", "0b1111111111111111111111111111111111111111111111111111111111", "0b11111111111111111111111111111111111111111111111111111111111"}
	intLit(p[v.Pick("prefix", len(p))] + s)
}

// CheckConsts: the named constants denote their values, for int only, and misspelt ones (one arbitrary
// character replaced) are rejected unless they are another name or a number.
func CheckConsts() {
	c := libavm.Consts[v.Pick("const", len(libavm.Consts))]
	imm, ok := run("int " + c.Name)
	v.Assert(ok && len(imm) == 1 && imm[0].N == c.Value, "a named constant denotes another value")
	_, ok = run("pushint " + c.Name)
	v.Assert(!ok, "pushint takes no named constants")
	x := word(v.Str("char", 1))
	at := v.Pick("at", len(c.Name))
	s := c.Name[:at] + x + c.Name[at+1:]
	v.Assume(s[0] != '/')
	want := false
	for _, d := range libavm.Consts {
		if d.Name == s {
			want = true
		}
	}
	_, ok = run("int " + s)
	v.Assert(ok == want, "a misspelt constant is accepted")
}

// CheckVeryLong: literals of 60 to 1200 characters in each notation, with arbitrary characters at the end.
func CheckVeryLong() {
	n := []int{3, 30, 60}[v.Pick("len", 3)] // units
	lit, want, unit, text := "", "", "", ""
	tail := v.Str("tail", 4)
	tw := ""
	switch v.Pick("form", 4) {
	case 0:
		lit, unit, text = "0x", "6162636465666768696a", "abcdefghij"
		for i := 0; i < 4; i++ {
			v.Assume(v.Or(v.And(tail[i] >= '0', tail[i] <= '9'), v.And(tail[i] >= 'a', tail[i] <= 'f')))
		}
		tw, _ = unhex(tail)
	case 1:
		lit, unit, text = []string{"b64 ", "base64 "}[v.Pick("name", 2)], "YWJjZGVmZ2hpYWJjZGVmZ2hp", "abcdefghiabcdefghi"
		for i := 0; i < 4; i++ {
			v.Assume(v.And(tail[i] >= 'A', tail[i] <= 'Z'))
		}
		tw, _ = un64(tail)
	case 2:
		lit, unit, text = []string{"b32 ", "base32 "}[v.Pick("name", 2)], "MFRGGZDFMFRGGZDF", "abcdeabcde"
		for i := 0; i < 4; i++ {
			v.Assume(v.And(tail[i] >= 'A', tail[i] <= 'Z'))
		}
		tw, _ = un32(tail)
	case 3:
		lit, unit, text = "\"", "ab\\n\\x41 c//d", "ab\nA c//d"
		for i := 0; i < 4; i++ {
			v.Assume(v.And(v.And(tail[i] >= ' ', tail[i] < 0x7f), v.And(tail[i] != '"', tail[i] != '\\')))
		}
		tw = tail
	}
	end := ""
	if lit == "\"" {
		end = "\""
	}
	for i := 0; i < n; i++ {
		lit += unit
		want += text
	}
	imm, ok := run([]string{"byte ", "pushbytes ", "bytecblock ", "pushbytess "}[v.Pick("op", 4)] + lit + tail + end)
	v.Assert(ok && len(imm) == 1, "a long byte literal is not accepted")
	v.Assert(imm[0].S == want+tw, "a long byte literal is decoded to other bytes")
}
