// Package libsrc splits sources into lines, independently of the scanner.
package libsrc

// L is one source line: its text without the line end, and its offset.
type L struct {
	Text string
	Off  int
	Eol  string
}

// Split splits at \n, \r\n and \r; the text after the last line end is a line
// of its own, possibly empty.
func Split(s string) []L {
	var ls []L
	b := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			ls = append(ls, L{s[b:i], b, s[i : i+1]})
			b = i + 1
		} else if s[i] == '\r' {
			e := i + 1
			if e < len(s) && s[e] == '\n' {
				e++
			}
			ls = append(ls, L{s[b:i], b, s[i:e]})
			b = e
			i = e - 1
		}
	}
	return append(ls, L{s[b:], b, ""})
}

// Blank tells that the line has nothing but blanks.
func Blank(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' {
			return false
		}
	}
	return true
}
