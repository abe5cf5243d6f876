// Package libnum is an independent reading of integer literals.
package libnum

import "github.com/dragmz/teal/zzverif/v"

// digit is the value of c as a digit, 255 if it is none.
func digit(c byte) uint64 {
	if v.And(c >= '0', c <= '9') {
		return uint64(c - '0')
	}
	if v.And(c >= 'a', c <= 'f') {
		return uint64(c-'a') + 10
	}
	if v.And(c >= 'A', c <= 'F') {
		return uint64(c-'A') + 10
	}
	return 255
}

// Uint reads s as a literal of at most max: decimal, 0x, 0o, 0b or a leading 0
// for octal. Underscores are not considered.
func Uint(s string, max uint64) (uint64, bool) {
	base := uint64(10)
	if len(s) > 1 && s[0] == '0' {
		if s[1] == 'x' || s[1] == 'X' {
			base = 16
			s = s[2:]
		} else if s[1] == 'b' || s[1] == 'B' {
			base = 2
			s = s[2:]
		} else if s[1] == 'o' || s[1] == 'O' {
			base = 8
			s = s[2:]
		} else {
			base = 8
			s = s[1:]
		}
	}
	return digits(s, base, max)
}

func digits(s string, base, max uint64) (uint64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	x := uint64(0)
	for i := 0; i < len(s); i++ {
		d := digit(s[i])
		if d >= base {
			return 0, false
		}
		if x > (max-d)/base {
			return 0, false
		}
		x = x*base + d
	}
	return x, true
}

// Int8 reads s as a decimal between -128 and 127.
func Int8(s string) (int8, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	max := uint64(127)
	if neg {
		max = 128
	}
	x, ok := digits(s, 10, max)
	if neg {
		return int8(-int64(x)), ok
	}
	return int8(x), ok
}

// Dec is the decimal form of n.
func Dec(n uint64) string {
	s := ""
	for {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}
