// Package libgen builds symbolic TEAL programs together with an independent
// model of what they contain: per line its kind, the label it defines and the
// label operands it uses with their columns.
package libgen

import "github.com/dragmz/teal/zzverif/v"

const (
	Blank = iota
	Comment
	Label
	B
	Cond // bz, bnz
	Call
	Switch1 // switch/match with one target
	Switch2 // two targets
	Switch0 // no target
	Op      // an instruction with no influence on control flow
	Return
	Err
	Retsub
	Pragma
	Bad      // unknown opcode
	TooMany  // an accepted branch followed by a surplus operand
	LabelC   // label followed by a comment
	BIndent  // indented branch with trailing comment
	PragmaB  // malformed pragma
	CommentM // the logicsig mode pragma comment
)

// Use is one label operand.
type Use struct {
	Name string
	B, E int
}

// Line is one generated source line.
type Line struct {
	Kind int
	Text string
	Def  string
	DefB int
	Uses []Use
}

// Instr tells that the line stands for an instruction (not blank, comment,
// label, pragma or an unparsable line).
func (l *Line) Instr() bool {
	switch l.Kind {
	case B, Cond, Call, Switch0, Switch1, Switch2, Op, Return, Err, Retsub, TooMany, BIndent:
		return true
	}
	return false
}

// IsB tells an unconditional branch.
func (l *Line) IsB() bool { return l.Kind == B || l.Kind == TooMany || l.Kind == BIndent }

// IsLabel tells a label definition.
func (l *Line) IsLabel() bool { return l.Kind == Label || l.Kind == LabelC }

// Namer yields label names.
type Namer func() string

// Name1 is a one-letter name out of the first n letters.
func Name1(n int) Namer {
	return func() string {
		s := v.Str("name", 1)
		v.Assume(v.And(s[0] >= 'a', s[0] < byte('a'+n)))
		return s
	}
}

// NameAny is a name of one or two arbitrary word bytes: no blank, line end,
// quote, slash, colon or hash.
func NameAny(max int) Namer {
	return func() string {
		n := 1 + v.Pick("namelen", max)
		s := v.Str("name", n)
		for i := 0; i < n; i++ {
			c := s[i]
			v.Assume(c > ' ')
			v.Assume(c < 0x7f)
			v.Assume(c != '"')
			v.Assume(c != '/')
			v.Assume(c != ':')
			v.Assume(c != '#')
		}
		return s
	}
}

// Gen makes one line out of the menu.
func Gen(menu []int, name Namer) Line {
	k := menu[v.Pick("kind", len(menu))]
	return Make(k, name)
}

func Make(k int, name Namer) Line {
	l := Line{Kind: k}
	use := func(prefix string, n string) {
		l.Uses = append(l.Uses, Use{Name: n, B: len(prefix), E: len(prefix) + len(n)})
	}
	switch k {
	case Blank:
	case Comment:
		l.Text = "// b a"
	case CommentM:
		l.Text = "//#pragma mode logicsig"
	case Label:
		l.Def = name()
		l.Text = l.Def + ":"
	case LabelC:
		l.Def = name()
		l.DefB = 1
		l.Text = " " + l.Def + ": // c:"
	case B:
		n := name()
		use("b ", n)
		l.Text = "b " + n
	case BIndent:
		n := name()
		use("  b\t", n)
		l.Text = "  b\t" + n + " // x"
	case Cond:
		n := name()
		if v.Bool("nz") {
			use("bnz ", n)
			l.Text = "bnz " + n
		} else {
			use("bz ", n)
			l.Text = "bz " + n
		}
	case Call:
		n := name()
		use("callsub ", n)
		l.Text = "callsub " + n
	case Switch0:
		l.Text = "switch"
	case Switch1:
		n := name()
		use("match ", n)
		l.Text = "match " + n
	case Switch2:
		n := name()
		m := name()
		use("switch ", n)
		use("switch "+n+" ", m)
		l.Text = "switch " + n + " " + m
	case TooMany:
		n := name()
		use("b ", n)
		l.Text = "b " + n + " z"
	case Op:
		l.Text = "int 1"
	case Return:
		l.Text = "return"
	case Err:
		l.Text = "err"
	case Retsub:
		l.Text = "retsub"
	case Pragma:
		l.Text = "#pragma version 8"
	case PragmaB:
		l.Text = "#pragma version"
	case Bad:
		l.Text = "nosuchop a"
	}
	return l
}

// SwitchN is a switch or match of n targets.
func SwitchN(n int, name Namer) Line {
	l := Line{Kind: Switch2, Text: []string{"switch", "match"}[v.Pick("op", 2)]}
	for i := 0; i < n; i++ {
		l.Text += " "
		u := Use{Name: name(), B: len(l.Text)}
		l.Text += u.Name
		u.E = len(l.Text)
		l.Uses = append(l.Uses, u)
	}
	return l
}

// Program is n lines of the menu.
func Program(menu []int, n int, name Namer) []Line {
	var ls []Line
	for i := 0; i < n; i++ {
		ls = append(ls, Gen(menu, name))
	}
	return ls
}

// Source is the text of the program; eol separates the lines.
func Source(ls []Line, eol string) string {
	s := ""
	for i := range ls {
		if i > 0 {
			s += eol
		}
		s += ls[i].Text
	}
	return s
}

// Defs are the lines defining name.
func Defs(ls []Line, name string) []int {
	var r []int
	for i := range ls {
		if ls[i].IsLabel() && ls[i].Def == name {
			r = append(r, i)
		}
	}
	return r
}

// UseCount counts the operands naming name.
func UseCount(ls []Line, name string) int {
	n := 0
	for i := range ls {
		for _, u := range ls[i].Uses {
			if u.Name == name {
				n++
			}
		}
	}
	return n
}
