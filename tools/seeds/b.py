HEAD='''package teal

import (
	"fmt"
	"testing"
)

var _ = fmt.Sprint

func zzrule(src, rule string) map[int]int {
	m := map[int]int{}
	for _, d := range Process(src).Diagnostics {
		if d.Rule() == rule {
			m[d.Line()]++
		}
	}
	return m
}
'''
SEEDS=[
 dict(id='p01-replace-empty-doc',prop='P01',edits=[('process.go','''						idx = len(info.Args) - 1
					}

					if idx < len(info.Args) {
						arg := info.Args[idx]''','''						idx = len(info.Args) - 1
					}

					if len(info.Args) == 0 || idx <= len(info.Args) {
						arg := info.Args[idx]''')],
  needs='a hover over the surplus word right after the last immediate of an instruction',
  breaks='the documentation lookup crashes',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	r := Process("int 1 2\\n")
	for i := 0; i < 9; i++ {
		r.DocAt(0, i)
	}
}
'''),
 dict(id='p02-cr-only',prop='P02',edits=[('lexer.go','''				c2, n2 := utf8.DecodeRune(z.Source[z.i:])
				if c2 == '\\n' {''','''				c2, n2 := utf8.DecodeRune(z.Source[z.i:])
				if c2 == '\\n' || c2 == c {''')],
  needs='two CR line ends in a row',
  breaks='the blank line between them vanishes and all later line numbers are one too low',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	r := Process("int 1\\r\\rb x\\r")
	if len(r.Lines) != 3 || len(r.SymbolRefs) != 1 || r.SymbolRefs[0].Line() != 2 {
		t.Fatal(r.Lines, r.SymbolRefs)
	}
}
'''),
 dict(id='p03-vt-blank',prop='P03',edits=[('lexer.go','''	case ' ':
	case '\\t':
	default:
		return false''','''	case ' ':
	case '\\t':
	case utf8.RuneError:
	default:
		return false''')],
  needs='a byte that is not valid UTF-8 inside a word',
  breaks='the word is cut there and the scanner never gets past the byte or splits the word',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	z := &Lexer{Source: []byte("a\\xffb\\n")}
	n := 0
	for n < 10 && z.Scan() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}
'''),
 dict(id='p05-dup-redundant',prop='P05',edits=[('linter.go',"""				l.reds = append(l.reds, &RedundantLabelLine{line: line, name: name})""","""				if line == lines[0] {
					l.reds = append(l.reds, &RedundantLabelLine{line: line, name: name})
				}""")],
  needs='two definitions of a label nobody references',
  breaks='only the first is offered for removal',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if r := Process("a:\\na:\\n").Redundants; len(r) != 2 {
		t.Fatal(r)
	}
}
'''),
 dict(id='p07-sig-version',prop='P07',edits=[('process.go','''					case ModeSig:
						min = info.SigVersion
					}

					// TODO''','''					case ModeSig:
						min = info.SigVersion
						if min != 0 && info.AppVersion > min {
							min = info.AppVersion
						}
					}

					// TODO''')],
  needs='logicsig mode and an opcode that applications got later than logic signatures',
  breaks='the opcode is reported to need a newer version than it does',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	m := zzrule("#pragma version 3\\n//#pragma mode logicsig\\ned25519verify\\n", "LINT0008")
	if len(m) != 0 {
		t.Fatal(m)
	}
}
'''),
 dict(id='p08-int8-min',prop='P08',edits=[('parser.go','''	v, err := strconv.ParseInt(s, 10, 8)
	if err != nil {
		return 0, err
	}

	return int8(v), nil''','''	v, err := strconv.ParseInt(s, 10, 8)
	if err != nil {
		return 0, err
	}

	if -v > 127 {
		return 0, errors.Errorf("out of range: %d", v)
	}

	return int8(v), nil''')],
  needs='a signed 8-bit immediate of exactly -128',
  breaks='a valid immediate is rejected',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if m := zzrule("#pragma version 8\\nframe_dig -128\\n", "PARSE"); len(m) != 0 {
		t.Fatal(m)
	}
}
'''),
 dict(id='p09-b32-pad',prop='P09',edits=[('go_algorand.go','''		val, e2 = base32.StdEncoding.DecodeString(x)
		if e2 == nil {''','''		if len(x)%8 == 0 && len(x) > 2 && x[len(x)-2] != '=' {
			x = x[:len(x)-1] + "A"
		}
		val, e2 = base32.StdEncoding.DecodeString(x)
		if e2 == nil {''')],
  needs='base32 text padded with exactly one character',
  breaks='an extra zero byte (or part of it) is decoded instead of the padding',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	r := Process("byte b32 AAAAAAA=\\n")
	b, ok := r.Listing[0].(*ByteExpr)
	if !ok || len(b.Value) != 4 {
		t.Fatalf("%#v", r.Listing[0])
	}
}
'''),
 dict(id='p10-match-one',prop='P10',edits=[('expr.go','''	b.WriteString("match")

	if len(e.Targets) > 0 {''','''	b.WriteString("match")

	if len(e.Targets) > 1 || (len(e.Targets) == 1 && len(e.Targets[0].Name) > 1) {''')],
  needs='a match with a single label of one character',
  breaks='the label is not printed',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if s := Process("#pragma version 8\\nmatch a\\n").Listing[1].String(); s != "match a" {
		t.Fatal(s)
	}
}
'''),
 dict(id='p11-switch-unused',prop='P11',edits=[('compiler.go',"""			for _, l := range o.Labels() {
				used[l.Name] = true
			}
		}
	}

	for i, o := range l {""","""			ls := o.Labels()
			for i, l := range ls {
				if i > 0 && i < len(ls)-1 && l.Name == ls[i-1].Name {
					continue
				}
				used[l.Name] = i == 0 || !used[l.Name] || l.Name != ls[0].Name
			}
		}
	}

	for i, o := range l {""")],
  needs='a multi-way branch naming its first label again at a later place',
  breaks='the definition of that label is dropped',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	l := Process("#pragma version 8\\nint 0\\nswitch a b a\\nb:\\na:\\nint 1\\nreturn\\n").Listing.Optimize()
	for _, o := range l {
		if x, ok := o.(*LabelExpr); ok && x.Name == "a" {
			return
		}
	}
	t.Fatal(l)
}
'''),
 dict(id='p12-setbyte-type',prop='P12',edits=[('expr.go','''	b.pop(VmTypeUint64)
	b.pop(VmTypeUint64)
	b.pop(VmTypeBytes)
	b.push(VmValue{T: VmTypeBytes})
	b.Line++
	return nil
}

var SetByte''','''	b.pop(VmTypeUint64)
	b.pop(VmTypeUint64)
	v := b.pop(VmTypeBytes)
	b.push(VmValue{T: v.T})
	b.Line++
	return nil
}

var SetByte''')],
  needs='setbyte on a value whose type is not known',
  breaks='the result is not typed as bytes',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	r := Process("#pragma version 8\\nload 0\\nint 0\\nint 1\\nsetbyte\\nint 1\\n+\\n")
	v := NewVm(r)
	for i := 0; i < 7 && v.Branch != nil && v.Error == nil; i++ {
		v.Step()
	}
	if v.Error == nil {
		t.Fatal("type confusion not reported")
	}
}
'''),
 dict(id='p13-uncover-deep',prop='P13',edits=[('expr.go','''	is := []VmValue{}

	for i := uint8(0); i < e.Depth; i++ {
		is = append(is, b.pop(VmTypeAny))
	}

	v := b.pop(VmTypeAny)

	for i := len(is) - 1; i >= 0; i-- {
		b.push(is[i])
	}

	b.push(v)
''','''	is := []VmValue{}

	for i := uint8(0); i < e.Depth; i++ {
		is = append(is, b.pop(VmTypeAny))
	}

	v := b.pop(VmTypeAny)

	if len(is) > 2 {
		// keep the window in stack order
		for i, j := 1, len(is)-1; i < j; i, j = i+1, j-1 {
			is[i], is[j] = is[j], is[i]
		}
	}

	for i := len(is) - 1; i >= 0; i-- {
		b.push(is[i])
	}

	b.push(v)
''')],
  needs='uncover with a depth of three or more',
  breaks='the entries above the uncovered one are permuted',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 1\\nint 2\\nint 3\\nint 4\\nuncover 3\\n")
	v := NewVm(r)
	b := v.Branch
	for i := 0; i < 5; i++ {
		v.Step()
	}
	s := ""
	for _, x := range b.Stack.Items {
		s += x.String() + " "
	}
	if s != "uint64: 2 uint64: 3 uint64: 4 uint64: 1 " {
		t.Fatal(s)
	}
}
'''),
 dict(id='p14-fork-stack',prop='P14',edits=[('vm.go','''		Items: append([]VmValue{}, s.Items...),''','''		Items: s.Items[:len(s.Items):len(s.Items)],''')],
  needs='a conditional branch after which one side overwrites a deep stack entry in place',
  breaks='the other side sees the overwritten entry',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 1\\nint 2\\nint 0\\nbz x\\nint 9\\nbury 2\\nint 1\\nreturn\\nx:\\nerr\\n")
	v := NewVm(r)
	for i := 0; i < 6; i++ {
		v.Step()
	}
	if s := v.Branches[1].Stack.Items[0].String(); s != "uint64: 1" {
		t.Fatal(s)
	}
}
'''),
]
