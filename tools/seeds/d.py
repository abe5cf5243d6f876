HEAD='''package teal

import (
	"fmt"
	"testing"
)

var _ = fmt.Sprint
'''
SEEDS=[
 dict(id='p25-range-bound',prop='P25',edits=[('expr.go','''		Int(b_exclusive),
		Lt,
		And,''','''		Int(b_exclusive),
		Le,
		And,''')],
  needs='a value equal to the exclusive bound of AssertInRange',
  breaks='the assertion passes for the bound itself',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	s := Program{AssertInRange(Load(0), 3, 7)}.String()
	// evaluate with 7 in slot 0
	var st []uint64
	pop := func() uint64 { r := st[len(st)-1]; st = st[:len(st)-1]; return r }
	b := map[bool]uint64{true: 1}
	for _, op := range Process(s).Listing {
		switch e := op.(type) {
		case *IntExpr:
			st = append(st, e.Value)
		case *LoadExpr:
			st = append(st, 7)
		case *LtExpr:
			y, x := pop(), pop()
			st = append(st, b[x < y])
		case *LtEqExpr:
			y, x := pop(), pop()
			st = append(st, b[x <= y])
		case *GtExpr:
			y, x := pop(), pop()
			st = append(st, b[x > y])
		case *GtEqExpr:
			y, x := pop(), pop()
			st = append(st, b[x >= y])
		case *AndExpr:
			y, x := pop(), pop()
			st = append(st, b[x != 0 && y != 0])
		case *AssertExpr:
			if pop() != 0 {
				t.Fatal(s)
			}
			return
		}
	}
	t.Fatal(s)
}
'''),
 dict(id='p25-call-aliasing',prop='P25',edits=[('expr.go','''	var exprs []Expr

	exprs = append(exprs, args...)
	exprs = append(exprs, &CallSubExpr{Label: e.Label})

	return &NestedExpr{Body: exprs}''','''	exprs := append(args, &CallSubExpr{Label: e.Label})

	return &NestedExpr{Body: exprs}''')],
  needs='two calls made with the same slice of arguments, which has room behind its last element',
  breaks='the first call calls the second function',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	args := make([]Expr, 0, 4)
	args = append(args, Int(1), Int(2))
	f, g := &FuncExpr{Label: Label("f")}, &FuncExpr{Label: Label("g")}
	a := f.Call(args...)
	b := g.Call(args...)
	if s := (Program{a, b}).String(); s != "int 1\\nint 2\\ncallsub f\\nint 1\\nint 2\\ncallsub g\\n" {
		t.Fatal(s)
	}
}
'''),
 dict(id='p25-nested-slice',prop='P25',edits=[('compiler.go','''			for _, e := range e {
				to = c.compile(to, e)
			}''','''			for _, e := range e {
				if ops := c.compile(nil, e); len(ops) > 0 {
					to = append(to[:len(to):len(to)], ops...)
				} else {
					return to
				}
			}''')],
  needs='an empty block in a slice, followed by other instructions',
  breaks='the instructions after the empty block are dropped',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if s := (Program{[]Expr{Int(1), Block(), Int(2)}}).String(); s != "int 1\\nint 2\\n" {
		t.Fatal(s)
	}
}
'''),
]
