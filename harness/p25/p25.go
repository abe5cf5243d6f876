// Package p25 decides that a program built with the Go constructors is the program they name.
package p25

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libnum"
	"github.com/dragmz/teal/zzverif/libops"
	"github.com/dragmz/teal/zzverif/v"
)

var constants = []struct {
	op   teal.Op
	name string
}{
	{teal.Err, "err"},
	{teal.Sha3256, "sha3_256"},
	{teal.Sha256, "sha256"},
	{teal.Keccak256, "keccak256"},
	{teal.Sha512256, "sha512_256"},
	{teal.ED25519Verify, "ed25519verify"},
	{teal.PlusOp, "+"},
	{teal.MinusOp, "-"},
	{teal.Div, "/"},
	{teal.Mul, "*"},
	{teal.Lt, "<"},
	{teal.Gt, ">"},
	{teal.Le, "<="},
	{teal.Ge, ">="},
	{teal.And, "&&"},
	{teal.Or, "||"},
	{teal.Eq, "=="},
	{teal.Neq, "!="},
	{teal.Not, "!"},
	{teal.Len, "len"},
	{teal.Itob, "itob"},
	{teal.Btoi, "btoi"},
	{teal.Modulo, "%"},
	{teal.BitOr, "|"},
	{teal.BitAnd, "&"},
	{teal.BitXor, "^"},
	{teal.BitNot, "~"},
	{teal.Mulw, "mulw"},
	{teal.Addw, "addw"},
	{teal.DivModw, "divmodw"},
	{teal.Intc0, "intc_0"},
	{teal.Intc1, "intc_1"},
	{teal.Intc2, "intc_2"},
	{teal.Intc3, "intc_3"},
	{teal.Bytec0, "bytec_0"},
	{teal.Bytec1, "bytec_1"},
	{teal.Bytec2, "bytec_2"},
	{teal.Bytec3, "bytec_3"},
	{teal.Arg0, "arg_0"},
	{teal.Arg1, "arg_1"},
	{teal.Arg2, "arg_2"},
	{teal.Arg3, "arg_3"},
	{teal.BoxGet, "box_get"},
	{teal.BoxPut, "box_put"},
	{teal.BoxDel, "box_del"},
	{teal.BoxLen, "box_len"},
	{teal.BoxCreate, "box_create"},
	{teal.BoxReplace, "box_replace"},
	{teal.BoxExtract, "box_extract"},
	{teal.AppLocalGet, "app_local_get"},
	{teal.AppLocalPut, "app_local_put"},
	{teal.AppGlobalPut, "app_global_put"},
	{teal.AppGlobalGet, "app_global_get"},
	{teal.AppGlobalGetEx, "app_global_get_ex"},
	{teal.AppLocalGetEx, "app_local_get_ex"},
	{teal.AppLocalDel, "app_local_del"},
	{teal.RetSub, "retsub"},
	{teal.Return, "return"},
	{teal.Assert, "assert"},
	{teal.Dup, "dup"},
	{teal.Extract16Bits, "extract_uint16"},
	{teal.Extract32Bits, "extract_uint32"},
	{teal.Extract64Bits, "extract_uint64"},
	{teal.Replace3, "replace3"},
	{teal.Ed25519VerifyBare, "ed25519verify_bare"},
	{teal.BitLen, "bitlen"},
	{teal.Expw, "expw"},
	{teal.Args, "args"},
	{teal.Gloadss, "gloadss"},
	{teal.SetByte, "setbyte"},
	{teal.Concat, "concat"},
	{teal.ItxnBegin, "itxn_begin"},
	{teal.ItxnSubmit, "itxn_submit"},
	{teal.Pop, "pop"},
	{teal.Swap, "swap"},
	{teal.Sqrt, "sqrt"},
	{teal.Balance, "balance"},
	{teal.Exp, "exp"},
	{teal.Log, "log"},
	{teal.Extract3, "extract3"},
	{teal.ExtractUint64, "extract_uint64"},
	{teal.ItxnNext, "itxn_next"},
	{teal.MinBalanceOp, "min_balance"},
	{teal.Bzero, "bzero"},
	{teal.GetByte, "getbyte"},
	{teal.Substring3, "substring3"},
	{teal.ShiftLeft, "shl"},
	{teal.ShiftRight, "shr"},
	{teal.GetBit, "getbit"},
	{teal.SetBit, "setbit"},
	{teal.BytesMinus, "b-"},
	{teal.BytesMul, "b*"},
	{teal.BytesDiv, "b/"},
	{teal.BytesPlus, "b+"},
	{teal.Gaids, "gaids"},
	{teal.Loads, "loads"},
	{teal.Stores, "stores"},
	{teal.Dup2, "dup2"},
	{teal.Divw, "divw"},
	{teal.Select, "select"},
	{teal.Bgteq, "b>="},
	{teal.BytesGt, "b>"},
	{teal.BytesLe, "b<="},
	{teal.BytesGe, "b>="},
	{teal.BytesEq, "b=="},
	{teal.BytesNeq, "b!="},
	{teal.BytesModulo, "b%"},
	{teal.BytesBitOr, "b|"},
	{teal.BytesBitAnd, "b&"},
	{teal.Bsqrt, "bsqrt"},
	{teal.AppGlobalDel, "app_global_del"},
	{teal.BytesLt, "b<"},
	{teal.Band, "b&"},
	{teal.BytesBitXor, "b^"},
	{teal.BytesBitNot, "b~"},
	{teal.BytesZero, "bzero"},
	{teal.AppOptedIn, "app_opted_in"},
}

// read analyses what p prints as, below a version pragma.
func read(p teal.Program) []teal.Op {
	text := p.String()
	v.Obs("text", text)
	r := teal.Process("#pragma version 8\n" + text)
	for _, d := range r.Diagnostics {
		v.Assert(d.Severity() != teal.DiagErr, "the printed program has errors")
	}
	l := r.Listing[1:]
	if len(l) > 0 && l[len(l)-1].String() == "" {
		l = l[:len(l)-1] // behind the last line end
	}
	return l
}

// CheckConstants: each of 117 instructions without immediates prints as its opcode.
func CheckConstants() {
	c := constants[v.Pick("constant", len(constants))]
	l := teal.Compile([]teal.Expr{c.op})
	v.Assert(len(l) == 1 && l[0].String() == c.name, "an instruction prints as another one")
	v.Assert(l.String() == c.name+"\n", "a listing does not print one instruction per line")
	v.Reach("constant")
}

func same(op teal.Op, name string, imms ...libops.Imm) bool {
	n, is := libops.Of(op)
	if n != name || len(is) != len(imms) {
		return false
	}
	for i, x := range is {
		if x.Num != imms[i].Num || x.N != imms[i].N || x.S != imms[i].S {
			return false
		}
	}
	return true
}

func num(n uint64) libops.Imm { return libops.Imm{Num: true, N: n} }
func str(s string) libops.Imm { return libops.Imm{S: s} }

// one is the only instruction p prints as, read back.
func one(e teal.Expr) teal.Op {
	l := read(teal.Program{e})
	v.Assert(len(l) == 1, "an instruction does not print as one line")
	return l[0]
}

// CheckImmediates: each constructor with 8-bit or signed 8-bit immediates prints as its opcode with exactly these
// immediates, whatever their values; so does int with the 256 values from 0, 2^32-100 and 2^64-256 on.
func CheckImmediates() {
	a := v.U8("a")
	x := num(uint64(a))
	switch v.Pick("constructor", 8) {
	case 0:
		v.Assert(same(one(teal.Load(a)), "load", x), "a load is another instruction")
	case 1:
		v.Assert(same(one(teal.Store(a)), "store", x), "a store is another instruction")
	case 2:
		v.Assert(same(one(teal.Cover(a)), "cover", x), "a cover is another instruction")
	case 3:
		v.Assert(same(one(teal.Uncover(a)), "uncover", x), "an uncover is another instruction")
	case 4:
		b := v.U8("b")
		v.Assert(same(one(teal.Proto(a, b)), "proto", x, num(uint64(b))), "a proto is another instruction")
	case 5:
		v.Assert(same(one(teal.FrameDig(int8(a))), "frame_dig", num(uint64(int64(int8(a))))), "a frame_dig is another instruction")
	case 6:
		n := []uint64{0, 1<<32 - 100, 1<<64 - 256}[v.Pick("base", 3)] + uint64(a)
		v.Assert(same(one(teal.Int(n)), "int", num(n)), "an int is another instruction")
	case 7:
		v.Assert(same(one(teal.Arg(a)), "txna", num(uint64(teal.ApplicationArgs)), x), "an argument is another instruction")
	}
	v.Reach("immediate")
}

// CheckFields: txn, gtxns, itxn_field, txna and global with every field usable there at version 8 (txna with every
// index).
func CheckFields() {
	k := v.Pick("constructor", 5)
	if k == 4 {
		f := v.Pick("field", len(teal.GlobalFieldNames))
		v.Assert(same(one(teal.Global(teal.GlobalField(f))), "global", num(uint64(f))), "a global is another instruction")
		v.Reach("global")
		return
	}
	arrays := []teal.TxnField{teal.ApplicationArgs, teal.Accounts, teal.Assets, teal.Applications, teal.Logs, teal.ApprovalProgramPages, teal.ClearStateProgramPages}
	if k == 3 {
		f := arrays[v.Pick("field", len(arrays))]
		i := v.U8("index")
		v.Assert(same(one(teal.Txna(f, i)), "txna", num(uint64(f)), num(uint64(i))), "a txna is another instruction")
		v.Reach("txna")
		return
	}
	f := teal.TxnField(v.Pick("field", len(teal.TxnFieldNames)))
	for _, a := range arrays {
		if f == a {
			return
		}
	}
	switch k {
	case 0:
		v.Assert(same(one(teal.Txn(f)), "txn", num(uint64(f))), "a txn is another instruction")
	case 1:
		v.Assert(same(one(teal.Gtxns(f)), "gtxns", num(uint64(f))), "a gtxns is another instruction")
	case 2:
		l := teal.Compile([]teal.Expr{teal.ItxnField(f)})
		v.Assert(len(l) == 1 && same(l[0], "itxn_field", num(uint64(f))), "an itxn_field is another instruction")
		v.Assert(l.String() == "itxn_field "+teal.TxnFieldNames[f]+"\n", "an itxn_field prints as another instruction")
	}
	v.Reach("field")
}

// CheckStrings: string constants of up to 2 (thorough 3) arbitrary bytes read back as the same bytes.
func CheckStrings() {
	s := v.Str("s", v.Pick("length", 3+v.Tier()))
	v.Assert(same(one(teal.StringBytes(s)), "byte", str(s)), "a string constant denotes other bytes")
	v.Reach("string")
}

func name() string {
	s := v.Str("name", 2)
	for i := 0; i < 2; i++ {
		c := s[i]
		v.Assume(v.Or(v.And(c >= 'a', c <= 'z'), v.Or(v.And(c >= '0', c <= '9'), c == '_')))
	}
	return s
}

// CheckLabels: labels of two arbitrary letters, digits or underscores, and every instruction with labels: the printed
// program defines and uses exactly these labels.
func CheckLabels() {
	a, b := teal.Label(name()), teal.Label("x")
	f := &teal.FuncExpr{Label: a}
	var e teal.Op
	var n string
	uses := []libops.Imm{str(a.Name)}
	switch v.Pick("use", 8) {
	case 0:
		e, n = teal.B(a), "b"
	case 1:
		e, n = teal.Bz(a), "bz"
	case 2:
		e, n = teal.Bnz(a), "bnz"
	case 3:
		e, n = teal.CallSub(a), "callsub"
	case 4:
		e, n = teal.CallSub(f), "callsub"
	case 5:
		e, n = teal.Switch(a, b, a), "switch"
		uses = append(uses, str("x"), uses[0])
	case 6:
		e, n = teal.Match(b, a), "match"
		uses = []libops.Imm{str("x"), uses[0]}
	case 7:
		l := read(teal.Program{b, teal.MatchLabels(teal.Int(5), a, b), a})
		v.Assert(len(l) == 6, "a match on labels has not its instructions")
		v.Assert(same(l[1], "byte", str(a.Name)) && same(l[2], "byte", str("x")) && same(l[3], "int", num(5)), "a match on labels compares other values")
		v.Assert(same(l[4], "match", str(a.Name), str("x")), "a match on labels leads elsewhere")
		v.Reach("labels")
		return
	}
	l := read(teal.Program{b, e, a})
	v.Assert(len(l) == 3 && same(l[0], ":", str("x")) && same(l[1], n, uses...) && same(l[2], ":", str(a.Name)), "an instruction with labels is another one")
	v.Reach("labels")
}

// tree is an arbitrary composition at most d deep, its instructions numbered from *n on.
func tree(d int, n *uint64, want *[]string) teal.Expr {
	leaf := func() teal.Expr {
		*n++
		*want = append(*want, "int "+libnum.Dec(*n))
		return teal.Int(*n)
	}
	k := v.Pick("kind", 2+4*d)
	if d == 0 {
		k *= 5
	}
	label := func() *teal.LabelExpr {
		*n++
		l := teal.Label("l" + libnum.Dec(*n))
		*want = append(*want, l.Name+":")
		return l
	}
	switch k {
	case 0:
		return leaf()
	case 1:
		a := tree(d-1, n, want)
		return teal.Block(a, tree(d-1, n, want))
	case 2:
		return []teal.Expr{tree(d-1, n, want), leaf()}
	case 3:
		l := label()
		return &teal.NestedExpr{Label: l, Body: []teal.Expr{tree(d-1, n, want)}}
	case 4:
		f := &teal.FuncExpr{Label: label()}
		if v.Bool("proto") {
			f.Proto = teal.Proto(1, 2)
			*want = append(*want, "proto 1 2")
		}
		if v.Bool("block") {
			f.Block = teal.Block(tree(d-1, n, want))
		}
		return f
	case 5:
		return teal.Block()
	case 6:
		f := &teal.FuncExpr{Label: teal.Label("f")}
		e := f.Call(tree(d-1, n, want), leaf())
		*want = append(*want, "callsub f")
		return e
	case 7:
		*want = append(*want, "itxn_begin")
		e := teal.Itxn(tree(d-1, n, want), leaf())
		*want = append(*want, "itxn_submit")
		return e
	case 8:
		e := teal.Plus(tree(d-1, n, want), leaf())
		*want = append(*want, "+")
		return e
	}
	e := teal.Minus(tree(d-1, n, want), leaf())
	*want = append(*want, "-")
	return e
}

// CheckNesting: compositions of blocks, slices, labelled blocks, functions, calls, inner transactions, sums and
// differences, 2 deep (thorough 3), compile into their instructions in order.
func CheckNesting() {
	var n uint64
	var want []string
	var p teal.Program
	p = append(p, tree(2+v.Tier(), &n, &want))
	n++
	want = append(want, "int "+libnum.Dec(n))
	p = append(p, teal.Int(n))
	l := teal.Compile(p)
	v.Assert(len(l) == len(want), "a composition has not its instructions")
	text := ""
	for i, op := range l {
		v.Assert(op.String() == want[i], "the instructions of a composition are not in order")
		text += want[i] + "\n"
	}
	v.Assert(p.String() == text && l.String() == text, "a program prints as another one")
	v.Reach("nested")
}

// run executes the instructions of l, with x in scratch slot 0 and y in slot 1, and tells whether they pass; ok is
// false if they use other instructions than integer ones.
func run(l teal.Listing, x, y uint64) (passes, ok bool) {
	var st []uint64
	passes = true
	pop := func() uint64 {
		v.Assert(len(st) > 0, "an assertion takes a value from an empty stack")
		r := st[len(st)-1]
		st = st[:len(st)-1]
		return r
	}
	bit := func(c bool) {
		if c {
			st = append(st, 1)
		} else {
			st = append(st, 0)
		}
	}
	for _, op := range l {
		switch e := op.(type) {
		case *teal.IntExpr:
			st = append(st, e.Value)
			continue
		case *teal.LoadExpr:
			st = append(st, []uint64{x, y}[e.Index])
			continue
		}
		switch op.String() {
		case "len": // the values stand for byte strings of their length
		case "dup":
			a := pop()
			st = append(st, a, a)
		case "swap":
			b, a := pop(), pop()
			st = append(st, b, a)
		case "<":
			b, a := pop(), pop()
			bit(a < b)
		case ">":
			b, a := pop(), pop()
			bit(a > b)
		case "<=":
			b, a := pop(), pop()
			bit(a <= b)
		case ">=":
			b, a := pop(), pop()
			bit(a >= b)
		case "==":
			b, a := pop(), pop()
			bit(a == b)
		case "!=":
			b, a := pop(), pop()
			bit(a != b)
		case "&&":
			b, a := pop(), pop()
			bit(a != 0 && b != 0)
		case "||":
			b, a := pop(), pop()
			bit(a != 0 || b != 0)
		case "!":
			bit(pop() == 0)
		case "assert":
			if pop() == 0 {
				return false, true
			}
		default:
			return false, false
		}
	}
	v.Assert(len(st) == 0, "an assertion leaves values behind")
	return passes, true
}

// CheckAssertions: the asserting constructors pass exactly for the values they announce, for arbitrary 64-bit values
// and bounds (decided as long as they compile into comparisons, logical operators, dup, swap and assert).
func CheckAssertions() {
	x, y := v.U64("x"), v.U64("y")
	a, b := teal.Load(0), teal.Load(1)
	var e teal.Expr
	var want bool
	switch v.Pick("assertion", 4) {
	case 0:
		e, want = teal.AssertEq(a, b), x == y
	case 1:
		e, want = teal.AssertLtEq(a, b), x <= y
	case 2:
		e, want = teal.AssertLen(a, y), x == y
	case 3:
		z := v.U64("z")
		e, want = teal.AssertInRange(a, y, z), v.And(y <= x, x < z)
	}
	l := teal.Compile([]teal.Expr{e})
	passes, ok := run(l, x, y)
	if ok {
		v.Assert(passes == want, "an assertion passes for another value")
		v.Reach("decided")
	}
	text := l.String()
	v.Assert(text == teal.Program{e}.String(), "a program prints as another one")
}

// CheckComments: comments of up to two arbitrary printable characters are no instructions when read back.
func CheckComments() {
	s := v.Str("s", v.Pick("length", 3))
	for i := 0; i < len(s); i++ {
		v.Assume(v.And(s[i] >= ' ', s[i] < 127))
	}
	l := read(teal.Program{teal.Int(1), teal.Comment(s), teal.Int(2)})
	v.Assert(len(l) == 3 && same(l[0], "int", num(1)) && l[1].String() == "" && same(l[2], "int", num(2)), "a comment is an instruction")
	v.Reach("comment")
}

// CheckShared: constructors that are given the same slice, with room behind it, do not disturb one another, and
// compiling a program twice gives the same program.
func CheckShared() {
	es := make([]teal.Expr, 1, 4)
	es[0] = teal.Int(1)
	ls := make([]*teal.LabelExpr, 1, 4)
	ls[0] = teal.Label("a")
	make := func() (teal.Expr, string) {
		switch v.Pick("constructor", 6) {
		case 0:
			return (&teal.FuncExpr{Label: teal.Label("f")}).Call(es...), "int 1\ncallsub f\n"
		case 1:
			return (&teal.FuncExpr{Label: teal.Label("g")}).Call(es...), "int 1\ncallsub g\n"
		case 2:
			return teal.Itxn(es...), "itxn_begin\nint 1\nitxn_submit\n"
		case 3:
			return teal.MatchLabels(teal.Int(2), ls...), "byte \"a\"\nint 2\nmatch a\n"
		case 4:
			return teal.Block(es...), "int 1\n"
		}
		return es, "int 1\n"
	}
	a, x := make()
	b, y := make()
	p := teal.Program{a, b, a}
	v.Assert(p.String() == x+y+x, "a composition disturbs another one")
	v.Assert(p.String() == x+y+x, "compiling a program changes it")
	v.Reach("shared")
}

// CheckLarge: blocks of up to 60 instructions, blocks nested up to 30 deep, instructions with up to 30 labels and string constants of up to
// 300 bytes with an arbitrary one among them.
func CheckLarge() {
	n := []int{4, 9, 17, 30}[v.Pick("n", 4)]
	var es []teal.Expr
	want := ""
	for i := 0; i < 2*n; i++ {
		es = append(es, teal.Int(uint64(i)))
		want += "int " + libnum.Dec(uint64(i)) + "\n"
	}
	switch v.Pick("kind", 7) {
	case 0:
		v.Assert(teal.Program(es).String() == want, "a long program prints as another one")
		v.Assert(teal.Program{teal.Block(es...)}.String() == want, "a long block prints as another one")
		v.Assert(teal.Program{es}.String() == want, "a long slice prints as another one")
	case 1:
		f := &teal.FuncExpr{Label: teal.Label("f"), Proto: teal.Proto(uint8(n), 1), Block: teal.Block(es...)}
		v.Assert(teal.Program{f.Call(es...), f}.String() == want+"callsub f\nf:\nproto "+libnum.Dec(uint64(n))+" 1\n"+want, "a long function prints as another one")
	case 2:
		var e teal.Expr = teal.Int(9)
		w := "int 9\n"
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				e = teal.Block(e, teal.Int(uint64(i)))
				w += "int " + libnum.Dec(uint64(i)) + "\n"
			case 1:
				e = []teal.Expr{e}
			case 2:
				e = &teal.NestedExpr{Label: teal.Label("l" + libnum.Dec(uint64(i))), Body: []teal.Expr{e}}
				w = "l" + libnum.Dec(uint64(i)) + ":\n" + w
			case 3:
				e = teal.Plus(e, teal.Int(uint64(i)))
				w += "int " + libnum.Dec(uint64(i)) + "\n+\n"
			}
		}
		v.Assert(teal.Program{e}.String() == w, "a deep composition prints as another one")
	case 3:
		var ls []*teal.LabelExpr
		w, bs := "", ""
		for i := 0; i < n; i++ {
			l := teal.Label("l" + libnum.Dec(uint64(i)))
			ls = append(ls, l)
			w += " " + l.Name
			bs += "byte \"" + l.Name + "\"\n"
		}
		v.Assert(teal.Program{teal.Switch(ls...), teal.Match(ls...)}.String() == "switch"+w+"\nmatch"+w+"\n", "an instruction with many labels prints as another one")
		v.Assert(teal.Program{teal.MatchLabels(teal.Int(5), ls...)}.String() == bs+"int 5\nmatch"+w+"\n", "a match on many labels prints as another one")
	case 4:
		c := v.Str("c", 1)
		s := ""
		for i := 0; i < 5*n; i++ {
			s += string(rune('a' + i%26))
		}
		s += c + s
		v.Assert(same(one(teal.StringBytes(s)), "byte", str(s)), "a long string constant denotes other bytes")
	case 5:
		v.Assert(teal.Program{teal.Itxn(es...)}.String() == "itxn_begin\n"+want+"itxn_submit\n", "a long inner transaction prints as another one")
	case 6:
		name := ""
		for i := 0; i < n; i++ {
			name += "ab_"
		}
		l := read(teal.Program{teal.B(teal.Label(name)), teal.Int(1), teal.Label(name)})
		v.Assert(len(l) == 3 && same(l[0], "b", str(name)) && same(l[2], ":", str(name)), "a long label is another one")
	}
	v.Reach("large")
}
