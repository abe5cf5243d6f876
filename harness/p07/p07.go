// Package p07 decides that opcode availability follows the language version and mode.
package p07

import (
	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libavm"
	"github.com/dragmz/teal/zzverif/v"
)

// on counts the version and mode errors on line l.
func on(r *teal.ProcessResult, l int) (mode, ver int) {
	for _, d := range r.Diagnostics {
		if d.Line() != l {
			continue
		}
		switch d.Rule() {
		case "LINT0007":
			mode++
			v.Assert(d.Severity() == teal.DiagErr, "mode violations are errors")
		case "LINT0008":
			ver++
			v.Assert(d.Severity() == teal.DiagErr, "version violations are errors")
		}
	}
	return
}

// judge checks line l of r, which holds op, for version n and mode sig.
func judge(r *teal.ProcessResult, l int, op libavm.Op, n uint64, sig bool, used int) int {
	need := op.App
	if sig {
		need = op.Sig
	}
	mode, ver := on(r, l)
	if need == 0 {
		v.Assert(mode == 1, "an opcode forbidden in the mode is not reported")
		v.Assert(ver == 0, "version error for an opcode forbidden in the mode")
		v.Reach("mode error")
		return used
	}
	v.Assert(mode == 0, "an opcode allowed in the mode is reported")
	if need > n {
		v.Assert(ver == 1, "an opcode newer than the version is not reported")
		v.Assert(used < len(r.Versions), "the required version is not offered")
		q := r.Versions[used]
		v.Assert(q.Line == l && q.StartLine() == l && q.EndLine() == l, "required version on a wrong line")
		v.Assert(q.Version == need, "wrong required version")
		v.Reach("version error")
		return used + 1
	}
	v.Assert(ver == 0, "an available opcode is reported as too new")
	v.Reach("available")
	return used
}

func number(digits int) (string, uint64) {
	s := v.Str("version", digits)
	n := uint64(0)
	for i := 0; i < digits; i++ {
		v.Assume(v.And(s[i] >= '0', s[i] <= '9'))
		n = n*10 + uint64(s[i]-'0')
	}
	v.Assume(s[0] != '0')
	return s, n
}

// CheckDeclared: every opcode, every declared version of one to three digits, both modes, the
// mode comment before or after the version pragma, the whole in one decision.
func CheckDeclared() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	s, n := number(1 + v.Pick("digits", 3))
	src := "#pragma version " + s + "\n"
	l := 1
	k := v.Pick("mode", 4)
	switch k {
	case 1:
		src += "//#pragma mode logicsig\n"
		l = 2
	case 2:
		src = "//#pragma mode logicsig\n" + src
		l = 2
	case 3:
		src = " // #pragma mode logicsig \n\n" + src
		l = 3
	}
	r := teal.Process(src + op.Name + libavm.Sample(op.Imm))
	v.Assert(r.Version == n, "wrong version in force")
	v.Assert((r.Mode == teal.ModeSig) == (k != 0), "wrong mode in force")
	v.Assert(r.Mode == teal.ModeSig || r.Mode == teal.ModeApp, "no mode in force")
	v.Assert(r.VersionToken != nil && r.VersionToken.String() == s, "wrong version token")
	used := judge(r, l, op, n, k != 0, 0)
	v.Assert(used == len(r.Versions), "a required version is offered wrongly")
	v.Obs("r", len(r.Diagnostics), r.Version, len(r.Versions))
}

// CheckDefault: every opcode without a version pragma, in both modes: version 1; other comments and
// comments after an instruction do not change the mode.
func CheckDefault() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	k := v.Pick("mode", 8)
	src := []string{"", "//#pragma mode logicsig\n", "//#pragma mode application\n", "int 1 //#pragma mode logicsig\n", "//#pragma mode\n",
		"//#pragma mode logicsigs\n", "// the #pragma mode logicsig\n", "//#pragma mode logicsig ?\n"}[k]
	l := 0
	if k > 0 {
		l = 1
	}
	r := teal.Process(src + op.Name + libavm.Sample(op.Imm))
	v.Assert(r.Version == 1 && r.VersionToken == nil, "the default version is 1")
	v.Assert((r.Mode == teal.ModeSig) == (k == 1), "wrong default mode")
	used := judge(r, l, op, 1, k == 1, 0)
	v.Assert(used == len(r.Versions), "a required version is offered wrongly")
	v.Obs("r", len(r.Diagnostics))
}

// CheckMany: three lines of opcodes out of every eleventh one (thorough: every fifth), indented and with
// trailing comments, under every one-digit version and both modes: each line is judged by itself.
func CheckMany() {
	step := 11 - 6*v.Tier()
	var menu []libavm.Op
	for i := 0; i < len(libavm.Ops); i += step {
		menu = append(menu, libavm.Ops[i])
	}
	s, n := number(1)
	sig := v.Bool("sig")
	src := "#pragma version " + s + "\n"
	if sig {
		src += "//#pragma mode logicsig\n"
	} else {
		src += "//\n"
	}
	var ops []libavm.Op
	for i := 0; i < 3; i++ {
		op := menu[v.Pick("op", len(menu))]
		ops = append(ops, op)
		src += " " + op.Name + libavm.Sample(op.Imm) + " // x\n"
	}
	r := teal.Process(src)
	used := 0
	for i := range ops {
		used = judge(r, 2+i, ops[i], n, sig, used)
	}
	v.Assert(used == len(r.Versions), "a required version is offered wrongly")
	v.Obs("r", len(r.Diagnostics))
}

// CheckLong: every opcode behind up to seven instructions, with the mode comment at the start or behind any of
// them, at versions 1 and 8: its availability does not depend on what precedes it.
func CheckLong() {
	op := libavm.Ops[v.Pick("op", len(libavm.Ops))]
	n := 7
	at := []int{-1, 0, 4, 7}[v.Pick("at", 4)]
	nr := v.Pick("version", 2)
	src := []string{"#pragma version 1\n", "#pragma version 8\n"}[nr]
	l := 1
	for i := 0; i <= n; i++ {
		if i == at {
			src += "//#pragma mode logicsig\n"
			l++
		}
		if i < n {
			src += []string{"int 1\n", "pop\n", "a:\n", "\n"}[i%4]
			l++
		}
	}
	r := teal.Process(src + op.Name + libavm.Sample(op.Imm))
	v.Assert((r.Mode == teal.ModeSig) == (at >= 0), "wrong mode in force")
	used := judge(r, l, op, []uint64{1, 8}[nr], at >= 0, 0)
	v.Assert(used == len(r.Versions), "a required version is offered wrongly")
	v.Obs("r", len(r.Diagnostics))
}

// CheckBadPragma: a malformed pragma does not change the version in force.
func CheckBadPragma() {
	bad := []string{"#pragma version", "#pragma version 0", "#pragma version x", "#pragma versions 8", "#pragma", "#pragma version -1", "#pragma version 18446744073709551616"}
	r := teal.Process(bad[v.Pick("bad", len(bad))] + "\nproto 1 1")
	v.Assert(r.Version == 1, "a malformed pragma changes the version")
	m, n := on(r, 1)
	v.Assert(m == 0 && n == 1, "the version after a malformed pragma is not 1")
	e := 0
	for _, d := range r.Diagnostics {
		if d.Line() == 0 {
			e++
		}
	}
	v.Assert(e > 0, "a malformed pragma is not reported")
	v.Obs("r", len(r.Diagnostics))
}

// CheckAgain: two version pragmas of one digit each, with an opcode behind each of them (every seventh opcode): the later
// declaration is in force behind it, higher or lower.
func CheckAgain() {
	a, n := number(1)
	b, m := number(1)
	var menu []libavm.Op
	for i := 0; i < len(libavm.Ops); i += 7 {
		menu = append(menu, libavm.Ops[i])
	}
	x, y := menu[v.Pick("op", len(menu))], menu[v.Pick("op", len(menu))]
	r := teal.Process("#pragma version " + a + "\n" + x.Name + libavm.Sample(x.Imm) + "\n#pragma version " + b + "\n" + y.Name + libavm.Sample(y.Imm))
	v.Assert(r.Version == m, "wrong version in force")
	v.Assert(r.VersionToken != nil && r.VersionToken.String() == b && r.VersionToken.Line() == 2, "wrong version token")
	used := judge(r, 1, x, n, false, 0)
	used = judge(r, 3, y, m, false, used)
	v.Assert(used == len(r.Versions), "a required version is offered wrongly")
	v.Obs("r", len(r.Diagnostics))
}
