package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// sprintf formats with a concrete format string; operands may be symbolic.
func (w *Worker) sprintf(fr *Frame, format Val, args []Val) Val {
	f, ok := conc(format)
	if !ok {
		f = "" // a symbolic format string: only its presence matters
		panic(unsupported("symbolic format string"))
	}
	var out Val
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = catStr(out, strVal(f[i:]))
			break
		}
		out = catStr(out, strVal(f[i:i+j]))
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = catStr(out, strVal("%!(NOVERB)"))
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			out = catStr(out, strVal("%"))
			continue
		}
		if ai >= len(args) {
			out = catStr(out, strVal("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = catStr(out, w.fmtFlag(fr, args[ai], verb, flags))
		ai++
	}
	if ai < len(args) {
		out = catStr(out, strVal("%!(EXTRA "))
		for k := ai; k < len(args); k++ {
			if k > ai {
				out = catStr(out, strVal(", "))
			}
			if args[k].r == nil {
				out = catStr(out, strVal("<nil>"))
				continue
			}
			out = catStr(out, strVal(shortType(args[k].r.(*Iface).t)+"="))
			out = catStr(out, w.fmtValue(args[k], 'v', ""))
		}
		out = catStr(out, strVal(")"))
	}
	return out
}

func (w *Worker) fmtFlag(fr *Frame, a Val, verb byte, flags string) Val {
	v := w.fmtValue(a, verb, flags)
	// width handling for concrete results
	wd := strings.TrimLeft(flags, "+-# 0")
	if wd == "" {
		return v
	}
	if strings.Contains(wd, ".") {
		panic(unsupported("precision in format"))
	}
	if a.r != nil {
		if k := a.r.(*Iface).t.k; k == kInt {
			s, ok := conc(v)
			if !ok {
				n, _ := strconv.Atoi(wd)
				if strLen(v) >= n {
					return v
				}
				pad := strings.Repeat(" ", n-strLen(v))
				if strings.HasPrefix(flags, "0") {
					pad = strings.Repeat("0", n-strLen(v))
				}
				return catStr(strVal(pad), v)
			}
			_ = s
		}
	}
	n, err := strconv.Atoi(wd)
	if err != nil {
		panic(unsupported("format flags " + flags))
	}
	if strLen(v) >= n {
		return v
	}
	fill := " "
	if strings.HasPrefix(flags, "0") {
		fill = "0"
	}
	pad := strVal(strings.Repeat(fill, n-strLen(v)))
	if strings.Contains(flags, "-") {
		return catStr(v, pad)
	}
	return catStr(pad, v)
}

func shortType(ti *TInfo) string {
	return types.TypeString(ti.t, func(p *types.Package) string { return p.Name() })
}

// fmtValue formats one operand (an interface value).
func (w *Worker) fmtValue(a Val, verb byte, flags string) Val {
	if a.r == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return strVal("%!s(<nil>)")
			}
			return strVal("<nil>")
		}
		return strVal("%!" + string(verb) + "(<nil>)")
	}
	i := a.r.(*Iface)
	if verb == 'T' {
		return strVal(shortType(i.t))
	}
	return w.fmtTyped(i.t, i.v, verb, flags, 0)
}

func (w *Worker) fmtTyped(ti *TInfo, v Val, verb byte, flags string, depth int) Val {
	sharp := strings.Contains(flags, "#")
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') && ti.k != kIface {
		nilPtr := (ti.k == kPtr) && v.r == nil
		for _, name := range []string{"Error", "String"} {
			m := w.eng.methodByName(ti, name)
			if m == nil {
				continue
			}
			sig := m.f.Signature
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || w.eng.tt.get(sig.Results().At(0).Type()).k != kString {
				continue
			}
			if nilPtr {
				return strVal("<nil>")
			}
			s := w.call(m, []Val{v}, nil, nil)
			return w.fmtTyped(w.eng.stringT, s, verb, flags, depth)
		}
	}
	switch ti.k {
	case kBool:
		if w.cond(v) {
			return strVal("true")
		}
		return strVal("false")
	case kInt:
		var t *Term
		if x, ok := v.r.(*Term); ok {
			t = x
			if ti.signed {
				t = w.ts.SExt(t, 64)
			} else {
				t = w.ts.ZExt(t, 64)
			}
		}
		n := v.n
		if ti.signed && t == nil {
			n = uint64(sext(v.n, ti.w))
		}
		switch verb {
		case 'd', 'v':
			if t != nil {
				return w.formatTerm(t, ti.signed, 10)
			}
			if ti.signed {
				return strVal(strconv.FormatInt(int64(n), 10))
			}
			return strVal(strconv.FormatUint(n, 10))
		case 'c':
			if t != nil {
				return w.runeStr(Val{r: t}, 64, ti.signed)
			}
			return strVal(string(rune(n)))
		case 'x', 'X', 'b', 'o', 'q', 'U':
			if t != nil {
				n = w.concretize(t)
			}
			f := "%" + flags + string(verb)
			if ti.signed {
				return strVal(fmt.Sprintf(f, int64(n)))
			}
			return strVal(fmt.Sprintf(f, n))
		}
		s := strconv.FormatUint(n, 10)
		return strVal("%!" + string(verb) + "(" + shortType(ti) + "=" + s + ")")
	case kFloat:
		return strVal(fmt.Sprintf("%"+string(verb), f64(v)))
	case kString:
		switch verb {
		case 's', 'v':
			if verb == 'v' && sharp {
				return w.quote(v)
			}
			return v
		case 'q':
			return w.quote(v)
		case 'x', 'X':
			return w.hexOf(strBytes(v), verb == 'X')
		}
		return catStr(strVal("%!"+string(verb)+"("+shortType(ti)+"="), catStr(v, strVal(")")))
	case kSlice, kArray:
		var e []Val
		if ti.k == kSlice {
			e = sliceElems(v)
		} else {
			e = v.r.(*Arr).e
		}
		if ti.elem.k == kInt && ti.elem.w == 8 && !ti.elem.signed {
			switch verb {
			case 's':
				return symStr(append([]Val(nil), e...))
			case 'x', 'X':
				return w.hexOf(e, verb == 'X')
			case 'q':
				return w.quote(symStr(append([]Val(nil), e...)))
			}
		}
		if sharp {
			panic(unsupported("%#v of slice"))
		}
		out := strVal("[")
		for i := range e {
			if i > 0 {
				out = catStr(out, strVal(" "))
			}
			out = catStr(out, w.fmtElem(ti.elem, e[i], verb, flags, depth+1))
		}
		return catStr(out, strVal("]"))
	case kStruct:
		if sharp {
			return strVal("%#v-struct")
		}
		plus := strings.Contains(flags, "+")
		out := strVal("{")
		s := v.r.(*Struct)
		st := ti.under.(*types.Struct)
		for i, f := range ti.fields {
			if i > 0 {
				out = catStr(out, strVal(" "))
			}
			if plus {
				out = catStr(out, strVal(st.Field(i).Name()+":"))
			}
			if !st.Field(i).Exported() {
				// unexported fields: methods are not consulted
				out = catStr(out, w.fmtPlain(f, s.f[i], verb, flags, depth+1))
				continue
			}
			out = catStr(out, w.fmtElem(f, s.f[i], verb, flags, depth+1))
		}
		return catStr(out, strVal("}"))
	case kPtr:
		if v.r == nil {
			return strVal("<nil>")
		}
		if p, ok := v.r.(*Val); ok && depth == 0 && (ti.elem.k == kStruct || ti.elem.k == kSlice || ti.elem.k == kArray) {
			return catStr(strVal("&"), w.fmtTyped(ti.elem, *p, verb, flags, depth+1))
		}
		return strVal("0xc000000000")
	case kIface:
		if v.r == nil {
			return strVal("<nil>")
		}
		i := v.r.(*Iface)
		return w.fmtTyped(i.t, i.v, verb, flags, depth)
	case kMap:
		return strVal("map[...]")
	case kFunc:
		return strVal("0x0")
	}
	panic(unsupported("format of " + ti.String()))
}

func (w *Worker) fmtElem(ti *TInfo, v Val, verb byte, flags string, depth int) Val {
	if ti.k == kIface {
		if v.r == nil {
			return strVal("<nil>")
		}
		i := v.r.(*Iface)
		return w.fmtTyped(i.t, i.v, verb, flags, depth)
	}
	return w.fmtTyped(ti, v, verb, flags, depth)
}

func (w *Worker) fmtPlain(ti *TInfo, v Val, verb byte, flags string, depth int) Val {
	switch ti.k {
	case kStruct, kSlice, kIface, kPtr, kMap, kFunc, kArray:
		return strVal("?")
	}
	if ti.k == kInt && verb == 'v' {
		if v.r == nil {
			if ti.signed {
				return strVal(strconv.FormatInt(sext(v.n, ti.w), 10))
			}
			return strVal(strconv.FormatUint(v.n, 10))
		}
	}
	if ti.k == kString && (verb == 'v' || verb == 's') {
		return v
	}
	return w.fmtTyped(ti, v, verb, flags, depth)
}

func (w *Worker) hexOf(b []Val, upper bool) Val {
	out := make([]Val, 0, 2*len(b))
	af := uint64('a' - 10)
	if upper {
		af = 'A' - 10
	}
	dig := func(t *Term) Val {
		return tv(w.ts.Ite(w.ts.Ult(t, w.ts.Const(8, 10)), w.ts.Bin(OAdd, t, w.ts.Const(8, '0')), w.ts.Bin(OAdd, t, w.ts.Const(8, af))))
	}
	for _, x := range b {
		t := w.term(x, 8)
		out = append(out, dig(w.ts.Bin(OLShr, t, w.ts.Const(8, 4))), dig(w.ts.Bin(OBAnd, t, w.ts.Const(8, 15))))
	}
	return symStr(out)
}

func (w *Worker) quote(v Val) Val {
	if s, ok := conc(v); ok {
		return strVal(strconv.Quote(s))
	}
	f := w.eng.prog.ImportedPackage("strconv").Func("Quote")
	return w.call(w.eng.fn(f), []Val{v}, nil, nil)
}

func (w *Worker) sprint(fr *Frame, args []Val, ln bool) Val {
	var out Val
	for i, a := range args {
		if i > 0 {
			if ln {
				out = catStr(out, strVal(" "))
			} else {
				isStr := func(x Val) bool { return x.r != nil && x.r.(*Iface).t.k == kString }
				if !isStr(a) && !isStr(args[i-1]) {
					out = catStr(out, strVal(" "))
				}
			}
		}
		out = catStr(out, w.fmtValue(a, 'v', ""))
	}
	if ln {
		out = catStr(out, strVal("\n"))
	}
	return out
}

func fmtErrorf(w *Worker, fr *Frame, a []Val) Val {
	f, _ := conc(a[0])
	args := sliceElems(a[1])
	if !strings.Contains(f, "%w") {
		return w.newError(w.sprintf(fr, a[0], args))
	}
	msg := w.sprintf(fr, strVal(strings.ReplaceAll(f, "%w", "%v")), args)
	// find the wrapped error: position of %w among verbs
	n := 0
	idx := -1
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' {
				idx = n
			}
			n++
		}
	}
	t := w.eng.prog.ImportedPackage("fmt").Type("wrapError")
	p := new(Val)
	*p = Val{r: &Struct{f: []Val{msg, args[idx]}}}
	return Val{r: &Iface{t: w.eng.tt.get(types.NewPointer(t.Type())), v: Val{r: p}}}
}

// renderObs evaluates the observations under the path's model.
func (w *Worker) renderObs() string {
	var sb strings.Builder
	for _, o := range w.obs {
		sb.WriteString(o.tag)
		for _, v := range o.v {
			sb.WriteByte(' ')
			sb.WriteString(w.renderAny(v))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (w *Worker) renderAny(v Val) string {
	if v.r == nil {
		return "nil"
	}
	i, ok := v.r.(*Iface)
	if !ok {
		return "?"
	}
	return w.renderTyped(i.t, i.v)
}

func (w *Worker) renderTyped(ti *TInfo, v Val) string {
	switch ti.k {
	case kBool:
		return fmt.Sprint(w.evalVal(v) != 0)
	case kInt:
		n := w.evalVal(v)
		if ti.signed {
			return strconv.FormatInt(sext(n, ti.w), 10)
		}
		return strconv.FormatUint(n, 10)
	case kString:
		return strconv.Quote(w.evalStr(v))
	case kSlice:
		e := sliceElems(v)
		var p []string
		for _, x := range e {
			p = append(p, w.renderTyped(ti.elem, x))
		}
		return "[" + strings.Join(p, " ") + "]"
	case kIface:
		return w.renderAny(v)
	}
	return "?"
}
