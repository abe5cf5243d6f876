package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// JSON is modelled structurally: the text is concrete except for holes, fixed
// width markers standing for one symbolic string or integer. A string hole is
// the literal "\x01S00000012\x01" (quotes included), an integer hole is
// \x02I00000012\x02. Holes are produced by v.JStr / v.JInt and by Marshal.

const holeLen = 11

func (w *Worker) hole(kind byte, v Val) Val {
	w.holes = append(w.holes, v)
	id := len(w.holes) - 1
	if kind == 'S' {
		return strVal(fmt.Sprintf("\"\x01S%08d\x01\"", id))
	}
	return strVal(fmt.Sprintf("\x02I%08d\x02", id))
}

func jStr(w *Worker, fr *Frame, a []Val) Val {
	if s, ok := conc(a[0]); ok {
		b, _ := json.Marshal(s)
		return strVal(string(b))
	}
	return w.hole('S', a[0])
}

func jInt(w *Worker, fr *Frame, a []Val) Val {
	if a[0].r == nil {
		return strVal(strconv.FormatInt(int64(a[0].n), 10))
	}
	return w.hole('I', a[0])
}

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStrK
	jArr
	jObj
)

type jval struct {
	k      jkind
	b      bool
	num    string
	hole   Val
	isHole bool
	str    Val
	arr    []*jval
	keys   []string
	lo, hi int
}

type jparser struct {
	w *Worker
	s string
	i int
}

type jsonErr struct{ msg string }

func (p *jparser) fail(msg string) { panic(&jsonErr{msg}) }
func (p *jparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t' || p.s[p.i] == '\r' || p.s[p.i] == '\n') {
		p.i++
	}
}

func (p *jparser) value(depth int) *jval {
	if depth > 10000 {
		p.fail("exceeded max depth")
	}
	p.ws()
	if p.i >= len(p.s) {
		p.fail("unexpected end of JSON input")
	}
	st := p.i
	v := &jval{lo: st}
	switch c := p.s[p.i]; {
	case c == '{':
		p.i++
		v.k = jObj
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				p.fail("invalid character looking for beginning of object key string")
			}
			k := p.str()
			ks, ok := conc(k)
			if !ok {
				panic(unsupported("symbolic JSON key"))
			}
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				p.fail("invalid character after object key")
			}
			p.i++
			v.keys = append(v.keys, ks)
			v.arr = append(v.arr, p.value(depth+1))
			p.ws()
			if p.i >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			if p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.s[p.i] == '}' {
				p.i++
				break
			}
			p.fail("invalid character after object key:value pair")
		}
	case c == '[':
		p.i++
		v.k = jArr
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			break
		}
		for {
			v.arr = append(v.arr, p.value(depth+1))
			p.ws()
			if p.i >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			if p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.s[p.i] == ']' {
				p.i++
				break
			}
			p.fail("invalid character after array element")
		}
	case c == '"':
		v.k = jStrK
		v.str = p.str()
	case c == 2:
		v.k = jNum
		v.isHole = true
		v.hole = p.holeAt(p.i)
		p.i += holeLen
	case strings.HasPrefix(p.s[p.i:], "true"):
		v.k, v.b = jBool, true
		p.i += 4
	case strings.HasPrefix(p.s[p.i:], "false"):
		v.k = jBool
		p.i += 5
	case strings.HasPrefix(p.s[p.i:], "null"):
		p.i += 4
	case c == '-' || c >= '0' && c <= '9':
		j := p.i
		if p.s[j] == '-' {
			j++
		}
		dig := func() bool {
			s := j
			for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
				j++
			}
			return j > s
		}
		if j < len(p.s) && p.s[j] == '0' {
			j++
		} else if !dig() {
			p.fail("invalid character in numeric literal")
		}
		if j < len(p.s) && p.s[j] == '.' {
			j++
			if !dig() {
				p.fail("invalid character after decimal point in numeric literal")
			}
		}
		if j < len(p.s) && (p.s[j] == 'e' || p.s[j] == 'E') {
			j++
			if j < len(p.s) && (p.s[j] == '+' || p.s[j] == '-') {
				j++
			}
			if !dig() {
				p.fail("invalid character in exponent of numeric literal")
			}
		}
		v.k = jNum
		v.num = p.s[p.i:j]
		p.i = j
	default:
		p.fail("invalid character looking for beginning of value")
	}
	v.hi = p.i
	return v
}

func (p *jparser) holeAt(i int) Val {
	if i+holeLen > len(p.s) {
		panic(unsupported("truncated JSON hole"))
	}
	id, err := strconv.Atoi(p.s[i+2 : i+10])
	if err != nil || id >= len(p.w.holes) {
		panic(unsupported("bad JSON hole"))
	}
	return p.w.holes[id]
}

func (p *jparser) str() Val {
	p.i++ // quote
	if p.i < len(p.s) && p.s[p.i] == 1 {
		v := p.holeAt(p.i)
		p.i += holeLen
		if p.i >= len(p.s) || p.s[p.i] != '"' {
			panic(unsupported("composite JSON hole"))
		}
		p.i++
		return v
	}
	var b []byte
	for {
		if p.i >= len(p.s) {
			p.fail("unexpected end of JSON input")
		}
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return strVal(string(b))
		case c < 0x20:
			p.fail("invalid control character in string literal")
		case c == '\\':
			p.i++
			if p.i >= len(p.s) {
				p.fail("unexpected end of JSON input")
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r := p.u4()
				if utf16.IsSurrogate(r) {
					if strings.HasPrefix(p.s[p.i:], "\\u") {
						sv := p.i
						p.i += 2
						r2 := p.u4()
						if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
							r = d
						} else {
							p.i = sv
							r = utf8.RuneError
						}
					} else {
						r = utf8.RuneError
					}
				}
				b = utf8.AppendRune(b, r)
			default:
				p.fail("invalid character in string escape code")
			}
		case c < utf8.RuneSelf:
			b = append(b, c)
			p.i++
		default:
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			p.i += n
			b = utf8.AppendRune(b, r)
		}
	}
}

func (p *jparser) u4() rune {
	if p.i+4 > len(p.s) {
		p.fail("unexpected end of JSON input")
	}
	n, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
	if err != nil {
		p.fail("invalid character in \\u hexadecimal character escape")
	}
	p.i += 4
	return rune(n)
}

// parse decodes one value; rest tells whether trailing data is allowed.
func (w *Worker) jsonParse(s string, rest bool) (v *jval, err string) {
	p := &jparser{w: w, s: s}
	defer func() {
		if r := recover(); r != nil {
			je, ok := r.(*jsonErr)
			if !ok {
				panic(r)
			}
			v, err = nil, je.msg
		}
	}()
	v = p.value(0)
	p.ws()
	if !rest && p.i < len(s) {
		return nil, "invalid character after top-level value"
	}
	return v, ""
}

type jfield struct {
	name      string
	omitempty bool
	quoted    bool
	path      []int
	ti        *TInfo
}

func (w *Worker) jsonFields(ti *TInfo) []jfield {
	var out []jfield
	var walk func(ti *TInfo, path []int, depth int)
	type ent struct {
		jfield
		depth int
		tag   bool
	}
	var all []ent
	walk = func(ti *TInfo, path []int, depth int) {
		st := ti.under.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			p := append(append([]int(nil), path...), i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			if f.Embedded() && name == "" {
				ft := ti.fields[i]
				if ft.k == kPtr && ft.elem.k == kStruct {
					panic(unsupported("embedded pointer in JSON struct"))
				}
				if ft.k == kStruct {
					walk(ft, p, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			e := ent{depth: depth, tag: name != ""}
			if name == "" {
				name = f.Name()
			}
			e.name, e.path, e.ti = name, p, ti.fields[i]
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					e.omitempty = true
				case "string":
					e.quoted = true
				case "omitzero":
					panic(unsupported("omitzero"))
				}
			}
			all = append(all, e)
		}
	}
	walk(ti, nil, 0)
	for i, e := range all {
		keep := true
		for j, o := range all {
			if i == j || o.name != e.name {
				continue
			}
			if o.depth < e.depth || o.depth == e.depth && (o.tag || !e.tag) {
				keep = false
			}
		}
		if keep {
			out = append(out, e.jfield)
		}
	}
	return out
}

type jdec struct {
	w   *Worker
	err string
	src string
}

func (d *jdec) typeErr(j *jval, ti *TInfo) {
	if d.err == "" {
		k := [...]string{"null", "bool", "number", "string", "array", "object"}[j.k]
		d.err = "json: cannot unmarshal " + k + " into Go value of type " + ti.String()
	}
}

func isNamed(ti *TInfo, n string) bool { return ti.t.String() == n }

func hasMethod(w *Worker, ti *TInfo, name string) bool {
	if w.eng.methodByName(ti, name) != nil {
		return true
	}
	return w.eng.methodByName(w.eng.tt.get(types.NewPointer(ti.t)), name) != nil
}

func (d *jdec) assign(ti *TInfo, p *Val, j *jval) {
	w := d.w
	if n, ok := ti.t.(*types.Named); ok && n.NumMethods() > 0 {
		if hasMethod(w, ti, "UnmarshalJSON") || hasMethod(w, ti, "UnmarshalText") {
			panic(unsupported("custom JSON unmarshaler " + ti.String()))
		}
	}
	if ti.k == kIface && p.r != nil {
		i := p.r.(*Iface)
		if i.t.k == kPtr && i.v.r != nil && (j.k != jNull || i.t.elem.k == kPtr) {
			d.assign(i.t.elem, i.v.r.(*Val), j)
			return
		}
	}
	if j.k == jNull && !(ti.k == kSlice && isNamed(ti, "encoding/json.RawMessage")) {
		switch ti.k {
		case kIface, kPtr, kMap, kSlice:
			w.store(p, Val{})
		}
		return
	}
	switch ti.k {
	case kPtr:
		if p.r == nil {
			n := new(Val)
			*n = zero(ti.elem)
			w.store(p, Val{r: n})
		}
		d.assign(ti.elem, p.r.(*Val), j)
	case kIface:
		if ti.under.(*types.Interface).NumMethods() > 0 {
			d.typeErr(j, ti)
			return
		}
		w.store(p, d.any(j))
	case kBool:
		if j.k != jBool {
			d.typeErr(j, ti)
			return
		}
		w.store(p, boolVal(j.b))
	case kString:
		if j.k != jStrK {
			d.typeErr(j, ti)
			return
		}
		w.store(p, j.str)
	case kInt:
		if j.k != jNum {
			d.typeErr(j, ti)
			return
		}
		if j.isHole {
			if ti.w < 64 {
				panic(unsupported("integer hole into narrow type"))
			}
			if !ti.signed {
				if w.decide(w.ts.Slt(w.term(j.hole, 64), w.ts.Const(64, 0))) {
					d.typeErr(j, ti)
					return
				}
			}
			w.store(p, j.hole)
			return
		}
		if ti.signed {
			n, err := strconv.ParseInt(j.num, 10, int(ti.w))
			if err != nil {
				d.typeErr(j, ti)
				return
			}
			w.store(p, Val{n: uint64(n) & maskW(ti.w)})
		} else {
			n, err := strconv.ParseUint(j.num, 10, int(ti.w))
			if err != nil {
				d.typeErr(j, ti)
				return
			}
			w.store(p, Val{n: n})
		}
	case kFloat:
		if j.k != jNum || j.isHole {
			if j.isHole {
				panic(unsupported("integer hole into float"))
			}
			d.typeErr(j, ti)
			return
		}
		f, err := strconv.ParseFloat(j.num, int(ti.w))
		if err != nil {
			d.typeErr(j, ti)
			return
		}
		w.store(p, f64Val(f))
	case kStruct:
		if j.k != jObj {
			d.typeErr(j, ti)
			return
		}
		fs := w.jsonFields(ti)
		for x, k := range j.keys {
			var hit *jfield
			for i := range fs {
				if fs[i].name == k {
					hit = &fs[i]
					break
				}
			}
			if hit == nil {
				for i := range fs {
					if strings.EqualFold(fs[i].name, k) {
						hit = &fs[i]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			if hit.quoted {
				panic(unsupported("json string option"))
			}
			q := p
			for _, ix := range hit.path {
				q = &q.r.(*Struct).f[ix]
			}
			d.assign(hit.ti, q, j.arr[x])
		}
	case kSlice:
		if ti.elem.k == kInt && ti.elem.w == 8 {
			if isNamed(ti, "encoding/json.RawMessage") {
				w.store(p, bytesVal([]byte(d.src[j.lo:j.hi])))
				return
			}
			panic(unsupported("JSON []byte"))
		}
		if j.k != jArr {
			d.typeErr(j, ti)
			return
		}
		e := make([]Val, len(j.arr))
		old := sliceElems(*p)
		for i, x := range j.arr {
			if i < len(old) {
				e[i] = copyVal(old[i]) // decoding reuses existing elements
			} else {
				e[i] = zero(ti.elem)
			}
			d.assign(ti.elem, &e[i], x)
		}
		w.store(p, mkSlice(e))
	case kArray:
		if j.k != jArr {
			d.typeErr(j, ti)
			return
		}
		a := p.r.(*Arr)
		for i := range a.e {
			if i < len(j.arr) {
				d.assign(ti.elem, &a.e[i], j.arr[i])
			} else {
				w.store(&a.e[i], zero(ti.elem))
			}
		}
	case kMap:
		if j.k != jObj {
			d.typeErr(j, ti)
			return
		}
		if ti.key.k != kString {
			panic(unsupported("JSON map key type"))
		}
		if p.r == nil {
			w.store(p, Val{r: newMap(ti)})
		}
		m := p.r.(*Map)
		for i, k := range j.keys {
			v := zero(ti.elem)
			d.assign(ti.elem, &v, j.arr[i])
			w.mapSet(m, strVal(k), v)
		}
	default:
		d.typeErr(j, ti)
	}
}

func (d *jdec) any(j *jval) Val {
	e := d.w.eng
	switch j.k {
	case jBool:
		return Val{r: &Iface{t: e.boolT, v: boolVal(j.b)}}
	case jNum:
		if j.isHole {
			panic(unsupported("integer hole into interface"))
		}
		f, err := strconv.ParseFloat(j.num, 64)
		if err != nil {
			if d.err == "" {
				d.err = "json: number out of range"
			}
			return Val{}
		}
		return Val{r: &Iface{t: e.f64T, v: f64Val(f)}}
	case jStrK:
		return Val{r: &Iface{t: e.stringT, v: j.str}}
	case jArr:
		t := e.tt.get(types.NewSlice(e.anyT.t))
		el := make([]Val, len(j.arr))
		for i, x := range j.arr {
			el[i] = d.any(x)
		}
		return Val{r: &Iface{t: t, v: mkSlice(el)}}
	case jObj:
		t := e.tt.get(types.NewMap(e.stringT.t, e.anyT.t))
		m := newMap(t)
		for i, k := range j.keys {
			d.w.mapSet(m, strVal(k), d.any(j.arr[i]))
		}
		return Val{r: &Iface{t: t, v: Val{r: m}}}
	}
	return Val{}
}

func (w *Worker) jsonInto(src string, target Val, rest bool) Val {
	j, perr := w.jsonParse(src, rest)
	if perr != "" {
		return w.newError(strVal(perr))
	}
	if target.r == nil {
		return w.newError(strVal("json: Unmarshal(nil)"))
	}
	i := target.r.(*Iface)
	if i.t.k != kPtr || i.v.r == nil {
		return w.newError(strVal("json: Unmarshal(non-pointer)"))
	}
	d := &jdec{w: w, src: src}
	d.assign(i.t.elem, i.v.r.(*Val), j)
	if d.err != "" {
		return w.newError(strVal(d.err))
	}
	return Val{}
}

func jsonUnmarshal(w *Worker, fr *Frame, a []Val) Val {
	e := sliceElems(a[0])
	b := make([]byte, len(e))
	for i := range e {
		b[i] = byte(w.cInt(e[i], nil))
	}
	return w.jsonInto(string(b), a[1], false)
}

func jsonDecoderDecode(w *Worker, fr *Frame, a []Val) Val {
	d := a[0].r.(*Val).r.(*Struct)
	rd := d.f[0].r.(*Iface)
	m := w.eng.methodByName(rd.t, "Read")
	var out []byte
	for {
		buf := mkSlice(make([]Val, 4096))
		r := w.call(m, []Val{rd.v, buf}, nil, fr).r.(*Tuple)
		n := w.cInt64(r.v[0])
		for _, x := range sliceElems(buf)[:n] {
			out = append(out, byte(w.cInt(x, nil)))
		}
		if r.v[1].r != nil {
			break
		}
	}
	return w.jsonInto(string(out), a[1], true)
}

// ---- marshal ----

type jenc struct {
	w   *Worker
	sb  strings.Builder
	err string
}

func (e *jenc) val(ti *TInfo, v Val, depth int) {
	w := e.w
	if depth > 200 {
		panic(unsupported("deep JSON value"))
	}
	if n, ok := ti.t.(*types.Named); ok && n.NumMethods() > 0 {
		if w.eng.methodByName(ti, "MarshalJSON") != nil || w.eng.methodByName(ti, "MarshalText") != nil {
			panic(unsupported("custom JSON marshaler " + ti.String()))
		}
	}
	switch ti.k {
	case kBool:
		b := v.n != 0
		if v.r != nil {
			b = w.cond(v)
		}
		e.sb.WriteString(strconv.FormatBool(b))
	case kInt:
		if t, ok := v.r.(*Term); ok {
			x := t
			if ti.signed {
				x = w.ts.SExt(t, 64)
			} else {
				x = w.ts.ZExt(t, 64)
			}
			s, _ := conc(w.hole('I', tv(x)))
			e.sb.WriteString(s)
			return
		}
		if ti.signed {
			e.sb.WriteString(strconv.FormatInt(sext64(v.n, ti.w), 10))
		} else {
			e.sb.WriteString(strconv.FormatUint(v.n, 10))
		}
	case kFloat:
		f := f64(v)
		if math.IsInf(f, 0) || math.IsNaN(f) {
			e.err = "json: unsupported value"
			return
		}
		b, _ := json.Marshal(f)
		e.sb.Write(b)
	case kString:
		if s, ok := conc(v); ok {
			b, _ := json.Marshal(s)
			e.sb.Write(b)
			return
		}
		s, _ := conc(w.hole('S', v))
		e.sb.WriteString(s)
	case kPtr:
		if v.r == nil {
			e.sb.WriteString("null")
			return
		}
		e.val(ti.elem, *v.r.(*Val), depth+1)
	case kIface:
		if v.r == nil {
			e.sb.WriteString("null")
			return
		}
		i := v.r.(*Iface)
		e.val(i.t, i.v, depth+1)
	case kStruct:
		e.sb.WriteByte('{')
		first := true
		for _, f := range w.jsonFields(ti) {
			x := v
			for _, ix := range f.path {
				x = x.r.(*Struct).f[ix]
			}
			if f.omitempty && e.empty(f.ti, x) {
				continue
			}
			if f.quoted {
				panic(unsupported("json string option"))
			}
			if !first {
				e.sb.WriteByte(',')
			}
			first = false
			b, _ := json.Marshal(f.name)
			e.sb.Write(b)
			e.sb.WriteByte(':')
			e.val(f.ti, x, depth+1)
		}
		e.sb.WriteByte('}')
	case kSlice, kArray:
		var el []Val
		if ti.k == kSlice {
			if v.r == nil {
				e.sb.WriteString("null")
				return
			}
			el = sliceElems(v)
			if ti.elem.k == kInt && ti.elem.w == 8 {
				b, ok := concBytes(v)
				if !ok {
					panic(unsupported("JSON of symbolic []byte"))
				}
				if isNamed(ti, "encoding/json.RawMessage") {
					e.sb.Write(b)
					return
				}
				e.sb.WriteString("\"" + base64.StdEncoding.EncodeToString(b) + "\"")
				return
			}
		} else {
			el = v.r.(*Arr).e
		}
		e.sb.WriteByte('[')
		for i := range el {
			if i > 0 {
				e.sb.WriteByte(',')
			}
			e.val(ti.elem, el[i], depth+1)
		}
		e.sb.WriteByte(']')
	case kMap:
		if v.r == nil {
			e.sb.WriteString("null")
			return
		}
		if ti.key.k != kString {
			panic(unsupported("JSON map key type"))
		}
		m := v.r.(*Map)
		type kv struct {
			k string
			v Val
		}
		var kvs []kv
		for _, en := range m.ent {
			if en.del {
				continue
			}
			k, ok := conc(en.k)
			if !ok {
				panic(unsupported("symbolic JSON map key"))
			}
			kvs = append(kvs, kv{k, en.v})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		e.sb.WriteByte('{')
		for i, x := range kvs {
			if i > 0 {
				e.sb.WriteByte(',')
			}
			b, _ := json.Marshal(x.k)
			e.sb.Write(b)
			e.sb.WriteByte(':')
			e.val(ti.elem, x.v, depth+1)
		}
		e.sb.WriteByte('}')
	default:
		e.err = "json: unsupported type: " + ti.String()
	}
}

func (e *jenc) empty(ti *TInfo, v Val) bool {
	w := e.w
	switch ti.k {
	case kBool:
		return !w.cond(v)
	case kInt:
		if t, ok := v.r.(*Term); ok {
			return w.decide(w.ts.Eq(t, w.ts.Const(t.w, 0)))
		}
		return v.n == 0
	case kFloat:
		return f64(v) == 0
	case kString:
		return strLen(v) == 0
	case kPtr, kIface:
		return v.r == nil
	case kSlice:
		return sliceLen(v) == 0
	case kArray:
		return len(v.r.(*Arr).e) == 0
	case kMap:
		return v.r == nil || v.r.(*Map).live == 0
	}
	return false
}

func sext64(n uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(n<<s) >> s
}

func jsonMarshal(w *Worker, fr *Frame, a []Val) Val {
	e := &jenc{w: w}
	if a[0].r == nil {
		return tup(bytesVal([]byte("null")), Val{})
	}
	i := a[0].r.(*Iface)
	e.val(i.t, i.v, 0)
	if e.err != "" {
		return tup(Val{}, w.newError(strVal(e.err)))
	}
	return tup(bytesVal([]byte(e.sb.String())), Val{})
}

// jEq is the equality of two JSON texts as values.
func jEq(w *Worker, fr *Frame, a []Val) Val {
	x, ok1 := conc(a[0])
	y, ok2 := conc(a[1])
	if !ok1 || !ok2 {
		panic(unsupported("JEq of symbolic JSON text"))
	}
	p, e1 := w.jsonParse(x, false)
	q, e2 := w.jsonParse(y, false)
	if e1 != "" || e2 != "" {
		return Val{}
	}
	return tv(w.jsonEq(p, q))
}

func (w *Worker) jsonEq(p, q *jval) *Term {
	if p.k != q.k || len(p.arr) != len(q.arr) {
		return w.ts.F
	}
	switch p.k {
	case jBool:
		if p.b != q.b {
			return w.ts.F
		}
	case jStrK:
		a, b := strBytes(p.str), strBytes(q.str)
		if len(a) != len(b) {
			return w.ts.F
		}
		return w.bytesEq(a, b)
	case jNum:
		if !p.isHole && !q.isHole {
			if p.num != q.num {
				return w.ts.F
			}
			return w.ts.T
		}
		num := func(v *jval) *Term {
			if v.isHole {
				return w.term(v.hole, 64)
			}
			n, err := strconv.ParseInt(v.num, 10, 64)
			if err != nil {
				panic(unsupported("JEq of a hole and " + v.num))
			}
			return w.ts.Const(64, uint64(n))
		}
		return w.ts.Eq(num(p), num(q))
	case jArr:
		r := w.ts.T
		for i := range p.arr {
			r = w.ts.And(r, w.jsonEq(p.arr[i], q.arr[i]))
		}
		return r
	case jObj:
		r := w.ts.T
		for i, k := range p.keys {
			var o *jval
			for j, l := range q.keys {
				if l == k {
					o = q.arr[j]
				}
			}
			if o == nil {
				return w.ts.F
			}
			r = w.ts.And(r, w.jsonEq(p.arr[i], o))
		}
		return r
	}
	return w.ts.T
}
