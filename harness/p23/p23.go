// Package p23 decides that the debug adapter shows the state of the simulator.
package p23

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/libdap"
	"github.com/dragmz/teal/zzverif/liblsp"
	"github.com/dragmz/teal/zzverif/v"
)

// programs split, call (nested, with and without locals), store, fail, loop and end.
var programs = []string{
	"#pragma version 8\nint 1\nint 2\nstore 3\nstore 255\nload 3\n",
	"int 1\nbnz a\nint 2\nbyte 0x6162\na:\nint 3\npop\n",
	"callsub f\nint 5\nreturn\n\n// c\nf:\nint 1\ncallsub g\npop\nretsub\ng:\nint 2\nretsub\n",
	"#pragma version 8\nint 0\nint 1\ncallsub f\nb e\nf:\nproto 2 1\nframe_dig -1\nbz g\nint 8\ng:\nint 9\nretsub\ne:\nint 1\n",
	"int 7\nint 7\nswitch a b\nstore 0\na:\nstore 1\nb:\nstore 2\nerr\n",
	"x:\nint 1\npop\nb x\n",
	"byte \"a\"\nint 1\n+\nint 4\n",
	"\n\n",
	"int 1\nmain:\nbnz l\nerr\nl:\ntxn Sender\nlen\nassert\ncallsub k\nk:\nint 6\nretsub\n",
	"byte 0x61\napp_global_get\nstore 5\nint 1\n",
}

// run is a dialogue with the adapter and a simulator driven alike.
type run struct {
	text  string
	vm    *teal.Vm
	in    string
	path  string
	seq   int
	lz    int
	cz    int
	wants []func(m libdap.Message)
	kinds []string
	ids   map[int]int // of the breakpoints last set, by line
}

func (r *run) ask(command, args string, resp func(m libdap.Message)) {
	r.seq++
	r.in += libdap.Request(r.seq, command, args)
	r.kinds, r.wants = append(r.kinds, "response "+command), append(r.wants, func(m libdap.Message) {
		v.Assert(m.Success, "a request fails")
		if resp != nil {
			resp(m)
		}
	})
}

func (r *run) event(name string, check func(m libdap.Message)) {
	r.kinds, r.wants = append(r.kinds, "event "+name), append(r.wants, check)
}

type stopped struct {
	Reason            string `json:"reason"`
	Description       string `json:"description"`
	ThreadId          *int   `json:"threadId"`
	AllThreadsStopped bool   `json:"allThreadsStopped"`
	HitBreakpointIds  []int  `json:"hitBreakpointIds"`
}

func current(vm *teal.Vm) int {
	if vm.Branch == nil {
		return -1
	}
	return vm.Branch.Id
}

// stop expects a stopped event with the reason at the thread (none if negative).
func (r *run) stop(reason string, tid int, desc string) {
	r.event("stopped", func(m libdap.Message) {
		var s stopped
		parse(m.Body, &s)
		v.Assert(s.Reason == reason, "the run stopped for another reason")
		v.Assert(s.AllThreadsStopped, "threads go on running")
		if tid >= 0 {
			v.Assert(s.ThreadId != nil && *s.ThreadId == tid, "another thread stopped")
		}
		v.Assert(strings.Contains(s.Description, desc), "the error is not shown")
	})
}

func start(text string, lines, columns int) *run {
	r := &run{text: text, lz: 1, cz: 1}
	r.path = v.File(text)
	a := `,"arguments":{"adapterID":"teal"`
	switch lines {
	case 1:
		a += `,"linesStartAt1":true`
	case 2:
		a += `,"linesStartAt1":false`
		r.lz = 0
	}
	switch columns {
	case 1:
		a += `,"columnsStartAt1":true`
	case 2:
		a += `,"columnsStartAt1":false`
		r.cz = 0
	}
	r.ask("initialize", a+`}`, nil)
	r.event("initialized", nil)
	r.launch()
	return r
}

func (r *run) launch() {
	r.vm = teal.NewVm(teal.Process(r.text))
	r.ask("launch", `,"arguments":{"program":`+v.JStr(r.path)+`}`, nil)
	r.event("process", nil)
	r.stop("entry", current(r.vm), "")
}

func parse(b json.RawMessage, into any) { liblsp.Parse(string(b), into) }

// done runs the adapter and compares.
func (r *run) done() {
	ms := libdap.Talk(r.in)
	v.Assert(len(ms) == len(r.wants), "the adapter sends more or fewer messages")
	for i, m := range ms {
		k := m.Type + " " + m.Command + m.Event
		v.Assert(k == r.kinds[i], "the adapter sends another message")
		if r.wants[i] != nil {
			r.wants[i](m)
		}
	}
	v.Reach("compared")
}

func (r *run) next(tid int) {
	r.ask("next", `,"arguments":{"threadId":`+v.JInt(tid)+`}`, nil)
	r.vm.Switch(tid)
	r.vm.Step()
	if r.vm.Error != nil {
		r.stop("exception", -1, fmt.Sprint(r.vm.Error))
		return
	}
	r.stop("step", current(r.vm), "")
}

func (r *run) resume(tid int) {
	r.ask("continue", `,"arguments":{"threadId":`+v.JInt(tid)+`}`, nil)
	r.vm.Run()
	if r.vm.Error != nil {
		r.stop("exception", -1, fmt.Sprint(r.vm.Error))
		return
	}
	if len(r.vm.Triggered) > 0 {
		hit := map[int][]int{}
		for id, ls := range r.vm.Triggered {
			hit[id] = append([]int{}, ls...)
		}
		r.event("stopped", func(m libdap.Message) {
			var s stopped
			parse(m.Body, &s)
			v.Assert(s.Reason == "breakpoint" && s.AllThreadsStopped, "the run stopped for another reason")
			v.Assert(s.ThreadId != nil, "no thread stopped")
			ls, ok := hit[*s.ThreadId]
			v.Assert(ok, "a thread stopped that hit no breakpoint")
			if _, ok := hit[tid]; ok {
				v.Assert(*s.ThreadId == tid, "another thread stopped")
			}
			v.Assert(len(s.HitBreakpointIds) == len(ls), "other breakpoints were hit")
			for i, id := range s.HitBreakpointIds {
				v.Assert(id == r.ids[ls[i]], "another breakpoint was hit")
			}
		})
		return
	}
	r.stop("breakpoint", -1, "")
}

func (r *run) pause() {
	r.ask("pause", `,"arguments":{"threadId":0}`, nil)
	r.stop("pause", current(r.vm), "")
}

func instruction(text string, l int) bool {
	ls := strings.Split(text, "\n")
	if l < 0 || l >= len(ls) {
		return false
	}
	s := ls[l]
	return s != "" && !strings.HasPrefix(s, "#") && !strings.HasPrefix(s, "//") && !strings.HasSuffix(s, ":")
}

// breakpoints sets breakpoints at lines counted from zero.
func (r *run) breakpoints(ls ...int) {
	s := ""
	for i, l := range ls {
		if i > 0 {
			s += ","
		}
		s += `{"line":` + v.JInt(l+r.lz) + `}`
	}
	text, lz := r.text, r.lz
	r.ask("setBreakpoints", `,"arguments":{"source":{"path":"p"},"breakpoints":[`+s+`]}`, func(m libdap.Message) {
		var b struct {
			Breakpoints []struct {
				Id       int  `json:"id"`
				Verified bool `json:"verified"`
				Line     int  `json:"line"`
			} `json:"breakpoints"`
		}
		parse(m.Body, &b)
		v.Assert(len(b.Breakpoints) == len(ls), "not every breakpoint is reported")
		r.ids = map[int]int{}
		for i, x := range b.Breakpoints {
			r.ids[ls[i]] = x.Id
			v.Assert(x.Verified == instruction(text, ls[i]), "a breakpoint is verified where no instruction stands or not where one does")
			v.Assert(x.Line == ls[i]+lz, "a breakpoint is at another line")
		}
	})
	r.vm.SetBreakpoints(ls)
}

type frame struct {
	Id     int    `json:"id"`
	Name   string `json:"name"`
	Line   int    `json:"line"`
	Column int    `json:"column"`
	Source struct {
		Path string `json:"path"`
	} `json:"source"`
}

// window is the slice of n things a page asks for; nil stands for a missing member.
func window(n int, start, count *int) (int, int) {
	s, e := 0, n
	if start != nil {
		s = *start
		if s < 0 {
			s = 0
		}
		if s > n {
			s = n
		}
	}
	if count != nil && *count > 0 && *count < n-s {
		e = s + *count
	}
	return s, e
}

func member(name string, p *int) string {
	if p == nil {
		return ""
	}
	return `,"` + name + `":` + v.JInt(*p)
}

// frames asks for the frames of a thread.
func (r *run) frames(tid int, start, levels *int) {
	var want []frame
	for _, b := range r.vm.Branches {
		if b.Id != tid {
			continue
		}
		f := frame{Id: b.Id, Name: b.Name, Line: b.Line + r.lz, Column: r.cz}
		for i := len(b.Frames) - 1; i >= 0; i-- {
			want = append(want, f)
			l := b.Frames[i].Return
			v.Assert(strings.HasPrefix(strings.Split(r.text, "\n")[l], "callsub "), "the simulator returns to no call")
			f = frame{Id: b.Id, Name: b.Frames[i].Name, Line: l + r.lz, Column: r.cz}
		}
		want = append(want, f)
	}
	s, e := window(len(want), start, levels)
	path := r.path
	r.ask("stackTrace", `,"arguments":{"threadId":`+v.JInt(tid)+member("startFrame", start)+member("levels", levels)+`}`, func(m libdap.Message) {
		var b struct {
			StackFrames []frame `json:"stackFrames"`
			TotalFrames int     `json:"totalFrames"`
		}
		parse(m.Body, &b)
		v.Assert(b.TotalFrames == len(want), "another number of frames is reported")
		v.Assert(len(b.StackFrames) == e-s, "other frames are reported than requested")
		for i, f := range b.StackFrames {
			w := want[s+i]
			v.Assert(f.Name == w.Name, "a frame has another name")
			v.Assert(f.Line == w.Line && f.Column == w.Column, "a frame is at another place")
			v.Assert(f.Source.Path == path, "a frame is of another program")
		}
	})
}

type variable struct {
	Name  string `json:"name"`
	Value string `json:"value"`
}

// list is all variables of a scope of a branch, in order: 0 state, 1 stack (top first), 2 scratch, 3 trace.
func list(b *teal.VmBranch, kind int) []variable {
	var r []variable
	switch kind {
	case 0:
		r = append(r, variable{"Budget", strconv.Itoa(b.Budget)})
	case 1:
		for i := len(b.Stack.Items) - 1; i >= 0; i-- {
			r = append(r, variable{strconv.Itoa(i), b.Stack.Items[i].String()})
		}
	case 2:
		for i := range b.Scratch.Items {
			r = append(r, variable{strconv.Itoa(i), b.Scratch.Items[i].String()})
		}
	case 3:
		for i := range b.Trace {
			r = append(r, variable{strconv.Itoa(i), b.Trace[i].String()})
		}
	}
	return r
}

// values asks for the variables of a scope, a slice of them if start or count are given; unset slots are not shown.
func (r *run) values(b *teal.VmBranch, ref, kind int, start, count *int) {
	all := list(b, kind)
	s, e := 0, len(all)
	if kind > 0 {
		s, e = window(len(all), start, count)
	}
	var want []variable
	for i := s; i < e; i++ {
		if kind != 2 || b.Scratch.Items[i].T != teal.VmTypeNone {
			want = append(want, all[i])
		}
	}
	r.ask("variables", `,"arguments":{"variablesReference":`+v.JInt(ref)+member("start", start)+member("count", count)+`}`, func(m libdap.Message) {
		var x struct {
			Variables []variable `json:"variables"`
		}
		parse(m.Body, &x)
		v.Assert(len(x.Variables) == len(want), "another number of variables is shown")
		for i, w := range want {
			v.Assert(x.Variables[i] == w, "a variable has another name or value")
		}
	})
}

var scopeNames = []string{"State", "Stack", "Scratch", "Trace"}

// refs are the references of a branch's scopes; the dialogue relies on them and scopes compares them.
func refs(id int) []int { return []int{10*id + 1, 10*id + 2, 10*id + 3, 10*id + 4} }

func (r *run) scopes(b *teal.VmBranch) {
	n := []int{-1, len(b.Stack.Items), 256, len(b.Trace)}
	id := b.Id
	r.ask("scopes", `,"arguments":{"frameId":`+v.JInt(b.Id)+`}`, func(m libdap.Message) {
		var x struct {
			Scopes []struct {
				Name               string `json:"name"`
				VariablesReference int    `json:"variablesReference"`
				IndexedVariables   *int   `json:"indexedVariables"`
			} `json:"scopes"`
		}
		parse(m.Body, &x)
		v.Assert(len(x.Scopes) == 4, "another number of scopes is shown")
		for i, s := range x.Scopes {
			v.Assert(s.Name == scopeNames[i], "a scope has another name")
			v.Assert(s.VariablesReference == refs(id)[i], "a scope has another reference")
			if n[i] >= 0 {
				v.Assert(s.IndexedVariables != nil && *s.IndexedVariables == n[i], "a scope has another number of variables")
			}
		}
	})
}

func (r *run) threads() {
	var ids []int
	for _, b := range r.vm.Branches {
		ids = append(ids, b.Id)
	}
	r.ask("threads", "", func(m libdap.Message) {
		var x struct {
			Threads []struct {
				Id int `json:"id"`
			} `json:"threads"`
		}
		parse(m.Body, &x)
		v.Assert(len(x.Threads) == len(ids), "another number of threads is shown")
		for i, t := range x.Threads {
			v.Assert(t.Id == ids[i], "another thread is shown")
		}
	})
}

// look compares everything there is to see.
func (r *run) look() {
	r.threads()
	for _, b := range r.vm.Branches {
		r.frames(b.Id, nil, nil)
		r.scopes(b)
		for k, ref := range refs(b.Id) {
			if k != 3 || len(b.Trace) < 30 {
				r.values(b, ref, k, nil, nil)
			}
		}
	}
}

func (r *run) act(last bool) {
	n := len(r.vm.Branches)
	if n > 3 {
		n = 3
	}
	k := 5
	if last {
		k = 2
	}
	switch v.Pick("request", k) {
	case 0:
		r.next(v.Pick("thread", n))
	case 1:
		r.resume(v.Pick("thread", n))
	case 2:
		if l := v.Pick("line", 9); l < 8 {
			r.breakpoints(l)
		} else {
			r.breakpoints()
		}
	case 3:
		r.pause()
	case 4:
		l := v.Pick("line", 8)
		r.breakpoints(l, (l+1)%8, (l+3)%8, l)
	}
}

// CheckSteps: each of 9 programs stepped up to 8 times (thorough 12), each time the first, second or third thread,
// for each way of counting lines and columns: what is shown at the end, and the events before, agree with the
// simulator.
func CheckSteps() {
	r := start(programs[v.Pick("program", len(programs))], v.Pick("lines", 3), v.Pick("columns", 3))
	n := v.Pick("steps", 9+4*v.Tier())
	for i := 0; i < n; i++ {
		k := len(r.vm.Branches)
		if k > 3 {
			k = 3
		}
		t := 0
		if k > 1 && i < 5 {
			t = v.Pick("thread", k)
		}
		r.next(t)
	}
	r.look()
	r.done()
}

// CheckRequests: each of 9 programs and every sequence of 3 (thorough 4) requests out of stepping, running, pausing and
// setting no, one or four breakpoints at any of 8 lines, the last one stepping or running.
func CheckRequests() {
	r := start(programs[v.Pick("program", len(programs))], 0, 0)
	for i := 0; i < 3+v.Tier(); i++ {
		r.act(i == 2+v.Tier())
	}
	r.look()
	r.done()
}

// CheckRelaunch: looking changes nothing and launching again starts anew, with any of 9 programs, after a step and a run;
// breakpoints set before do not stop it.
func CheckRelaunch() {
	r := start(programs[v.Pick("program", len(programs))], v.Pick("lines", 2)*2, 0)
	r.look()
	r.next(0)
	r.look()
	r.look()
	if v.Bool("breakpoint") {
		r.breakpoints(v.Pick("line", 8))
	}
	r.resume(0)
	r.look()
	if v.Bool("again") {
		r.text = programs[v.Pick("program", len(programs))]
		r.path = v.File(r.text)
		r.launch()
		r.look()
		r.resume(0)
		r.look()
	}
	r.done()
}

func optional(name string) *int {
	if v.Bool("no " + name) {
		return nil
	}
	n := int(v.U64(name))
	return &n
}

// CheckPages: slices of any start and count (missing or any 64-bit number) of the stack (five values), the trace, the scratch slots (starts
// and counts below 4 or from 253 on) and the frames of three nested calls.
func CheckPages() {
	r := start("int 1\nint 2\nint 3\nbyte 0x41\ntxn Sender\nstore 2\nint 7\nstore 254\nint 8\nstore 0\nint 9\ncallsub f\nf:\ncallsub g\ng:\ncallsub h\nh:\nint 5\n", 0, 0)
	for i := 0; i < 15; i++ {
		r.next(0)
	}
	s, n := optional("start"), optional("count")
	k := v.Pick("kind", 4)
	switch k {
	case 3:
		r.frames(0, s, n)
	case 1:
		for _, p := range []*int{s, n} {
			if p != nil {
				v.Assume(v.Or(*p < 4, *p > 252))
			}
		}
		fallthrough
	default:
		r.values(r.vm.Branches[0], refs(0)[k+1], k+1, s, n)
	}
	r.done()
}

// CheckConstants: values on the stack and in scratch slots: any integer of up to three digits, any two bytes of a
// byte constant, stored in any of four slots.
func CheckConstants() {
	d := v.Str("digits", 1+v.Pick("n", 3))
	for i := 0; i < len(d); i++ {
		v.Assume(v.And(d[i] >= '0', d[i] <= '9'))
	}
	v.Assume(len(d) == 1 || d[0] != '0')
	h := v.Str("hex", 2)
	for i := 0; i < len(h); i++ {
		v.Assume(v.Or(v.And(h[i] >= '0', h[i] <= '9'), v.And(h[i] >= 'a', h[i] <= 'f')))
	}
	sl := []string{"0", "1", "127", "255"}[v.Pick("slot", 4)]
	r := start("int "+d+"\nstore "+sl+"\nbyte 0x"+h+"\nint "+d+"\nload "+sl+"\n", 0, 0)
	for i := 0; i < 5; i++ {
		r.next(0)
	}
	r.look()
	r.done()
}

// CheckMany: a program split into 24 threads: what is shown of any of them, before and after it is stepped.
func CheckMany() {
	r := start("int 1\nswitch a a a a a a a a a b b a a a a a a a a a a b b\ncallsub a\na:\nint 5\nb:\nint 6\nstore 1\n", 0, 0)
	r.next(0)
	r.next(0)
	v.Assert(len(r.vm.Branches) == 24, "another number of branches")
	k := v.Pick("thread", 24)
	show := func() {
		b := r.vm.Branches[k]
		r.threads()
		r.frames(b.Id, nil, nil)
		r.scopes(b)
		for i, ref := range refs(b.Id) {
			r.values(b, ref, i, nil, nil)
		}
	}
	show()
	r.next(k)
	show()
	r.next(v.Pick("other", 5) * 5)
	r.next(k)
	show()
	r.done()
}

// CheckDeep: up to 40 nested calls with values pushed in each: what is shown on the way down and up, and pages of the frames.
func CheckDeep() {
	n := []int{5, 12, 40}[v.Pick("depth", 3)]
	text := ""
	for i := 0; i < n; i++ {
		text += "int " + strconv.Itoa(i) + "\ncallsub f" + strconv.Itoa(i) + "\n"
		if i == 0 {
			text += "return\n"
		} else {
			text += "retsub\n"
		}
		text += "f" + strconv.Itoa(i) + ":\n"
	}
	text += "int 77\nretsub\n"
	r := start(text, v.Pick("lines", 2)*2, 0)
	steps := []int{2*n - 1, 2 * n, 2*n + 1, 2*n + 2, 2*n + 4}[v.Pick("steps", 5)]
	for i := 0; i < steps; i++ {
		r.next(0)
	}
	r.look()
	a := []int{0, 1, 3, n - 1, n, n + 1}[v.Pick("start", 6)]
	b := []int{1, 2, 5, n, n + 1, 100}[v.Pick("levels", 6)]
	r.frames(0, &a, &b)
	r.done()
}

// CheckLarge: a stack of 300 values, all scratch slots set, a trace of 500 instructions: what is shown of them, whole and in
// pages.
func CheckLarge() {
	text := "#pragma version 8\n"
	for i := 0; i < 256; i++ {
		text += "int " + strconv.Itoa(i*3) + "\nstore " + strconv.Itoa(i) + "\n"
	}
	text += "byte 0x616263\ndupn 150\nint 5\ndupn 147\ntxn Sender\n"
	r := start(text, 0, 0)
	for i := 0; i < 517; i++ {
		r.next(0)
	}
	b := r.vm.Branches[0]
	if v.Bool("whole") {
		r.scopes(b)
		k := 1 + v.Pick("kind", 3)
		r.values(b, refs(0)[k], k, nil, nil)
	} else {
		k := 1 + v.Pick("kind", 3)
		s := []int{0, 1, 99, 100, 149, 255, 299, 300, 516}[v.Pick("start", 9)]
		c := []int{1, 7, 100, 150, 1000}[v.Pick("count", 5)]
		r.values(b, refs(0)[k], k, &s, &c)
	}
	r.done()
}

// CheckLong: a program of 200 lines, breakpoints at up to twelve of its lines, the last at any of three: the run stops at each in
// turn.
func CheckLong() {
	text := ""
	for i := 0; i < 200; i++ {
		text += []string{"int 1\n", "// c\n", "pop\n", "\n", "txn Fee\n", "pop\n"}[i%6]
	}
	r := start(text, v.Pick("lines", 2)*2, 0)
	var ls []int
	n := []int{1, 4, 12}[v.Pick("n", 3)]
	for i := 0; i < n-1; i++ {
		ls = append(ls, 6+12*i)
	}
	ls = append(ls, []int{150, 197, 198}[v.Pick("last", 3)])
	if v.Bool("reversed") {
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
	}
	r.breakpoints(ls...)
	k := v.Pick("runs", 4) * n / 3
	for i := 0; i < k; i++ {
		r.resume(0)
		r.frames(0, nil, nil)
	}
	if v.Bool("again") {
		r.breakpoints(180)
		r.resume(0)
	}
	r.threads()
	r.done()
}
