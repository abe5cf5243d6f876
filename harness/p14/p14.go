// Package p14 decides that the simulator follows exactly the program's control flow.
package p14

import (
	"strconv"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/v"
)

// line kinds
const (
	kLabel = iota
	kB
	kBz
	kInt
	kRetsub
	kReturn
	kCall
	kErr
	kSwitch
	kMatch
	kBlank
	kPop
	kDup
	kSwap
	kBury
	kCover
	kStore
	kLoad
	kProto
	kFrameBury
)

type line struct {
	kind int
	t    []string
	n    int // the value pushed, the depth, or the number of arguments and results
}

func (l *line) text() string {
	s := []string{"", "b", "bz", "int", "retsub", "return", "callsub", "err", "switch", "match", "// c", "pop", "dup", "swap", "bury", "cover", "store 0", "load 0", "proto", "frame_bury -1"}[l.kind]
	if l.kind == kLabel {
		return l.t[0] + ":"
	}
	for _, t := range l.t {
		s += " " + t
	}
	switch l.kind {
	case kInt, kBury, kCover:
		s += " " + strconv.Itoa(l.n)
	case kProto:
		s += " " + strconv.Itoa(l.n) + " " + strconv.Itoa(l.n)
	}
	return s
}

func label() string {
	s := v.Str("label", 1)
	v.Assume(v.And(s[0] >= 'a', s[0] <= 'b'))
	return s
}

func mk(kind int) line {
	l := line{kind: kind}
	switch kind {
	case kLabel, kB, kBz, kCall:
		l.t = []string{label()}
	case kSwitch:
		l.t = []string{label(), label()}
	case kMatch:
		l.t = []string{label()}
	case kBury:
		l.n = 1 + v.Pick("depth", 2)
	case kCover:
		l.n = 1
	case kProto:
		l.n = 1
	}
	return l
}

// br is a branch of the reference machine: pc is the next instruction, or len(program) when ended.
type br struct {
	id     int
	pc     int
	frames []frame
	trace  []int
	stack  []int  // the numbers of the values
	slot   int    // the number of the value in slot 0, or 0
	name   string // the last label passed
}

type frame struct {
	pc    int // of the call
	p     int // height at the call
	n     int // arguments and results
	proto bool
	name  string // of the caller
}

type machine struct {
	p  []line
	bs []*br
}

func (m *machine) find(t string) int {
	for i := range m.p {
		if m.p[i].kind == kLabel && m.p[i].t[0] == t {
			return i
		}
	}
	v.Assume(false)
	return -1
}

// settle moves a branch on to the next instruction.
func (m *machine) settle(b *br) *br {
	for b.pc < len(m.p) && (m.p[b.pc].kind == kLabel || m.p[b.pc].kind == kBlank) {
		if m.p[b.pc].kind == kLabel {
			b.name = m.p[b.pc].t[0]
		}
		b.pc++
	}
	return b
}

// step executes b's instruction; the branches it splits off are returned.
func (m *machine) step(b *br) (forks []*br, ok bool) {
	l := &m.p[b.pc]
	b.trace = append(b.trace, b.pc)
	pop := func(n int) bool {
		if len(b.stack) < n {
			return false
		}
		b.stack = b.stack[:len(b.stack)-n]
		return true
	}
	split := func() {
		for _, t := range l.t {
			forks = append(forks, m.settle(&br{pc: m.find(t), frames: append([]frame{}, b.frames...), trace: append([]int{}, b.trace...),
				stack: append([]int{}, b.stack...), slot: b.slot}))
		}
	}
	next := b.pc + 1
	top := len(b.stack) - 1
	switch l.kind {
	case kB:
		next = m.find(l.t[0])
	case kBz, kSwitch:
		if !pop(1) {
			return nil, false
		}
		split()
	case kMatch:
		if !pop(1 + len(l.t)) {
			return nil, false
		}
		split()
	case kInt:
		b.stack = append(b.stack, l.n)
	case kDup:
		if top < 0 {
			return nil, false
		}
		b.stack = append(b.stack, b.stack[top])
	case kPop:
		if !pop(1) {
			return nil, false
		}
	case kSwap, kCover:
		if top < 1 {
			return nil, false
		}
		b.stack[top], b.stack[top-1] = b.stack[top-1], b.stack[top]
	case kBury:
		if top < l.n {
			return nil, false
		}
		b.stack[top-l.n] = b.stack[top]
		pop(1)
	case kStore:
		if top < 0 {
			return nil, false
		}
		b.slot = b.stack[top]
		pop(1)
	case kLoad:
		v.Assume(b.slot > 0)
		b.stack = append(b.stack, b.slot)
	case kProto:
		if len(b.frames) == 0 {
			return nil, false
		}
		f := &b.frames[len(b.frames)-1]
		// the arguments of a second proto are not specified, nor is one behind other instructions
		v.Assume(!f.proto && f.p == len(b.stack))
		if f.p < l.n {
			return nil, false
		}
		f.n, f.proto = l.n, true
	case kFrameBury:
		v.Assume(len(b.frames) > 0)
		f := b.frames[len(b.frames)-1]
		v.Assume(f.proto && f.n > 0 && top >= f.p)
		b.stack[f.p-1] = b.stack[top]
		pop(1)
	case kRetsub:
		if len(b.frames) == 0 {
			return nil, false
		}
		f := b.frames[len(b.frames)-1]
		if f.proto {
			if len(b.stack) < f.p+f.n {
				return nil, false
			}
			rs := append([]int{}, b.stack[len(b.stack)-f.n:]...)
			b.stack = append(b.stack[:f.p-f.n], rs...)
		}
		next, b.name = f.pc+1, f.name
		b.frames = b.frames[:len(b.frames)-1]
	case kCall:
		b.frames = append(b.frames, frame{pc: b.pc, p: len(b.stack), name: b.name})
		next = m.find(l.t[0])
	case kReturn:
		if !pop(1) {
			return nil, false
		}
		next = len(m.p)
	case kErr:
		next = len(m.p)
	}
	b.pc = next
	m.settle(b)
	return forks, true
}

func byId(vm *teal.Vm, id int) *teal.VmBranch {
	for _, b := range vm.Branches {
		if b.Id == id {
			return b
		}
	}
	return nil
}

// same compares a branch of the simulator with one of the reference.
func same(vm *teal.Vm, m *machine, g *teal.VmBranch, w *br) bool {
	if w.pc >= len(m.p) {
		if g.Line >= 0 && g.Line < len(m.p) {
			return false
		}
	} else if g.Line != w.pc || g.Name != w.name {
		return false
	}
	if len(g.Frames) != len(w.frames) || len(g.Trace) != len(w.trace) || len(g.Stack.Items) != len(w.stack) {
		return false
	}
	for i := range w.frames {
		if g.Frames[i].Return != w.frames[i].pc || g.Frames[i].Name != w.frames[i].name {
			return false
		}
	}
	for i, n := range w.stack {
		s := g.Stack.Items[i].String()
		if s[strings.LastIndexByte(s, ':')+1:] != " "+strconv.Itoa(n) {
			return false
		}
	}
	for i := range w.trace {
		if g.Trace[i] != vm.Process.Listing[w.trace[i]] {
			return false
		}
	}
	return true
}

func run(p []line, steps int, choose bool) { runFrom(p, 0, steps, choose) }

// runFrom follows the first pre steps in the simulator's order and the rest in any order.
func runFrom(p []line, pre, steps int, choose bool) {
	steps += pre
	src := ""
	for i := range p {
		if p[i].kind == kInt {
			p[i].n = 10 + i
		}
		src += p[i].text() + "\n"
		// labels are unique
		if p[i].kind == kLabel {
			for j := 0; j < i; j++ {
				if p[j].kind == kLabel {
					v.Assume(p[i].t[0] != p[j].t[0])
				}
			}
		}
	}
	m := &machine{p: p}
	first := m.settle(&br{name: teal.MainName})
	m.bs = []*br{first}
	vm := teal.NewVm(teal.Process("#pragma version 8\n" + src))
	// line 0 of the listing is the pragma: drop it from the comparison
	v.Assert(len(vm.Process.Listing) == len(p)+1, "one entry per line")
	v.Assert(len(vm.Branches) == 1, "a run starts with one branch")
	first.id = vm.Branches[0].Id
	compare(vm, m)
	for k := 0; k < steps; k++ {
		alive := 0
		for _, b := range m.bs {
			if b.pc < len(p) {
				alive++
			}
		}
		want := -1
		if choose && k >= pre && len(m.bs) > 1 {
			b := m.bs[v.Pick("switch", len(m.bs))]
			vm.Switch(b.id)
			if b.pc < len(p) {
				want = b.id
				v.Assert(vm.Branch != nil && vm.Branch.Id == b.id, "the chosen branch is not the current one")
			}
		}
		var lens []int
		for _, b := range m.bs {
			lens = append(lens, len(byId(vm, b.id).Trace))
		}
		vm.Step()
		var moved *br
		for i, b := range m.bs {
			g := byId(vm, b.id)
			v.Assert(g != nil, "a branch disappears")
			if len(g.Trace) != lens[i] {
				v.Assert(moved == nil, "one step advances two branches")
				moved = b
			}
		}
		if alive == 0 {
			v.Assert(moved == nil && vm.Error == nil && vm.Branch == nil, "a finished run goes on")
			return
		}
		v.Assert(moved != nil, "a step advances no branch although one is left")
		v.Assert(want < 0 || moved.id == want, "a step advances another branch than the chosen one")
		v.Assert(moved.pc < len(p), "a finished branch goes on")
		n := len(m.bs)
		forks, ok := m.step(moved)
		v.Assert((vm.Error == nil) == ok, "a step does not fail exactly when the program does")
		if !ok {
			v.Reach("failed")
			return
		}
		// the branches split off, in any order
		v.Assert(len(vm.Branches) == n+len(forks), "a step splits the run into another number of branches")
		for i := n; i < len(vm.Branches); i++ {
			g := vm.Branches[i]
			v.Assert(byId(vm, g.Id) == g, "two branches have the same number")
			found := -1
			for j, f := range forks {
				if found < 0 && f != nil && same1(vm, m, g, f) {
					found = j
				}
			}
			v.Assert(found >= 0, "a branch starts at a place, with a stack, call stack or trace the program does not lead to")
			f := forks[found]
			forks[found] = nil
			f.id = g.Id
			m.bs = append(m.bs, f)
		}
		compare(vm, m)
		v.Obs("s", len(vm.Branches), len(moved.trace))
	}
	v.Reach("ran")
}

// same1 shifts lines by the pragma.
func same1(vm *teal.Vm, m *machine, g *teal.VmBranch, w *br) bool {
	x := &br{pc: w.pc + 1, stack: w.stack, name: w.name}
	for _, f := range w.frames {
		f.pc++
		x.frames = append(x.frames, f)
	}
	for _, t := range w.trace {
		x.trace = append(x.trace, t+1)
	}
	y := &machine{p: append([]line{{kind: kBlank}}, m.p...)}
	return same(vm, y, g, x)
}

func compare(vm *teal.Vm, m *machine) {
	for _, b := range m.bs {
		g := byId(vm, b.id)
		v.Assert(g != nil, "a branch disappears")
		v.Assert(same1(vm, m, g, b), "a branch is at a place, or has a stack, call stack or trace, that the program does not lead to")
	}
	if vm.Branch != nil && vm.Branch.Line >= 0 {
		v.Assert(vm.Branch.Line < len(vm.Process.Listing), "the current branch is at no line")
	}
}

// CheckPrograms: programs of up to four lines (thorough five), each of any of eleven kinds with labels out of two,
// followed for five steps in the order of the simulator.
func CheckPrograms() {
	n := 1 + v.Pick("len", 4+v.Tier())
	var p []line
	for i := 0; i < n; i++ {
		p = append(p, mk(v.Pick("kind", 11)))
	}
	run(p, 5, false)
}

// CheckBranching: programs that push two values and go on with up to four (thorough five) lines of labels,
// branches, calls and returns, followed for six steps, stepping any of the branches each time.
func CheckBranching() {
	p := []line{mk(kInt), mk(kDup)}
	kinds := []int{kLabel, kBz, kCall, kRetsub, kSwitch, kPop}
	n := 1 + v.Pick("len", 3+v.Tier())
	for i := 0; i < n; i++ {
		p = append(p, mk(kinds[v.Pick("kind", len(kinds))]))
	}
	run(p, 5+v.Tier(), true)
}

// CheckIsolation: three values are pushed (one may be stored in a scratch slot) and the run splits at a
// conditional or two-way branch, possibly inside a subroutine with one argument and one result; up to three
// (thorough four) arbitrary lines that rearrange the stack, write the slot, the frame or return follow, run
// by either branch in any interleaving: each sees its own stack, slot and frames only.
func CheckIsolation() {
	p := []line{mk(kInt), mk(kInt), mk(kInt)}
	in := v.Bool("call")
	if in {
		p = append(p, line{kind: kCall, t: []string{"f"}}, mk(kStore), mk(kErr), line{kind: kLabel, t: []string{"f"}}, mk(kProto), mk(kInt), mk(kInt))
	} else {
		p = append(p, mk(kDup), mk(kStore))
	}
	k := kBz
	if v.Bool("two") {
		k = kSwitch
	}
	s := line{kind: k, t: []string{"a"}}
	if k == kSwitch {
		s.t = append(s.t, "a")
	}
	p = append(p, s, line{kind: kLabel, t: []string{"a"}})
	kinds := []int{kInt, kPop, kSwap, kBury, kCover, kStore, kLoad}
	if in {
		kinds = []int{kInt, kPop, kSwap, kBury, kFrameBury, kRetsub}
	}
	n := 2
	n += v.Tier()
	for i := 0; i < n; i++ {
		p = append(p, mk(kinds[v.Pick("kind", len(kinds))]))
	}
	pre := 6
	if in {
		pre = 8
	}
	runFrom(p, pre, 2*n, true)
}

// CheckCalls: nested calls: a program of a conditional branch inside a subroutine, with three arbitrary
// lines in between, followed for nine steps.
func CheckCalls() {
	p := []line{mk(kInt), {kind: kCall, t: []string{"a"}}, mk(kPop), {kind: kLabel, t: []string{"a"}}}
	kinds := []int{kLabel, kBz, kCall, kRetsub, kB, kInt, kDup}
	for i := 0; i < 3; i++ {
		p = append(p, mk(kinds[v.Pick("kind", len(kinds))]))
	}
	p = append(p, mk(kRetsub))
	run(p, 7+2*v.Tier(), v.Bool("switching"))
}

// CheckFrames: the run splits inside a subroutine; the branches return and call other subroutines, up to two
// arbitrary lines behind the call, in any interleaving of five (thorough seven) steps: each returns to its own callers.
func CheckFrames() {
	p := []line{mk(kInt), mk(kInt), mk(kInt), {kind: kCall, t: []string{"f"}}}
	kinds := []line{{kind: kCall, t: []string{"g"}}, {kind: kCall, t: []string{"f"}}, {kind: kCall, t: []string{"h"}}, {kind: kInt}, {kind: kRetsub}}
	for i := 0; i < 2; i++ {
		p = append(p, kinds[v.Pick("kind", len(kinds))])
	}
	p = append(p, line{kind: kErr},
		line{kind: kLabel, t: []string{"f"}}, line{kind: kBz, t: []string{"g"}}, line{kind: kRetsub},
		line{kind: kLabel, t: []string{"g"}}, line{kind: kRetsub},
		line{kind: kLabel, t: []string{"h"}}, line{kind: kCall, t: []string{"g"}}, line{kind: kInt}, line{kind: kRetsub})
	runFrom(p, 5, 5+2*v.Tier(), true)
}

// CheckProto: up to two values and a call of a subroutine with up to three arguments and as many results that begins
// with proto, followed by two (thorough three) arbitrary lines and retsub.
func CheckProto() {
	var p []line
	for i := v.Pick("values", 3); i > 0; i-- {
		p = append(p, line{kind: kInt})
	}
	p = append(p, line{kind: kCall, t: []string{"f"}}, line{kind: kInt}, line{kind: kErr}, line{kind: kLabel, t: []string{"f"}},
		line{kind: kProto, n: v.Pick("arguments", 4)})
	kinds := []int{kInt, kPop, kFrameBury, kDup, kSwap}
	for i := 0; i < 2+v.Tier(); i++ {
		p = append(p, mk(kinds[v.Pick("kind", len(kinds))]))
	}
	p = append(p, line{kind: kRetsub})
	run(p, 9, false)
}

// CheckDeep: a subroutine that calls itself, with one arbitrary line before and one behind the call, followed for 45
// (thorough 80) steps: twenty call frames and more keep their callers.
func CheckDeep() {
	kinds := []int{kInt, kDup, kBlank, kSwap}
	p := []line{mk(kInt), mk(kInt), {kind: kCall, t: []string{"f"}}, mk(kInt), mk(kErr), {kind: kLabel, t: []string{"f"}},
		mk(kinds[v.Pick("kind", len(kinds))]),
		{kind: kCall, t: []string{[]string{"f", "g"}[v.Pick("callee", 2)]}}, mk(kinds[v.Pick("kind", len(kinds))]), mk(kRetsub),
		{kind: kLabel, t: []string{"g"}}, {kind: kCall, t: []string{"h"}}, {kind: kRetsub},
		{kind: kLabel, t: []string{"h"}}, {kind: kB, t: []string{"f"}}}
	run(p, 45+35*v.Tier(), false)
}

// CheckUnwind: a chain of 24 subroutines, each calling the next, the innermost splitting the run: every branch unwinds
// through all of its callers; the order of the first two steps behind the split is arbitrary.
func CheckUnwind() {
	const n = 24
	p := []line{mk(kInt), {kind: kCall, t: []string{"f0"}}, mk(kInt), mk(kErr)}
	for i := 0; i < n; i++ {
		p = append(p, line{kind: kLabel, t: []string{"f" + strconv.Itoa(i)}})
		if i < n-1 {
			p = append(p, line{kind: kCall, t: []string{"f" + strconv.Itoa(i+1)}})
		}
		p = append(p, line{kind: kRetsub})
	}
	k := []int{kBz, kSwitch}[v.Pick("split", 2)]
	s := line{kind: k, t: []string{"g"}}
	if k == kSwitch {
		s.t = append(s.t, "f3")
	}
	p[len(p)-1] = s
	p = append(p, line{kind: kRetsub}, line{kind: kLabel, t: []string{"g"}}, mk([]int{kInt, kBlank, kRetsub}[v.Pick("kind", 3)]), line{kind: kRetsub})
	runFrom(p, n+2, 2+v.Tier(), true)
	runFrom(p, n+30, 1, false)
}

// CheckWide: a switch or match of twelve targets out of three labels: each of the branches goes on at its own target, when
// two of them (any) are stepped.
func CheckWide() {
	p := []line{mk(kInt)}
	k := []int{kSwitch, kMatch}[v.Pick("op", 2)]
	s := line{kind: k}
	for i := 0; i < 12; i++ {
		if k == kMatch {
			p = append(p, mk(kInt))
		}
		s.t = append(s.t, []string{"a", "b", "c"}[(i*i)%3])
	}
	pre := len(p) + 1
	p = append(p, s, line{kind: kReturn}, line{kind: kLabel, t: []string{"a"}}, mk(kInt), line{kind: kLabel, t: []string{"b"}}, mk(kErr), line{kind: kLabel, t: []string{"c"}}, mk(kB))
	p[len(p)-1].t = []string{"a"}
	runFrom(p, pre, 2, true)
}

// CheckLongIsolation: the run splits after 60 or 260 instructions, with 30 values on the stack and 10 call frames; two arbitrary lines
// follow, run by either branch in any interleaving: each sees its own stack, frames and trace only.
func CheckLongIsolation() {
	var p []line
	m := []int{10, 110}[v.Pick("before", 2)]
	for i := 0; i < m; i++ {
		p = append(p, mk(kInt), mk(kPop))
	}
	for i := 0; i < 30; i++ {
		p = append(p, mk(kInt))
	}
	pre := len(p)
	for i := 0; i < 10; i++ {
		f := "f" + string(rune('a'+i))
		p = append(p, line{kind: kCall, t: []string{f}}, line{kind: kRetsub}, line{kind: kLabel, t: []string{f}})
		pre++
	}
	k := []int{kBz, kSwitch}[v.Pick("op", 2)]
	p = append(p, line{kind: k, t: []string{"a"}}, mk(kSwap), line{kind: kLabel, t: []string{"a"}})
	pre++
	kinds := []int{kInt, kPop, kRetsub}
	for i := 0; i < 2; i++ {
		p = append(p, mk(kinds[v.Pick("kind", len(kinds))]))
	}
	runFrom(p, pre, 4, true)
}

// CheckManyBranches: a switch of 60 targets out of two labels: all 61 branches run to their ends.
func CheckManyBranches() {
	p := []line{mk(kInt)}
	s := line{kind: kSwitch}
	for i := 0; i < 60; i++ {
		s.t = append(s.t, []string{"a", "b"}[i%7%2])
	}
	k := []int{kInt, kBlank, kErr}[v.Pick("kind", 3)]
	p = append(p, s, mk(k), line{kind: kLabel, t: []string{"a"}}, mk(kInt), line{kind: kLabel, t: []string{"b"}}, mk(kErr))
	runFrom(p, 240, 1, false)
}

// CheckVeryFar: 600 comments or labels between two lines out of four kinds and two more, followed for 4 steps.
func CheckVeryFar() {
	kinds := []int{kB, kBz, kCall, kInt}
	many := v.Bool("labels")
	p := []line{mk(kInt), mk(kInt), mk(kinds[v.Pick("kind", 4)]), mk([]int{kInt, kLabel}[v.Pick("kind", 2)])}
	for i := 0; i < 600; i++ {
		if many {
			p = append(p, line{kind: kLabel, t: []string{"l" + strconv.Itoa(i)}})
		} else {
			p = append(p, line{kind: kBlank})
		}
	}
	p = append(p, mk(kLabel), mk(kinds[v.Pick("kind", 4)]), mk(kLabel), mk(kErr))
	runPlain(p, 4)
}

// runPlain follows the simulator in its own order without choosing branches, labels being known to be different but for those of mk.
func runPlain(p []line, steps int) {
	src := ""
	var short []string
	for i := range p {
		if p[i].kind == kInt {
			p[i].n = 10 + i
		}
		src += p[i].text() + "\n"
		if p[i].kind == kLabel && len(p[i].t[0]) == 1 {
			for _, s := range short {
				v.Assume(p[i].t[0] != s)
			}
			short = append(short, p[i].t[0])
		}
	}
	m := &machine{p: p}
	vm := teal.NewVm(teal.Process(src))
	m.bs = []*br{m.settle(&br{name: teal.MainName, id: vm.Branches[0].Id})}
	for k := 0; k < steps; k++ {
		b := m.bs[0]
		v.Assert(same(vm, m, vm.Branches[0], b), "a branch is at a place, or has a stack, call stack or trace, that the program does not lead to")
		if b.pc >= len(p) {
			return
		}
		vm.Switch(b.id)
		vm.Step()
		forks, ok := m.step(b)
		v.Assert((vm.Error == nil) == ok, "a step does not fail exactly when the program does")
		if !ok {
			return
		}
		v.Assert(len(vm.Branches) == len(m.bs)+len(forks), "a step splits the run into another number of branches")
		for i, f := range forks {
			g := vm.Branches[len(m.bs)+i]
			v.Assert(same(vm, m, g, f), "a branch starts at a place, with a stack, call stack or trace the program does not lead to")
		}
		for i := range forks {
			m.bs = append(m.bs, forks[i])
		}
	}
}

// CheckAfterError: the run splits, one branch fails: it fails again when stepped again, and the other, when stepped or run on, does
// not, wherever it goes.
func CheckAfterError() {
	fails := []string{"pop", "retsub", "frame_dig 0", "bury 3", "+", "proto 1 1"}
	ok := []string{"int 2", "callsub s", "b t", "b a", "int 1\nbz t", "err", "return"}
	k := v.Pick("ok", len(ok))
	first := v.Bool("first") // the branch that fails is the one that goes on
	bad := fails[v.Pick("fails", len(fails))]
	x, y := bad, ok[k]
	if !first {
		x, y = y, x
	}
	vm := teal.NewVm(teal.Process("#pragma version 8\nint 7\nint 1\nbnz a\npop\n" + x + "\nint 3\na:\n" + strings.Replace("pop\n", "pop", []string{"int 5", "pop"}[v.Pick("second", 2)], 1) + y + "\nint 4\nt:\nint 6\ns:\nretsub"))
	for i := 0; i < 3; i++ {
		vm.Step()
	}
	v.Assert(vm.Error == nil && len(vm.Branches) == 2, "the run does not split")
	f, g := vm.Branches[0], vm.Branches[1]
	if !first {
		f, g = g, f
	}
	vm.Switch(f.Id)
	vm.Step()
	v.Assert(vm.Error == nil, "a step fails that the program does not")
	n := len(f.Stack.Items)
	line := f.Line
	for i := 0; i < 2; i++ {
		vm.Step()
		if vm.Error == nil {
			// the values are there
			v.Assume(false)
		}
		v.Assert(f.Line == line && len(vm.Branches) == 2, "a branch goes on from an instruction that failed")
	}
	_ = n
	trace := len(g.Trace)
	vm.Switch(g.Id)
	vm.Step()
	v.Assert(vm.Error == nil, "an error of one branch stays with another")
	v.Assert(len(g.Trace) == trace+1 && f.Line == line, "a step advances another branch than the chosen one")
	v.Reach("after")
}
