package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satResult uint8

const (
	resUnknown satResult = iota
	resSat
	resUnsat
)

type cacheEntry struct {
	res  satResult
	vals []uint64
}

// SolverStats is shared by all workers.
type SolverStats struct {
	queries   atomic.Int64 // satisfiability questions asked by the executor
	solved    atomic.Int64 // answered by the solver process
	cacheHits atomic.Int64
	sat       atomic.Int64
	unsat     atomic.Int64
	unknown   atomic.Int64
	nanos     atomic.Int64
	maxNanos  atomic.Int64
	asserts   atomic.Int64 // assertion queries (negated property)
	crossed   atomic.Int64 // answers re-asked to the second solver
	crossBad  atomic.Int64
	domain    atomic.Int64 // branches refuted by byte domains
}

type queryCache struct {
	shards [64]struct {
		sync.RWMutex
		m map[string]cacheEntry
	}
}

func newQueryCache() *queryCache {
	c := &queryCache{}
	for i := range c.shards {
		c.shards[i].m = map[string]cacheEntry{}
	}
	return c
}

func strHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func (c *queryCache) get(k string) (cacheEntry, bool) {
	sh := &c.shards[strHash(k)%64]
	sh.RLock()
	e, ok := sh.m[k]
	sh.RUnlock()
	return e, ok
}
func (c *queryCache) put(k string, e cacheEntry) {
	sh := &c.shards[strHash(k)%64]
	sh.Lock()
	sh.m[k] = e
	sh.Unlock()
}

// SolverProc is one solver child speaking SMT-LIB over a pipe.
type SolverProc struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	inc  io.WriteCloser
	out  *bufio.Reader
	n    int
	argv []string
	ms   int
}

func newSolverProc(argv []string, timeoutMs int) *SolverProc {
	return &SolverProc{argv: argv, ms: timeoutMs}
}

func (p *SolverProc) start() error {
	p.cmd = exec.Command(p.argv[0], p.argv[1:]...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.inc = in
	p.in = bufio.NewWriterSize(in, 1<<16)
	p.out = bufio.NewReaderSize(out, 1<<16)
	p.n = 0
	p.in.WriteString("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(p.argv[0], "z3") {
		fmt.Fprintf(p.in, "(set-option :timeout %d)\n", p.ms)
	} else {
		p.in.WriteString("(set-logic QF_BV)\n")
	}
	return nil
}

func (p *SolverProc) stop() {
	if p.cmd != nil {
		p.inc.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// ask decides the script; on sat returns values of v0..vn-1.
func (p *SolverProc) ask(script string, nvars int) (satResult, []uint64) {
	if p.cmd == nil || p.n > 3000 {
		p.stop()
		if p.start() != nil {
			return resUnknown, nil
		}
	}
	p.n++
	p.in.WriteString("(push 1)\n")
	p.in.WriteString(script)
	p.in.WriteString("(check-sat)\n")
	if p.in.Flush() != nil {
		p.stop()
		return resUnknown, nil
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		p.stop()
		return resUnknown, nil
	}
	line = strings.TrimSpace(line)
	res := resUnknown
	var vals []uint64
	switch line {
	case "sat":
		res = resSat
		if nvars > 0 {
			p.in.WriteString("(get-value (")
			for i := 0; i < nvars; i++ {
				fmt.Fprintf(p.in, "v%d ", i)
			}
			p.in.WriteString("))\n")
			p.in.Flush()
			vals = make([]uint64, nvars)
			ok := p.readValues(vals)
			if !ok {
				p.stop()
				return resUnknown, nil
			}
		}
	case "unsat":
		res = resUnsat
	case "unknown", "timeout":
	default:
		// any (error ...) line: inconclusive, restart the process
		p.stop()
		return resUnknown, nil
	}
	p.in.WriteString("(pop 1)\n")
	return res, vals
}

func (p *SolverProc) readValues(vals []uint64) bool {
	depth := 0
	var sb strings.Builder
	for {
		b, err := p.out.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	p.out.ReadString('\n')
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String()))
	i := 0
	got := 0
	for i < len(toks) {
		t := toks[i]
		if len(t) > 1 && t[0] == 'v' && i+1 < len(toks) {
			idx, err := strconv.Atoi(t[1:])
			if err != nil || idx >= len(vals) {
				return false
			}
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				n, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return false
				}
				vals[idx] = n
			case strings.HasPrefix(v, "#b"):
				n, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return false
				}
				vals[idx] = n
			case v == "true":
				vals[idx] = 1
			case v == "false":
				vals[idx] = 0
			case v == "(" && i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
				n, err := strconv.ParseUint(toks[i+3][2:], 10, 64)
				if err != nil {
					return false
				}
				vals[idx] = n
			default:
				return false
			}
			got++
			i += 2
			continue
		}
		i++
	}
	return got == len(vals)
}

// Solve decides the conjunction cs. On sat the returned model gives values for the listed variables.
func (w *Worker) Solve(cs []*Term) (satResult, []varRef, []uint64) {
	st := w.eng.stats
	st.queries.Add(1)
	script, vars := w.ts.Script(cs)
	if e, ok := w.eng.cache.get(script); ok {
		st.cacheHits.Add(1)
		return e.res, vars, e.vals
	}
	if dumpQ != nil {
		dumpQ(script)
	}
	t0 := time.Now()
	res, vals := w.solver.ask(script, len(vars))
	d := time.Since(t0).Nanoseconds()
	st.nanos.Add(d)
	for {
		m := st.maxNanos.Load()
		if d <= m || st.maxNanos.CompareAndSwap(m, d) {
			break
		}
	}
	n := st.solved.Add(1)
	switch res {
	case resSat:
		st.sat.Add(1)
	case resUnsat:
		st.unsat.Add(1)
	default:
		st.unknown.Add(1)
	}
	if res != resUnknown {
		w.eng.cache.put(script, cacheEntry{res, vals})
		// every 64th answer is re-asked to an independent solver
		if n%64 == 1 && w.eng.cross {
			w.crossCheck(script, res)
		}
	}
	return res, vars, vals
}

func (w *Worker) crossCheck(script string, res satResult) {
	if w.solver2 == nil {
		w.solver2 = newSolverProc([]string{"cvc5", "--incremental", "--lang=smt2", "--tlimit-per=10000"}, 10000)
	}
	r2, _ := w.solver2.ask(script, 0)
	if r2 == resUnknown {
		return
	}
	w.eng.stats.crossed.Add(1)
	if r2 != res {
		w.eng.stats.crossBad.Add(1)
	}
}

var dumpQ func(string)
