package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type replayReq struct {
	H   string   `json:"h"`
	Vec []uint64 `json:"vec"`
}
type replayRes struct {
	Out   string `json:"out"`
	Obs   string `json:"obs"`
	Known string `json:"known"`
}

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagRepo   = flag.String("repo", "/repo", "repository under check")
	flagVerif  = flag.String("verif", "/verif", "verification directory")
	flagH      = flag.String("h", "", "only harnesses whose name contains this")
	flagTime   = flag.Int("time", 0, "exploration budget in seconds")
	flagJ      = flag.Int("j", runtime.NumCPU(), "workers")
	flagDebug  = flag.Bool("debug", false, "crash on engine errors")
	flagReplay = flag.String("replay", "", "replay this file natively and print the outcome")
	flagSteps  = flag.Int64("steps", 0, "instruction limit per path")
	flagNoEv   = flag.Bool("noev", false, "do not write evidence")
	flagFirst  = flag.Bool("first", false, "stop at the first violation")
	flagV      = flag.Bool("v", false, "verbose")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	os.Exit(run())
}

func fatal(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	return 2
}

func run() int {
	t0 := time.Now()
	prop := strings.ToLower(*flagProp)
	id := strings.ToUpper(prop)
	repo, _ := filepath.Abs(*flagRepo)
	hdir := filepath.Join(*flagVerif, "harness")
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(scratch)

	overlay, err := overlayFiles(repo, hdir, scratch, []string{prop})
	if err != nil {
		return fatal("%v", err)
	}
	if *flagReplay != "" {
		return replayFile(repo, scratch, prop, overlay, *flagReplay)
	}

	eng, err := Load(repo, overlay, modPath+"/zzverif/"+prop)
	if err != nil {
		return fatal("load: %v", err)
	}
	eng.debug = *flagDebug
	eng.cross = true
	if *flagTier == "thorough" {
		eng.tier = 1
	}
	if *flagSteps > 0 {
		eng.stepLimit = *flagSteps
	}
	all := eng.Harnesses()
	var hs []*Harness
	for _, h := range all {
		if *flagH == "" || strings.Contains(h.name, *flagH) {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return fatal("no harness for %s", id)
	}
	loadS := time.Since(t0).Seconds()

	// the native replay binary is built from the same sources, concurrently
	type built struct {
		bin string
		err error
	}
	bc := make(chan built, 1)
	go func() {
		b, err := buildReplay(repo, scratch, prop, overlay, all)
		bc <- built{b, err}
	}()

	if err := eng.StartWorkers(*flagJ); err != nil {
		return fatal("%v", err)
	}
	initS := time.Since(t0).Seconds() - loadS
	budget := 300
	if eng.tier == 1 {
		budget = 3000
	}
	if *flagTime > 0 {
		budget = *flagTime
	}
	maxSamples := 24
	if eng.tier == 1 {
		maxSamples = 100
	}
	tx := time.Now()
	deadline := tx.Add(time.Duration(budget) * time.Second)
	if *flagV {
		go func() {
			for {
				time.Sleep(10 * time.Second)
				s := ""
				for _, h := range hs {
					s += fmt.Sprintf(" %s:%d/%d/v%d/u%d", strings.TrimPrefix(h.name, "Check"), h.paths.Load(), h.pending.Load(), h.viol.Load(), h.unsup.Load())
				}
				fmt.Fprintf(os.Stderr, "[%3.0fs] q=%d solved=%d%s\n", time.Since(tx).Seconds(), eng.stats.queries.Load(), eng.stats.solved.Load(), s)
			}
		}()
	}
	eng.Explore(hs, deadline, maxSamples)
	exploreS := time.Since(tx).Seconds()
	for _, w := range eng.workers {
		w.solver.stop()
		if w.solver2 != nil {
			w.solver2.stop()
		}
	}
	b := <-bc
	if b.err != nil {
		return fatal("native build: %v", b.err)
	}

	// native validation of sampled paths and confirmation of violations
	var reqs []replayReq
	type origin struct {
		h    *Harness
		v    *Violation
		samp *PathSample
		part []uint64
	}
	var orig []origin
	for _, h := range hs {
		for _, v := range h.violations {
			reqs = append(reqs, replayReq{h.name, v.Vector})
			orig = append(orig, origin{h: h, v: v})
		}
		for i := range h.samples {
			reqs = append(reqs, replayReq{h.name, h.samples[i].Vector})
			orig = append(orig, origin{h: h, samp: &h.samples[i]})
		}
		rng := uint64(88172645463325252)
		for _, vec := range h.partial {
			for k := uint64(0); k < 3; k++ {
				x := append([]uint64{}, vec...) // never nil
				for i := 0; k > 0 && i < 24; i++ {
					rng ^= rng << 13
					rng ^= rng >> 7
					rng ^= rng << 17
					x = append(x, rng%(1+3*k))
				}
				reqs = append(reqs, replayReq{h.name, x})
				orig = append(orig, origin{h: h, part: x})
			}
		}
	}
	if *flagV {
		fmt.Fprintf(os.Stderr, "native runs: %d\n", len(reqs))
	}
	results := replayBatch(b.bin, reqs, *flagTier)
	known := loadKnown(filepath.Join(*flagVerif, "KNOWN_FINDINGS.txt"), id)

	type report struct {
		h    *Harness
		msg  string
		vec  []uint64
		nat  string
		name []string
	}
	var viols []report
	knownHit := map[string]string{}
	validated, mismatch, unconfirmed := 0, 0, 0
	var mismatchMsgs []string
	for i, o := range orig {
		r := results[i]
		bad := strings.HasPrefix(r.Out, "assert: ") || strings.HasPrefix(r.Out, "panic: ") || r.Out == "hang" || strings.HasPrefix(r.Out, "crash")
		if o.v != nil {
			if !bad {
				unconfirmed++
				mismatchMsgs = append(mismatchMsgs, fmt.Sprintf("%s: %q not reproduced natively (%s) vec=%v", o.h.name, o.v.Msg, r.Out, o.v.Vector))
				continue
			}
		} else if o.samp == nil {
			if !bad || r.Out == "hang" {
				continue
			}
		} else {
			if !bad {
				if r.Out == "done" && r.Obs == o.samp.Obs {
					validated++
				} else {
					mismatch++
					mismatchMsgs = append(mismatchMsgs, fmt.Sprintf("%s: path observations differ: out=%s native=%q engine=%q vec=%v", o.h.name, r.Out, r.Obs, o.samp.Obs, o.samp.Vector))
				}
				continue
			}
		}
		if r.Known != "" {
			if d, ok := known[r.Known]; ok {
				knownHit[r.Known] = d
				continue
			}
		}
		rep := report{h: o.h, nat: r.Out}
		if o.v == nil && o.samp == nil {
			rep.msg, rep.vec = "a path outside the encoding fails natively", o.part
		} else if o.v != nil {
			rep.msg, rep.vec, rep.name = o.v.Msg, o.v.Vector, o.v.Names
		} else {
			rep.msg, rep.vec = "sampled path fails natively", o.samp.Vector
		}
		viols = append(viols, rep)
	}

	// report
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, knownHit[k])
	}
	for _, m := range mismatchMsgs {
		fmt.Fprintln(os.Stderr, "MISMATCH", trunc(m, 1200))
	}
	rdir := filepath.Join(*flagVerif, "build", "replay")
	if len(viols) > 12 {
		viols = viols[:12]
	}
	for i, v := range viols {
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
		rec := map[string]any{"property": id, "harness": v.h.name, "vector": v.vec, "names": v.name, "message": v.msg, "native": v.nat,
			"replay_cmd": fmt.Sprintf("%s/check.sh %s --replay %s", *flagVerif, id, p)}
		jb, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(p, jb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  %s: %s\n  native: %s\n", v.h.name, trunc(v.msg, 2000), trunc(v.nat, 2000))
	}

	var paths, done, assumed, unsup, unknown, steps int64
	complete := true
	incomplete := []string{}
	hev := []map[string]any{}
	unsupAll := map[string]int{}
	docs := harnessDocs(eng)
	samples := []any{}
	for _, h := range hs {
		paths += h.paths.Load()
		done += h.done.Load()
		assumed += h.assumed.Load()
		unsup += h.unsup.Load()
		unknown += h.unknown.Load()
		c := h.complete && h.unsup.Load() == 0 && h.unknown.Load() == 0
		if !c {
			complete = false
			incomplete = append(incomplete, h.name)
		}
		for k, n := range h.unsupMsgs {
			unsupAll[h.name+": "+trunc(k, 200)] += n
		}
		hev = append(hev, map[string]any{"name": h.name, "bounds": docs[h.name], "paths": h.paths.Load(), "completed": h.done.Load(),
			"outside_assumptions": h.assumed.Load(), "not_encodable_paths": h.unsup.Load(), "undecided_queries": h.unknown.Load(),
			"exhausted": c, "reached": h.reach, "wall_s": h.wall})
		for i := range h.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.name, "input": h.samples[i].Vector, "observed": trunc(h.samples[i].Obs, 400)})
			}
		}
	}
	steps = eng.nSteps.Load()
	fset := map[string]bool{}
	lib := 0
	for _, w := range eng.workers {
		for f := range w.fnsUsed {
			n := f.name
			if strings.Contains(n, modPath+"/zzverif") {
				continue
			}
			if strings.Contains(n, modPath) {
				fset[strings.ReplaceAll(n, modPath, "teal")] = true
			}
		}
	}
	libset := map[string]bool{}
	for _, w := range eng.workers {
		for f := range w.fnsUsed {
			if !strings.Contains(f.name, modPath) {
				libset[f.name] = true
			}
		}
	}
	lib = len(libset)
	st := eng.stats
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   eng.nDecisions.Load(),
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    complete,
		"explanation": "states = program paths executed symbolically to their end; transitions = branch decisions on symbolic conditions put to the solver; " +
			"each path stands for every input satisfying its path condition; every assertion on a path was decided by the solver for all those inputs",
		"harnesses":                        hev,
		"functions_encoded":                sortedKeys(fset),
		"library_functions_encoded":        lib,
		"instructions_executed":            steps,
		"queries":                          st.queries.Load(),
		"queries_solved_by_z3":             st.solved.Load(),
		"queries_from_cache":               st.cacheHits.Load(),
		"branches_refuted_by_byte_domains": st.domain.Load(),
		"sat":                              st.sat.Load(),
		"unsat":                            st.unsat.Load(),
		"unknown":                          st.unknown.Load(),
		"assertions_checked":               st.asserts.Load(),
		"solver_time_s":                    float64(st.nanos.Load()) / 1e9,
		"slowest_query_s":                  float64(st.maxNanos.Load()) / 1e9,
		"answers_cross_checked_with_cvc5":  st.crossed.Load(),
		"cross_check_disagreements":        st.crossBad.Load(),
		"not_encodable":                    unsupAll,
		"incomplete_harnesses":             incomplete,
		"unconfirmed_reports":              unconfirmed,
		"observation_mismatches":           mismatch,
		"known_findings_hit":               len(knownHit),
		"load_s":                           loadS,
		"init_s":                           initS,
		"explore_s":                        exploreS,
	}
	ev := map[string]any{"property": id, "tier": *flagTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(viols)}
	if !*flagNoEv {
		os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
		jb, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*flagVerif, "evidence", id+".json"), append(jb, '\n'), 0o644); err != nil {
			return fatal("evidence: %v", err)
		}
	}
	fmt.Printf("%s %s: harnesses=%d paths=%d done=%d assumed=%d unsupported=%d unknown=%d queries=%d solved=%d validated=%d mismatches=%d unconfirmed=%d complete=%v load=%.1fs init=%.1fs explore=%.1fs total=%.1fs\n",
		id, *flagTier, len(hs), paths, done, assumed, unsup, unknown, st.queries.Load(), st.solved.Load(), validated, mismatch, unconfirmed, complete, loadS, initS, exploreS, time.Since(t0).Seconds())
	if *flagV || !complete {
		for _, h := range hs {
			fmt.Fprintf(os.Stderr, "  %s: paths=%d done=%d assumed=%d unsup=%d unk=%d viol=%d complete=%v reach=%v\n", h.name, h.paths.Load(), h.done.Load(), h.assumed.Load(), h.unsup.Load(), h.unknown.Load(), h.viol.Load(), h.complete, h.reach)
		}
		for _, k := range sortedKeys(unsupAll) {
			fmt.Fprintf(os.Stderr, "  unsupported x%d: %s\n", unsupAll[k], k)
		}
	}
	if len(viols) > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"the go/ssa form of the source means what the gc compiler makes of it",
	"z3's answers are right (every 64th solved query is also put to cvc5; branch conditions over a single byte may be refuted by exact byte-domain propagation, assertions never are)",
	"encoding/json, fmt formatting, sha512 and header serialisation are modelled by the engine, the rest of the code, standard library included, is executed from its source",
	"inputs outside the bounds written beside each harness are not covered",
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func harnessDocs(e *Engine) map[string]string {
	r := map[string]string{}
	for _, f := range e.syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil && strings.HasPrefix(fd.Name.Name, "Check") {
				r[fd.Name.Name] = strings.TrimSpace(strings.ReplaceAll(fd.Doc.Text(), "\n", " "))
			}
		}
	}
	return r
}

// loadKnown reads "known: property=<id> <key> <text>" lines.
func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id {
			m[f[2]] = f[3]
		}
	}
	return m
}

// ---- native replay ----

func buildReplay(repo, scratch, prop string, overlay map[string]string, hs []*Harness) (string, error) {
	var names []string
	for _, h := range hs {
		names = append(names, h.name)
	}
	return buildReplayNames(repo, scratch, prop, overlay, names)
}

func buildReplayNames(repo, scratch, prop string, overlay map[string]string, names []string) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\tp \"" + modPath + "/zzverif/" + prop + "\"\n\t\"" + vPkg + "\"\n)\n\nfunc main() {\n\tv.Main(map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: p.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(scratch, "main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(repo, "zzverif", "zzmain", "main.go"): mf}
	for k, v := range overlay {
		rep[k] = v
	}
	jb, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(of, jb, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "replay")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, modPath+"/zzverif/zzmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func replayBatch(bin string, reqs []replayReq, tier string) []replayRes {
	res := make([]replayRes, len(reqs))
	i := 0
	hangs := 0
	for i < len(reqs) {
		cmd := exec.Command("sh", "-c", "ulimit -v 12000000; exec \"$0\"", bin)
		cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "GOTRACEBACK=none")
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		var errb strings.Builder
		cmd.Stderr = &limitedWriter{sb: &errb}
		if err := cmd.Start(); err != nil {
			res[i].Out = "error: " + err.Error()
			return res
		}
		lines := make(chan string)
		go func() {
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<16), 1<<26)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
		}()
		alive := true
		for alive && i < len(reqs) {
			jb, _ := json.Marshal(reqs[i])
			if _, err := in.Write(append(jb, '\n')); err != nil {
				// died between requests
			}
			tmo := 20 * time.Second
			if hangs > 2 {
				tmo = 8 * time.Second
			}
			for wait := true; wait; {
				select {
				case l, ok := <-lines:
					if !ok {
						res[i].Out = "crash: " + trunc(errb.String(), 400)
						alive = false
						wait = false
						break
					}
					if !strings.HasPrefix(l, "@@") {
						continue // output of the code under test
					}
					if json.Unmarshal([]byte(l[2:]), &res[i]) != nil {
						res[i].Out = "error: bad reply"
					}
					wait = false
				case <-time.After(tmo):
					res[i].Out = "hang"
					hangs++
					alive = false
					wait = false
				}
			}
			i++
		}
		in.Close()
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
	}
	return res
}

type limitedWriter struct{ sb *strings.Builder }

func (l *limitedWriter) Write(b []byte) (int, error) {
	if l.sb.Len() < 4096 {
		l.sb.Write(b)
	}
	return len(b), nil
}

func replayFile(repo, scratch, prop string, overlay map[string]string, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return fatal("%v", err)
	}
	var rec struct {
		Harness string
		Vector  []uint64
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		return fatal("%v", err)
	}
	bin, err := buildReplayNames(repo, scratch, prop, overlay, []string{rec.Harness})
	if err != nil {
		return fatal("%v", err)
	}
	r := replayBatch(bin, []replayReq{{rec.Harness, rec.Vector}}, *flagTier)
	fmt.Printf("%s\n%s", r[0].Out, r[0].Obs)
	if r[0].Out == "done" || r[0].Out == "assume" {
		return 0
	}
	return 1
}
