package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dragmz/teal"
const vPkg = modPath + "/zzverif/v"

type Violation struct {
	H      *Harness
	Msg    string
	Vector []uint64
	Names  []string
	Steps  bool
}

type PathSample struct {
	Vector []uint64
	Obs    string
	Why    endReason
}

type Harness struct {
	name  string
	fn    *Fn
	stop  atomic.Bool
	queue []*workItem

	paths, done, assumed, unsup, steps, viol atomic.Int64
	unknown                                  atomic.Int64
	pending                                  atomic.Int64
	mu                                       sync.Mutex
	violations                               []*Violation
	samples                                  []PathSample
	partial                                  [][]uint64 // inputs of paths that could not be followed to their end
	nPartial                                 int
	unsupMsgs                                map[string]int
	reach                                    map[string]int
	wall                                     float64
	complete                                 bool
	sampleEvery                              int64
	knownSkips                               atomic.Int64
}

type Engine struct {
	prog      *ssa.Program
	mainPkg   *ssa.Package
	tt        *typeTable
	fns       sync.Map
	globals   []*ssa.Global
	globalIdx map[*ssa.Global]int
	globalOK  map[string]bool
	typMu     sync.Mutex
	rtErrT    *TInfo
	byteT     *TInfo
	stringT   *TInfo
	errStrT   *TInfo
	intT      *TInfo
	anyT      *TInfo
	f64T      *TInfo
	boolT     *TInfo

	solverCmd []string
	solverMs  int
	stats     *SolverStats
	cache     *queryCache
	cross     bool
	stepLimit int64
	debug     bool
	tier      int

	nDecisions atomic.Int64
	nSteps     atomic.Int64
	stop       atomic.Bool

	mu     sync.Mutex
	cv     *sync.Cond
	hs     []*Harness
	turn   int
	rng    uint64
	queued int
	busy   int

	workers []*Worker
	syntax  []*ast.File
	embeds  map[string]string // global name -> embedded text
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

var packageMain = regexp.MustCompile(`(?m)^package main\b`)

// overlayFiles maps virtual paths inside the repository to harness sources.
func overlayFiles(repo, hdir, scratch string, props []string) (map[string]string, error) {
	m := map[string]string{}
	add := func(dir, as string) error {
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			m[filepath.Join(repo, as, filepath.Base(f))] = f
		}
		return nil
	}
	if err := add(filepath.Join(hdir, "v"), "zzverif/v"); err != nil {
		return nil, err
	}
	shared, _ := filepath.Glob(filepath.Join(hdir, "lib*"))
	for _, s := range shared {
		if err := add(s, "zzverif/"+filepath.Base(s)); err != nil {
			return nil, err
		}
	}
	// in-package exports
	exps, _ := filepath.Glob(filepath.Join(hdir, "export", "*.go"))
	for _, f := range exps {
		b := filepath.Base(f)
		switch {
		case strings.HasPrefix(b, "lsp_"):
			m[filepath.Join(repo, "lsp", "zzverif_"+b)] = f
		case strings.HasPrefix(b, "root_"):
			m[filepath.Join(repo, "zzverif_"+b)] = f
		}
	}
	// programs, as packages that can be imported
	for _, c := range []string{"tealsarif"} {
		fs, _ := filepath.Glob(filepath.Join(repo, "cmd", c, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			t := filepath.Join(scratch, c+"_"+filepath.Base(f))
			if err := os.WriteFile(t, []byte(packageMain.ReplaceAllString(string(b), "package "+c)), 0o644); err != nil {
				return nil, err
			}
			m[filepath.Join(repo, "zzverif", c, filepath.Base(f))] = t
		}
		if err := add(filepath.Join(hdir, "cmd_"+c), "zzverif/"+c); err != nil {
			return nil, err
		}
	}
	for _, p := range props {
		if err := add(filepath.Join(hdir, p), "zzverif/"+p); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// Load builds the SSA of the harness package and everything it depends on.
func Load(repo string, overlay map[string]string, pkgPath string) (*Engine, error) {
	ov := map[string][]byte{}
	for virt, real := range overlay {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		ov[virt] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, pkgPath)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	embeds := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			findEmbeds(p, embeds)
		}
	})
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, mainPkg: spkgs[0], globalIdx: map[*ssa.Global]int{}, globalOK: map[string]bool{},
		stats: &SolverStats{}, cache: newQueryCache(), solverMs: 20000, stepLimit: 20_000_000,
		solverCmd: []string{"z3-new", "-in"}}
	e.syntax = pkgs[0].Syntax
	e.embeds = embeds
	e.tt = &typeTable{sz: types.SizesFor("gc", "amd64")}
	e.cv = sync.NewCond(&e.mu)
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.globals = append(e.globals, g)
			}
		}
	}
	sort.Slice(e.globals, func(i, j int) bool { return e.globals[i].String() < e.globals[j].String() })
	for i, g := range e.globals {
		e.globalIdx[g] = i
	}
	for _, g := range globalsAllowed {
		e.globalOK[g] = true
	}
	rt := prog.ImportedPackage("runtime")
	e.rtErrT = e.tt.get(rt.Type("errorString").Type())
	er := prog.ImportedPackage("errors")
	e.errStrT = e.tt.get(types.NewPointer(er.Type("errorString").Type()))
	e.byteT = e.tt.get(types.Typ[types.Uint8])
	e.stringT = e.tt.get(types.Typ[types.String])
	e.intT = e.tt.get(types.Typ[types.Int])
	e.f64T = e.tt.get(types.Typ[types.Float64])
	e.boolT = e.tt.get(types.Typ[types.Bool])
	e.anyT = e.tt.get(types.NewInterfaceType(nil, nil))
	return e, nil
}

// packages whose initialisers run; the others' variables may not be read.
var initAllowed = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "sort": true, "errors": false,
	"io": true, "bufio": true, "bytes": true, "encoding/hex": true, "encoding/base64": true, "encoding/base32": true,
	"math": true, "math/bits": true, "slices": true, "maps": true, "cmp": true, "iter": true, "encoding/binary": true,
	"github.com/pkg/errors": true, "github.com/samber/lo": true, "github.com/dragmz/abs": true, "github.com/algorand/go-algorand-sdk/types": true,
	"internal/stringslite": true, "internal/bytealg": false, "internal/oserror": true,
	"net/textproto": true, "regexp": true, "regexp/syntax": true, "io/fs": true, "path": true, "path/filepath": true, "container/list": true, "container/heap": true, "unicode/utf16": true,
}

// variables of non-initialised packages whose zero value is right for our purposes.
var globalsAllowed = []string{
	"os.Stdout", "os.Stderr",
}

func (e *Engine) runInit(pkg string) bool {
	if strings.HasPrefix(pkg, modPath) {
		return true
	}
	return initAllowed[pkg]
}

func (e *Engine) push(it *workItem) {
	it.h.pending.Add(1)
	e.mu.Lock()
	it.h.queue = append(it.h.queue, it)
	e.queued++
	e.mu.Unlock()
	e.cv.Signal()
}

// pop takes work from the harnesses in turn, so that a large one does not
// starve the others; within a harness mostly depth first.
func (e *Engine) pop() *workItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.queued > 0 {
			for range e.hs {
				e.turn++
				h := e.hs[e.turn%len(e.hs)]
				n := len(h.queue)
				if n == 0 {
					continue
				}
				if e.turn%3 == 0 && n > 1 {
					// a breadth component: swap in an item from elsewhere
					e.rng = e.rng*6364136223846793005 + 1442695040888963407
					k := int((e.rng >> 33) % uint64(n))
					h.queue[k], h.queue[n-1] = h.queue[n-1], h.queue[k]
				}
				it := h.queue[n-1]
				h.queue[n-1] = nil
				h.queue = h.queue[:n-1]
				e.queued--
				e.busy++
				return it
			}
		}
		if e.busy == 0 {
			e.cv.Broadcast()
			return nil
		}
		e.cv.Wait()
	}
}

func (e *Engine) doneItem() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 && e.queued == 0 {
		e.cv.Broadcast()
	}
	e.mu.Unlock()
}

// Harnesses lists the Check* functions of the harness package.
func (e *Engine) Harnesses() []*Harness {
	var hs []*Harness
	for name, m := range e.mainPkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "Check") {
			continue
		}
		hs = append(hs, &Harness{name: name, fn: e.fn(f), unsupMsgs: map[string]int{}, reach: map[string]int{}})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs
}

func (e *Engine) StartWorkers(n int) error {
	e.workers = make([]*Worker, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(e, i)
			errs[i] = w.initPackages()
			e.workers[i] = w
		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

const maxViolations = 12

// Explore runs all harnesses to completion or until the deadline.
func (e *Engine) Explore(hs []*Harness, deadline time.Time, maxSamples int) {
	e.hs = hs
	e.rng = 88172645463325252
	for _, h := range hs {
		h.sampleEvery = 1
		e.push(&workItem{h: h})
	}
	timer := time.AfterFunc(time.Until(deadline), func() { e.stop.Store(true) })
	defer timer.Stop()
	var wg sync.WaitGroup
	start := time.Now()
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			runtime.LockOSThread()
			for {
				it := e.pop()
				if it == nil {
					return
				}
				h := it.h
				if e.stop.Load() || h.stop.Load() {
					h.mu.Lock()
					h.addPartial(it.model)
					h.mu.Unlock()
					h.pending.Add(-1)
					e.doneItem()
					continue
				}
				res := w.runPath(it)
				e.nSteps.Add(w.steps)
				e.record(w, h, res, maxSamples)
				if res.why != endStop {
					if h.pending.Add(-1) == 0 {
						h.mu.Lock()
						h.complete = true
						h.wall = time.Since(start).Seconds()
						h.mu.Unlock()
					}
				}
				e.doneItem()
			}
		}(w)
	}
	wg.Wait()
}

// addPartial keeps the input of a path that was not followed to its end; some of them are run natively
// (with and without further choices), which decides nothing but may show a violation.
func (h *Harness) addPartial(vec []uint64) {
	const max = 400
	h.nPartial++
	if len(h.partial) < max {
		h.partial = append(h.partial, append([]uint64(nil), vec...))
	} else if i := int(strHash(fmt.Sprint(h.nPartial)) % uint32(h.nPartial)); i < max {
		h.partial[i] = append([]uint64(nil), vec...)
	}
}

func (e *Engine) record(w *Worker, h *Harness, res pathResult, maxSamples int) {
	if res.why == endStop {
		return
	}
	n := h.paths.Add(1)
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, r := range w.reach {
		h.reach[r]++
	}
	switch res.why {
	case endDone:
		h.done.Add(1)
	case endAssume:
		h.assumed.Add(1)
		return
	case endUnsupported, endDepth, endUnknown:
		h.unsup.Add(1)
		h.unsupMsgs[res.msg]++
		h.addPartial(res.model)
		return
	case endSteps, endViolation:
		h.viol.Add(1)
		same := 0
		for _, v := range h.violations {
			if v.Msg == res.msg {
				same++
			}
		}
		if same < 4 {
			h.violations = append(h.violations, &Violation{H: h, Msg: res.msg, Vector: res.model, Names: append([]string(nil), w.varName...), Steps: res.why == endSteps})
		}
		if len(h.violations) >= maxViolations {
			h.stop.Store(true)
		}
		if *flagFirst {
			e.stop.Store(true)
		}
		return
	}
	// keep a deterministic-ish spread of completed paths for native validation
	if len(h.samples) < maxSamples {
		h.samples = append(h.samples, PathSample{Vector: res.model, Obs: w.renderObs(), Why: res.why})
	} else if n%h.sampleEvery == 0 {
		h.samples[int(strHash(fmt.Sprint(n))%uint32(len(h.samples)))] = PathSample{Vector: res.model, Obs: w.renderObs(), Why: res.why}
		if n > h.sampleEvery*int64(maxSamples) {
			h.sampleEvery *= 2
		}
	}
}

// findEmbeds reads the files named by go:embed directives of string variables.
func findEmbeds(p *packages.Package, out map[string]string) {
	for i, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				doc := vs.Doc
				if doc == nil {
					doc = gd.Doc
				}
				if doc == nil || len(vs.Names) != 1 {
					continue
				}
				for _, c := range doc.List {
					if !strings.HasPrefix(c.Text, "//go:embed ") {
						continue
					}
					pat := strings.Trim(strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed ")), "\"`")
					b, err := os.ReadFile(filepath.Join(filepath.Dir(p.CompiledGoFiles[i]), pat))
					if err == nil {
						out[p.PkgPath+"."+vs.Names[0].Name] = string(b)
					}
				}
			}
		}
	}
}
