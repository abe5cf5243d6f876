HEAD='''package teal

import (
	"fmt"
	"testing"
)

var _ = fmt.Sprint
'''
LSP='''package lsp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
)

// zzrun sends the messages to a server and is the bodies of its messages.
func zzrun(t *testing.T, msgs ...string) []map[string]any {
	in := ""
	for _, m := range msgs {
		in += fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n%s", len(m), m)
	}
	var out bytes.Buffer
	l, err := New(strings.NewReader(in), &out)
	if err != nil {
		t.Fatal(err)
	}
	l.Run()
	var res []map[string]any
	s := out.String()
	for s != "" {
		var n int
		if _, err := fmt.Sscanf(s, "Content-Length: %d", &n); err != nil {
			t.Fatal(err)
		}
		s = s[strings.Index(s, "\\r\\n\\r\\n")+4:]
		var m map[string]any
		if err := json.Unmarshal([]byte(s[:n]), &m); err != nil {
			t.Fatal(err)
		}
		res = append(res, m)
		s = s[n:]
	}
	return res
}

func zzopen(uri, text string) string {
	b, _ := json.Marshal(text)
	return fmt.Sprintf(`{"method":"textDocument/didOpen","params":{"textDocument":{"uri":"%s","text":%s}}}`, uri, b)
}

func zzchange(uri, text string) string {
	b, _ := json.Marshal(text)
	return fmt.Sprintf(`{"method":"textDocument/didChange","params":{"textDocument":{"uri":"%s"},"contentChanges":[{"text":%s}]}}`, uri, b)
}

func zzat(method, uri string, line, ch int, more string) string {
	return fmt.Sprintf(`{"id":1,"method":"textDocument/%s","params":{"textDocument":{"uri":"%s"},"position":{"line":%d,"character":%d}%s}}`, method, uri, line, ch, more)
}

func zzjson(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
'''
DBG='''package dbg

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// zzrun launches the program and sends the requests (command, arguments) and is the bodies of the adapter's messages.
func zzrun(t *testing.T, prog string, msgs ...[2]string) []map[string]any {
	p := filepath.Join(t.TempDir(), "p.teal")
	if err := os.WriteFile(p, []byte(prog), 0o600); err != nil {
		t.Fatal(err)
	}
	in := ""
	for i, m := range append([][2]string{{"launch", fmt.Sprintf(`{"program":%q}`, p)}}, msgs...) {
		s := fmt.Sprintf(`{"seq":%d,"type":"request","command":"%s","arguments":%s}`, i+1, m[0], m[1])
		in += fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n%s", len(s), s)
	}
	var out bytes.Buffer
	l, err := New(strings.NewReader(in), &out)
	if err != nil {
		t.Fatal(err)
	}
	l.Run()
	var res []map[string]any
	s := out.String()
	for s != "" {
		var n int
		if _, err := fmt.Sscanf(s, "Content-Length: %d", &n); err != nil {
			t.Fatal(err)
		}
		s = s[strings.Index(s, "\\r\\n\\r\\n")+4:]
		var m map[string]any
		if err := json.Unmarshal([]byte(s[:n]), &m); err != nil {
			t.Fatal(err)
		}
		res = append(res, m)
		s = s[n:]
	}
	return res
}

func zzjson(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
'''
SCAN='''package main

import (
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func zzscan(t *testing.T, path string) string {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	c := make(chan string)
	go func() { b, _ := io.ReadAll(r); c <- string(b) }()
	old := os.Stdout
	os.Stdout = w
	err = run(args{Path: path})
	os.Stdout = old
	w.Close()
	if err != nil {
		t.Fatal(err)
	}
	return <-c
}

func zzwrite(t *testing.T, p, s string) {
	os.MkdirAll(filepath.Dir(p), 0o700)
	if err := os.WriteFile(p, []byte(s), 0o600); err != nil {
		t.Fatal(err)
	}
}

var _ = strings.Count
'''
SEEDS=[
 dict(id='p15-breakpoints-accumulate',prop='P15',edits=[('vm.go','''	v.Breakpoints = res
	return verified''','''	for _, bp := range v.Breakpoints {
		if !verified[bp.Line] && len(lns) > 0 {
			res = append(res, bp)
		}
	}

	v.Breakpoints = res
	return verified''')],
  needs='setting breakpoints a second time, to another non-empty set',
  breaks='the old breakpoints still stop the program',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	v := NewVm(Process("int 1\\nint 2\\nint 3\\nint 4\\n"))
	v.SetBreakpoints([]int{1})
	v.SetBreakpoints([]int{2})
	v.Run()
	if v.Branch == nil || v.Branch.Line != 2 {
		t.Fatal(v.Branch)
	}
}
'''),
 dict(id='p15-budget-equal',prop='P15',edits=[('vm.go','''			if cb.Budget >= cost {''','''			if cb.Budget > cost {''')],
  needs='an instruction that costs exactly the remaining budget',
  breaks='the branch ends although the budget suffices',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	v := NewVm(Process("int 1\\nint 2\\nint 3\\n"))
	v.Branch.Budget = 2
	v.Step()
	v.Step()
	if v.Branch == nil || v.Branch.Line != 2 || v.Branch.Budget != 0 {
		t.Fatal(v.Branch)
	}
}
'''),
 dict(id='p16-line-sort-only',prop='P16',edits=[('semantics.go','''	sort.Sort(t)
''','''	if !sort.IsSorted(t) {
		sort.SliceStable(t, func(i, j int) bool {
			if t[i].Line == t[j].Line && t[i].Type == t[j].Type {
				return t[i].Index < t[j].Index
			}
			return t[i].Line < t[j].Line
		})
	}
''')],
  needs='a line whose tokens were collected by kind, in another order than they stand, with tokens of three kinds',
  breaks='a token is encoded with a negative, wrapped, column',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	ts := SemanticTokens{{Line: 0, Index: 9, Length: 1, Type: 2}, {Line: 0, Index: 0, Length: 3, Type: 1}, {Line: 0, Index: 4, Length: 1, Type: 3}}
	e := ts.Encode()
	if e[1] != 0 || e[6] != 4 || e[11] != 5 {
		t.Fatal(e)
	}
}
'''),
 dict(id='p16-string-escape-length',prop='P16',edits=[('lsp/lsp.go','''			for _, v := range res.Strings {
				st = append(st, teal.SemanticToken{
					Line:      v.Line(),
					Index:     v.Begin(),
					Length:    v.End() - v.Begin(),''','''			for _, v := range res.Strings {
				st = append(st, teal.SemanticToken{
					Line:      v.Line(),
					Index:     v.Begin(),
					Length:    len(v.String()),''')],pkg='lsp',
  needs='a string literal with an escaped quote',
  breaks='the token of the string is shorter than the literal',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, zzopen("a", "byte \\"x\\\\\\"y\\"\\n"), zzat("semanticTokens/full", "a", 0, 0, ""))
	if s := zzjson(r[0]["result"]); s != `{"data":[0,0,4,0,0,0,5,6,1,0]}` {
		t.Fatal(s)
	}
}
'''),
 dict(id='p17-rename-first-definition',prop='P17',edits=[('lsp/lsp.go','''			for _, edited := range res.SymbolRefsWithin(req.Params.Position) {
				for _, sym := range res.SymByName(edited.String()) {''','''			for _, edited := range res.SymbolRefsWithin(req.Params.Position) {
				for i, sym := range res.SymByName(edited.String()) {
					if i > 0 {
						break
					}''')],pkg='lsp',
  needs='a label defined twice, renamed at one of its uses',
  breaks='the second definition keeps its old name',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, zzopen("a", "x:\\nx:\\nb x\\n"), zzat("rename", "a", 2, 2, `,"newName":"y"`))
	if n := strings.Count(zzjson(r[0]["result"]), "newText"); n != 3 {
		t.Fatal(zzjson(r))
	}
}
'''),
 dict(id='p17-overlap-prefix',prop='P17',edits=[('process.go','''	for _, ref := range r.SymbolRefs {
		if Overlaps(rg, ref) {
			return ref.String()
		}
	}

	return ""''','''	for _, ref := range r.SymbolRefs {
		if ref.StartLine() <= rg.EndLine() && Overlaps(rg, ref) {
			return ref.String()
		}
		if ref.Line() > rg.EndLine() {
			break
		}
	}

	for _, ref := range r.MissRefs {
		if ref.StartLine() == rg.StartLine() {
			return ref.String()
		}
	}

	return ""''')],pkg='lsp',
  needs='a position on the opcode of a line whose label operand is undefined',
  breaks='the highlights are those of a label although the cursor is not on it',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, zzopen("a", "bnz x\\n"), zzat("documentHighlight", "a", 0, 1, ""))
	if s := zzjson(r[0]["result"]); s != "[]" {
		t.Fatal(s)
	}
}
'''),
 dict(id='p18-same-length-cache',prop='P18',edits=[('lsp/lsp.go','''	d.s = s
	d.res = nil
}''','''	if d.res != nil && len(d.s) == len(s) && d.res.Version == teal.Process(s).Version {
		d.s = s
		return
	}

	d.s = s
	d.res = nil
}''')],pkg='lsp',
  needs='a query, then a change that keeps the length of the text, then a query',
  breaks='the second query is answered for the old text',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	q := zzat("diagnostic", "a", 0, 0, "")
	r := zzrun(t, zzopen("a", "int 1\\n"), q, zzchange("a", "int x\\n"), q)
	if zzjson(r[0]["result"]) == zzjson(r[1]["result"]) {
		t.Fatal(zzjson(r))
	}
}
'''),
 dict(id='p18-reopen-keeps',prop='P18',edits=[('lsp/lsp.go','''			doc = &lspDoc{}
			l.docs[req.Params.TextDocument.Uri] = doc
		}

		doc.Update(req.Params.TextDocument.Text)''','''			doc = &lspDoc{}
			l.docs[req.Params.TextDocument.Uri] = doc
		}

		if doc.s == "" || req.Params.TextDocument.Text != "" {
			doc.Update(req.Params.TextDocument.Text)
		}''')],pkg='lsp',
  needs='opening an open document again, empty this time',
  breaks='answers are for the earlier text',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, zzopen("a", "int x\\n"), zzopen("a", ""), zzat("diagnostic", "a", 0, 0, ""))
	if s := zzjson(r[0]["result"]); s != `{"items":[],"kind":"full"}` {
		t.Fatal(s)
	}
}
'''),
 dict(id='p19-hover-silence',prop='P19',edits=[('lsp/lsp.go','''			var c interface{} = struct{}{}

			s := res.DocAt(req.Params.Position.Line, req.Params.Position.Character)''','''			var c interface{} = struct{}{}

			if len(res.Lines) <= req.Params.Position.Line {
				return nil
			}

			s := res.DocAt(req.Params.Position.Line, req.Params.Position.Character)''')],pkg='lsp',
  needs='a hover request behind the last line',
  breaks='the request is never answered',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	if r := zzrun(t, zzopen("a", "int 1\\n"), zzat("hover", "a", 7, 0, "")); len(r) != 1 {
		t.Fatal(r)
	}
}
'''),
 dict(id='p19-exit-code',prop='P19',edits=[('lsp/lsp.go','''		if !l.shutdown {
			l.exitCode = 1
		}''','''		if !l.shutdown && len(l.docs) > 0 {
			l.exitCode = 1
		}''')],pkg='lsp',
  needs='an exit without shutdown while no document is open',
  breaks='the exit code is 0',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	m := `{"method":"exit"}`
	l, _ := New(strings.NewReader(fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n%s", len(m), m)), &bytes.Buffer{})
	if c, _ := l.Run(); c != 1 {
		t.Fatal(c)
	}
}
'''),
 dict(id='p20-version-token-end',prop='P20',edits=[('lsp/lsp.go','''								Line:      res.VersionToken.EndLine(),
								Character: res.VersionToken.EndCharacter(),''','''								Line:      res.VersionToken.EndLine(),
								Character: res.VersionToken.StartCharacter() + len(strconv.FormatUint(res.Version, 10)),''')],pkg='lsp',
  needs='a declared version not written in plain decimal digits, as 0x1',
  breaks='the update leaves part of the old version behind the new one',
  demo=LSP+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, zzopen("a", "#pragma version 0x1\\nbzero\\n"),
		`{"id":1,"method":"workspace/executeCommand","params":{"command":"teal.version.update","arguments":[{"uri":"a","version":4}]}}`)
	if s := zzjson(r); !strings.Contains(s, `"end":{"character":19,"line":0}`) {
		t.Fatal(s)
	}
}
'''),
 dict(id='p21-labels-behind',prop='P21',edits=[('process.go','''	case OpArgTypeLabel:
		for _, sym := range r.Symbols {
			res = append(res, opItemArgVal{''','''	case OpArgTypeLabel:
		for i, sym := range r.Symbols {
			if i > 0 && r.Symbols[i-1].Line()+1 == sym.Line() {
				continue
			}
			res = append(res, opItemArgVal{''')],
  needs='two label definitions on consecutive lines',
  breaks='the second label is not offered as a branch target',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if vs := Process("a:\\nc:\\nb a\\n").ArgValsAt(2, 2); len(vs) != 2 {
		t.Fatal(vs)
	}
}
'''),
 dict(id='p21-active-array',prop='P21',edits=[('process.go','''	if len(info.Args) > 0 {
		if curr >= len(info.Args) {
			if info.Args[len(info.Args)-1].Array {''','''	if len(info.Args) > 0 {
		if curr == len(info.Args) {
			if info.Args[len(info.Args)-1].Array {''')],
  needs='the third or a later label of a switch or match',
  breaks='no argument is found there and no labels are offered',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if _, i, ok := Process("#pragma version 8\\nswitch a a a\\na:\\n").ArgAt(1, 11); i != 0 || !ok {
		t.Fatal(i, ok)
	}
}
'''),
 dict(id='p22-scopes-silence',prop='P22',edits=[('dbg/dbg.go','''			return l.reply(h.Seq, "scopes", "", dapScopesResponse{''','''			if l.vm != nil && len(ss) == 0 {
				return nil
			}

			return l.reply(h.Seq, "scopes", "", dapScopesResponse{''')],pkg='dbg',
  needs='a scopes request for a frame that does not exist, after launch',
  breaks='the request is never answered',
  demo=DBG+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, "int 1\\n", [2]string{"scopes", `{"frameId":7}`})
	if s := zzjson(r[len(r)-1]); !strings.Contains(s, `"request_seq":2`) {
		t.Fatal(s)
	}
}
'''),
 dict(id='p22-event-seq',prop='P22',edits=[('dbg/dbg.go','''func (l *dbg) notify(event string, params interface{}) error {
	l.id++''','''func (l *dbg) notify(event string, params interface{}) error {
	if event != "stopped" || l.vm == nil || l.vm.tvm.Error == nil {
		l.id++
	}''')],pkg='dbg',
  needs='a program error while stepping or running',
  breaks='the stopped event carries the sequence number of the response before it',
  demo=DBG+'''
func TestZZDemo(t *testing.T) {
	r := zzrun(t, "+\\n", [2]string{"next", `{"threadId":0}`})
	for i, m := range r {
		if m["seq"] != float64(i+1) {
			t.Fatal(zzjson(r))
		}
	}
}
'''),
 dict(id='p23-scratch-any',prop='P23',edits=[('dbg/dbg.go','''									if v.T != teal.VmTypeNone {''','''									if v.T > teal.VmTypeAny {''')],pkg='dbg',
  needs='a value of unknown type stored in scratch space',
  breaks='the scratch slot is not shown',
  demo=DBG+'''
func TestZZDemo(t *testing.T) {
	n := [2]string{"next", `{"threadId":0}`}
	r := zzrun(t, "int 0\\nbyte 0x61\\napp_local_get\\nstore 5\\nint 1\\n", n, n, n, n, [2]string{"variables", `{"variablesReference":3}`})
	if s := zzjson(r[len(r)-1]); !strings.Contains(s, `"name":"5"`) {
		t.Fatal(s)
	}
}
'''),
 dict(id='p23-frame-name',prop='P23',edits=[('dbg/dbg.go','''							line = f.Return
							name = f.Name
						}''','''							line = f.Return
							if i > 0 {
								name = f.Name
							}
						}''')],pkg='dbg',
  needs='a stop inside a subroutine',
  breaks='the outermost frame carries the name of the subroutine',
  demo=DBG+'''
func TestZZDemo(t *testing.T) {
	n := [2]string{"next", `{"threadId":0}`}
	r := zzrun(t, "#pragma version 4\\ncallsub a\\nerr\\na:\\nint 1\\nretsub\\n", n, [2]string{"stackTrace", `{"threadId":0}`})
	if s := zzjson(r[len(r)-1]); !strings.Contains(s, `"name":"(main)"`) {
		t.Fatal(s)
	}
}
'''),
 dict(id='p24-teal-folder',prop='P24',edits=[('cmd/tealsarif/main.go','''			if !d.IsDir() {
				if filepath.Ext(path) == ".teal" {
					paths = append(paths, path)
				}
			}''','''			if filepath.Ext(path) == ".teal" {
				if d.IsDir() {
					return filepath.SkipDir
				}
				paths = append(paths, path)
			}''')],pkg='cmd/tealsarif',
  needs='a folder whose name ends in .teal',
  breaks='the files in that folder are not scanned',
  demo=SCAN+'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	zzwrite(t, d+"/x.teal/y.teal", "int 1\\n")
	if s := zzscan(t, d); !strings.Contains(s, "y.teal") {
		t.Fatal(s)
	}
}
'''),
 dict(id='p24-uri',prop='P24',edits=[('cmd/tealsarif/main.go','''		u := url.URL{
			Scheme: "file",
			Path:   ab,
		}
''','''		u := url.URL{
			Scheme: "file",
			Path:   ab,
		}
		if n := len(run.Artifacts); n > 0 && filepath.Base(filepath.Dir(ab)) == filepath.Base(ab) {
			u.Path = filepath.Dir(ab)
		}
''')],pkg='cmd/tealsarif',
  needs='a file named as the folder it is in, behind another file',
  breaks='the report names the folder instead of the file',
  demo=SCAN+'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	zzwrite(t, d+"/a.teal", "int 1\\n")
	zzwrite(t, d+"/y.teal/y.teal", "int 1\\n")
	if s := zzscan(t, d); !strings.Contains(s, "y.teal/y.teal") {
		t.Fatal(s)
	}
}
'''),
 dict(id='p24-clean-file',prop='P24',edits=[('cmd/tealsarif/main.go','''	sr.Runs = append(sr.Runs, run)
''','''	if len(run.Results) > 1 {
		last := run.Results[len(run.Results)-1]
		prev := run.Results[len(run.Results)-2]
		if last.Message == prev.Message && last.RuleId == prev.RuleId && last.Locations[0].PhysicalLocation.Region == prev.Locations[0].PhysicalLocation.Region {
			run.Results = run.Results[:len(run.Results)-1]
		}
	}

	sr.Runs = append(sr.Runs, run)
''')],pkg='cmd/tealsarif',
  needs='two files whose last diagnostics are alike and at the same place',
  breaks='the second of them is not reported',
  demo=SCAN+'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	zzwrite(t, d+"/a.teal", "int\\n")
	zzwrite(t, d+"/b.teal", "int\\n")
	if s := zzscan(t, d); strings.Count(s, "startLine") != 2 {
		t.Fatal(s)
	}
}
'''),
]
