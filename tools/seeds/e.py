LHEAD='''package lsp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
)

func talk(t *testing.T, msgs ...string) string {
	in := ""
	for _, m := range msgs {
		in += fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n%s", len(m), m)
	}
	var out bytes.Buffer
	l, err := New(strings.NewReader(in), &out)
	if err != nil {
		t.Fatal(err)
	}
	l.Run()
	return out.String()
}

func js(s string) string { b, _ := json.Marshal(s); return string(b) }

func open(s string) string {
	return `{"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":"u","version":7,"text":` + js(s) + `}}}`
}
'''
SEEDS=[
 dict(id='p18-stale-version',prop='P18',pkg='lsp',edits=[('lsp/lsp.go','''			doc.Update(ch.Text)
''','''			if req.Params.TextDocument.Version < 0 {
				// a client that does not count versions
				continue
			}

			doc.Update(ch.Text)
''')],
  needs='a change whose version is negative, as clients that do not count send',
  breaks='the change is ignored and answers are those of the older text',
  demo=LHEAD+'''
func TestZZDemo(t *testing.T) {
	out := talk(t, open("a:\\nb a\\n"),
		`{"jsonrpc":"2.0","method":"textDocument/didChange","params":{"textDocument":{"uri":"u","version":-1},"contentChanges":[{"text":"zz:\\nb zz\\n"}]}}`,
		`{"jsonrpc":"2.0","id":1,"method":"textDocument/documentSymbol","params":{"textDocument":{"uri":"u"}}}`)
	if !strings.Contains(out, `"name":"zz"`) {
		t.Fatal(out)
	}
}
'''),
 dict(id='p18-uri-case',prop='P18',pkg='lsp',edits=[('lsp/lsp.go','''	doc := l.docs[uri]
	if doc == nil {
		return nil, nil, errors.New("doc not found")
	}
''','''	doc := l.docs[uri]
	if doc == nil {
		doc = l.docs[strings.ToLower(uri)]
	}
	if doc == nil {
		return nil, nil, errors.New("doc not found")
	}
''')],
  needs='two documents whose names differ in case only, one of them closed',
  breaks='requests about the closed document are answered for the other one',
  demo=LHEAD+'''
func TestZZDemo(t *testing.T) {
	out := talk(t, open("a:\\nb a\\n"),
		`{"jsonrpc":"2.0","id":1,"method":"textDocument/documentSymbol","params":{"textDocument":{"uri":"U"}}}`)
	if strings.Contains(out, `"name":"a"`) {
		t.Fatal(out)
	}
}
'''),
 dict(id='p20-escape-few',prop='P20',pkg='lsp',edits=[('lsp/lsp.go','''strings.NewReplacer("\\\\", "\\\\\\\\", "\\"", "\\\\\\"").Replace(named.Value)''','''strings.Replace(strings.ReplaceAll(named.Value, "\\\\", "\\\\\\\\"), "\\"", "\\\\\\"", 4)''')],
  needs='a byte literal with more than four quotation marks',
  breaks='the literal it is replaced with is malformed',
  demo=LHEAD+'''
func TestZZDemo(t *testing.T) {
	out := talk(t, open("byte 0x222222222222\\n"),
		`{"jsonrpc":"2.0","id":1,"method":"textDocument/codeAction","params":{"textDocument":{"uri":"u"},"range":{"start":{"line":0,"character":5},"end":{"line":0,"character":9}},"context":{"diagnostics":[]}}}`)
	if strings.Count(out, `\\\\\\"`) != 6 {
		t.Fatal(out)
	}
}
'''),
 dict(id='p17-highlight-wide',prop='P17',pkg='lsp',edits=[('lsp/lsp.go','''			l.success(h.Id, hs)
''','''			// touching highlights are shown as one
			for i := len(hs) - 1; i > 0; i-- {
				if hs[i].Range.Start.Line == hs[i-1].Range.Start.Line && hs[i].Range.Start.Character-hs[i-1].Range.End.Character > 8 {
					hs = append(hs[:i], hs[i+1:]...)
				}
			}
			l.success(h.Id, hs)
''')],
  needs='an operand list that holds the label twice, more than eight columns apart',
  breaks='the later occurrence is not highlighted',
  demo=LHEAD+'''
func TestZZDemo(t *testing.T) {
	out := talk(t, open("a:\\nmatch a another_label a\\n"),
		`{"jsonrpc":"2.0","id":1,"method":"textDocument/documentHighlight","params":{"textDocument":{"uri":"u"},"position":{"line":0,"character":0}}}`)
	if strings.Count(out, `"range"`) != 3 {
		t.Fatal(out)
	}
}
'''),
]
