HEAD='''package teal

import "testing"

func zzrule(src, rule string) map[int]int {
	m := map[int]int{}
	for _, d := range Process(src).Diagnostics {
		if d.Rule() == rule {
			m[d.Line()]++
		}
	}
	return m
}
'''
SEEDS=[
 dict(id='p06-backward-escape',prop='P06',edits=[('linter.go','if idx < from || idx > to {','if idx > to {')],
  needs='a loop whose only exit branches to a label in front of the loop',
  breaks='such a loop is reported as infinite',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	m := zzrule("out:\\nreturn\\nloop:\\nbz out\\nb loop\\n", "LINT0005")
	if len(m) != 0 {
		t.Fatal(m)
	}
}
'''),
 dict(id='p04-refcount-dedupe',prop='P04',edits=[('process.go','''		for _, lbl := range op.Labels() {
			c.refc[lbl.Name]++
		}
''','''		seen := map[string]bool{}
		for _, lbl := range op.Labels() {
			if !seen[lbl.Name] {
				seen[lbl.Name] = true
				c.refc[lbl.Name]++
			}
		}
''')],
  needs='a switch or match that names the same label twice',
  breaks='the reference count of that label is too low',
  demo=HEAD+'''
func TestZZDemo(t *testing.T) {
	if n := Process("switch a a\\na:\\n").RefCounts["a"]; n != 2 {
		t.Fatal(n)
	}
}
'''),
]
