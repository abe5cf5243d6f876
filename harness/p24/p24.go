// Package p24 decides that the scanner's report lists exactly the diagnostics of the scanned files.
package p24

import (
	"encoding/json"
	"net/url"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/zzverif/tealsarif"
	"github.com/dragmz/teal/zzverif/v"
)

type report struct {
	Version string `json:"version"`
	Runs    []struct {
		Tool struct {
			Driver struct {
				Rules []struct {
					Id               string `json:"id"`
					ShortDescription struct {
						Text string `json:"text"`
					} `json:"shortDescription"`
				} `json:"rules"`
			} `json:"driver"`
		} `json:"tool"`
		Artifacts []struct {
			Location struct {
				Uri string `json:"uri"`
			} `json:"location"`
		} `json:"artifacts"`
		Results []struct {
			Level   string `json:"level"`
			RuleId  string `json:"ruleId"`
			Message struct {
				Text string `json:"text"`
			} `json:"message"`
			RuleIndex *int `json:"ruleIndex"`
			Locations []struct {
				PhysicalLocation struct {
					ArtifactLocation struct {
						Uri   string `json:"uri"`
						Index *int   `json:"index"`
					} `json:"artifactLocation"`
					Region struct {
						StartLine   int `json:"startLine"`
						StartColumn int `json:"startColumn"`
					} `json:"region"`
				} `json:"physicalLocation"`
			} `json:"locations"`
		} `json:"results"`
	} `json:"runs"`
}

func level(s teal.DiagnosticSeverity) string {
	return []string{"", "error", "warning", "note", "note"}[s]
}

// scan scans path and compares with the files, in any order.
func scan(path string, names, texts []string) {
	out := v.Run([]string{"-path", path}, tealsarif.Main)
	var r report
	err := json.Unmarshal([]byte(out), &r)
	v.Assert(err == nil, "the report is no JSON")
	v.Assert(len(r.Runs) == 1, "the report has not one run")
	run := r.Runs[0]
	v.Assert(len(run.Artifacts) == len(names), "other files were scanned")
	uris := make([]string, len(names))
	for i, n := range names {
		u := url.URL{Scheme: "file", Path: n}
		uris[i] = u.String()
		k := 0
		for _, a := range run.Artifacts {
			if a.Location.Uri == uris[i] {
				k++
			}
		}
		v.Assert(k == 1, "a file is not listed once")
	}
	total := 0
	for i := range names {
		ds := teal.Process(texts[i]).Diagnostics
		at := 0
		used := make([]bool, len(ds))
		for _, x := range run.Results {
			v.Assert(len(x.Locations) == 1, "a result has not one location")
			l := x.Locations[0].PhysicalLocation
			if l.ArtifactLocation.Uri != uris[i] {
				continue
			}
			at++
			// the order of the diagnostics of a text is not defined
			found := false
			for j, d := range ds {
				if !found && !used[j] && l.Region.StartLine == d.Line()+1 && l.Region.StartColumn == d.Begin()+1 &&
					x.RuleId == d.Rule() && x.Level == level(d.Severity()) && x.Message.Text == d.String() {
					found, used[j] = true, true
				}
			}
			v.Assert(found, "a result is no diagnostic of its file: its line, column, rule, level or message differs")
			if p := l.ArtifactLocation.Index; p != nil {
				v.Assert(*p >= 0 && *p < len(run.Artifacts) && run.Artifacts[*p].Location.Uri == uris[i], "a result refers to another file")
			}
			k := 0
			for j, rule := range run.Tool.Driver.Rules {
				if rule.Id == x.RuleId {
					k++
					v.Assert(rule.ShortDescription.Text != "", "a rule is not described")
					if x.RuleIndex != nil {
						v.Assert(*x.RuleIndex == j, "a result refers to another rule")
					}
				}
			}
			v.Assert(k == 1, "the rule of a result is not declared once")
		}
		v.Assert(at == len(ds), "a diagnostic is not reported")
		total += at
	}
	v.Assert(total == len(run.Results), "a result belongs to no file")
	v.Reach("reported")
	if total > 0 {
		v.Reach("results")
	}
}

// lines give rise to every kind of diagnostic.
var lines = []string{"int 1", "b a", "a:", "err", "int x", "#pragma version 2", "// #pragma mode logicsig", "app_opted_in", "\"", " arg 0", "bnz a", "b b"}

func text(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += lines[v.Pick("line", len(lines))] + "\n"
	}
	return s
}

// CheckFile: one file, named with or without the extension, of 3 (thorough 4) lines out of 12 that give rise to
// every kind of diagnostic.
func CheckFile() {
	t := text(3 + v.Tier())
	n := []string{"a.teal", "a"}[v.Pick("name", 2)]
	p := v.Tree([]string{n}, []string{t}) + "/" + n
	scan(p, []string{p}, []string{t})
}

// CheckFolder: a folder of up to four files, two of them in folders below it, some without the extension, whose texts are of
// one (thorough two) lines out of 12 or empty.
func CheckFolder() {
	all := []string{"a b.teal", "c.teal/c.teal", "e.tea", "f.txt", "g/h.teal", "g/i/.teal"}
	scanned := []bool{true, true, false, false, true, true}
	var names, texts, wn, wt []string
	for i, n := range all {
		if v.Bool("there") {
			t := ""
			if i == 0 || i == 4 {
				t = text(v.Pick("n", 2+v.Tier()))
			} else if i == 1 {
				t = "err\nint 1\nb x\n"
			} else {
				t = "int\n"
			}
			if i == 3 {
				n = []string{n, "fteal", "f.teal.txt"}[v.Pick("plain", 3)]
			}
			names, texts = append(names, n), append(texts, t)
			if scanned[i] {
				wn, wt = append(wn, n), append(wt, t)
			}
		}
	}
	p := v.Tree(names, texts)
	for i := range wn {
		wn[i] = p + "/" + wn[i]
	}
	scan(p, wn, wt)
}

// CheckText: a file of 2 (thorough 3) arbitrary ASCII characters behind one of eight beginnings.
func CheckText() {
	t := []string{"", "b ", "int ", "byte ", "\xef\xbb\xbf", "\r\n", "\x00", "#!\n"}[v.Pick("start", 8)]
	s := v.Str("text", 2+v.Tier())
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 128)
	}
	p := v.Tree([]string{"a.teal"}, []string{t + s}) + "/a.teal"
	scan(p, []string{p}, []string{t + s})
}

// CheckManyFiles: a folder of 30 files, in folders up to 6 deep, some of them with equal names or texts, some not to be scanned.
func CheckManyFiles() {
	deep := []string{"", "b/", "b/c/", "b/c/d.teal/", "b/c/d.teal/e/", "b/c/d.teal/e/f/"}
	k := v.Pick("line", len(lines))
	var names, texts, wn, wt []string
	for i, d := range deep {
		for j := 0; j < 5; j++ {
			ext := []string{".teal", ".teal", ".txt", ".teal", ".tealx"}[j]
			n := d + "a" + string(rune('0'+j)) + ext
			t := lines[(k+i*j)%len(lines)] + "\nb q\nint 1\n"
			names, texts = append(names, n), append(texts, t)
			if ext == ".teal" {
				wn, wt = append(wn, n), append(wt, t)
			}
		}
	}
	p := v.Tree(names, texts)
	for i := range wn {
		wn[i] = p + "/" + wn[i]
	}
	scan(p, wn, wt)
}

// CheckLongFile: a file of up to 100 lines, each with a diagnostic, one of them of any kind, behind nothing, 450 comments, 1100 empty lines or a
// comment of 70000 bytes.
func CheckLongFile() {
	n := []int{10, 40, 100}[v.Pick("n", 3)]
	pad := []string{"", strings.Repeat("// comment\n", 450), strings.Repeat("\n", 1100), "//" + strings.Repeat("x", 70000) + "\n"}[v.Pick("pad", 4)]
	at := v.Pick("at", 3) * (n - 1) / 2
	t := ""
	for i := 0; i < n; i++ {
		if i == at {
			t += "  " + lines[v.Pick("line", len(lines))] + "\n"
		} else {
			t += lines[3+i%3] + "\n"
		}
	}
	t = pad + t
	p := v.Tree([]string{"a.teal"}, []string{t}) + "/a.teal"
	scan(p, []string{p}, []string{t})
}

var places = []string{".git/", "_/", "a b/", "node_modules/", "testdata/", "vendor/", "x.teal/", "é/", "long_name_of_a_folder/", "A/"}

var files = []string{".a.teal", "..teal", "a.b.teal", "a_test.teal", "~a.teal", "é.teal", "a%20b.teal", "#a#.teal", "a.teal", "A.teal"}

// CheckPlaces: a folder whose only file has one of ten names and is in a folder of one of ten names.
func CheckPlaces() {
	n := places[v.Pick("place", len(places))] + files[v.Pick("file", len(files))]
	t := "b q\nint 1\n"
	p := v.Tree([]string{n}, []string{t})
	scan(p, []string{p + "/" + n}, []string{t})
}
