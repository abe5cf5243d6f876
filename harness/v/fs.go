package v

import (
	"errors"
	"flag"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// Symbolic tells the symbolic execution from the native one.
func Symbolic() bool { return false }

// a model of a folder, used by the symbolic execution
var (
	treeNames []string
	treeTexts []string
)

const treeRoot = "/zzverif/d"

// Tree is the path of a folder with files of these names (in lexical order, with / between the parts) and texts, gone
// when the harness ends.
func Tree(names, texts []string) string {
	if Symbolic() {
		treeNames, treeTexts = names, texts
		return treeRoot
	}
	d := filepath.Dir(File(""))
	d = filepath.Join(d, "d")
	if err := os.Mkdir(d, 0o700); err != nil {
		panic(err)
	}
	for i, n := range names {
		p := filepath.Join(d, filepath.FromSlash(n))
		if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(texts[i]), 0o600); err != nil {
			panic(err)
		}
	}
	return d
}

type info struct {
	name string
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return 0 }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o700
	}
	return 0o600
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// Stat models os.Stat.
func Stat(path string) (fs.FileInfo, error) {
	if path == treeRoot {
		return info{"d", true}, nil
	}
	for _, n := range treeNames {
		if path == treeRoot+"/"+n {
			return info{base(n), false}, nil
		}
		if strings.HasPrefix(treeRoot+"/"+n, path+"/") && len(path) > len(treeRoot) {
			return info{base(path), true}, nil
		}
	}
	return nil, errors.New("stat " + path + ": no such file or directory")
}

// ReadFile models os.ReadFile.
func ReadFile(path string) ([]byte, error) {
	for i, n := range treeNames {
		if path == treeRoot+"/"+n {
			return []byte(treeTexts[i]), nil
		}
	}
	return nil, errors.New("open " + path + ": no such file or directory")
}

// WalkDir models filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	err := walk(root, root == treeRoot || isDir(root), fn)
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func isDir(p string) bool {
	i, err := Stat(p)
	return err == nil && i.IsDir()
}

func walk(path string, dir bool, fn fs.WalkDirFunc) error {
	if err := fn(path, info{base(path), dir}, nil); err != nil || !dir {
		if err == fs.SkipDir && dir {
			return nil
		}
		return err
	}
	last := ""
	for _, n := range treeNames {
		full := treeRoot + "/" + n
		if !strings.HasPrefix(full, path+"/") {
			continue
		}
		rest := full[len(path)+1:]
		sub := false
		if i := strings.Index(rest, "/"); i >= 0 {
			rest, sub = rest[:i], true
		}
		if rest == last {
			continue
		}
		last = rest
		if err := walk(path+"/"+rest, sub, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Run runs a program's main function with these arguments and is what it writes to its standard output.
func Run(args []string, main func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	oldArgs, oldOut, oldFlags := os.Args, os.Stdout, flag.CommandLine
	os.Args = append([]string{"program"}, args...)
	os.Stdout = w
	flag.CommandLine = flag.NewFlagSet("program", flag.PanicOnError)
	defer func() {
		os.Args, os.Stdout, flag.CommandLine = oldArgs, oldOut, oldFlags
	}()
	func() {
		defer w.Close()
		main()
	}()
	return <-done
}
