package genchk

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Compiler is the generator with its stand-in Thrift front end, built by run.sh.
func Compiler() string { return filepath.Join(os.Getenv("VERIF_WORK"), "gocompiler") }

// Run gives the schema to the generator, which writes below dir. It returns what went wrong.
func Run(s *Schema, dir string) error {
	// what it may use is limited, as a generator that does not end may write without end
	cmd := exec.Command("/bin/sh", "-c", `ulimit -t 5; ulimit -f 65536; ulimit -v 4000000; exec "$0" "$@"`, Compiler(), dir)
	cmd.Stdin = strings.NewReader(s.Encode())
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	// gofmt only lays the code out: a stand-in that does nothing saves its time
	cmd.Env = append(os.Environ(), "PATH="+filepath.Join(os.Getenv("VERIF_WORK"), "bin")+":"+os.Getenv("PATH"))
	if err := cmd.Start(); err != nil {
		panic("check error: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Errorf("the generator stops: %v: %s", err, clip(out.String()))
		}
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		<-done
		return fmt.Errorf("the generator does not end")
	}
	return nil
}

func clip(s string) string {
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Checked is the type-checked output of one schema.
type Checked struct {
	Pkgs    map[string]*types.Package // by import path
	Remotes int
	Err     error  // the first complaint of the compiler about a package
	RemErr  error  // ... about a command
	Source  string // its lines
}

var (
	fset     = token.NewFileSet()
	baseOnce sync.Once
	baseMu   sync.Mutex
	base     types.Importer
)

type localImporter struct {
	dir  string
	pkgs map[string]*types.Package
	busy map[string]bool
	c    *Checked
}

func (l *localImporter) Import(path string) (*types.Package, error) {
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	if st, err := os.Stat(filepath.Join(l.dir, path)); err == nil && st.IsDir() {
		return l.load(path)
	}
	return baseImport(path)
}

func baseImport(path string) (*types.Package, error) {
	baseOnce.Do(func() {
		build.Default.GOPATH = os.Getenv("GOPATH")
		base = importer.ForCompiler(fset, "source", nil)
	})
	baseMu.Lock()
	defer baseMu.Unlock()
	return base.Import(path)
}

// load checks the package at an import path below dir as the Go compiler would.
func (l *localImporter) load(path string) (*types.Package, error) {
	if l.busy[path] {
		return nil, fmt.Errorf("import cycle not allowed: %s", path)
	}
	l.busy[path] = true
	files, _ := filepath.Glob(filepath.Join(l.dir, path, "*.go"))
	sort.Strings(files)
	var asts []*ast.File
	for _, f := range files {
		// the go tool leaves some out because of their names
		if ok, err := build.Default.MatchFile(filepath.Split(f)); err == nil && !ok || strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.AllErrors)
		if err != nil {
			return nil, l.fail(path, err, f)
		}
		// again with the shared positions, only when it parses
		a, _ = parser.ParseFile(fset, f, nil, 0)
		asts = append(asts, a)
	}
	if len(asts) == 0 {
		return nil, fmt.Errorf("no Go files in %s", path)
	}
	var first error
	conf := types.Config{Importer: l, Error: func(err error) {
		if first == nil {
			first = err
		}
	}}
	p, err := conf.Check(path, fset, asts, nil)
	if first == nil {
		first = err
	}
	if first != nil {
		at := ""
		if te, ok := first.(types.Error); ok {
			at = fset.Position(te.Pos).Filename
		}
		return nil, l.fail(path, first, at)
	}
	l.pkgs[path] = p
	return p, nil
}

func (l *localImporter) fail(path string, err error, file string) error {
	msg := strings.Replace(err.Error(), l.dir+"/", "", -1)
	if l.c.Source == "" {
		// the line complained about
		var line int
		if i := strings.Index(msg, ".go:"); i > 0 {
			fmt.Sscanf(msg[i+4:], "%d", &line)
		}
		if b, e := os.ReadFile(file); e == nil {
			ls := strings.Split(string(b), "\n")
			if line > 0 && line <= len(ls) {
				l.c.Source = strings.TrimSpace(ls[line-1])
			}
		}
	}
	return fmt.Errorf("package %s: %s", path, clip(msg))
}

// Check type checks everything the generator wrote below dir for the schema.
func Check(s *Schema, dir string, remotes bool) *Checked {
	c := &Checked{}
	l := &localImporter{dir: dir, pkgs: map[string]*types.Package{}, busy: map[string]bool{}, c: c}
	c.Pkgs = l.pkgs
	for _, p := range s.Programs {
		path := p.Import()
		pk, err := l.Import(path)
		if err != nil {
			c.Err = err
			return c
		}
		if want := p.Package(); want == "" && len(s.Programs) > 1 && pk.Name() == "main" || want != "" && pk.Name() != want {
			c.Err = fmt.Errorf("the package at %s is called %s", path, pk.Name())
			return c
		}
		for _, v := range p.Services {
			if pk.Scope().Lookup("I"+GoName(v.Name)) == nil {
				c.Err = fmt.Errorf("package %s has no interface I%s for service %s", path, GoName(v.Name), v.Name)
				return c
			}
		}
	}
	if !remotes {
		return c
	}
	for _, p := range s.Programs {
		for _, v := range p.Services {
			c.Remotes++
			if err := l.remote(commandOf(dir, p.Import(), v.Name)); err != nil {
				c.RemErr = err
				return c
			}
		}
	}
	return c
}

// commandOf finds a service's command: names that the go tool would ignore are written
// differently.
func commandOf(dir, pkg, service string) (path, file string) {
	for _, n := range []string{service, "X" + service, service + "_service", "X" + service + "_service"} {
		path, file = pkg+"/"+n, n+"-remote.go"
		if _, err := os.Stat(filepath.Join(dir, path, file)); err == nil {
			return path, file
		}
	}
	return pkg + "/" + service, service + "-remote.go"
}

// StrictCommands: the recorded finding about the imports of commands counts.
var StrictCommands bool

// remote checks a service's command. The imports that the generator always writes are not
// always used: that is a recorded finding, and anything else is not.
func (l *localImporter) remote(path, file string) error {
	f := filepath.Join(l.dir, path, file)
	a, err := parser.ParseFile(fset, f, nil, 0)
	if err != nil {
		return l.fail(path, err, f)
	}
	var first error
	conf := types.Config{Importer: l, Error: func(err error) {
		if te, ok := err.(types.Error); ok && !StrictCommands && strings.HasSuffix(te.Msg, "imported and not used") {
			if strings.Contains(te.Msg, `"math"`) || strings.Contains(te.Msg, `"strconv"`) {
				return
			}
		}
		if first == nil {
			first = err
		}
	}}
	p, _ := conf.Check(path, fset, []*ast.File{a}, nil)
	if first == nil && p != nil && p.Name() != "main" {
		first = fmt.Errorf("the command is package %s", p.Name())
	}
	if first != nil {
		return l.fail(path, first, f)
	}
	return nil
}
