// Package instr turns the current sources of the code under test into a
// build overlay: a scheduling point before every statement, and imports of
// nondeterministic packages redirected to simulated ones.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// redirected imports: path -> (simulated path, default name)
var redirect = map[string][2]string{
	"sync":                               {"verifsim/simsync", "sync"},
	"os":                                 {"verifsim/simos", "os"},
	"os/exec":                            {"verifsim/simexec", "exec"},
	"os/signal":                          {"verifsim/simsignal", "signal"},
	"crypto/rand":                        {"verifsim/simcrand", "rand"},
	"runtime":                            {"verifsim/simruntime", "runtime"},
	"net":                                {"verifsim/simnet", "net"},
	"github.com/ikawaha/kagome-dict/ipa": {"verifsim/simdict/ipa", "ipa"},
	"github.com/ikawaha/kagome-dict/uni": {"verifsim/simdict/uni", "uni"},
}

// Result describes an overlay.
type Result struct {
	Overlay  string // path of the overlay file
	Sites    int
	Files    []string
	SiteFile string
	Redirect map[string]int // how many imports of each kind were redirected
}

// patches of the standard library and the runtime: what remains random or
// real there is put under the simulator's control.
var patches = []struct{ file, old, new, tail string }{
	// the HTTP server opens its listening socket through the simulator
	{"net/http/server.go", `net.Listen("tcp", addr)`, `SimListen("tcp", addr)`,
		"\n// SimListen is replaced by the simulator.\nvar SimListen = net.Listen\n"},
	// bubbles without a test of their own
	{"testing/synctest/synctest.go", "package synctest", "package synctest",
		"\n// SimRun runs f in a bubble.\nfunc SimRun(f func()) { synctest.Run(f) }\n\n// SimInside tells whether the caller is in a bubble.\nfunc SimInside() bool { return synctest.IsInBubble() }\n"},
	// the choice among ready cases of a select
	{"runtime/select.go", `cheaprandn(uint32(norder + 1))`, `simrandn(uint32(norder + 1))`, ""},
	// map seeds and iteration order
	{"runtime/rand.go", "func maps_rand() uint64 {\n\treturn rand()", "func maps_rand() uint64 {\n\treturn simrand()", `
var simState uint64 = 0x1234567

// SimSeed sets the state of the simulated randomness.
func SimSeed(s uint64) { simState = s }

//go:linkname simrand
func simrand() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simrandn(n uint32) uint32 { return uint32(simrand() % uint64(n)) }
`},
	// random numbers
	{"math/rand/rand.go", "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simrand\n", ""},
	{"math/rand/v2/rand.go", "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simrand\n", ""},
	{"hash/maphash/maphash.go", "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simrand\n", ""},
	// locks inside the standard library (package log, pipes): a goroutine that
	// has to wait tells the simulator, which may be holding the owner back
	{"runtime/sema.go", "func internal_sync_runtime_SemacquireMutex(addr *uint32, lifo bool, skipframes int) {", `func internal_sync_runtime_SemacquireMutex(addr *uint32, lifo bool, skipframes int) {
	if SimSem != nil && getg().bubble != nil && SimSem(addr) {
		return
	}`, "\n// SimSem is set by the simulator.\nvar SimSem func(*uint32) bool\n"},
	{"runtime/sema.go", "func sync_runtime_SemacquireRWMutexR(addr *uint32, lifo bool, skipframes int) {", `func sync_runtime_SemacquireRWMutexR(addr *uint32, lifo bool, skipframes int) {
	if SimSem != nil && getg().bubble != nil && SimSem(addr) {
		return
	}`, ""},
	{"runtime/sema.go", "func sync_runtime_SemacquireRWMutex(addr *uint32, lifo bool, skipframes int) {", `func sync_runtime_SemacquireRWMutex(addr *uint32, lifo bool, skipframes int) {
	if SimSem != nil && getg().bubble != nil && SimSem(addr) {
		return
	}`, ""},
	// their fairness must not depend on the real time
	{"internal/sync/mutex.go", "starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs", "starving = false", ""},
	// hash keys
	{"runtime/proc.go", "randinit()", "startupRand = simStartup[:]; randinit()",
		"\nvar simStartup = [16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}\n"},
	// output and exit of the convenience functions
	{"fmt/print.go", "os.Stdout", "SimOut()", "\n// SimOut is replaced by the simulator.\nvar SimOut = func() io.Writer { return os.Stdout }\n"},
	{"fmt/scan.go", "os.Stdin", "SimIn()", "\n// SimIn is replaced by the simulator.\nvar SimIn = func() io.Reader { return os.Stdin }\n"},
	{"flag/flag.go", "\t\treturn os.Stderr\n", "\t\treturn SimErr()\n", "\n// SimErr is replaced by the simulator.\nvar SimErr = func() io.Writer { return os.Stderr }\n"},
	{"flag/flag.go", "\tos.Exit(", "\tSimExit(", "\n// SimExit is replaced by the simulator.\nvar SimExit = os.Exit\n"},
	{"log/log.go", "\tos.Exit(", "\tSimExit(", "\n// SimExit is replaced by the simulator.\nvar SimExit = os.Exit\n"},
	// files that libraries outside the code under test read: disk faults
	{"os/file.go", "func (f *File) Read(b []byte) (n int, err error) {", `func (f *File) Read(b []byte) (n int, err error) {
	if SimRead != nil && f != nil && len(b) > 0 {
		var serr error
		if b, serr = SimRead(f, b, -1); serr != nil {
			return 0, f.wrapErr("read", serr)
		}
	}`, `
// SimRead is set by the simulator: it shortens a read or makes it fail.
var SimRead func(f *File, b []byte, off int64) ([]byte, error)

// SimOpen is set by the simulator: it makes opening a file fail.
var SimOpen func(name string) error
`},
	{"os/file.go", "func (f *File) ReadAt(b []byte, off int64) (n int, err error) {", `func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if SimRead != nil && f != nil && len(b) > 0 {
		if _, serr := SimRead(f, b, off); serr != nil {
			return 0, f.wrapErr("read", serr)
		}
	}`, ""},
	{"os/file.go", "\ttestlog.Open(name)\n", `	testlog.Open(name)
	if SimOpen != nil {
		if err := SimOpen(name); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
	}
`, ""},
	// pools of the standard library: no random drops, and no reuse in race mode,
	// where reuse would order unrelated goroutines
	{"sync/pool.go", "if runtime_randn(4) == 0 {", "if race.Enabled {", ""},
}

// SimDir is where the simulator's sources are.
var SimDir string

var known = map[string]map[string]bool{}

// names returns what a package of the simulator exports.
func names(pkg string) (map[string]bool, error) {
	if m := known[pkg]; m != nil {
		return m, nil
	}
	m := map[string]bool{}
	list, err := filepath.Glob(filepath.Join(SimDir, strings.TrimPrefix(pkg, "verifsim/"), "*.go"))
	if err != nil || len(list) == 0 {
		return nil, fmt.Errorf("no sources of %s: %v", pkg, err)
	}
	for _, name := range list {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						m[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	known[pkg] = m
	return m, nil
}

type edit struct {
	off  int
	end  int
	text string
}

// Generate writes the overlay for repo to out.
func Generate(repo, goroot, out string) (*Result, error) {
	var files, tests []string
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := fi.Name()
		if fi.IsDir() {
			if path != repo && (strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			if path != repo {
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir // another module
				}
			}
			return nil
		}
		if strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			files = append(files, path)
		} else if strings.HasSuffix(name, "_test.go") {
			tests = append(tests, path)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	src := filepath.Join(out, "src")
	if err := os.MkdirAll(src, 0o755); err != nil {
		return nil, err
	}
	res := &Result{Redirect: map[string]int{}}
	overlay := map[string]string{}
	for _, f := range tests {
		overlay[f] = "" // not there: the command's package has another name here
	}
	var sites []string
	sites = append(sites, "-")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		rel, _ := filepath.Rel(repo, f)
		text, err := rewrite(rel, b, &sites, res.Redirect)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(src, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, text, 0o644); err != nil {
			return nil, err
		}
		overlay[f] = dst
		res.Files = append(res.Files, rel)
	}
	for _, p := range patches {
		path := filepath.Join(goroot, "src", p.file)
		from := path
		if f, ok := overlay[path]; ok {
			from = f // patched before
		}
		b, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		t := string(b)
		if !strings.Contains(t, p.old) {
			return nil, fmt.Errorf("%s: nothing to patch", p.file)
		}
		t = strings.ReplaceAll(t, p.old, p.new) + p.tail
		dst := filepath.Join(src, "std__"+strings.ReplaceAll(p.file, "/", "__"))
		if err := os.WriteFile(dst, []byte(t), 0o644); err != nil {
			return nil, err
		}
		overlay[path] = dst
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	res.Overlay = filepath.Join(out, "overlay.json")
	if err := os.WriteFile(res.Overlay, j, 0o644); err != nil {
		return nil, err
	}
	res.Sites = len(sites) - 1
	res.SiteFile = filepath.Join(out, "sites.txt")
	return res, os.WriteFile(res.SiteFile, []byte(strings.Join(sites, "\n")), 0o644)
}

func rewrite(rel string, src []byte, sites *[]string, count map[string]int) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	yields := 0
	yield := func(p token.Pos) string {
		yields++
		*sites = append(*sites, fmt.Sprintf("%s:%d", rel, fset.Position(p).Line))
		return fmt.Sprintf("zz_simrt.Y(%d); ", len(*sites)-1)
	}
	clauses := map[*ast.BlockStmt]bool{}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			edits = append(edits, edit{off: off(s.Pos()), end: off(s.Pos()), text: yield(s.Pos())})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			clauses[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[n.Body] = true
		case *ast.SelectStmt:
			clauses[n.Body] = true
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				p := off(n.Body.Lbrace) + 1
				edits = append(edits, edit{off: p, end: p, text: " " + yield(n.Body.Lbrace)})
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				p := off(n.Body.Lbrace) + 1
				edits = append(edits, edit{off: p, end: p, text: " " + yield(n.Body.Lbrace)})
			}
		case *ast.BlockStmt:
			if !clauses[n] {
				stmts(n.List)
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	extra := ""
	for _, im := range f.Imports {
		path, err := strconv.Unquote(im.Path.Value)
		if err != nil {
			return nil, err
		}
		r, ok := redirect[path]
		if !ok {
			continue
		}
		own, err := names(r[0])
		if err != nil {
			return nil, err
		}
		count[path]++
		local := r[1]
		if im.Name != nil {
			local = im.Name.Name
		}
		// what the simulator does not define is still taken from the real package
		std := "zz_std_" + r[1]
		simUsed, stdUsed := false, false
		ast.Inspect(f, func(n ast.Node) bool {
			sel, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := sel.X.(*ast.Ident)
			if !ok || x.Name != local || x.Obj != nil {
				return true
			}
			if own[sel.Sel.Name] {
				simUsed = true
				return true
			}
			stdUsed = true
			edits = append(edits, edit{off: off(x.Pos()), end: off(x.End()), text: std})
			return true
		})
		if stdUsed {
			extra += fmt.Sprintf("; import %s %q", std, path)
		}
		text := strconv.Quote(r[0])
		start := im.Path.Pos()
		switch {
		case !simUsed && local != "." && local != "_":
			text = "_ " + text
			start = im.Pos()
		case im.Name == nil:
			text = r[1] + " " + text
		}
		edits = append(edits, edit{off: off(start), end: off(im.Path.End()), text: text})
	}
	tail := ""
	tail, edits = globals(rel, f, fset, src, edits)
	pkgEnd := off(f.Name.End())
	if f.Name.Name == "main" {
		edits = append(edits, edit{off: off(f.Name.Pos()), end: pkgEnd, text: "kagomecli"})
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				edits = append(edits, edit{off: off(fd.Name.Pos()), end: off(fd.Name.End()), text: "Main"})
			}
		}
	}
	if yields > 0 || tail != "" {
		extra += "; import zz_simrt \"verifsim/simrt\""
	}
	edits = append(edits, edit{off: pkgEnd, end: pkgEnd, text: extra})
	out, err := apply(rel, src, 0, len(src), edits)
	return append(out, tail...), err
}

// apply returns src[start:end] with the edits that lie inside.
func apply(rel string, src []byte, start, end int, edits []edit) ([]byte, error) {
	edits = append([]edit(nil), edits...)
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	last := start
	for _, e := range edits {
		if e.off < start || e.end > end {
			continue
		}
		if e.off < last {
			return nil, fmt.Errorf("%s: overlapping edits", rel)
		}
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.end
	}
	return append(out, src[last:end]...), nil
}

// globals makes every run start with freshly initialised package variables:
// their initialisers and the init functions are repeated inside each run, in
// the order in which the program performed them when it started.
func globals(rel string, f *ast.File, fset *token.FileSet, src []byte, edits []edit) (string, []edit) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var b strings.Builder
	var more []edit
	render := func(n ast.Node) string {
		t, err := apply(rel, src, off(n.Pos()), off(n.End()), edits)
		if err != nil {
			return ""
		}
		return string(t)
	}
	embedded := func(gs ...*ast.CommentGroup) bool {
		for _, g := range gs {
			if g == nil {
				continue
			}
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:") {
					return true
				}
			}
		}
		return false
	}
	inits := 0
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				if embedded(v.Doc) || (embedded(d.Doc) && len(d.Specs) == 1) {
					continue
				}
				if len(v.Values) == len(v.Names) {
					for i, n := range v.Names {
						if n.Name == "_" {
							continue
						}
						id := fmt.Sprintf("%s:%s", rel, n.Name)
						text := render(v.Values[i])
						if text == "" {
							continue
						}
						typ := ""
						if v.Type != nil {
							typ = "[" + render(v.Type) + "]"
						}
						fmt.Fprintf(&b, "func init() { zz_simrt.OnReset(%q, func() { %s = %s }) }\n", id, n.Name, text)
						p, e := off(v.Values[i].Pos()), off(v.Values[i].End())
						more = append(more, edit{off: p, end: p, text: fmt.Sprintf("zz_simrt.Seq%s(%q, ", typ, id)},
							edit{off: e, end: e, text: ")"})
					}
					continue
				}
				var list, zero []string
				for _, n := range v.Names {
					list = append(list, n.Name)
					if n.Name != "_" && v.Type != nil {
						zero = append(zero, fmt.Sprintf("%s = *new(%s)", n.Name, render(v.Type)))
					}
				}
				switch {
				case len(v.Values) == 1:
					fmt.Fprintf(&b, "func init() { zz_simrt.OnReset(\"\", func() { %s = %s }) }\n", strings.Join(list, ", "), render(v.Values[0]))
				case len(v.Values) == 0 && len(zero) > 0:
					fmt.Fprintf(&b, "func init() { zz_simrt.OnReset(\"0\", func() { %s }) }\n", strings.Join(zero, "; "))
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				name := fmt.Sprintf("zz_init_%s_%d", strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(rel), inits)
				inits++
				more = append(more, edit{off: off(d.Name.Pos()), end: off(d.Name.End()), text: name})
				fmt.Fprintf(&b, "func init() { zz_simrt.OnReset(\"\", %s); %s() }\n", name, name)
			}
		}
	}
	if b.Len() == 0 {
		return "", edits
	}
	return "\n" + b.String(), append(edits, more...)
}
