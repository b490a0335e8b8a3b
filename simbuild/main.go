// simbuild writes the build overlay for the simulator: instrumented copies of
// /repo's non-test Go files and patched copies of a few standard library files.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

var replace = map[string]string{}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simbuild: "+f+"\n", a...)
	os.Exit(3)
}

func write(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(p); err == nil && string(old) == s {
		return
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

type edit struct{ old, new string }

func patch(out, goroot, rel string, edits ...edit) {
	p := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, e := range edits {
		if n := strings.Count(s, e.old); n != 1 {
			die("%s: %d matches of %q", rel, n, e.old)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	o := filepath.Join(out, "std", rel)
	write(o, s)
	replace[p] = o
}

func add(out, goroot, rel, content string) {
	o := filepath.Join(out, "std", rel)
	write(o, content)
	replace[filepath.Join(goroot, "src", rel)] = o
}

func stdlib(out, goroot, ovdir string) {
	rd := func(n string) string {
		b, err := os.ReadFile(filepath.Join(ovdir, n))
		if err != nil {
			die("%v", err)
		}
		return string(b)
	}
	add(out, goroot, "os/zz_sim.go", rd("os_sim.go.txt"))
	patch(out, goroot, "os/file_unix.go",
		edit{"type file struct {\n", "type file struct {\n\tsim SimFile\n"},
		edit{"func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", `func openFileNolog(name string, flag int, perm FileMode) (*File, error) {
	if h := SimHook; h != nil {
		if sf, ok, err := h.Open(name, flag, perm); ok {
			if err != nil {
				return nil, &PathError{Op: "open", Path: name, Err: err}
			}
			return simWrap(sf, name), nil
		}
	}
`},
		edit{"func (file *file) close() error {\n\tif file == nil {\n\t\treturn syscall.EINVAL\n\t}\n", `func (file *file) close() error {
	if file == nil {
		return syscall.EINVAL
	}
	if file.sim != nil {
		if e := file.sim.Close(); e != nil {
			return &PathError{Op: "close", Path: file.name, Err: e}
		}
		return nil
	}
`},
		edit{"func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n", "func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n\tif f.sim != nil {\n\t\treturn f.sim.Seek(offset, whence)\n\t}\n"},
		edit{"func rename(oldname, newname string) error {\n", "func rename(oldname, newname string) error {\n\tif h := SimHook; h != nil {\n\t\tif ok, err := h.Rename(oldname, newname); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn &LinkError{\"rename\", oldname, newname, err}\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
		edit{"func Remove(name string) error {\n", "func Remove(name string) error {\n\tif h := SimHook; h != nil {\n\t\tif ok, err := h.Remove(name); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn &PathError{Op: \"remove\", Path: name, Err: err}\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
		edit{"func Truncate(name string, size int64) error {\n", "func Truncate(name string, size int64) error {\n\tif h := SimHook; h != nil {\n\t\tif ok, err := h.Truncate(name, size); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn &PathError{Op: \"truncate\", Path: name, Err: err}\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
		edit{"func tempDir() string {\n", "func tempDir() string {\n\tif SimHook != nil {\n\t\treturn \"/sim/tmp\"\n\t}\n"},
	)
	patch(out, goroot, "os/file_posix.go",
		edit{"func (f *File) read(b []byte) (n int, err error) {\n", "func (f *File) read(b []byte) (n int, err error) {\n\tif f.sim != nil {\n\t\treturn f.sim.Read(b)\n\t}\n"},
		edit{"func (f *File) pread(b []byte, off int64) (n int, err error) {\n", "func (f *File) pread(b []byte, off int64) (n int, err error) {\n\tif f.sim != nil {\n\t\treturn f.sim.Pread(b, off)\n\t}\n"},
		edit{"func (f *File) write(b []byte) (n int, err error) {\n", "func (f *File) write(b []byte) (n int, err error) {\n\tif f.sim != nil {\n\t\treturn f.sim.Write(b)\n\t}\n"},
		edit{"func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n", "func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n\tif f.sim != nil {\n\t\treturn f.sim.Pwrite(b, off)\n\t}\n"},
		edit{"\tif err := f.checkValid(\"truncate\"); err != nil {\n\t\treturn err\n\t}\n", "\tif err := f.checkValid(\"truncate\"); err != nil {\n\t\treturn err\n\t}\n\tif f.sim != nil {\n\t\tif e := f.sim.Truncate(size); e != nil {\n\t\t\treturn f.wrapErr(\"truncate\", e)\n\t\t}\n\t\treturn nil\n\t}\n"},
		edit{"\tif err := f.checkValid(\"sync\"); err != nil {\n\t\treturn err\n\t}\n", "\tif err := f.checkValid(\"sync\"); err != nil {\n\t\treturn err\n\t}\n\tif f.sim != nil {\n\t\tif e := f.sim.Sync(); e != nil {\n\t\t\treturn f.wrapErr(\"sync\", e)\n\t\t}\n\t\treturn nil\n\t}\n"},
		edit{"func (f *File) chmod(mode FileMode) error {\n\tif err := f.checkValid(\"chmod\"); err != nil {\n\t\treturn err\n\t}\n", "func (f *File) chmod(mode FileMode) error {\n\tif err := f.checkValid(\"chmod\"); err != nil {\n\t\treturn err\n\t}\n\tif f.sim != nil {\n\t\treturn nil\n\t}\n"},
		edit{"func chmod(name string, mode FileMode) error {\n", "func chmod(name string, mode FileMode) error {\n\tif h := SimHook; h != nil {\n\t\tif ok, err := h.Chmod(name, mode); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn &PathError{Op: \"chmod\", Path: name, Err: err}\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
	)
	patch(out, goroot, "os/file.go",
		edit{"func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n\tif h := SimHook; h != nil {\n\t\tif ok, err := h.Mkdir(name, perm); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn &PathError{Op: \"mkdir\", Path: name, Err: err}\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
	)
	patch(out, goroot, "os/path.go",
		edit{"func RemoveAll(path string) error {\n", "func RemoveAll(path string) error {\n\tif h := SimHook; h != nil {\n\t\tif ok, err := h.Remove(path); ok {\n\t\t\tif err != nil && !IsNotExist(err) {\n\t\t\t\treturn &PathError{Op: \"remove\", Path: path, Err: err}\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
	)
	patch(out, goroot, "os/stat_unix.go",
		edit{"\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n", "\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n\tif f.sim != nil {\n\t\tfi, err := f.sim.Stat()\n\t\tif err != nil {\n\t\t\treturn nil, f.wrapErr(\"stat\", err)\n\t\t}\n\t\treturn fi, nil\n\t}\n"},
		edit{"func statNolog(name string) (FileInfo, error) {\n", "func statNolog(name string) (FileInfo, error) {\n\tif h := SimHook; h != nil {\n\t\tif fi, ok, err := h.Stat(name, false); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn nil, &PathError{Op: \"stat\", Path: name, Err: err}\n\t\t\t}\n\t\t\treturn fi, nil\n\t\t}\n\t}\n"},
		edit{"func lstatNolog(name string) (FileInfo, error) {\n", "func lstatNolog(name string) (FileInfo, error) {\n\tif h := SimHook; h != nil {\n\t\tif fi, ok, err := h.Stat(name, true); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn nil, &PathError{Op: \"lstat\", Path: name, Err: err}\n\t\t\t}\n\t\t\treturn fi, nil\n\t\t}\n\t}\n"},
	)
	patch(out, goroot, "os/getwd.go",
		edit{"func Getwd() (dir string, err error) {\n", "func Getwd() (dir string, err error) {\n\tif h := SimHook; h != nil {\n\t\tif d, ok, e := h.Getwd(); ok {\n\t\t\treturn d, e\n\t\t}\n\t}\n"},
	)
	patch(out, goroot, "os/proc.go",
		edit{"func Exit(code int) {\n", "func Exit(code int) {\n\tif h := SimHook; h != nil {\n\t\th.Exit(code)\n\t}\n"},
	)
	patch(out, goroot, "os/zero_copy_linux.go",
		edit{"\tif f.appendMode {\n", "\tif f.appendMode || f.sim != nil {\n"},
	)
	patch(out, goroot, "os/tempfile.go",
		edit{"func nextRandom() string {\n", "func nextRandom() string {\n\tif h := SimHook; h != nil {\n\t\treturn strconv.FormatUint(h.NextRandom(), 10)\n\t}\n"},
	)
	patch(out, goroot, "time/time.go",
		edit{"\nfunc Now() Time {\n", "\n// SimNow is the simulator's clock.\nvar SimNow func() (sec int64, nsec int64)\n\nfunc Now() Time {\n\tif h := SimNow; h != nil {\n\t\ts, n := h()\n\t\treturn Unix(s, n)\n\t}\n"},
	)
	patch(out, goroot, "sync/mutex.go",
		edit{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif h := SimLock; h != nil && h(m.mu.TryLock) {\n\t\treturn\n\t}\n"},
		edit{"type Mutex struct {\n", "// SimLock acquires a lock for a simulated client (false: not a client).\nvar SimLock func(try func() bool) bool\n\ntype Mutex struct {\n"},
	)
	patch(out, goroot, "sync/rwmutex.go",
		edit{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif h := SimLock; h != nil && h(rw.TryRLock) {\n\t\treturn\n\t}\n"},
		edit{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif h := SimLock; h != nil && h(rw.TryLock) {\n\t\treturn\n\t}\n"},
	)
	patch(out, goroot, "sync/pool.go",
		edit{"if runtime_randn(4) == 0 {", "if !SimPoolKeep {"},
		edit{"func runtime_randn(n uint32) uint32", "func runtime_randn(n uint32) uint32\n\nvar _ = runtime_randn\n\n// SimPoolKeep lets pools keep what is put into them (with the race detector; they always do without).\nvar SimPoolKeep bool"},
	)
	patch(out, goroot, "runtime/rand.go",
		edit{"func maps_rand() uint64 {\n", `func maps_rand() uint64 {
	if SimMapSeed != 0 {
		SimMapSeed = SimMapSeed*6364136223846793005 + 1442695040888963407
		x := SimMapSeed ^ SimMapSeed>>29
		x *= 0xbf58476d1ce4e5b9
		return x ^ x>>32
	}
`},
	)
	patch(out, goroot, "runtime/malloc.go",
		edit{"func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n\tSimAllocBytes += uint64(size)\n"},
	)
	add(out, goroot, "runtime/zz_sim.go", `package runtime

// SimAllocBytes counts the bytes allocated.
var SimAllocBytes uint64

// SimMapSeed drives map seeds and iteration order when non-zero.
var SimMapSeed uint64

// SimGoid returns the current goroutine's id.
func SimGoid() uint64 { return getg().goid }

// SimSemacquire and SimSemrelease park and release without giving the race
// detector a happens-before edge.
func SimSemacquire(s *uint32) { semacquire(s) }
func SimSemrelease(s *uint32) { semrelease(s) }
`)
	patch(out, goroot, "internal/runtime/maps/runtime_alg.go",
		edit{"\t\thashkey[i] = uintptr(bootstrapRand())\n", "\t\thashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))\n"},
		edit{"\t\tkey[i] = bootstrapRand()\n", "\t\tkey[i] = 0xbf58476d1ce4e5b9 * uint64(i+1)\n"},
	)
}

type ins struct {
	off int
	s   string
}

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"f"`
	Line int    `json:"l"`
}

var sites []siteInfo

// instrument adds steps before every statement, or only to loop bodies and
// functions (dependencies).
func instrument(repo, out, rel string, loops bool) {
	p := filepath.Join(repo, rel)
	src, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
	if err != nil {
		die("parse %s: %v", rel, err)
	}
	if b := string(src); strings.Contains(b, "//go:build ignore") {
		return
	}
	var edits []ins
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	edits = append(edits, ins{off(f.Name.End()), "; import simrt__ \"xpdfsim/rt\""})
	cmd := ""
	if d := strings.Split(filepath.ToSlash(rel), "/"); !loops && len(d) == 3 && d[0] == "cmd" && f.Name.Name == "main" {
		// a command becomes a package of its own that the simulator calls
		cmd = d[1]
		edits = append(edits, ins{off(f.Name.Pos()), "sim"})
	}
	n := 0
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			id := len(sites)
			sites = append(sites, siteInfo{id, rel, fset.Position(s.Pos()).Line})
			edits = append(edits, ins{off(s.Pos()), fmt.Sprintf("simrt__.Y(%d); ", id)})
			n++
		}
	}
	if loops {
		body := func(b *ast.BlockStmt, pos token.Pos) {
			if b == nil {
				return
			}
			id := len(sites)
			sites = append(sites, siteInfo{id, filepath.Base(repo) + "/" + rel, fset.Position(pos).Line})
			edits = append(edits, ins{off(b.Lbrace) + 1, fmt.Sprintf(" simrt__.Y(%d); ", id)})
			n++
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch nd := nd.(type) {
			case *ast.ForStmt:
				body(nd.Body, nd.Pos())
			case *ast.RangeStmt:
				body(nd.Body, nd.Pos())
			case *ast.FuncDecl:
				body(nd.Body, nd.Pos())
			}
			return true
		})
	} else {
		ast.Inspect(f, func(nd ast.Node) bool {
			switch nd := nd.(type) {
			case *ast.BlockStmt:
				if !skip[nd] {
					stmts(nd.List)
				}
			case *ast.CaseClause:
				stmts(nd.Body)
			case *ast.CommClause:
				stmts(nd.Body)
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// the body block holds only clauses: do not insert before them
				var body *ast.BlockStmt
				switch x := nd.(type) {
				case *ast.SwitchStmt:
					body = x.Body
				case *ast.TypeSwitchStmt:
					body = x.Body
				case *ast.SelectStmt:
					body = x.Body
				}
				skip[body] = true
			case *ast.ForStmt:
				// empty loop bodies still need a step
				if len(nd.Body.List) == 0 {
					id := len(sites)
					sites = append(sites, siteInfo{id, rel, fset.Position(nd.Pos()).Line})
					edits = append(edits, ins{off(nd.Body.Lbrace) + 1, fmt.Sprintf(" simrt__.Y(%d); ", id)})
					n++
				}
			}
			return true
		})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.s)
		last = e.off
	}
	b.Write(src[last:])
	s := b.String()
	if n == 0 {
		s += "\nvar _ = simrt__.Y\n"
	}
	o := filepath.Join(out, "repo", rel)
	if loops {
		// files of the module cache cannot be overlaid: an instrumented copy
		// of the module replaces it
		write(filepath.Join(out, "dep", rel), s)
		return
	}
	write(o, s)
	if cmd != "" {
		replace[filepath.Join(repo, "zzsimcmd", cmd, filepath.Base(rel))] = o
		cmds[cmd] = true
		return
	}
	replace[p] = o
}

var cmds = map[string]bool{}

var skip = map[*ast.BlockStmt]bool{}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	dep := flag.String("dep", "", "directory of the PDF library")
	ov := flag.String("overlay", "", "")
	flag.Parse()
	goroot := runtime.GOROOT()
	if g := os.Getenv("SIM_GOROOT"); g != "" {
		goroot = g
	}
	stdlib(*out, goroot, *ov)
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		b := fi.Name()
		if fi.IsDir() {
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go") || strings.HasPrefix(b, "_") || strings.HasPrefix(b, ".") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		instrument(*repo, *out, rel, false)
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	imports := ""
	var names []string
	for c := range cmds {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		imports += "\nimport _ \"github.com/mazzegi/xpdf/zzsimcmd/" + c + "\"\n"
		o := filepath.Join(*out, "repo", "cmd", c, "zz_sim.go")
		write(o, "package simmain\n\nimport \"xpdfsim/core\"\n\nfunc init() { core.Commands[\""+c+"\"] = main }\n")
		replace[filepath.Join(*repo, "zzsimcmd", c, "zz_sim.go")] = o
	}
	o := filepath.Join(*out, "commands.go")
	write(o, "package main\n"+imports)
	replace[filepath.Join(filepath.Dir(*ov), "zz_commands.go")] = o
	if *dep != "" {
		es, err := os.ReadDir(*dep)
		if err != nil {
			die("%v", err)
		}
		for _, e := range es {
			if b := e.Name(); !e.IsDir() && strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") {
				instrument(*dep, *out, b, true)
			}
		}
		gm, err := os.ReadFile(filepath.Join(*dep, "go.mod"))
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(*out, "dep", "go.mod"), string(gm))
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	write(filepath.Join(*out, "overlay.json"), string(j))
	sj, _ := json.Marshal(sites)
	write(filepath.Join(*out, "sites.json"), string(sj))

	// go.mod for the simulator, with /repo's requirements
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "module ") {
			l = "module xpdfsim"
		}
		lines = append(lines, l)
	}
	lines = append(lines, "require github.com/mazzegi/xpdf v0.0.0", "replace github.com/mazzegi/xpdf => "+*repo)
	if *dep != "" {
		lines = append(lines, "replace github.com/jung-kurt/gofpdf/v2 => "+filepath.Join(*out, "dep"))
	}
	write(filepath.Join(*out, "go.mod"), strings.Join(lines, "\n")+"\n")
	gs, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	write(filepath.Join(*out, "go.sum"), string(gs))
}
