package core

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
)

const cliFonts = "MonoFont = \"gofont\"\n[[Fonts]]\nName = \"gofont\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"ttf/Go-Regular.ttf\"\n[[Fonts.StyleDefinitions]]\nStyle = \"bold\"\nFilePath = \"/sim/fonts/Go-Bold.ttf\"\n[[Fonts.StyleDefinitions]]\nStyle = \"italic\"\nFilePath = \"../../fonts/Go-Italic.ttf\"\n[[Fonts.StyleDefinitions]]\nStyle = \"bold+italic\"\nFilePath = \"./ttf/Go-Bold-Italic.ttf\"\n"

const cliConf = "/sim/work/fonts/fontdef.toml"

var cliFontFiles = []string{"/sim/work/fonts/ttf/Go-Regular.ttf", "/sim/fonts/Go-Bold.ttf", "/sim/fonts/Go-Italic.ttf", "/sim/work/fonts/ttf/Go-Bold-Italic.ttf"}

func init() {
	register(&Prop{
		ID: "C15", Quick: 1000, Thorough: 40000,
		Rule: "random documents given to the command with random input and output arguments (relative, absolute, none, existing longer output), each run without faults, then with faults of the input, font definition, fonts, images and the output (open, read, create, write, close; short writes), and crashes at random disk operations and inside writes, each followed by another run on the healthy disk; non-trivial: a fault or crash happened; distinct by document, arguments and fault",
		Real: "cmd/xpdf main and everything below it", Stub: "disk (simulated, failing), arguments, exit, working directory, standard output",
		Gen: genC15,
		Run: runC15,
	})
}

func genC15(r *Rng, idx int) *Scenario {
	sc := manyDocs(r, 1)
	sc.UF = false
	sc.MapSeed = r.U64()
	ins := []string{"doc.xml", "./in/doc.v2.xml", "/sim/data/my doc.xml", "in/doc", "../data/x.y/doc.xml", "doc.pdf"}
	sc.Text = pick(r, ins)
	if r.P(0.4) {
		sc.Text = pick(r, []string{"html.xml", "./lmx.xml", "in/pdf.xml", "a.pdf.xml", "x..xml", "XML.XML", "doc.x ml", "xpdf", "f.o/../do$c.xml", "%s.xml", "\u00fc.xml", "ml.mlm", ".d.xml"})
	}
	outs := []string{"", "", "out.pdf", "./o/out.pdf", "/sim/data/out", "../work/other.pdf"}
	sc.Cwd = pick(r, outs)
	if path.Ext(sc.Text) == ".pdf" && sc.Cwd == "" {
		sc.Cwd = "out.pdf"
	}
	sc.X["old"] = r.Intn(4)
	sc.X["newer"] = r.Intn(2)
	if r.P(0.35) {
		// a small output
		sc.X["nofonts"] = 1
		if r.P(0.7) {
			d := sc.Docs[0]
			d.Header, d.Footer = nil, nil
			for len(d.Body) > 2 {
				d.Body = d.Body[:len(d.Body)/2]
			}
		}
	}
	errn := func() string {
		return pick(r, []string{"EIO", "EACCES", "ENOSPC", "EDQUOT", "EMFILE", "EROFS", "ESTALE"})
	}
	for i, n := 0, 3+r.Intn(4); i < n; i++ {
		op := Op{K: "fault"}
		switch x := r.Intn(20); {
		case x < 2:
			op.K = pick(r, []string{"gone", "bad"})
			op.Arg = pick(r, []string{"in", "conf", "font0", "font1", "font2", "font3"})
			op.N = r.Intn(100000)
		case x < 5:
			op.Arg = pick(r, []string{"in", "conf", "font0", "font1", "font2", "font3"})
			op.Disk = []DiskFault{{Op: pick(r, []string{"open", "read"}), Nth: 1 + r.Intn(3), Err: errn(), Partial: pick(r, []int{0, 0, 1, 100, 5000}), Sticky: r.P(0.3)}}
		case x < 11:
			op.Arg = "out"
			if r.P(0.25) {
				// a command may write to another file first
				op.Arg = pick(r, []string{"out", "any"})
				op.Disk = []DiskFault{{Op: pick(r, []string{"create", "write", "close", "rename", "rename", "rename", "remove", "stat", "sync", "chmod"}), Nth: 1 + r.Intn(2)*r.Intn(2), Err: errn(), Partial: pick(r, []int{0, 1, 100, 4096}), Sticky: r.P(0.3)}}
				break
			}
			if r.P(0.07) {
				op.K = "dir"
				break
			}
			op.Disk = []DiskFault{{Op: pick(r, []string{"create", "open", "write", "write", "write", "close", "close", "sync"}), Nth: 1 + r.Intn(2)*r.Intn(2), Err: errn(), Partial: pick(r, []int{0, 0, 1, 100, 4096, 1 << 20}), Sticky: r.P(0.3)}}
		case x < 13 && len(sc.imgPaths()) > 0:
			op.K = "image"
			op.Arg = pick(r, sc.imgPaths())
			op.Disk = []DiskFault{{Op: "open", Nth: 1, Err: errn(), Sticky: true}}
		default:
			op.K = "crash"
			op.N = int(r.U64() >> 34)
			op.Doc = r.Intn(4) // what is left of the output
		}
		sc.Ops = append(sc.Ops, op)
	}
	if r.P(0.3) {
		sc.Chunk = r.U64() | 1
	}
	return sc
}

func cliPath(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join("/sim/work", p)
}

// otherPDF is a complete PDF of something else.
func otherPDF() []byte {
	p := gofpdf.New("P", "mm", "A4", "")
	p.SetFont("Arial", "", 10)
	p.AddPage()
	p.Write(5, "something else")
	var b bytes.Buffer
	if err := p.Output(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

type cliRun struct {
	Call
	code int
}

// Commands are the main functions of /repo/cmd.
var Commands = map[string]func(){}

func runCLI(d *Disk, mapSeed uint64, args ...string) *cliRun {
	return runCmd("xpdf", d, mapSeed, args...)
}

// runCmd runs a command as a simulated process.
func runCmd(name string, d *Disk, mapSeed uint64, args ...string) *cliRun {
	cmd := Commands[name]
	r := &cliRun{}
	old := os.Args
	os.Args = append([]string{name}, args...)
	d.runs++
	d.exitHk = true
	d.frozen, d.exited = false, nil
	simOn(d, mapSeed, int64(d.runs)*600, nil, stepBudget)
	r.Call = protect(func() error { cmd(); return nil })
	r.Steps = simOff()
	os.Args = old
	stats["cli-runs"]++
	stats["steps"] += int(r.Steps)
	switch {
	case r.Exit != nil:
		r.code = r.Exit.code
	case r.Panic != "":
		r.code = 2
	case r.Budget:
		r.code = -2
	}
	return r
}

func runC15(sc *Scenario) *Result {
	res := &Result{}
	if Commands["xpdf"] == nil {
		panic("there is no command cmd/xpdf")
	}
	src := sc.Docs[0].XML()
	if sc.x("nofonts") == 1 {
		src = strings.ReplaceAll(src, ufFamily, "Times")
	}
	in, inAbs := sc.Text, cliPath(sc.Text)
	if in == "" {
		return res
	}
	args := []string{in}
	out := sc.Cwd
	outAbs := ""
	if out == "" {
		b := path.Base(in)
		outAbs = cliPath(strings.TrimSuffix(b, path.Ext(b)) + ".pdf")
	} else {
		outAbs = cliPath(out)
		args = append(args, out)
	}
	cwd := sc.Cwd
	sc.Cwd = ""
	mk := func() *Disk {
		d := sc.disk()
		for _, dir := range []string{"/sim/work", "/sim/work/in", "/sim/work/o", "/sim/data", "/sim/data/x.y", "/sim/work/fonts"} {
			d.MkDirs(dir)
		}
		d.Put(cliConf, []byte(cliFonts))
		if sc.x("nofonts") == 1 {
			d.Put(cliConf, []byte("MonoFont = \"\"\n"))
		}
		for _, f := range cliFontFiles {
			d.Put(f, asset(path.Base(f)))
		}
		d.Put(inAbs, []byte(src))
		switch sc.x("old") {
		case 1:
			d.Put(outAbs, []byte(strings.Repeat("previous output, much longer than the new one\n", 20000)))
		case 2:
			d.Put(outAbs, []byte("%PDF-1.3 old"))
		case 3:
			d.Put(outAbs, otherPDF())
		}
		if n := d.files[outAbs]; n != nil && sc.x("newer") == 1 {
			n.mtime = 1800e9
		}
		d.Put("/sim/data/other", []byte("bystander"))
		return d
	}
	defer func() { sc.Cwd = cwd }()
	// what the output has to be
	h := hyph("en-us")
	reference := func(d *Disk) []string {
		w := &simWriter{}
		simOn(d, sc.MapSeed, 0, nil, stepBudget)
		c := protect(func() error {
			xd, err := xdoc.Load(strings.NewReader(src))
			if err != nil {
				return err
			}
			reg, err := font.LoadRegistryFromFile(cliConf)
			if err != nil {
				return err
			}
			e, err := engine.NewFPDF(reg, xd)
			if err != nil {
				return err
			}
			return xpdf.NewProcessor(e, h, xd, "/sim/work").Process(w)
		})
		simOff()
		if b := c.bad(); b != "" || c.Err != nil {
			res.fail("render", "rendering a valid document failed: %s %v", b, c.Err)
			return nil
		}
		p, err := ParsePDF(w.buf.Bytes())
		if err != nil {
			res.fail("malformed", "not a well-formed PDF: %v", err)
			return nil
		}
		return p.NormalLines()
	}
	start := mk()
	want := reference(mk())
	if res.V != nil {
		return res
	}
	// judge checks the disk after a run
	judge := func(what string, d *Disk, r *cliRun, want []string) bool {
		clean := r.code == 0 && (r.Exit == nil || !r.Exit.crash)
		for _, m := range d.Mutated() {
			if m == outAbs {
				continue
			}
			// temporary files may come and, unless the command failed, go
			was, before := start.Get(m)
			is, after := d.Get(m)
			if before && (!after || string(was) != string(is)) || !before && after && clean {
				res.fail("other-file", "%s: the command changed %s", what, m)
				return false
			}
		}
		if len(d.escapes) > 0 {
			res.fail("other-file", "%s: the command changed other files: %v", what, d.escapes)
			return false
		}
		if r.code != 0 || r.Exit != nil && r.Exit.crash {
			return true
		}
		b, ok := d.Get(outAbs)
		if !ok {
			res.fail("false-success", "%s: exit status 0, but there is no output file %s", what, outAbs)
			return false
		}
		p, err := ParsePDF(b)
		if err != nil {
			res.fail("false-success", "%s: exit status 0, but the output (%d bytes) is no complete PDF: %v", what, len(b), err)
			return false
		}
		if x := firstDiff(p.NormalLines(), want); want != nil && x != "" {
			res.fail("false-success", "%s: exit status 0, but the output is not the document's: %s", what, x)
			return false
		}
		return true
	}
	d := mk()
	r := runCLI(d, sc.MapSeed, args...)
	desc := fmt.Sprintf("xpdf %q", args)
	if r.code != 0 || r.Exit != nil && r.Exit.crash {
		res.fail("failure", "%s: exit status %d without any fault %s: %s", desc, r.code, r.bad(), clip(d.stdout.String(), 200))
		return res
	}
	if !judge(desc, d, r, want) {
		return res
	}
	// without arguments
	d0 := mk()
	if r := runCLI(d0, sc.MapSeed); r.code == 0 && (r.Exit == nil || !r.Exit.crash) {
		return res.fail("false-success", "xpdf without arguments: exit status 0, although no document was given: %s", clip(d0.stdout.String(), 200))
	}
	kinds := append([]string(nil), d.opKinds...)
	n := d.ops
	res.add(d.hash)
	res.Key = hashStr(src + desc)
	file := func(a string) string {
		switch a {
		case "in":
			return inAbs
		case "out":
			return outAbs
		case "any":
			return ""
		case "conf":
			return cliConf
		}
		if strings.HasPrefix(a, "font") && len(a) == 5 {
			return cliFontFiles[int(a[4]-'0')%4]
		}
		return a
	}
	for oi := range sc.Ops {
		op := &sc.Ops[oi]
		d := mk()
		f := file(op.Arg)
		must, may := false, false
		what := desc
		expect := want
		rewrite := false
		switch op.K {
		case "gone":
			delete(d.files, f)
			must = true
			if sc.x("nofonts") == 1 && strings.HasPrefix(op.Arg, "font") {
				must = false // not used
			}
			what += ", missing " + f
			stats["fault:file-gone"]++
		case "bad":
			b, _ := d.Get(f)
			if len(b) == 0 {
				continue
			}
			switch op.Arg {
			case "in":
				d.Put(f, b[:op.N%(strings.LastIndex(string(b), "</document>")+1)])
			case "conf":
				d.Put(f, append([]byte("[[["), b...))
			default:
				d.Put(f, b[:op.N%2000])
			}
			must = true
			if sc.x("nofonts") == 1 && strings.HasPrefix(op.Arg, "font") {
				must = false // not used
			}
			what += ", damaged " + f
			stats["fault:file-damaged"]++
		case "dir":
			// in place of the output there is a directory
			delete(d.files, f)
			d.MkDirs(f)
			must = true
			what += ", a directory " + f
			stats["fault:output-is-directory"]++
		case "fault", "image":
			for k := range op.Disk {
				x := op.Disk[k]
				x.Path = f
				x.seen, x.Fired = 0, 0
				d.faults = append(d.faults, &x)
			}
			what += ", fault of " + f + " " + js(op.Disk)
			if op.K == "image" {
				rd := mk()
				x := op.Disk[0]
				x.Path = f
				rd.faults = append(rd.faults, &x)
				expect = reference(rd)
				if res.V != nil {
					return res
				}
			}
		case "crash":
			if n == 0 {
				continue
			}
			k := 1 + op.N%n
			if op.N%3 == 0 {
				// around the output
				var at []int
				for i, s := range kinds {
					if strings.HasSuffix(s, " "+outAbs) {
						at = append(at, i+1)
					}
				}
				if len(at) > 0 {
					k = at[(op.N/3)%len(at)]
				}
			}
			x := &DiskFault{Op: "any", Nth: k, Err: "crash"}
			if strings.HasPrefix(kinds[k-1], "write ") {
				x.Partial = (op.N / 7) % 20000
			}
			d.faults = append(d.faults, x)
			what += fmt.Sprintf(", killed at disk operation %d of %d (%s)", k, n, kinds[k-1])
			rewrite = true
		default:
			continue
		}
		r := runCLI(d, sc.MapSeed, args...)
		for _, x := range d.faults {
			if x.Fired == 0 {
				continue
			}
			stats["fault:disk-"+x.Op+"-"+x.Err]++
			may = true
			switch {
			case op.K == "image" || x.Err == "crash":
			case op.Arg == "any" || x.Op == "rename" || x.Op == "remove" || x.Op == "stat" || x.Op == "chmod":
				// the output tells
			case op.Arg == "out":
				must = true
			case sc.x("nofonts") == 1 && strings.HasPrefix(op.Arg, "font"):
				// not used
			case op.Arg == "in" && x.Op == "read" && x.at >= int64(strings.LastIndex(src, "</document>")+len("</document>")):
				// all of the document had been delivered before
			case x.Op == "open" || x.Op == "read":
				must = true
			}
		}
		res.add(d.hash)
		if must || may {
			res.NonTrivial = true
			res.Key = mix(res.Key, hashStr(what))
		}
		if r.Budget {
			res.fail("endless", "%s: %s", what, r.bad())
			return res
		}
		if op.K == "crash" && (r.Exit == nil || !r.Exit.crash) {
			res.fail("nondeterminism", "%s: the run took another course", what)
			return res
		}
		if !judge(what, d, r, expect) {
			return res
		}
		if op.K != "crash" {
			if must && r.code == 0 {
				res.fail("false-success", "%s: exit status 0", what)
				return res
			}
			if !must && !may && r.code != 0 {
				res.fail("failure", "%s: exit status %d although no fault happened: %s", what, r.code, clip(d.stdout.String(), 200))
				return res
			}
			if op.K == "image" && r.code != 0 {
				res.fail("failure", "%s: exit status %d although only an image is missing: %s", what, r.code, clip(d.stdout.String(), 200))
				return res
			}
			if r.code != 0 {
				stats["probe:failed-with-status"]++
				rewrite = oi%2 == 0 && (op.K == "fault")
			}
		}
		if !rewrite {
			continue
		}
		// again, on the healthy disk, with what is left there
		d.faults = nil
		d.handles = map[*handle]bool{}
		if op.K == "crash" {
			b, ok := d.Get(outAbs)
			switch {
			case !ok:
			case op.Doc == 1:
				d.Put(outAbs, nil) // nothing reached the disk
			case op.Doc == 2:
				d.Put(outAbs, b[:len(b)/2])
			case op.Doc == 3:
				d.Put(outAbs, make([]byte, len(b))) // length, but no data
			}
			if ok {
				d.files[outAbs].mtime = 4000e9
			}
		}
		d.mutated = map[string]bool{}
		r = runCLI(d, sc.MapSeed, args...)
		if r.code != 0 || r.Exit != nil && r.Exit.crash {
			res.fail("rerun", "%s: running it again: exit status %d %s: %s", what, r.code, r.bad(), clip(d.stdout.String(), 200))
			return res
		}
		if !judge(what+", run again", d, r, want) {
			return res
		}
		stats["probe:run-again"]++
	}
	return res
}
