package core

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// World holds what the operations of one process share: the loaded documents,
// hyphenators and the font registry. Files live on the disk of the operation.
type World struct {
	sc   *Scenario
	src  []string
	docs []*xdoc.Document
	reg  *font.Registry
}

const (
	patFile  = "/sim/work/patterns.txt"
	confFile = "/sim/work/fonts/fontdef.toml"
)

func docFile(i int) string { return fmt.Sprintf("/sim/work/doc%d.xml", i) }

var worldWords = []string{"hyphenation", "representative", "complicated", "particularly", "internationalization", "Recommendation", "xqxz", "abana", "office", "a", "", "Größenordnung"}

// newWorld loads the documents without faults. Malformed documents are nil.
func newWorld(sc *Scenario, only int) *World {
	w := &World{sc: sc, reg: fullRegistry(sc.x("regorder"))}
	for i, d := range sc.Docs {
		x := d.XML()
		w.src = append(w.src, x)
		var xd *xdoc.Document
		if only == -1 || only == i {
			var c Call
			if xd, c = load(x); c.bad() != "" || c.Err != nil {
				xd = nil
			}
		}
		w.docs = append(w.docs, xd)
	}
	return w
}

func (w *World) disk() *Disk {
	d := w.sc.disk()
	fontDisk(d)
	for i, s := range w.src {
		if _, ok := d.Get(docFile(i)); !ok {
			d.Put(docFile(i), []byte(s))
		}
	}
	if _, ok := d.Get(patFile); !ok {
		d.Put(patFile, []byte(smallPatterns))
	}
	if _, ok := d.Get(confFile); !ok {
		d.Put(confFile, []byte("MonoFont = \"Go Mono\"\n[[Fonts]]\nName = \"gofont\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"/sim/fonts/Go-Regular.ttf\"\n[[Fonts.StyleDefinitions]]\nStyle = \"bold\"\nFilePath = \"../../fonts/Go-Bold.ttf\"\n"))
	}
	return d
}

// put changes a file as described by "path|kind|arg".
func (w *World) put(d *Disk, arg string) {
	p := strings.SplitN(arg, "|", 3)
	if len(p) < 3 {
		return
	}
	switch p[1] {
	case "img":
		d.Put(p[0], imageBytes(p[2]))
	case "font":
		d.Put(p[0], asset(p[2]))
	case "raw":
		d.Put(p[0], []byte(p[2]))
	case "doc":
		i := int(parseF(p[2]))
		if i < len(w.src) {
			d.Put(p[0], []byte(w.src[i]))
		}
	case "gone":
		delete(d.files, p[0])
	}
	d.mutated = map[string]bool{}
}

// opRun is one operation in progress or done.
type opRun struct {
	Call
	op    *Op
	doc   *xdoc.Document
	hy    *hyphenation.Hyphenator
	reg   *font.Registry
	cs    style.Classes
	mu    *style.Mutator
	eng   *simEngine
	w     *simWriter
	str   string
	words [][]string
}

// body is the code of the operation under test; it runs inside the simulation.
func (w *World) body(op *Op) (*opRun, func() error) {
	r := &opRun{op: op, w: &simWriter{f: op.Wr}}
	var xd *xdoc.Document
	src := ""
	if op.Doc < len(w.docs) {
		xd, src = w.docs[op.Doc], w.src[op.Doc]
	}
	reg := font.NewRegistry()
	if w.sc.UF || op.UF {
		reg = w.reg
	}
	h := hyph(op.Hyph)
	return r, func() (err error) {
		switch op.K {
		case "load":
			p := docFile(op.Doc)
			if op.Arg != "" {
				p = op.Arg
			}
			r.doc, err = xdoc.LoadFromFile(p)
		case "loadr":
			rd := RdPlan{}
			if op.Rd != nil {
				rd = *op.Rd
			}
			r.doc, err = xdoc.Load(newReader([]byte(src), rd))
		case "classes", "inline", "patr":
			// style classes, an inline style, a pattern table from a stream
			rd := RdPlan{}
			if op.Rd != nil {
				rd = *op.Rd
			}
			in := newReader([]byte(op.Arg), rd)
			switch op.K {
			case "classes":
				r.cs, err = style.DecodeClasses(in)
			case "inline":
				r.mu, err = style.DecodeMutator(in)
			default:
				r.hy, err = hyphenation.Load(in)
				if err == nil && r.hy != nil {
					for _, s := range worldWords {
						r.words = append(r.words, r.hy.Hyphenate(s))
					}
				}
			}
		case "patterns":
			r.hy, err = hyphenation.LoadFromFile(patFile)
			if err == nil && r.hy != nil {
				for _, s := range worldWords {
					r.words = append(r.words, r.hy.Hyphenate(s))
				}
			}
		case "fontdef":
			r.reg, err = font.LoadRegistryFromFile(confFile)
			if err == nil && r.reg != nil {
				r.reg.Each(func(d font.Descriptor) error {
					r.str += fmt.Sprintf("%s|%s|%s\n", d.Name, d.Style, d.FilePath)
					return nil
				})
				r.str += r.reg.MonoFont()
			}
		case "describe":
			if xd != nil {
				r.str = xdoc.Describe(xd).Dump(xdoc.DescribeJSON)
			}
		case "image":
			var id xpdf.ImageDescriptor
			id, err = xpdf.DescribeImage(op.Arg)
			r.str = fmt.Sprintf("%+v", id)
		case "newhyph":
			var n *hyphenation.Hyphenator
			if op.Hyph == "latin" {
				n = hyphenation.NewLatin()
			} else {
				n = hyphenation.NewEnUs()
			}
			for _, s := range worldWords {
				r.words = append(r.words, n.Hyphenate(s))
			}
		case "hyphenate":
			for _, s := range worldWords {
				r.words = append(r.words, h.Hyphenate(s))
			}
			if op.Arg != "" {
				for _, s := range strings.Fields(op.Arg) {
					r.words = append(r.words, h.Hyphenate(s))
				}
			}
		case "engine", "render":
			if xd == nil {
				return nil
			}
			e, err := engine.NewFPDF(reg, xd)
			if err != nil {
				return err
			}
			if op.K == "engine" {
				return nil
			}
			r.eng = &simEngine{Engine: e, failAt: op.FailAt}
			wd := "/sim/work"
			if op.Arg != "" {
				wd = op.Arg
			}
			return xpdf.NewProcessor(r.eng, h, xd, wd).Process(r.w)
		}
		return err
	}
}

// arm puts the disk faults of an operation in place of earlier ones.
func (d *Disk) arm(op *Op) {
	d.faults = nil
	for k := range op.Disk {
		x := op.Disk[k]
		x.seen, x.Fired = 0, 0
		d.faults = append(d.faults, &x)
	}
}

// exec runs one operation alone.
func (w *World) exec(op *Op, d *Disk, budget uint64) *opRun {
	r, f := w.body(op)
	d.arm(op)
	if budget == 0 {
		budget = stepBudget
	}
	simOn(d, op.MapSeed, 0, nil, budget)
	r.Call = protect(f)
	r.Steps = simOff()
	d.fired()
	stats["op:"+op.K]++
	stats["steps"] += int(r.Steps)
	if r.eng != nil {
		stats["renders"]++
		if r.eng.fired {
			stats["fault:backend"]++
		}
	}
	if r.w.fired {
		stats["fault:writer-"+op.Wr.Kind]++
	}
	if op.Rd != nil && op.Rd.FailAt > 0 {
		stats["fault:reader"]++
	}
	return r
}

// digest is the observable outcome.
func (r *opRun) digest() string { return r.outcome(fmt.Sprintf("err=%v", r.Err)) }

func (r *opRun) outcome(err string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s", r.op.K, err, r.bad())
	if r.doc != nil {
		fmt.Fprintf(&b, " doc=%x", hashLines(dumpLoaded(r.doc)))
	}
	if r.Err == nil && r.bad() == "" {
		if r.cs != nil {
			fmt.Fprintf(&b, " classes=%x", hashLines(dumpClasses(r.cs)))
		}
		if r.mu != nil {
			st := xpdf.DefaultStyle()
			r.mu.Mutate(&st)
			fmt.Fprintf(&b, " style=%x", hashStr(stylesCascade(st).text()))
		}
	}
	if r.str != "" {
		fmt.Fprintf(&b, " str=%x", hashStr(r.str))
	}
	if r.words != nil {
		fmt.Fprintf(&b, " words=%x", hashStr(fmt.Sprintf("%q", r.words)))
	}
	if n := r.w.buf.Len(); n > 0 {
		p, err := ParsePDF(r.w.buf.Bytes())
		if err != nil || r.Err != nil {
			fmt.Fprintf(&b, " partial output")
		} else {
			ls := p.NormalLines()
			fmt.Fprintf(&b, " pdf=%d:%x", len(ls), hashLines(ls))
		}
	}
	return b.String()
}

// deepDump renders everything reachable from v but functions.
func deepDump(v interface{}) string {
	var b strings.Builder
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value, depth int)
	rec = func(v reflect.Value, depth int) {
		if depth > 60 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if seen[v.Pointer()] {
				b.WriteString("<seen>")
				return
			}
			seen[v.Pointer()] = true
			b.WriteString("&")
			rec(v.Elem(), depth+1)
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString(v.Elem().Type().String())
			rec(v.Elem(), depth+1)
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				b.WriteString(v.Type().Field(i).Name + ":")
				rec(v.Field(i), depth+1)
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(&b, "[%d ", v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), depth+1)
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.Map:
			var ks []string
			vals := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := fmt.Sprint(k)
				ks = append(ks, s)
				vals[s] = v.MapIndex(k)
			}
			sort.Strings(ks)
			b.WriteString("map[")
			for _, k := range ks {
				fmt.Fprintf(&b, "%q:", k)
				rec(vals[k], depth+1)
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&b, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(&b, v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(&b, v.Float())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		}
	}
	rec(reflect.ValueOf(v), 0)
	return b.String()
}

// manyDocs generates a scenario with several documents that share a set of files.
func manyDocs(r *Rng, n int) *Scenario {
	sc := &Scenario{X: map[string]int{}}
	var docs []*Doc
	have := map[string]bool{}
	var files []FileSpec
	for i := 0; i < n; i++ {
		t := &Scenario{X: map[string]int{}}
		anyDoc(r, t)
		if r.P(0.3) {
			// spans over the end of the table
			walk(t.Docs[0].Body, func(n *Node) {
				if n.K == "td" && r.P(0.1) {
					n.RS = 1 + r.Intn(6)
				}
			})
		}
		docs = append(docs, t.Docs[0])
		sc.UF = sc.UF || t.UF
		for _, f := range t.Files {
			if !have[f.Path] {
				have[f.Path] = true
				files = append(files, f)
			}
		}
	}
	sc.Docs, sc.Files = docs, files
	return sc
}

// someFault puts a random fault into the operation.
func someFault(r *Rng, op *Op, files []FileSpec) {
	errn := pick(r, []string{"EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE", "UEOF"})
	switch op.K {
	case "load", "patterns", "fontdef", "image", "engine":
		op.Disk = append(op.Disk, diskFault(r, errn))
	case "loadr":
		op.Rd = &RdPlan{Seed: r.U64(), Mode: r.Intn(6), FailAt: 1 + r.Intn(3000), Err: errn}
	case "classes", "inline", "patr":
		op.Rd = &RdPlan{Seed: r.U64(), Mode: r.Intn(6), FailAt: 1 + r.Intn(len(op.Arg)+1), Err: errn}
	case "render":
		switch r.Intn(4) {
		case 0:
			op.Wr = &WrFault{Kind: pick(r, []string{"err", "short", "errfull"}), At: r.Intn(9000), Err: "ENOSPC"}
		case 1:
			op.FailAt = 3 + r.Intn(400)
			if r.P(0.4) {
				op.FailAt = 3 + r.Intn(30)
			}
		default:
			op.Disk = append(op.Disk, diskFault(r, errn))
			if r.P(0.3) {
				op.Disk = append(op.Disk, diskFault(r, "EIO"))
			}
		}
	}
}

func diskFault(r *Rng, errn string) DiskFault {
	return DiskFault{Op: pick(r, []string{"any", "open", "read", "read", "close", "stat", "seek"}), Nth: 1 + r.Intn(pick(r, []int{2, 5, 20, 60})), Err: errn, Partial: pick(r, []int{0, 0, 1, 40, 600}), Sticky: r.P(0.3)}
}

func (sc *Scenario) imgPaths() []string {
	var out []string
	for _, f := range sc.Files {
		if f.Kind == "img" {
			out = append(out, f.Path)
		}
	}
	return out
}

// someOp draws an operation.
func someOp(r *Rng, sc *Scenario) Op {
	op := Op{Doc: r.Intn(len(sc.Docs)), MapSeed: r.U64(), Hyph: pick(r, []string{"en-us", "en-us", "latin", "small"})}
	op.K = pick(r, []string{"render", "render", "render", "render", "load", "loadr", "patterns", "fontdef", "describe", "image", "hyphenate", "engine", "newhyph", "classes", "inline", "inline", "patr"})
	if op.K == "image" {
		ps := sc.imgPaths()
		if len(ps) == 0 {
			op.K = "render"
		} else {
			op.Arg = pick(r, ps)
		}
	}
	switch op.K {
	case "classes":
		op.Arg = "/**/\n"
		if x := strings.SplitN(sc.Docs[op.Doc].XML(), "<style>", 2); len(x) > 1 {
			op.Arg = strings.SplitN(x[1], "</style>", 2)[0]
		}
		if op.Arg == "/**/\n" {
			op.Arg = pick(r, []string{"a {width: 4; height: 5}\nb:first-row {padding: 1,2,3,4}", "b {font-family: Times; text-color: #010203}"})
		}
	case "inline":
		op.Arg = pick(r, []string{"width: 4", "height: 12.5; color: #010203", "font-family: Courier; font-weight: bold", "h-align: block; width: 33; border: 1,0,1,0", ""})
		g := &Gen{r: r, doc: sc.Docs[op.Doc]}
		nd := &Node{}
		g.anyStyle(nd, 0.3)
		if r.P(0.5) {
			op.Arg = styStr(nd.Sty, 0)
		}
	case "patr":
		op.Arg = pick(r, []string{smallPatterns, "a1b\nab1a\nx1q\n", ".hy3ph\nhe2n\nhena4\nhen5at\n1na\nn2at\n1tio\n2io\n", ""})
	}
	switch op.K {
	case "loadr", "classes", "inline", "patr":
		op.Rd = &RdPlan{Seed: r.U64(), Mode: r.Intn(6)}
	}
	return op
}
