package core

import (
	"fmt"
	"io"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// What can be loaded: X["kind"].
const (
	kDoc = iota
	kClasses
	kMutator
	kPatterns
	kFontdef
)

var kindNames = []string{"document", "style classes", "inline style", "pattern table", "font definition"}

type patternWord struct{ pat, word, a, b string }

// patternLines are the pattern table's lines; every pattern splits a word of
// its own.
func patternLines(seed uint64, n int) []patternWord {
	r := NewRng(seed)
	const cons = "bcdfghjklmnpqrstvwxz"
	seen := map[string]bool{}
	var out []patternWord
	for len(out) < n {
		var c strings.Builder
		for i := 0; i < 6; i++ {
			c.WriteByte(cons[r.Intn(len(cons))])
		}
		s := c.String()
		if seen[s] {
			continue
		}
		seen[s] = true
		k := 2 + r.Intn(3)
		out = append(out, patternWord{s[:k] + "1" + s[k:], "y" + s + "y", "y" + s[:k], s[k:] + "y"})
	}
	return out
}

// payload is the text that is loaded.
func (s *Scenario) payload() string {
	r := NewRng(s.Seed + 7)
	var t string
	switch s.x("kind") {
	case kDoc:
		t = s.Docs[0].XML()
	case kClasses:
		x := s.Docs[0].XML()
		if i := strings.Index(x, "<style>\n"); i >= 0 {
			t = x[i+8 : strings.Index(x, "</style>")]
		}
		if n := s.x("pad"); n > 0 {
			t = strings.Repeat(" ", n) + t
		}
	case kMutator:
		if len(s.Docs[0].Classes) > 0 {
			t = styStr(s.Docs[0].Classes[0].Sty, s.Docs[0].Var)
			if n := s.x("pad"); n > 0 {
				t = strings.Repeat(";", n) + t
			}
		}
	case kPatterns:
		var b strings.Builder
		ps := patternLines(uint64(s.x("pseed")), s.x("npat"))
		for i, p := range ps {
			if r.P(0.05) {
				b.WriteString(pick(r, []string{"\n", "  \n", "\t", " "}))
			}
			if n := s.x("pad"); n > 0 && i == len(ps)*s.x("padat")/100 {
				b.WriteString(strings.Repeat(" ", n))
			}
			b.WriteString(p.pat)
			if i+1 < len(ps) || s.x("nl") == 1 {
				b.WriteString(pick(r, []string{"\n", "\n", "\n", "\r\n"}))
			}
		}
		t = b.String()
	case kFontdef:
		var b strings.Builder
		b.WriteString("# fonts\nMonoFont = \"mono\"\n")
		for i := 0; i < s.x("nfont"); i++ {
			fmt.Fprintf(&b, "\n[[Fonts]]\nName = \"fam%d\"\n", i)
			for j, st := range []string{"regular", "bold", "italic", "bold+italic"}[:1+(i+s.x("nfont"))%4] {
				fmt.Fprintf(&b, "  [[Fonts.StyleDefinitions]]\n  Style = %q\n  FilePath = %q\n", st, fmt.Sprintf("ttf/font-%d-%d.ttf", i, j))
			}
			if n := s.x("pad"); n > 0 && i == 0 {
				b.WriteString("#" + strings.Repeat("x", n) + "\n")
			}
		}
		t = b.String()
	}
	// damage
	bs := []byte(t)
	for _, e := range s.Points {
		if len(bs) == 0 {
			break
		}
		at := (e / 16) % len(bs)
		switch e % 16 {
		case 0, 1:
			bs = append(bs[:at:at], bs[at+1:]...)
		case 2:
			bs = bs[:at]
		default:
			bs[at] = "<>&;:{}\"/\xff\x00\xc3 1"[e%16-3]
		}
	}
	return string(bs)
}

func fontdefDump(reg *font.Registry) []string {
	out := []string{"mono " + reg.MonoFont()}
	reg.Each(func(d font.Descriptor) error {
		out = append(out, fmt.Sprintf("%s %s %s", d.Name, d.Style, d.FilePath))
		return nil
	})
	return out
}

// loadFrom loads from r, or from the file when r is nil. got tells whether an
// object came back.
func (s *Scenario) loadFrom(r io.Reader, d *Disk, file string) (dump []string, got bool, c Call) {
	var xd *xdoc.Document
	var cs style.Classes
	var mu *style.Mutator
	var hy *hyphenation.Hyphenator
	var reg *font.Registry
	simOn(d, s.MapSeed, 0, nil, stepBudget)
	c = protect(func() error {
		var err error
		switch s.x("kind") {
		case kDoc:
			if r == nil {
				xd, err = xdoc.LoadFromFile(file)
			} else {
				xd, err = xdoc.Load(r)
			}
		case kClasses:
			cs, err = style.DecodeClasses(r)
		case kMutator:
			mu, err = style.DecodeMutator(r)
		case kPatterns:
			if r == nil {
				hy, err = hyphenation.LoadFromFile(file)
			} else {
				hy, err = hyphenation.Load(r)
			}
		case kFontdef:
			reg, err = font.LoadRegistryFromFile(file)
		}
		return err
	})
	c.Steps = simOff()
	got = xd != nil || cs != nil || mu != nil || hy != nil || reg != nil
	if c.bad() != "" || c.Err != nil {
		return
	}
	switch {
	case xd != nil:
		dump = dumpLoaded(xd)
	case cs != nil:
		dump = dumpClasses(cs)
	case mu != nil:
		st := xpdf.DefaultStyle()
		mu.Mutate(&st)
		dump = []string{"mutator" + stylesCascade(st).text()}
	case hy != nil:
		for _, p := range patternLines(uint64(s.x("pseed")), s.x("npat")) {
			dump = append(dump, p.word+": "+strings.Join(hy.Hyphenate(p.word), "-"))
		}
	case reg != nil:
		dump = fontdefDump(reg)
	}
	return
}

// truth is what must have been loaded.
func (s *Scenario) truth(file string) []string {
	switch s.x("kind") {
	case kDoc:
		return dumpWritten(s.Docs[0])
	case kClasses:
		return writtenClasses(s.Docs[0])
	case kMutator:
		var sty []KV
		if len(s.Docs[0].Classes) > 0 {
			sty = s.Docs[0].Classes[0].Sty
		}
		return []string{"mutator" + defaultCascade().with(s.Docs[0], &Node{Sty: sty}, "").text()}
	case kPatterns:
		var out []string
		for _, p := range patternLines(uint64(s.x("pseed")), s.x("npat")) {
			out = append(out, p.word+": "+p.a+"-"+p.b)
		}
		return out
	}
	out := []string{"mono mono"}
	dir := file[:strings.LastIndexByte(file, '/')]
	for i := 0; i < s.x("nfont"); i++ {
		for j, st := range []string{"regular", "bold", "italic", "bold+italic"}[:1+(i+s.x("nfont"))%4] {
			out = append(out, fmt.Sprintf("fam%d %s %s/ttf/font-%d-%d.ttf", i, st, dir, i, j))
		}
	}
	return out
}

// loadable draws something to load.
func loadable(r *Rng) *Scenario {
	sc := &Scenario{X: map[string]int{}}
	kind := pick(r, []int{kDoc, kDoc, kDoc, kDoc, kClasses, kMutator, kPatterns, kPatterns, kFontdef})
	sc.X["kind"] = kind
	big := func() int {
		return pick(r, []int{0, 0, 0, 0, 0, 1 + r.Intn(3000), 4096 - r.Intn(300), 65535 - r.Intn(10), 66000 + r.Intn(9000), 131072, pick(r, []int{131072, 131072, 131072, 1<<20 + 5, 2 << 20})})
	}
	switch kind {
	case kDoc:
		k := randKnobs(r)
		k.MaxWords = pick(r, []int{3, 10, 60})
		k.Uni, k.Odd, k.CJK = r.P(0.7), r.P(0.6), r.P(0.5)
		k.Images = []string{"a.png", "pics/b.jpg"}
		k.CellImg, k.PosEl, k.PageNo = r.P(0.5), r.P(0.5), true
		g := uniformGen(r, sc, k)
		d := g.doc
		d.Body = g.elements(1 + r.Intn(7))
		if r.P(0.6) {
			d.Header = g.smallSection(1, 1+r.Intn(3))
		}
		if r.P(0.6) {
			d.Footer = g.smallSection(2, 1+r.Intn(3))
		}
		for i := r.Intn(3); i > 0; i-- {
			d.Body = append(d.Body, g.grid())
		}
		g.classify()
		g.selectors()
		d.Meta = [3]string{g.word(), g.words(2), ""}
		d.Orient, d.Format = pick(r, []string{"portrait", "landscape"}), pick(r, []string{"a3", "a4", "a5", "letter", "legal"})
		d.Pad = big() / (1 + len(d.Body))
		f := func(n *Node) {
			if n.K == "t" && r.P(0.3) {
				n.Num = float64(1 + r.Intn(3))
			}
			if n.K == "t" && r.P(0.01) {
				n.Txt = strings.Repeat(n.Txt+" ", 1+big()/(1+len(n.Txt)))
			}
		}
		walk(d.Body, f)
		walk(d.Header, f)
		walk(d.Footer, f)
	case kClasses, kMutator:
		g := uniformGen(r, sc, Knobs{})
		for i, n := 0, 1+r.Intn(12); i < n; i++ {
			nd := &Node{}
			g.anyStyle(nd, 0.3)
			g.doc.Classes = append(g.doc.Classes, ClassDef{Name: pick(r, []string{"c", "cls-", ".x", "k_"}) + fmt.Sprint(i), Sty: nd.Sty})
		}
		g.selectors()
		if r.P(0.3) {
			// a later class of the same name counts
			nd := &Node{}
			g.anyStyle(nd, 0.3)
			g.doc.Classes = append(g.doc.Classes, ClassDef{Name: g.doc.Classes[0].Name, Sty: nd.Sty})
		}
		sc.X["pad"] = big()
	case kPatterns:
		sc.X["npat"] = 1 + r.Intn(1+r.Intn(700))
		sc.X["pseed"] = r.Intn(1 << 30)
		sc.X["nl"] = r.Intn(2)
		sc.X["pad"] = big()
		sc.X["padat"] = r.Intn(101)
	case kFontdef:
		sc.X["nfont"] = 1 + r.Intn(12)
		sc.X["pad"] = big()
	}
	if kind == kFontdef || (kind == kDoc || kind == kPatterns) && r.P(0.3) {
		sc.X["file"] = 1
	}
	sc.MapSeed = r.U64()
	return sc
}

// grid draws a grid of areas with contents.
func (g *Gen) grid() *Node {
	n := &Node{K: "grid"}
	areas := []string{"left", "right", "top"}[:1+g.r.Intn(3)]
	rows := 1 + g.r.Intn(3)
	var rs []string
	for i := 0; i < rows; i++ {
		rs = append(rs, strings.Join(areas, " "))
	}
	n.Txt = strings.Join(rs, ";")
	// parts in any order, several or none for an area
	parts := append([]string(nil), areas...)
	if g.r.P(0.4) {
		g.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	for g.r.P(0.25) {
		parts = append(parts, pick(g.r, areas))
	}
	if g.r.P(0.1) {
		parts = parts[1:]
	}
	for _, a := range parts {
		p := &Node{K: "part", Txt: a}
		for _, e := range g.elements(1 + g.r.Intn(2)) {
			p.Kids = append(p.Kids, e)
		}
		n.Kids = append(n.Kids, p)
	}
	return n
}

// selectors gives some classes rules for first and last rows and cells.
func (g *Gen) selectors() {
	for _, c := range append([]ClassDef(nil), g.doc.Classes...) {
		if g.r.P(0.4) {
			nd := &Node{}
			g.anyStyle(nd, 0.2)
			g.doc.Classes = append(g.doc.Classes, ClassDef{Name: c.Name + ":" + pick(g.r, selectors), Sty: nd.Sty})
		}
	}
}

// misfit adds an element no document can have.
func misfit(r *Rng, d *Doc) {
	lists := []*[]*Node{&d.Body, &d.Header, &d.Footer}
	for _, l := range []*[]*Node{&d.Body, &d.Header, &d.Footer} {
		for _, n := range *l {
			switch n.K {
			case "table":
				lists = append(lists, &n.Kids)
				for _, tr := range n.Kids {
					lists = append(lists, &tr.Kids)
				}
			case "text", "box":
				lists = append(lists, &n.Kids)
			}
		}
	}
	l := pick(r, lists)
	i := r.Intn(len(*l) + 1)
	x := &Node{K: "x", Txt: pick(r, []string{"<blink/>", "<blink>on and off</blink>", "<texts><p>a</p></texts>"})}
	*l = append(append(append([]*Node(nil), (*l)[:i]...), x), (*l)[i:]...)
}

func hasMisfit(d *Doc) bool {
	odd := false
	f := func(n *Node) {
		if n.K == "x" {
			odd = true
		}
	}
	walk(d.Body, f)
	walk(d.Header, f)
	walk(d.Footer, f)
	return odd
}

func randDelivery(r *Rng) RdPlan {
	return RdPlan{Seed: r.U64(), Mode: r.Intn(6), EOFData: r.P(0.4)}
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 12000, Thorough: 400000,
		Rule: "random documents, style classes, inline styles, pattern tables and font definitions (some damaged, some with lines beyond 64 KB), each delivered whole and in several random ways (single bytes, random and empty reads, buffer-edge sizes, end together with data; short reads of files); non-trivial: more than one delivery compared; distinct by input and deliveries",
		Real: "xdoc loader, style decoder, hyphenation loader, font definition loader, encoding/xml, toml", Stub: "input stream (simulated), disk (simulated)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := loadable(r)
			if r.P(0.2) {
				for i := 1 + r.Intn(4); i > 0; i-- {
					sc.Points = append(sc.Points, r.Intn(1<<24))
				}
			}
			if sc.x("kind") == kDoc && len(sc.Points) == 0 && r.P(0.12) {
				misfit(r, sc.Docs[0])
			}
			for i, n := 0, 3+r.Intn(4); i < n; i++ {
				sc.Rd = append(sc.Rd, randDelivery(r))
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			data := sc.payload()
			file := "/sim/data/in/file.txt"
			kind := kindNames[sc.x("kind")]
			load := func(p *RdPlan) ([]string, bool, Call) {
				d := NewDisk("/sim/work")
				if sc.x("file") == 1 {
					d.Put(file, []byte(data))
					if p != nil {
						d.chunk = NewRng(p.Seed)
					}
					return sc.loadFrom(nil, d, file)
				}
				if p == nil {
					p = &RdPlan{}
				}
				return sc.loadFrom(newReader([]byte(data), *p), d, "")
			}
			odd := sc.x("kind") == kDoc && hasMisfit(sc.Docs[0])
			ref, got, c := load(nil)
			if b := c.bad(); b != "" {
				if len(sc.Points) == 0 && !odd {
					res.fail("load", "loading a %s: %s", kind, b)
				}
				return res
			}
			res.Key = mix(hashStr(data), hashLines(ref))
			res.add(hashLines(ref))
			if c.Err != nil {
				stats["probe:rejected-inputs"]++
				if len(sc.Points) == 0 && !odd {
					res.fail("rejected", "loading a valid %s failed: %v", kind, c.Err)
					return res
				}
				if got {
					res.fail("object", "loading a %s returned an error (%v) and an object", kind, c.Err)
					return res
				}
			} else if odd {
				if len(sc.Points) == 0 {
					res.fail("tolerated", "a document with an element that is not known was loaded without it")
					return res
				}
			} else if len(sc.Points) == 0 {
				if diff := firstDiff(sc.truth(file), ref); diff != "" {
					res.fail("content", "%s of %d bytes: %s", kind, len(data), diff)
					return res
				}
			}
			stats["probe:"+strings.ReplaceAll(kind, " ", "-")]++
			for i := range sc.Rd {
				p := sc.Rd[i]
				dump, got2, c2 := load(&p)
				stats[fmt.Sprintf("fault:delivery-mode-%d", p.Mode)]++
				if p.EOFData {
					stats["fault:eof-with-data"]++
				}
				res.NonTrivial = true
				res.Key = mix(res.Key, hashStr(js(p)))
				res.add(hashLines(dump))
				if b := c2.bad(); b != "" {
					res.fail("panic", "%s delivered as %s: %s", kind, js(p), b)
					return res
				}
				if (c.Err == nil) != (c2.Err == nil) || got != got2 {
					res.fail("outcome", "%s of %d bytes: delivered at once: %v, delivered as %s: %v", kind, len(data), okErr(c.Err), js(p), okErr(c2.Err))
					return res
				}
				if diff := firstDiff(ref, dump); diff != "" {
					res.fail("delivery", "%s of %d bytes delivered as %s: %s", kind, len(data), js(p), diff)
					return res
				}
			}
			return res
		},
	})
	register(&Prop{
		ID: "C02", Quick: 20000, Thorough: 600000,
		Rule: "random documents, style classes, inline styles, pattern tables and font definitions whose stream fails (several errors, alone or together with the last data) at random bytes, at tag boundaries and at line ends, or ends early; files whose open or reads fail; non-trivial: the failure reached the loader; distinct by input and failure",
		Real: "xdoc loader, style decoder, hyphenation loader, font definition loader, encoding/xml, toml", Stub: "input stream (simulated, failing), disk (simulated, failing)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := loadable(r)
			data := sc.payload()
			end := len(data)
			if sc.x("kind") == kDoc {
				end = strings.Index(data, "</document>") + len("</document>")
			}
			var marks []int
			for i := 0; i < end; i++ {
				switch data[i] {
				case '>', '\n', '}', ';', '\r', ']':
					marks = append(marks, i+1)
				case '<':
					marks = append(marks, i)
				}
			}
			errs := []string{"EIO", "UEOF", "closed", "timeout", "weof", "ESTALE", "noprog", "EAGAIN", "EINTR", "pipeclosed"}
			for i, n := 0, 6+r.Intn(10); i < n && end > 0; i++ {
				at := r.Intn(end)
				if len(marks) > 0 && r.P(0.6) {
					at = pick(r, marks)
				}
				if r.P(0.1) {
					at = end - 1
				}
				if at >= end {
					at = end - 1
				}
				e := pick(r, errs)
				if sc.x("file") == 1 {
					f := DiskFault{Op: "read", Err: pick(r, []string{"EIO", "ESTALE", "ENXIO", "UEOF"}), Pos: at + 1}
					switch x := r.Intn(10); {
					case x == 0:
						f = DiskFault{Op: "open", Nth: 1, Err: pick(r, []string{"EACCES", "EMFILE", "EIO", "ENOENT"})}
					case x <= 3:
						f = DiskFault{Op: "read", Nth: 1 + r.Intn(4), Err: f.Err, Partial: pick(r, []int{0, 0, 3, 512, 4096}), Sticky: r.P(0.5)}
					}
					sc.Ops = append(sc.Ops, Op{K: "file", Disk: []DiskFault{f}})
					continue
				}
				p := randDelivery(r)
				if sc.x("kind") == kDoc && r.P(0.25) {
					p.Cut = at + 1
				} else {
					p.FailAt, p.Err, p.ErrData = at+1, e, r.P(0.4)
				}
				sc.Ops = append(sc.Ops, Op{K: "stream", Rd: &p})
			}
			if r.P(0.5) {
				sc.Chunk = r.U64() | 1
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			data := sc.payload()
			file := "/sim/data/in/file.txt"
			kind := kindNames[sc.x("kind")]
			end := len(data)
			if sc.x("kind") == kDoc {
				end = strings.Index(data, "</document>") + len("</document>")
			}
			for oi := range sc.Ops {
				op := &sc.Ops[oi]
				d := NewDisk("/sim/work")
				var got, must bool
				var c Call
				what := ""
				if op.K == "file" {
					if sc.x("file") != 1 {
						continue
					}
					d.Put(file, []byte(data))
					if sc.Chunk != 0 {
						d.chunk = NewRng(sc.Chunk)
					}
					for k := range op.Disk {
						f := op.Disk[k]
						f.seen, f.Fired = 0, 0
						d.faults = append(d.faults, &f)
					}
					what = js(op.Disk)
					_, got, c = sc.loadFrom(nil, d, file)
					d.fired()
					late := false
					for _, f := range d.faults {
						if f.Fired > 0 && sc.x("kind") == kDoc && f.at >= int64(end) {
							// the whole document was delivered before the failure
							stats["probe:fault-after-the-content"]++
							late = true
						} else if f.Fired > 0 {
							must = true
						}
					}
					if late && !must {
						continue
					}
				} else {
					p := *op.Rd
					if p.Cut-1 >= end || p.FailAt-1 >= end || p.Cut == 0 && p.FailAt == 0 || p.Cut > 0 && sc.x("kind") != kDoc {
						continue
					}
					what = js(p)
					_, got, c = sc.loadFrom(newReader([]byte(data), p), d, "")
					must = true
					if p.Cut > 0 {
						stats["fault:stream-truncated"]++
					} else {
						stats["fault:stream-"+p.Err]++
					}
				}
				if b := c.bad(); b != "" {
					res.fail("panic", "%s with failing input %s: %s", kind, what, b)
					return res
				}
				res.add(d.hash)
				if c.Err != nil {
					res.add(hashStr(c.Err.Error()))
				}
				if !must {
					stats["probe:fault-not-reached"]++
					if c.Err != nil {
						res.fail("false-failure", "%s: loading failed without a fault: %v", kind, c.Err)
						return res
					}
					continue
				}
				res.NonTrivial = true
				res.Key = mix(res.Key, hashStr(what+data))
				if c.Err == nil {
					res.fail("swallowed", "%s of %d bytes (content ends at %d), input %s: loaded as if complete", kind, len(data), end, what)
					return res
				}
				if got {
					res.fail("object", "%s: error (%v), but an object was returned, too", kind, c.Err)
					return res
				}
			}
			return res
		},
	})
}

func okErr(e error) string {
	if e == nil {
		return "success"
	}
	return "error " + e.Error()
}
