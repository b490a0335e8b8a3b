package core

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
)

var goFonts = []string{"Go-Regular.ttf", "Go-Bold.ttf", "Go-Italic.ttf", "Go-Bold-Italic.ttf", "Go-Mono.ttf"}

const fontdefPath = "/sim/conf/fonts/fontdef.toml"

// fontEntry is one entry of the font definition: the file spec with kind
// "fontentry" has Path = file path as written, Arg = "family|style|asset".
type fontEntry struct{ path, fam, style, asset string }

func (s *Scenario) fontEntries() []fontEntry {
	var out []fontEntry
	for _, f := range s.Files {
		if f.Kind == "fontentry" {
			p := strings.Split(f.Arg, "|")
			if len(p) == 3 {
				out = append(out, fontEntry{f.Path, p[0], p[1], p[2]})
			}
		}
	}
	return out
}

func (e fontEntry) abs() string {
	if strings.HasPrefix(e.path, "/") {
		return path.Clean(e.path)
	}
	return path.Join(path.Dir(fontdefPath), e.path)
}

func fontdefText(es []fontEntry) string {
	var b strings.Builder
	b.WriteString("MonoFont = \"Go Mono\"\n")
	last := ""
	for _, e := range es {
		if e.fam != last {
			fmt.Fprintf(&b, "[[Fonts]]\nName = %q\n", e.fam)
			last = e.fam
		}
		fmt.Fprintf(&b, "[[Fonts.StyleDefinitions]]\nStyle = %q\nFilePath = %q\n", e.style, e.path)
	}
	return b.String()
}

func genC06(r *Rng, idx int) *Scenario {
	sc := &Scenario{X: map[string]int{}}
	fams := []string{"gofont", "Open Sans", "Arial", "times", "Ünicode", "x-1"}
	for i := range fams {
		j := r.Intn(i + 1)
		fams[i], fams[j] = fams[j], fams[i]
	}
	n := 1 + r.Intn(3)
	dirs := []string{"", "./", "sub/", "../ttf/", "/sim/abs/", "a/../b/"}
	k := 0
	for i := 0; i < n; i++ {
		sts := []string{"regular", "bold", "italic", "bold+italic"}
		// named as fonts usually are, one beside the other
		names := []string(nil)
		dir := pick(r, dirs)
		odd := ""
		if r.P(0.25) {
			odd = pick(r, []string{"\\", "$", "$HOME", "${x}", "%s", "%20", "~", "~root", "#", "?", "&amp;", "\u00fc", "@", "[x]", "*", "{0}", "'", ";", "file:", "..", "-", "+", "\u200b"})
			if r.P(0.5) {
				dir += pick(r, []string{"", odd + "/", "d" + odd + "/x/../"})
			}
		}
		if r.P(0.5) {
			names = pick(r, [][]string{
				{"Xy-Regular.ttf", "Xy-Bold.ttf", "Xy-Italic.ttf", "Xy-BoldItalic.ttf"},
				{"Xy Regular.ttf", "Xy Bold.ttf", "Xy Italic.ttf", "Xy Bold Italic.ttf"},
				{"xy.ttf", "xyb.ttf", "xyi.ttf", "xybi.ttf"},
				{"xy.ttf", "xybd.ttf", "xyi.ttf", "xyz.ttf"},
				{"XY-regular.TTF", "XY-bold.TTF", "XY-italic.TTF", "XY-bold-italic.TTF"},
			})
			names = append([]string(nil), names...)
			for j := range names {
				names[j] = fmt.Sprintf("%s%c%s", odd, "abcdef"[i%6], names[j])
			}
		}
		for si, st := range sts {
			if st != "regular" && r.P(0.5) {
				continue
			}
			a := pick(r, goFonts)
			p := fmt.Sprintf("%s%sf%d.ttf", pick(r, dirs), odd, k)
			if names != nil {
				p = dir + names[si]
			} else if k > 0 && r.P(0.1) {
				// the same file for two styles
				es := sc.fontEntries()
				p, a = es[k-1].path, es[k-1].asset
			}
			sc.Files = append(sc.Files, FileSpec{Path: p, Kind: "fontentry", Arg: fams[i] + "|" + st + "|" + a})
			k++
		}
	}
	// the process runs elsewhere; same names may exist there
	sc.Cwd = pick(r, []string{"/sim/work", "/sim/conf", "/sim/conf/fonts", "/sim/other/deep", "/sim"})
	for _, e := range sc.fontEntries() {
		if !strings.HasPrefix(e.path, "/") && r.P(0.6) {
			p := path.Join(sc.Cwd, e.path)
			if p != e.abs() {
				sc.Files = append(sc.Files, FileSpec{Path: p, Kind: "font", Arg: pick(r, goFonts)})
			}
		}
		if r.P(0.3) {
			p := path.Join(path.Dir(fontdefPath), path.Base(e.path))
			if p != e.abs() {
				sc.Files = append(sc.Files, FileSpec{Path: p, Kind: "font", Arg: pick(r, goFonts)})
			}
		}
	}
	sc.X["rel"] = r.Intn(3)
	g := uniformGen(r, sc, Knobs{Uni: true, Texts: true, MaxWords: 6})
	for _, e := range sc.fontEntries() {
		for c := r.Intn(3); c >= 0; c-- {
			t := &Node{K: "text", ID: g.nextID(), Kids: []*Node{{K: "t", Txt: g.text(6)}}}
			t.set("font-family", e.fam)
			if strings.Contains(e.style, "bold") {
				t.set("font-weight", "bold")
			}
			if strings.Contains(e.style, "italic") {
				t.set("font-style", "italic")
			}
			if r.P(0.2) {
				t.set("font-decoration", "underline")
			}
			if r.P(0.3) {
				t.set("font-point-size", fstr(float64(r.Range(6, 20))))
			}
			g.doc.Body = append(g.doc.Body, t)
		}
	}
	r.Shuffle(len(g.doc.Body), func(i, j int) { g.doc.Body[i], g.doc.Body[j] = g.doc.Body[j], g.doc.Body[i] })
	es := sc.fontEntries()
	for i, n := 0, 2+r.Intn(4); i < n; i++ {
		e := pick(r, es)
		op := Op{Arg: e.abs()}
		if r.P(0.25) {
			op.Arg = fontdefPath
		}
		errn := pick(r, []string{"EIO", "EACCES", "EMFILE", "ESTALE", "UEOF", "ENXIO", "ENOENT"})
		switch x := r.Intn(12); {
		case x <= 1:
			op.K = pick(r, []string{"gone", "dir", "empty", "garbage", "text", "otf", "style"})
		case x <= 4:
			op.K = "short"
			op.N = r.Intn(len(asset(e.asset)))
			if r.P(0.4) {
				op.N = r.Intn(400)
			}
			if op.Arg == fontdefPath {
				op.K = "gone"
			}
		case x <= 7:
			op.K = "pos"
			sz := len(asset(e.asset))
			if op.Arg == fontdefPath {
				sz = len(fontdefText(es))
			}
			at := r.Intn(sz)
			if r.P(0.2) {
				at = sz
			}
			op.Disk = []DiskFault{{Op: "read", Path: op.Arg, Pos: at + 1, Err: errn}}
		default:
			op.K = "shot"
			op.Disk = []DiskFault{{Op: pick(r, []string{"open", "read", "read", "close", "fstat", "any"}), Path: op.Arg, Nth: 1 + r.Intn(5), Err: errn, Partial: pick(r, []int{0, 0, 1, 100, 5000, 60000}), Sticky: r.P(0.3)}}
		}
		sc.Ops = append(sc.Ops, op)
	}
	if r.P(0.5) {
		sc.Chunk = r.U64() | 1
	}
	return sc
}

var refFonts = map[string][]byte{}

// refFont is the font program gofpdf embeds for these runes of a file.
func refFont(a, runes string) []byte {
	if b, ok := refFonts[a+"|"+runes]; ok {
		return b
	}
	f := gofpdf.New("P", "mm", "A4", "")
	f.AddUTF8FontFromBytes("ref", "", asset(a))
	f.SetFont("ref", "", 10)
	f.AddPage()
	f.Write(5, runes)
	var b bytes.Buffer
	f.Output(&b)
	p, err := ParsePDF(b.Bytes())
	if err != nil {
		panic(err)
	}
	var o []byte
	for n := range p.FontObj {
		o = p.fontFile(n)
	}
	if len(refFonts) > 3000 {
		refFonts = map[string][]byte{}
	}
	refFonts[a+"|"+runes] = o
	return o
}

func init() {
	register(&Prop{
		ID: "C06", Quick: 1500, Thorough: 60000,
		Rule: "random font definitions (families, styles, relative and absolute paths, decoy files in the working directory), each used without and with faults of the definition or a font file (missing, damaged, cut off, open and read errors at any byte); non-trivial: a fault happened or a decoy existed; distinct by definition and fault",
		Real: "font definition loader, toml, engine, gofpdf, processor", Stub: "disk (simulated, failing), working directory",
		Gen: genC06,
		Run: runC06,
	})
}

func runC06(sc *Scenario) *Result {
	res := &Result{}
	xd := loadDoc(res, sc.Docs[0])
	if xd == nil {
		return res
	}
	es := sc.fontEntries()
	def := fontdefText(es)
	arg := fontdefPath
	cwd := sc.Cwd
	if cwd == "" {
		cwd = "/sim/work"
	}
	switch sc.x("rel") {
	case 1:
		// relative to the working directory
		up := strings.Repeat("../", strings.Count(cwd, "/"))
		arg = up + fontdefPath[1:]
	case 2:
		if strings.HasPrefix(fontdefPath, cwd+"/") {
			arg = fontdefPath[len(cwd)+1:]
		}
	}
	mk := func() *Disk {
		d := sc.disk()
		for _, e := range es {
			d.Put(e.abs(), asset(e.asset))
		}
		d.Put(fontdefPath, []byte(def))
		return d
	}
	type out struct {
		Call
		stage string
		w     simWriter
		ran   bool
	}
	run := func(d *Disk) *out {
		o := &out{}
		h := hyph(sc.Hyph)
		simOn(d, sc.MapSeed, 0, nil, stepBudget)
		o.Call = protect(func() error {
			o.stage = "loading the font definition"
			reg, err := font.LoadRegistryFromFile(arg)
			if err != nil {
				if reg != nil {
					o.stage = "both"
				}
				return err
			}
			o.stage = "creating the engine"
			e, err := engine.NewFPDF(reg, xd)
			if err != nil {
				return err
			}
			o.ran = true
			o.stage = "rendering"
			return xpdf.NewProcessor(e, h, xd, "/sim/work").Process(&o.w)
		})
		o.Steps = simOff()
		stats["renders"]++
		stats["steps"] += int(o.Steps)
		return o
	}
	check := func(what string, o *out) bool {
		p, err := ParsePDF(o.w.buf.Bytes())
		if err != nil {
			res.fail("malformed", "%s: not a well-formed PDF: %v", what, err)
			return false
		}
		// drawn runes per font
		runes := map[string]map[rune]bool{}
		for _, pg := range p.Pages {
			for _, m := range pg.Marks {
				if m.Kind == 't' && strings.HasPrefix(m.Font, "u:") {
					rs := runes[m.Font[2:]]
					if rs == nil {
						rs = map[rune]bool{}
						runes[m.Font[2:]] = rs
					}
					for _, c := range m.Text {
						rs[c] = true
					}
				}
			}
		}
		for _, e := range es {
			st := map[string]string{"regular": "", "bold": "B", "italic": "I", "bold+italic": "BI"}[e.style]
			base := "utf8" + strings.ReplaceAll(strings.ToLower(e.fam), " ", "#20") + st
			used := false
			for _, n := range sc.Docs[0].Body {
				fam, _ := n.get("font-family")
				w, _ := n.get("font-weight")
				i, _ := n.get("font-style")
				if n.K == "text" && fam == e.fam && (w == "bold") == strings.Contains(e.style, "bold") && (i == "italic") == strings.Contains(e.style, "italic") && n.ownText() != "" {
					used = true
				}
			}
			if !used {
				continue
			}
			rs := runes[base]
			if rs == nil {
				res.fail("not-used", "%s: no text is drawn in %s %s (fonts of the PDF: %v)", what, e.fam, e.style, sortedFonts(runes))
				return false
			}
			var l []rune
			for c := range rs {
				l = append(l, c)
			}
			sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
			if !bytes.Equal(p.fontFile(base), refFont(e.asset, string(l))) {
				is := "an unknown font"
				for _, a := range goFonts {
					if bytes.Equal(p.fontFile(base), refFont(a, string(l))) {
						is = a
					}
				}
				res.fail("wrong-font", "%s: %s %s is registered with %s (%s) but drawn with %s", what, e.fam, e.style, e.path, e.asset, is)
				return false
			}
			stats["probe:fonts-identified"]++
		}
		return true
	}
	o := run(mk())
	if b := o.bad(); b != "" || o.Err != nil {
		res.fail("refused", "without faults, %s failed: %s %v", o.stage, b, o.Err)
		return res
	}
	if !check("without faults", o) {
		return res
	}
	res.Key = hashStr(def + cwd + arg)
	res.NonTrivial = len(sc.Files) > len(es)
	res.add(hashStr(string(o.w.buf.Bytes())))
	for oi := range sc.Ops {
		op := &sc.Ops[oi]
		d := mk()
		must, may := false, false
		isFont := op.Arg != fontdefPath
		known := !isFont
		for _, e := range es {
			known = known || e.abs() == op.Arg
		}
		if !known {
			continue
		}
		switch op.K {
		case "gone":
			delete(d.files, op.Arg)
			must = true
		case "dir":
			delete(d.files, op.Arg)
			d.MkDirs(op.Arg)
			must = true
		case "empty":
			d.Put(op.Arg, nil)
			must = isFont
			may = !isFont
		case "garbage":
			d.Put(op.Arg, []byte("\x00\x02\x00\x00 not a font \xff\xfe = ["))
			must = true
		case "text":
			d.Put(op.Arg, []byte("<html><body>404 not found</body></html>"))
			must = true
		case "style":
			if !isFont {
				continue
			}
			// a style that no font can be asked for
			bad := append([]fontEntry(nil), es...)
			for i := range bad {
				if bad[i].abs() == op.Arg {
					bad[i].style = []string{"oblique", "bolditalic", "Bold", "italic+bold", "heavy", "none", "bold italic"}[(oi+len(def))%7]
				}
			}
			d.Put(fontdefPath, []byte(fontdefText(bad)))
			must = true
		case "otf":
			d.Put(op.Arg, append([]byte("OTTO"), asset("Go-Regular.ttf")[4:]...))
			must = true
		case "short":
			b, _ := d.Get(op.Arg)
			if op.N >= len(b) {
				continue
			}
			d.Put(op.Arg, append([]byte(nil), b[:op.N]...))
			may = true
		}
		for k := range op.Disk {
			f := op.Disk[k]
			f.seen, f.Fired = 0, 0
			d.faults = append(d.faults, &f)
		}
		what := fmt.Sprintf("%s of %s %s", op.K, op.Arg, js(op.Disk))
		if op.K == "short" {
			what = fmt.Sprintf("%s cut off after %d bytes", op.Arg, op.N)
		}
		o := run(d)
		if len(op.Disk) == 0 {
			stats["fault:file-"+op.K]++
		} else if d.fired() > 0 {
			for _, f := range d.faults {
				if f.Fired > 0 && (f.Op == "open" || f.Op == "read") {
					must = true
				}
				if f.Fired > 0 && f.Op == "any" {
					may = true
					if f.Nth == 1 {
						must = true // the open failed
					}
				}
			}
			may = true
		} else {
			stats["probe:fault-not-reached"]++
		}
		res.add(d.hash)
		if must || may {
			res.NonTrivial = true
			res.Key = mix(res.Key, hashStr(what))
		}
		if b := o.bad(); b != "" {
			res.fail("panic", "%s: %s: %s", what, o.stage, b)
			return res
		}
		if o.Err == nil {
			if must {
				res.fail("swallowed", "%s: no error was returned", what)
				return res
			}
			if op.K == "empty" {
				continue
			}
			if !check(what, o) {
				return res
			}
			continue
		}
		if o.stage == "both" {
			res.fail("object", "%s: error (%v), but a registry was returned, too", what, o.Err)
			return res
		}
		if !must && !may {
			res.fail("false-failure", "%s: %s failed without a fault: %v", what, o.stage, o.Err)
			return res
		}
		if must && o.ran {
			res.fail("late", "%s: the engine was created all the same, only %s failed: %v", what, o.stage, o.Err)
			return res
		}
		if o.w.buf.Len() > 0 {
			res.fail("output", "%s: %s failed, but %d bytes were written", what, o.stage, o.w.buf.Len())
			return res
		}
		stats["probe:refused"]++
	}
	return res
}

func sortedFonts(m map[string]map[rune]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
