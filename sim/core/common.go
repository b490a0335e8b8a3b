package core

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf/xdoc"
)

// loadDoc loads a document that is valid by construction.
func loadDoc(res *Result, d *Doc) *xdoc.Document {
	xd, c := load(d.XML())
	if b := c.bad(); b != "" {
		res.fail("load", "loading a valid document: %s", b)
		return nil
	}
	if c.Err != nil {
		res.fail("load", "loading a valid document failed: %v", c.Err)
		return nil
	}
	return xd
}

// files puts the scenario's files on a disk.
func (s *Scenario) putFiles(d *Disk) {
	d.MkDirs("/sim/work")
	for _, f := range s.Files {
		switch f.Kind {
		case "img":
			d.Put(f.Path, imageBytes(f.Arg))
		case "font":
			d.Put(f.Path, asset(f.Arg))
		case "raw":
			d.Put(f.Path, []byte(f.Arg))
		case "dir":
			d.MkDirs(f.Path)
		}
	}
}

func (s *Scenario) disk() *Disk {
	d := NewDisk("/sim/work")
	s.putFiles(d)
	if s.Cwd != "" {
		d.cwd = s.Cwd
	}
	for i := range s.Disk {
		f := s.Disk[i]
		d.faults = append(d.faults, &f)
	}
	if s.Chunk != 0 {
		d.chunk = NewRng(s.Chunk)
	}
	return d
}

func (s *Scenario) job(xd *xdoc.Document) *Job {
	return &Job{D: s.disk(), XD: xd, Hyph: s.Hyph, UF: s.UF, MapSeed: s.MapSeed, Clock: s.Clock, Jumps: s.Jumps, WD: "/sim/work"}
}

// fired counts the disk faults that happened.
func (d *Disk) fired() int {
	n := 0
	for _, f := range d.faults {
		if f.Fired > 0 {
			n++
			stats["fault:disk-"+f.Op+"-"+f.Err]++
		}
	}
	return n
}

var showMarks bool

// okRender renders without faults and parses the result.
func okRender(res *Result, sc *Scenario, xd *xdoc.Document) (*PDF, *Out) {
	o := sc.job(xd).render()
	if b := o.bad(); b != "" {
		res.fail("render", "rendering a valid document: %s", b)
		return nil, o
	}
	if o.Err != nil {
		res.fail("render", "rendering a valid document failed: %v", o.Err)
		return nil, o
	}
	p, err := ParsePDF(o.Bytes())
	if err != nil {
		res.fail("malformed", "output is not a well-formed PDF: %v", err)
		return nil, o
	}
	if showMarks {
		fmt.Println("--- " + strings.Join(p.Lines(nil), "\n"))
	}
	return p, o
}

func hashLines(ls []string) uint64 {
	h := uint64(7)
	for _, l := range ls {
		h = mix(h, hashStr(l))
	}
	return h
}

// firstDiff describes the first difference of two line lists.
func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("item %d: expected %s, got %s", i, clip(x, 200), clip(y, 200))
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var formats = map[string][2]float64{"a3": {297, 420}, "a4": {210, 297}, "a5": {420.94 / ptmm, 595.28 / ptmm}, "letter": {215.9, 279.4}, "legal": {215.9, 355.6}}

// pageSize is the paper size of the document.
func (d *Doc) pageSize() (w, h float64) {
	f, ok := formats[d.Format]
	if !ok {
		f = formats["a4"]
	}
	w, h = f[0], f[1]
	if d.Orient == "landscape" {
		w, h = h, w
	}
	return
}

// ---- text metrics, straight from the PDF library

var metricPdf *gofpdf.Fpdf

func textWidth(m Mark) float64 {
	if metricPdf == nil {
		p := gofpdf.New("P", "mm", "A4", "")
		p.AddUTF8FontFromBytes("gofont", "", asset("Go-Regular.ttf"))
		p.AddUTF8FontFromBytes("gofont", "B", asset("Go-Bold.ttf"))
		p.AddUTF8FontFromBytes("gofont", "I", asset("Go-Italic.ttf"))
		p.AddUTF8FontFromBytes("gofont", "BI", asset("Go-Bold-Italic.ttf"))
		metricPdf = p
	}
	fam, sty, ok := fontOf(m.Font)
	if !ok {
		return 0
	}
	metricPdf.SetFont(fam, sty, m.Size)
	return metricPdf.GetStringWidth(m.Text)
}

var coreNames = map[string][2]string{
	"Helvetica": {"Helvetica", ""}, "Helvetica-Bold": {"Helvetica", "B"}, "Helvetica-Oblique": {"Helvetica", "I"}, "Helvetica-BoldOblique": {"Helvetica", "BI"},
	"Times-Roman": {"Times", ""}, "Times-Bold": {"Times", "B"}, "Times-Italic": {"Times", "I"}, "Times-BoldItalic": {"Times", "BI"},
	"Courier": {"Courier", ""}, "Courier-Bold": {"Courier", "B"}, "Courier-Oblique": {"Courier", "I"}, "Courier-BoldOblique": {"Courier", "BI"},
}

// fontOf maps a PDF base font to family and style.
func fontOf(base string) (fam, sty string, ok bool) {
	if f, ok := coreNames[base]; ok {
		return f[0], f[1], true
	}
	switch b := strings.TrimPrefix(base, "u:"); {
	case strings.HasPrefix(b, "utf8gofontBI"):
		return "gofont", "BI", true
	case strings.HasPrefix(b, "utf8gofontB"):
		return "gofont", "B", true
	case strings.HasPrefix(b, "utf8gofontI"):
		return "gofont", "I", true
	case strings.HasPrefix(b, "utf8gofont"):
		return "gofont", "", true
	}
	return "", "", false
}

func near(a, b, eps float64) bool { return math.Abs(a-b) <= eps }

// ---- images

func genImages(r *Rng, sc *Scenario, n int) []string {
	var names []string
	for i := 0; i < n; i++ {
		nm := pick(r, imgNames)
		path := "/sim/work/" + imgFile(nm)
		src := imgFile(nm)
		switch r.Intn(4) {
		case 0:
			path = "/sim/img/sub/" + imgFile(nm)
			src = path
		case 1:
			path = "/sim/work/pics/" + imgFile(nm)
			src = "pics/" + imgFile(nm)
		}
		dup := false
		for _, f := range sc.Files {
			if f.Path == path {
				dup = true
			}
		}
		if !dup {
			sc.Files = append(sc.Files, FileSpec{Path: path, Kind: "img", Arg: nm})
		}
		names = append(names, src)
	}
	return names
}

// imgName gives the generator name of the image behind a source attribute.
func (s *Scenario) imgName(src string) string {
	p := src
	if !strings.HasPrefix(p, "/") {
		p = "/sim/work/" + p
	}
	for _, f := range s.Files {
		if f.Path == p && f.Kind == "img" {
			return f.Arg
		}
	}
	return ""
}

// ---- expected text

// matchText reports whether runs carry want; hyphens may be added at line ends
// when hyph is set. It returns "" or a description of the mismatch.
func matchText(want string, runs []Mark, pageOf []int, hyph bool) string {
	states := map[int]bool{0: true}
	full := ""
	for i, m := range runs {
		t := strip(m.Text)
		full += t
		eol := i+1 == len(runs) || pageOf[i+1] != pageOf[i] || !near(runs[i+1].Y, m.Y, 0.05)
		next := map[int]bool{}
		for s := range states {
			if strings.HasPrefix(want[s:], t) {
				next[s+len(t)] = true
			}
			if hyph && eol && strings.HasSuffix(t, "-") && strings.HasPrefix(want[s:], t[:len(t)-1]) {
				next[s+len(t)-1] = true
			}
		}
		if len(next) == 0 {
			for s := range states {
				return fmt.Sprintf("expected %q next, drew %q", clip(want[s:], 60), clip(t, 60))
			}
		}
		states = next
	}
	if states[len(want)] {
		return ""
	}
	max := 0
	for s := range states {
		if s > max {
			max = s
		}
	}
	return fmt.Sprintf("missing at the end: %q", clip(want[max:], 80))
}

// spaced is text without its white space and, per byte, what separates it from
// the byte before: 's' white space, 'n' nothing, 'u' anything (element borders,
// next to a backslash).
type spaced struct {
	t   string
	sep []byte
}

func spacedText(parts ...string) *spaced {
	var o spaced
	var b strings.Builder
	for _, p := range parts {
		gap := byte('u')
		prev := byte(0)
		for i := 0; i < len(p); i++ {
			c := p[i]
			switch c {
			case ' ', '\n', '\r', '\t':
				if gap == 'n' {
					gap = 's'
				}
				continue
			}
			if gap == 's' && (c == '\\' || prev == '\\') {
				gap = 'u'
			}
			b.WriteByte(c)
			o.sep = append(o.sep, gap)
			gap, prev = 'n', c
		}
	}
	o.t = b.String()
	return &o
}

func (n *Node) spaced(rep ...string) *spaced {
	r := strings.NewReplacer(rep...)
	parts := []string{r.Replace(n.Txt)}
	for _, k := range n.Kids {
		if k.K == "t" || k.K == "p" {
			parts = append(parts, r.Replace(k.Txt))
		}
	}
	return spacedText(parts...)
}

// oddWidth reports characters that the test fonts lack: their width is not the
// advance gofpdf reckons with.
func oddWidth(s string) bool {
	for _, r := range s {
		if r > 0x24F && (r < 0x386 || r > 0x44F) || r >= 0x7F && r <= 0xA0 || r == 0xAD {
			return true
		}
	}
	return false
}

// matchSpaced reports words of want that were drawn without a gap between them,
// and gaps drawn inside of words. The text itself is known to match. If whole, every
// word fits on a line, and is divided only with a hyphen.
func matchSpaced(want *spaced, runs []Mark, pageOf []int, hyph, whole bool) string {
	states := map[int]bool{0: true}
	prev := -1 // run before that drew something
	space := false
	least := math.Inf(1) // a block-aligned line has the same gap everywhere
	for _, m := range runs {
		least = math.Min(least, textWidth(Mark{Text: " ", Font: m.Font, Size: m.Size}))
	}
	for i, m := range runs {
		var t []byte
		var sep []byte
		gap := byte('n')
		if prev < 0 {
			gap = 'u'
		} else {
			q := runs[prev]
			end := q.X + textWidth(q)
			sw := textWidth(Mark{Text: " ", Font: q.Font, Size: q.Size})
			if hyph {
				sw = least
			}
			switch {
			case pageOf[prev] != pageOf[i] || m.X < end-0.3 || math.Abs(m.Y-q.Y) > 0.3*math.Max(m.Size, q.Size)/ptmm || strings.Contains(q.Text, "{np}") || oddWidth(q.Text):
				gap = 'u'
				if whole && !strings.HasSuffix(strings.TrimRight(q.Text, " "), "-") && !strings.Contains(q.Text, "{np}") && !oddWidth(q.Text) {
					gap = 'l'
				}
			case space || m.X > end+0.35*sw:
				gap = 's'
			}
		}
		for j := 0; j < len(m.Text); j++ {
			switch c := m.Text[j]; c {
			case ' ', '\n', '\r', '\t':
				if gap == 'n' || gap == 'l' {
					gap = 's'
				}
			default:
				t = append(t, c)
				sep = append(sep, gap)
				gap = 'n'
			}
		}
		space = gap == 's' || len(t) == 0 && (space || len(m.Text) > 0)
		if len(t) == 0 {
			continue
		}
		prev = i
		eol := i+1 == len(runs) || pageOf[i+1] != pageOf[i] || !near(runs[i+1].Y, m.Y, 0.05)
		next := map[int]bool{}
		bad := ""
		try := func(s, n int) {
			if s+n > len(want.t) || want.t[s:s+n] != string(t[:n]) {
				return
			}
			for j := 0; j < n; j++ {
				w, d := want.sep[s+j], sep[j]
				if w == 's' && d == 'n' {
					bad = fmt.Sprintf("no space between %q and %q", clip(tail(want.t[:s+j], 20), 30), clip(want.t[s+j:], 20))
					return
				}
				if w == 'n' && d == 'l' {
					bad = fmt.Sprintf("a word that fits on a line is divided without a hyphen between %q and %q", clip(tail(want.t[:s+j], 20), 30), clip(want.t[s+j:], 20))
					return
				}
				if w == 'n' && d == 's' {
					bad = fmt.Sprintf("space between %q and %q", clip(tail(want.t[:s+j], 20), 30), clip(want.t[s+j:], 20))
					return
				}
			}
			next[s+n] = true
		}
		for s := range states {
			try(s, len(t))
			if hyph && eol && t[len(t)-1] == '-' {
				try(s, len(t)-1)
			}
		}
		if len(next) == 0 {
			return bad
		}
		states = next
	}
	return ""
}

type colored struct {
	runs  []Mark
	pages []int
}

// byColor groups the text runs by colour in drawing order.
func (p *PDF) byColor() map[RGB]*colored {
	out := map[RGB]*colored{}
	for i, pg := range p.Pages {
		for _, m := range pg.Marks {
			if m.Kind != 't' {
				continue
			}
			c := out[m.Color]
			if c == nil {
				c = &colored{}
				out[m.Color] = c
			}
			c.runs = append(c.runs, m)
			c.pages = append(c.pages, i+1)
		}
	}
	return out
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func (s *Scenario) x(k string) int { return s.X[k] }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
