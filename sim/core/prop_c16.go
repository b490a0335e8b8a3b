package core

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// env is one choice of what the run-time and the clock decide.
type envChoice struct {
	Map   uint64
	Clock int64
	Jumps []int64
}

func (p RdPlan) env() envChoice {
	// scenarios store the choices in reader plans: Seed and FailAt
	r := NewRng(p.Seed)
	e := envChoice{Map: p.Seed, Clock: int64(r.U64()>>20) - 1<<43}
	if r.P(0.3) {
		e.Clock = 0
	}
	for n := r.Intn(6); n > 0; n-- {
		e.Jumps = append(e.Jumps, int64(r.U64()>>24)-1<<39)
	}
	return e
}

type descItem struct {
	Name       string
	Value      interface{}
	StyleDiffs []struct {
		Path     string
		Org, Mod interface{}
	}
	Items []descItem
}

type descItemXML struct {
	Name       string
	Value      string
	StyleDiffs []struct{ Path, Org, Mod string }
	Items      []descItemXML
}

func describe(xd *xdoc.Document, e envChoice) (js, xm string, c Call) {
	simOn(NewDisk("/sim/work"), e.Map, e.Clock, e.Jumps, stepBudget)
	c = protect(func() error {
		js = xdoc.Describe(xd).Dump(xdoc.DescribeJSON)
		xm = xdoc.Describe(xd).Dump(xdoc.DescribeXML)
		return nil
	})
	c.Steps = simOff()
	return
}

func init() {
	register(&Prop{
		ID: "C16", Quick: 1300, Thorough: 100000,
		Rule: "random documents, loaded, described and rendered several times, each time under another map iteration order and other clock readings (offsets, jumps in both directions); non-trivial: something was drawn or described; distinct by document and orders",
		Real: "xdoc loader, describe, processor, engine, gofpdf", Stub: "map iteration order (seeded), clock (simulated, jumping), disk (simulated, fault-free)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{X: map[string]int{}}
			if r.P(0.4) {
				for {
					sc = loadable(r)
					if sc.x("kind") == kDoc {
						break
					}
				}
				sc.X = map[string]int{"norender": 1}
				sc.Rd = nil
				sc.Disk = nil
			} else {
				g := anyDoc(r, sc)
				g.selectors()
				sc.X = map[string]int{}
			}
			if r.P(0.2) {
				sc.X["extra"] = 1
				moreKeys(r, sc.Docs[0])
			}
			for n := 3 + r.Intn(3); n > 0; n-- {
				sc.Rd = append(sc.Rd, RdPlan{Seed: r.U64()})
			}
			return sc
		},
		Run: runC16,
	})
	register(&Prop{
		ID: "C19", Quick: 6000, Thorough: 300000,
		Rule: "random documents with every kind of element, class and style, described under seeded map iteration orders; non-trivial: the document has elements; distinct by document",
		Real: "xdoc loader, describe", Stub: "map iteration order (seeded), clock (simulated)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{}
			for {
				sc = loadable(r)
				if sc.x("kind") == kDoc {
					break
				}
			}
			sc.Disk, sc.Chunk = nil, 0
			sc.Rd = []RdPlan{{Seed: r.U64()}}
			sc.Docs[0].M = [4]float64{float64(r.Intn(40)), float64(r.Intn(40)) + 0.5, float64(r.Intn(40)), float64(r.Intn(40))}
			sc.Docs[0].Pad = 0
			if r.P(0.04) {
				// a style value that is not a number a description can hold
				var cand []*Node
				var walk func(l []*Node)
				walk = func(l []*Node) {
					for _, n := range l {
						switch n.K {
						case "text", "box", "p", "image", "td", "font":
							cand = append(cand, n)
						}
						if n.K != "td" && n.K != "part" {
							walk(n.Kids)
						}
					}
				}
				for _, l := range [][]*Node{sc.Docs[0].Body, sc.Docs[0].Header, sc.Docs[0].Footer} {
					walk(l)
				}
				if len(cand) > 0 {
					k := pick(r, []string{"width", "height", "padding", "offset-x", "offset-y", "font-point-size", "line-spacing", "column-width", "line-width"})
					v := pick(r, []string{"NaN", "nan", "Inf", "-Inf", "+inf", "infinity", "1e999"})
					if k == "padding" {
						l := []string{"1", "2", "0", "3"}
						l[r.Intn(4)] = v
						v = strings.Join(l, ",")
					}
					pick(r, cand).set(k, v)
					sc.X["odd"] = 1
				}
			}
			return sc
		},
		Run: runC19,
	})
}

// moreKeys adds style keys to the elements of the document that the library does
// not know, or that it knows but no other check uses: those its Styles name, and
// those other style languages have. Some mean the same as, or a part of, others.
func moreKeys(r *Rng, d *Doc) {
	var keys []string
	var look func(t reflect.Type)
	look = func(t reflect.Type) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if k := f.Tag.Get("style"); k != "" && diffPaths[k] == nil {
				keys = append(keys, k)
			}
			if f.Type.Kind() == reflect.Struct {
				look(f.Type)
			}
		}
	}
	look(reflect.TypeOf(style.Styles{}))
	own := len(keys)
	for _, k := range []string{"padding", "border", "margin"} {
		for _, s := range []string{"left", "top", "right", "bottom"} {
			keys = append(keys, k+"-"+s)
		}
	}
	keys = append(keys, strings.Fields("font font-size font-name text-align vertical-align align background border-width border-color foreground-color text-decoration size offset line-height min-height max-width x y")...)
	value := func(k string) string {
		if diffPaths[k] == nil && r.P(0.05) {
			return ""
		}
		switch {
		case strings.HasSuffix(k, "color") || k == "background":
			return hexColor(idColor(1+r.Intn(200), r.Intn(5000)))
		case k == "padding" || k == "border" || k == "margin":
			return pick(r, []string{"1,2,3,4", "0,1,0,1", "4,3,2,1"})
		case strings.HasSuffix(k, "align"):
			return pick(r, []string{"left", "center", "right", "block", "middle", "bottom"})
		case k == "font-style" || k == "font-weight" || k == "font-decoration" || k == "text-decoration":
			return pick(r, []string{"bold", "italic", "underline", "normal"})
		case k == "font-family" || k == "font-name" || k == "font":
			return pick(r, coreFams)
		}
		return strconv.Itoa(1 + r.Intn(12))
	}
	var known []string
	for k := range diffPaths {
		if k != "font-family" {
			known = append(known, k)
		}
	}
	sort.Strings(known)
	f := func(n *Node) {
		switch n.K {
		case "text", "box", "p", "td", "tr", "table", "font":
		default:
			return
		}
		if !r.P(0.4) {
			return
		}
		for i := 1 + r.Intn(4); i > 0; i-- {
			k := pick(r, keys)
			if own > 0 && r.P(0.5) {
				k = keys[r.Intn(own)]
			}
			n.set(k, value(k))
			if h, _, ok := strings.Cut(k, "-"); ok && diffPaths[h] != nil && r.P(0.7) {
				n.set(h, value(h))
			}
		}
		if k := pick(r, known); r.P(0.5) {
			n.set(k, value(k))
		}
	}
	walk(d.Header, f)
	walk(d.Footer, f)
	walk(d.Body, f)
}

func runC16(sc *Scenario) *Result {
	res := &Result{}
	d := sc.Docs[0]
	gofpdf.SetDefaultCatalogSort(false) // as in real life
	defer gofpdf.SetDefaultCatalogSort(true)
	var first struct {
		doc            []string
		js, xm         string
		bytes          string
		lines          []string
		info           string
		fonts, content string
	}
	src := d.XML()
	for i, rp := range sc.Rd {
		e := rp.env()
		var xd *xdoc.Document
		simOn(NewDisk("/sim/work"), e.Map, e.Clock, e.Jumps, stepBudget)
		c := protect(func() (err error) {
			xd, err = xdoc.Load(strings.NewReader(src))
			return
		})
		simOff()
		if sc.x("extra") == 1 && c.bad() == "" && (c.Err != nil || i > 0 && first.doc == nil) {
			// a value its key does not allow
			if i > 0 && (c.Err == nil || first.doc != nil) {
				res.fail("load-order", "whether the document can be loaded depends on the map iteration order: %v", c.Err)
				return res
			}
			continue
		}
		if b := c.bad(); b != "" || c.Err != nil {
			res.fail("load", "loading a valid document failed: %s %v", b, c.Err)
			return res
		}
		stats["fault:map-order"]++
		stats["fault:clock-jump"] += len(e.Jumps)
		dump := dumpLoaded(xd)
		if i == 0 {
			first.doc = dump
		} else if x := firstDiff(first.doc, dump); x != "" {
			res.fail("load-order", "the loaded document depends on the map iteration order: %s", x)
			return res
		}
		e2 := e
		for k := 0; k < 3; k++ {
			e2.Map = mix(e.Map, uint64(k))
			js, xm, c := describe(xd, e2)
			if b := c.bad(); b != "" {
				res.fail("describe", "describing: %s", b)
				return res
			}
			if i == 0 && k == 0 {
				first.js, first.xm = js, xm
			} else if js != first.js {
				res.fail("describe-order", "the JSON description depends on the map iteration order: %s", firstDiff(strings.Split(first.js, "\n"), strings.Split(js, "\n")))
				return res
			} else if xm != first.xm {
				res.fail("describe-order", "the XML description depends on the map iteration order: %s", firstDiff(strings.Split(first.xm, "\n"), strings.Split(xm, "\n")))
				return res
			}
		}
		if sc.x("norender") == 1 {
			continue
		}
		j := sc.job(xd)
		j.MapSeed, j.Clock, j.Jumps = e.Map, e.Clock, e.Jumps
		o := j.render()
		if sc.x("extra") == 1 && o.bad() == "" && (o.Err != nil || i > 0 && first.lines == nil) {
			// e.g. a font family that does not exist
			if i > 0 && (o.Err == nil || first.lines != nil) {
				res.fail("render-order", "whether the document can be rendered depends on the map iteration order: %v", o.Err)
				return res
			}
			continue
		}
		if b := o.bad(); b != "" || o.Err != nil {
			res.fail("render", "rendering a valid document failed: %s %v", b, o.Err)
			return res
		}
		p, err := ParsePDF(o.Bytes())
		if err != nil {
			res.fail("malformed", "not a well-formed PDF: %v", err)
			return res
		}
		lines, info, fonts := p.Normal()
		if i == 0 {
			first.lines, first.info, first.fonts = lines, info, fonts
			res.add(hashLines(lines))
			continue
		}
		if x := firstDiff(first.lines, lines); x != "" {
			res.fail("render-order", "the pages depend on the map iteration order or the clock: %s", x)
			return res
		}
		if info != first.info {
			res.fail("info", "the document information depends on the map iteration order or the clock: %q and %q", first.info, info)
			return res
		}
		if fonts != first.fonts {
			res.fail("fonts", "the fonts depend on the map iteration order or the clock: %q and %q", first.fonts, fonts)
			return res
		}
	}
	res.NonTrivial = len(sc.Rd) > 1 && len(d.Body) > 0
	res.Key = hashStr(src) ^ sc.Rd[0].Seed
	res.add(hashStr(first.js))
	return res
}

var diffPaths = map[string][]string{
	"font-family": {"Family"}, "font-point-size": {"PointSize"}, "font-style": {"Style"}, "font-weight": {"Weight"}, "font-decoration": {"Decoration"},
	"border":  {"Border:Left", "Border:Top", "Border:Right", "Border:Bottom"},
	"padding": {"Padding:Left", "Padding:Top", "Padding:Right", "Padding:Bottom"},
	"width":   {"Width"}, "height": {"Height"}, "line-spacing": {"LineSpacing"}, "offset-x": {"OffsetX"}, "offset-y": {"OffsetY"},
	"column-width": {"ColumnWidth"}, "h-align": {"HAlign"}, "v-align": {"VAlign"}, "line-width": {"LineWidth"},
	"color": {"Foreground:R", "Foreground:G", "Foreground:B"}, "text-color": {"Text:R", "Text:G", "Text:B"}, "background-color": {"Background:R", "Background:G", "Background:B"},
}

// ownStyle lists what the element itself sets to something other than nothing.
func ownStyle(doc *Doc, n *Node) string {
	var out []string
	for k, v := range (cascade{}).with(doc, n, "") {
		ps := diffPaths[k]
		switch {
		case k == "padding":
			f := num4(v)
			for i, p := range ps {
				if f[i] != 0 {
					out = append(out, p+"="+fstr(f[i]))
				}
			}
		case k == "border":
			f := num4(v)
			for i, p := range ps {
				if f[i] != 0 {
					out = append(out, p+"="+fstr(f[i]))
				}
			}
		case strings.HasSuffix(k, "color"):
			c := parseHex(v)
			for i, x := range []int{c.R, c.G, c.B} {
				if x != 0 {
					out = append(out, fmt.Sprintf("%s=%d", ps[i], x))
				}
			}
		case k == "font-family" || k == "font-style" || k == "font-weight" || k == "font-decoration" || k == "h-align" || k == "v-align":
			if v != "" {
				out = append(out, ps[0]+"="+v)
			}
		case len(ps) == 1:
			if f := parseF(v); f != 0 {
				out = append(out, ps[0]+"="+fstr(f))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// described lists what the description of the written document has to say.
func (d *dumper) described(depth int, doc *Doc, txt0 string, ns []*Node) {
	txt := txt0
	flush := func() {
		if strip(normText(txt)) != "" {
			d.put(depth, "text-block [%s] {}", oneSpaced(txt))
		}
		txt = ""
	}
	put := func(depth int, name, val string, n *Node) {
		d.put(depth, "%s [%s] {%s}", name, val, ownStyle(doc, n))
	}
	none := &Node{}
	for _, n := range ns {
		if n.K == "t" {
			txt += n.Txt
			continue
		}
		flush()
		switch n.K {
		case "lf":
			put(depth, "line-feed", fstr(n.Num), none)
		case "setx", "sety":
			put(depth, n.K, fstr(n.Num), none)
		case "font":
			put(depth, "font", "", n)
		case "box", "text":
			put(depth, n.K, "", n)
			d.described(depth+1, doc, n.Txt, n.Kids)
		case "p":
			put(depth, "paragraph", oneSpaced(n.Txt), n)
		case "image":
			put(depth, "image", oneSpaced(n.Txt), n)
		case "br":
			put(depth, "line-break", "", none)
		case "newpage":
			put(depth, "page-break", "", none)
		case "table":
			put(depth, "table", "", n)
			for _, tr := range n.Kids {
				put(depth+1, "table-row", "", tr)
				for _, td := range tr.Kids {
					put(depth+2, fmt.Sprintf("table-cell colspan=%d rowspan=%d", td.CS, td.RS), "", td)
					d.described(depth+3, doc, td.Txt, td.Kids)
				}
			}
		case "grid":
			put(depth, "grid", "", n)
			for _, r := range strings.Split(n.Txt, ";") {
				put(depth+1, "grid-row", oneSpaced(r), none)
			}
			for _, p := range n.Kids {
				put(depth+1, "grid-part", p.Txt, none)
				d.described(depth+2, doc, "", p.Kids)
			}
		}
	}
	flush()
}

func (d *dumper) item(depth int, it descItem) {
	var ds []string
	for _, x := range it.StyleDiffs {
		m := fmt.Sprint(x.Mod)
		if f, ok := x.Mod.(float64); ok {
			m = fstr(f)
		}
		ds = append(ds, strings.TrimPrefix(x.Path, "styles:")+"="+m)
	}
	sort.Strings(ds)
	v := ""
	switch x := it.Value.(type) {
	case nil:
	case float64:
		v = fstr(x)
	default:
		v = oneSpaced(fmt.Sprint(x))
	}
	if it.Name == "text-block" {
		if v == "" {
			return
		}
		// text in several pieces: nothing says whether white space separates them
		in := strings.Repeat(" ", depth)
		if l := len(d.out); l > 0 {
			for _, pre := range []string{in + "text-block [", in + "text-blocks ["} {
				if strings.HasPrefix(d.out[l-1], pre) {
					had := strings.TrimSuffix(strings.TrimPrefix(d.out[l-1], pre), "] {}")
					d.out[l-1] = in + "text-blocks [" + strip(had+v) + "] {}"
					return
				}
			}
		}
	}
	d.put(depth, "%s [%s] {%s}", it.Name, v, strings.Join(ds, " "))
	for _, k := range it.Items {
		d.item(depth+1, k)
	}
}

func (it descItemXML) plain() descItem {
	o := descItem{Name: it.Name, Value: it.Value}
	for _, x := range it.StyleDiffs {
		o.StyleDiffs = append(o.StyleDiffs, struct {
			Path     string
			Org, Mod interface{}
		}{x.Path, x.Org, x.Mod})
	}
	for _, k := range it.Items {
		o.Items = append(o.Items, k.plain())
	}
	return o
}

func runC19(sc *Scenario) *Result {
	res := &Result{}
	d := sc.Docs[0]
	if d == nil || d.Raw != "" {
		return res
	}
	if sc.x("odd") == 1 {
		// refusing such a document is as good as describing it truthfully
		xd, c := load(d.XML())
		if b := c.bad(); b != "" {
			res.fail("load", "loading: %s", b)
			return res
		}
		if xd == nil {
			stats["probe:odd-document-refused"]++
			return res
		}
	}
	xd := loadDoc(res, d)
	if xd == nil {
		return res
	}
	e := envChoice{Map: 1}
	if len(sc.Rd) > 0 {
		e = sc.Rd[0].env()
	}
	js, xm, c := describe(xd, e)
	if b := c.bad(); b != "" {
		res.fail("describe", "describing: %s", b)
		return res
	}
	for i, what := range []string{"JSON", "XML"} {
		got, err := readDescription([]string{js, xm}[i], i == 1)
		if err != nil {
			res.fail("syntax", "the %s description is not well-formed: %v: %s", what, err, clip(xm, 200))
			return res
		}
		if x := descDiff(wantDescription(d), got); x != "" {
			res.fail("untrue", "%s description: %s", what, x)
			return res
		}
	}
	res.NonTrivial = len(d.Body)+len(d.Header)+len(d.Footer) > 0
	res.Key = hashStr(d.XML())
	res.add(hashStr(js))
	return res
}

// oneSpaced has single spaces for white space, and none around it.
func oneSpaced(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), " ")
}

// descDiff compares descriptions.
func descDiff(want, got []string) string {
	w := append([]string{}, want...)
	for i := range w {
		if i < len(got) && strings.HasPrefix(strings.TrimSpace(got[i]), "text-blocks [") && strings.HasPrefix(strings.TrimSpace(w[i]), "text-block [") {
			in := w[i][:len(w[i])-len(strings.TrimLeft(w[i], " "))]
			w[i] = in + "text-blocks [" + strip(strings.TrimSuffix(strings.TrimPrefix(w[i], in+"text-block ["), "] {}")) + "] {}"
		}
	}
	return firstDiff(w, got)
}

// wantDescription lists what a description of the document has to say.
func wantDescription(d *Doc) []string {
	want := &dumper{}
	want.put(0, "meta [] {}")
	for i, n := range []string{"author", "creator", "subject"} {
		want.put(1, "%s [%s] {}", n, oneSpaced(d.Meta[i]))
	}
	want.put(0, "page [] {}")
	want.put(1, "orientation [%s] {}", d.Orient)
	want.put(1, "format [%s] {}", d.Format)
	want.put(1, "margins [] {}")
	for i, n := range []string{"left", "top", "right", "bottom"} {
		want.put(2, "%s [%s] {}", n, fstr(d.M[i]))
	}
	for i, ns := range [][]*Node{d.Header, d.Footer, d.Body} {
		want.put(0, "%s [] {}", []string{"header", "footer", "body"}[i])
		want.described(1, d, "", ns)
	}
	return want.out
}

// readDescription lists what a description in JSON or XML says.
// onlyXML reports whether s is one XML element and nothing else.
func onlyXML(s string) error {
	d := xml.NewDecoder(strings.NewReader(s))
	depth, roots := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			if depth != 0 || roots != 1 {
				return fmt.Errorf("%d root elements, %d left open", roots, depth)
			}
			return nil
		}
		if err != nil {
			return err
		}
		switch t := t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strip(string(t)) != "" {
				return fmt.Errorf("%q outside of the description", clip(string(t), 60))
			}
		}
	}
}

func readDescription(desc string, isXML bool) ([]string, error) {
	var t struct{ Items []descItem }
	if !isXML {
		if err := json.Unmarshal([]byte(desc), &t); err != nil {
			return nil, err
		}
	} else {
		var x struct{ Items []descItemXML }
		if err := onlyXML(desc); err != nil {
			return nil, err
		}
		if err := xml.Unmarshal([]byte(desc), &x); err != nil {
			return nil, err
		}
		for _, k := range x.Items {
			t.Items = append(t.Items, k.plain())
		}
	}
	got := &dumper{}
	for _, it := range t.Items {
		got.item(0, it)
	}
	return got.out, nil
}
