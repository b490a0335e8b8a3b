package core

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---- an independent model of the style cascade

type cascade map[string]string

func defaultCascade() cascade {
	return cascade{
		"font-family": "Arial", "font-point-size": "12", "font-style": "normal", "font-weight": "normal", "font-decoration": "normal",
		"border": "0,0,0,0", "padding": "0,0,0,0", "width": "-1", "height": "-1", "line-spacing": "1.5", "offset-x": "0", "offset-y": "0",
		"column-width": "-1", "h-align": "left", "v-align": "top", "color": "#000000", "text-color": "#000000", "background-color": "#ffffff", "line-width": "1",
	}
}

// with returns c as changed by the element's classes and its inline style.
func (c cascade) with(d *Doc, n *Node, sel string) cascade {
	o := cascade{}
	for k, v := range c {
		o[k] = v
	}
	for _, name := range n.Cls {
		var base, special *ClassDef
		for i := range d.Classes {
			switch d.Classes[i].Name {
			case name:
				base, special = &d.Classes[i], nil
			case name + ":" + sel:
				if sel != "" && base != nil {
					special = &d.Classes[i]
				}
			}
		}
		use := base
		if special != nil {
			use = special
		}
		if use != nil {
			for _, kv := range use.Sty {
				o[kv.K] = kv.V
			}
		}
	}
	for _, kv := range n.Sty {
		o[kv.K] = kv.V
	}
	return o
}

func (c cascade) fontOnly(f cascade) cascade {
	o := cascade{}
	for k, v := range c {
		o[k] = v
	}
	for k, v := range f {
		if strings.HasPrefix(k, "font-") {
			o[k] = v
		}
	}
	return o
}

func (c cascade) num(k string) float64 { return parseF(c[k]) }

// fontName is the family and style the PDF must name.
func (c cascade) fontName() (fam, sty string) {
	fam = c["font-family"]
	if strings.EqualFold(fam, "Arial") {
		fam = "Helvetica"
	}
	if c["font-weight"] == "bold" {
		sty = "B"
	}
	if c["font-style"] == "italic" {
		sty += "I"
	}
	return
}

// ---- what each element must look like

type look struct {
	n     *Node // the element or paragraph
	el    *Node // the text, box or cell it belongs to
	c     cascade
	elc   cascade
	frame bool
	x     float64 // left edge of a text element, if known
	xok   bool
	root  *look
	dirty bool // its tokens are not unique
}

// looks lists the elements of the body with their effective styles by token.
func looks(d *Doc) (byTok map[string]*look, els []*look) {
	byTok = map[string]*look{}
	cur := defaultCascade()
	x, xok := d.M[0], true
	tok := func(w string, l *look) {
		if o, dup := byTok[w]; dup { // only while minimising
			l.dirty = true
			o.dirty = true
			o.root.dirty = true
			l.root.dirty = true
			return
		}
		byTok[w] = l
	}
	leaf := func(el *Node, c cascade, frame bool) {
		l := &look{n: el, el: el, c: c, elc: c, frame: frame, x: x, xok: xok && !frame}
		l.root = l
		els = append(els, l)
		for _, k := range el.Kids {
			switch k.K {
			case "t":
				for _, w := range strings.Fields(k.Txt) {
					tok(w, l)
				}
			case "p":
				pl := &look{n: k, el: el, c: c.with(d, k, ""), elc: c, frame: frame, x: l.x, xok: l.xok, root: l}
				for _, w := range strings.Fields(k.Txt) {
					tok(w, pl)
				}
			}
		}
	}
	for _, n := range d.Body {
		switch n.K {
		case "font":
			cur = cur.fontOnly(cur.with(d, n, ""))
		case "setx":
			w, _ := d.pageSize()
			x, xok = n.at(w), true
		case "lf", "newpage":
			x, xok = d.M[0], true
		case "text", "box":
			leaf(n, cur.with(d, n, ""), n.K == "box")
			if n.K == "box" || strip(n.allText()) != "" {
				x, xok = d.M[0], true
			} else {
				xok = false
			}
		case "table":
			tc := cur.with(d, n, "")
			for i, tr := range n.Kids {
				sel := ""
				if i == 0 {
					sel = "first-row"
				} else if i == len(n.Kids)-1 {
					sel = "last-row"
				}
				rc := tc.with(d, tr, sel)
				for j, td := range tr.Kids {
					sel := ""
					if j == 0 {
						sel = "first-cell"
					} else if j == len(tr.Kids)-1 {
						sel = "last-cell"
					}
					leaf(td, rc.with(d, td, sel), true)
					for _, k := range td.Kids {
						if k.K == "box" {
							leaf(k, cur.with(d, k, ""), true)
						}
					}
				}
			}
			xok = false
		}
	}
	return
}

func (n *Node) allText() string {
	s := n.Txt
	for _, k := range n.Kids {
		s += k.Txt
	}
	return s
}

// ---- generator

// tokens are numbers: no hyphenation pattern touches them.
func (g *Gen) tokens(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(' ') // adjacent texts must not join
		b.WriteString(strconv.Itoa(10000 + g.nextID()))
	}
	return b.String()
}

func (g *Gen) anyStyle(n *Node, p float64) {
	r := g.r
	g.font(n, p)
	if r.P(p) {
		n.set("text-color", pick(r, []string{"#aa0000", "#00aa00", "#0000aa", "#000000", "#123456", "#ffffff"}))
	}
	if n.K != "p" && n.K != "font" {
		if r.P(p) {
			n.set("h-align", pick(r, []string{"left", "center", "right", "block"}))
		}
		if r.P(p * 0.5) {
			n.set("line-spacing", pick(r, []string{"1", "1.3", "1.5", "2.5", "0.8"}))
		}
	}
	if n.K == "box" || n.K == "td" || n.K == "tr" || n.K == "table" {
		if r.P(p) {
			n.set("background-color", pick(r, []string{"#eeeeee", "#ffeeee", "#eeffee", "#eeeeff", "#ffffff"}))
		}
		if r.P(p) {
			n.set("color", pick(r, []string{"#550000", "#005500", "#000055", "#000000"}))
		}
		if r.P(p) {
			n.set("border", pick(r, []string{"1,1,1,1", "0,1,0,1", "0,0,0,0", "1,0,0,0", "2,0,0,3"}))
		}
		if r.P(p) {
			n.set("line-width", pick(r, []string{"0", "0.2", "0.5", "1", "1.5"}))
		}
		if r.P(p * 0.5) {
			n.set("padding", g.padding())
		}
		if n.K != "box" && r.P(p*0.7) {
			n.set("v-align", pick(r, []string{"top", "middle", "bottom"}))
		}
	}
	if len(g.doc.Classes) > 0 && r.P(0.4) {
		m := 1 + r.Intn(2)
		for i := 0; i < m; i++ {
			c := pick(r, g.doc.Classes).Name
			if j := strings.IndexByte(c, ':'); j > 0 {
				c = c[:j]
			}
			n.Cls = append(n.Cls, c)
		}
		if r.P(0.1) {
			n.Cls = append(n.Cls, "no-such-class")
		}
	}
}

func (g *Gen) tokenKids(n *Node, max int) {
	r := g.r
	for i, m := 0, 1+r.Intn(3); i < m; i++ {
		k := 1 + r.Intn(max)
		if r.P(0.55) {
			n.Kids = append(n.Kids, &Node{K: "t", Txt: g.tokens(k)})
		} else {
			p := &Node{K: "p", Txt: g.tokens(k)}
			if r.P(0.7) {
				g.anyStyle(p, 0.4)
			}
			n.Kids = append(n.Kids, p)
		}
		if r.P(0.15) {
			n.Kids = append(n.Kids, &Node{K: "br"})
		}
	}
}

func genC17(r *Rng, idx int) *Scenario {
	sc := &Scenario{}
	k := Knobs{Texts: true, Boxes: r.P(0.5), Tables: r.P(0.3), MaxWords: 8, FontEl: r.P(0.6), LF: r.P(0.5), PosEl: r.P(0.3), Deco: true, Mixed: true, PageNo: true, Core: coreFams}
	k.Sizes = pick(r, [][]float64{{8, 10, 12, 14}, {9.3, 12, 15}, {10, 11.75}})
	if r.P(0.3) {
		sc.UF = true
		k.UFonts = []string{ufFamily}
	}
	g := uniformGen(r, sc, k)
	d := g.doc
	if r.P(0.5) {
		d.Format, d.Orient = "a5", "landscape"
	}
	var imgs []string
	if r.P(0.4) {
		imgs = genImages(r, sc, 2)
	}
	imgs = append(imgs, "missing.png", "/sim/none/missing2.jpg")
	for i, m := 0, r.Intn(5); i < m; i++ {
		c := ClassDef{Name: fmt.Sprintf("k%d", i)}
		t := &Node{K: pick(r, []string{"td", "p", "text"})}
		n := len(d.Classes)
		old := d.Classes
		d.Classes = nil
		g.anyStyle(t, 0.5)
		d.Classes = old[:n:n]
		c.Sty = t.Sty
		d.Classes = append(d.Classes, c)
		for _, sel := range []string{"first-row", "last-row", "first-cell", "last-cell"} {
			if r.P(0.25) {
				t := &Node{K: "td"}
				old := d.Classes
				d.Classes = nil
				g.anyStyle(t, 0.4)
				d.Classes = old
				d.Classes = append(d.Classes, ClassDef{Name: c.Name + ":" + sel, Sty: t.Sty})
			}
		}
	}
	for i, m := 0, 2+r.Intn(14); i < m; i++ {
		switch x := r.Intn(20); {
		case x < 6:
			n := &Node{K: "text"}
			if r.P(0.7) {
				g.anyStyle(n, 0.35)
			}
			if r.P(0.2) {
				n.set("width", fstr(r.FRange(40, 90)))
			}
			g.tokenKids(n, 30)
			d.Body = append(d.Body, n)
		case x < 11:
			n := &Node{K: "box"}
			if r.P(0.7) {
				g.anyStyle(n, 0.35)
			}
			if r.P(0.3) {
				n.set("width", fstr(r.FRange(50, 100)))
			}
			if r.P(0.95) {
				g.tokenKids(n, 20)
			}
			d.Body = append(d.Body, n)
		case x < 14:
			t := &Node{K: "table"}
			if r.P(0.5) {
				g.anyStyle(t, 0.25)
			}
			if r.P(0.4) {
				t.RH = 1
			}
			cols := 1 + r.Intn(3)
			for i, rows := 0, 1+r.Intn(5); i < rows; i++ {
				tr := &Node{K: "tr"}
				if r.P(0.4) {
					g.anyStyle(tr, 0.25)
				}
				for j := 0; j < cols; j++ {
					td := &Node{K: "td"}
					if r.P(0.6) {
						g.anyStyle(td, 0.3)
					}
					switch {
					case r.P(0.12):
						b := &Node{K: "box"}
						g.anyStyle(b, 0.3)
						g.tokenKids(b, 5)
						td.Kids = append(td.Kids, b)
					case r.P(0.1):
						td.Kids = append(td.Kids, &Node{K: "image", Txt: pick(r, imgs)})
					default:
						g.tokenKids(td, 8)
					}
					tr.Kids = append(tr.Kids, td)
				}
				t.Kids = append(t.Kids, tr)
			}
			d.Body = append(d.Body, t)
		case x < 16:
			f := &Node{K: "font"}
			g.font(f, 0.6)
			if r.P(0.2) && len(d.Classes) > 0 {
				f.Cls = []string{"k0"}
			}
			d.Body = append(d.Body, f)
		case x < 17:
			d.Body = append(d.Body, &Node{K: "lf", Num: pick(r, []float64{0.5, 1, 4, -1, -2.5})})
		case x < 18:
			im := &Node{K: "image", Txt: pick(r, imgs)}
			if r.P(0.5) {
				g.anyStyle(im, 0.3)
				im.set("width", "12")
			}
			d.Body = append(d.Body, im)
		case x < 19:
			if r.P(0.5) {
				d.Body = append(d.Body, &Node{K: "newpage"})
			} else {
				d.Body = append(d.Body, &Node{K: "setx", Num: g.fromLeft(r.FRange(10, 50))})
			}
		default:
			_, h := d.pageSize()
			y := h - d.M[3] - r.FRange(2, 25)
			if y > d.M[1] {
				d.Body = append(d.Body, &Node{K: "sety", Num: g.fromTop(math.Round(y))})
			}
		}
	}
	if r.P(0.7) {
		d.Header = g.smallSection(1, 1+r.Intn(3))
	}
	if r.P(0.7) {
		_, h := d.pageSize()
		d.Footer = append([]*Node{{K: "sety", Num: g.fromTop(math.Round(h - r.FRange(8, 30)))}}, g.smallSection(2, 1+r.Intn(3))...)
	}
	return sc
}

func init() {
	register(&Prop{
		ID: "C17", Quick: 14000, Thorough: 300000,
		Rule: "random bodies of differently styled texts, boxes, paragraphs, tables, font elements and left-out images, interrupted by styled headers and footers; non-trivial: a page break happened and at least two different looks were drawn; distinct by the drawn marks",
		Real: "xdoc loader, style decoder, processor, hyphenator, gofpdf, image decoders", Stub: "disk (simulated, with missing images); page breaks are the interrupts",
		Gen: genC17,
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			d := sc.Docs[0]
			xd := loadDoc(res, d)
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			n := checkLooks(res, d, p)
			stats["pages"] += len(p.Pages)
			res.NonTrivial = len(p.Pages) > 1+countBreaks(d) && n > 1
			res.add(o.Steps)
			res.Key = hashLines(p.Lines(nil))
			res.add(res.Key)
			return res
		},
	})
}

type lookRun struct {
	m    Mark
	page int
	l    *look
}

func checkLooks(res *Result, d *Doc, p *PDF) int {
	byTok, _ := looks(d)
	distinct := map[string]bool{}
	perEl := map[*Node][]lookRun{}
	var order []*Node
	for pi, pg := range p.Pages {
		for mi, m := range pg.Marks {
			if m.Kind != 't' {
				continue
			}
			l := byTok[strings.TrimSpace(m.Text)]
			if l == nil || l.root.dirty {
				continue
			}
			what := fmt.Sprintf("page %d: %q (%s in %s)", pi+1, m.Text, l.n.K, l.el.K)
			wf, ws := l.c.fontName()
			fam, sty, ok := fontOf(m.Font)
			if !ok || fam != wf || sty != ws {
				res.fail("font", "%s is drawn in %s, its style asks for %s %q", what, m.Font, wf, ws)
				return 0
			}
			if !near(m.Size, l.c.num("font-point-size"), 0.01) {
				res.fail("size", "%s is drawn in size %g instead of %s", what, m.Size, l.c["font-point-size"])
				return 0
			}
			if c := parseHex(l.c["text-color"]); m.Color != c {
				res.fail("text-color", "%s is drawn in colour %s instead of %s", what, hexColor(m.Color), l.c["text-color"])
				return 0
			}
			// the underline is drawn as a thin bar under the run
			under := false
			for _, u := range pg.Marks[mi+1 : minInt(mi+3, len(pg.Marks))] {
				if u.Kind == 't' {
					break
				}
				if u.Kind == 'f' && u.H < m.Size*0.05 && near(u.X, m.X, 0.1) && u.Y > m.Y-0.1 && u.Y < m.Y+m.Size*0.12 && near(u.W, textWidth(m), 0.2) {
					under = true
				}
			}
			if want := l.c["font-decoration"] == "underline"; want != under {
				res.fail("decoration", "%s: underlined %v, its style asks for %q", what, under, l.c["font-decoration"])
				return 0
			}
			distinct[fmt.Sprint(wf, ws, m.Size, m.Color)] = true
			stats["probe:styled-runs"]++
			if perEl[l.el] == nil {
				order = append(order, l.el)
			}
			perEl[l.el] = append(perEl[l.el], lookRun{m, pi, l})
		}
	}
	for _, el := range order {
		// repeated header rows are drawn several times: split into drawings
		var cur []lookRun
		seen := map[string]bool{}
		for _, r := range perEl[el] {
			t := strings.TrimSpace(r.m.Text)
			if seen[t] {
				checkDrawing(res, d, p, cur)
				cur, seen = nil, map[string]bool{}
			}
			seen[t] = true
			cur = append(cur, r)
		}
		checkDrawing(res, d, p, cur)
		if res.V != nil {
			return 0
		}
	}
	checkFeeds(res, d, perEl)
	return len(distinct)
}

// checkFeeds checks the vertical distance between elements on one page, which
// line feeds between them determine.
func checkFeeds(res *Result, d *Doc, perEl map[*Node][]lookRun) {
	cur := defaultCascade()
	var prev *Node
	bottom, page, feeds, moved := 0.0, 0, 0, false
	for _, n := range d.Body {
		switch n.K {
		case "font":
			cur = cur.fontOnly(cur.with(d, n, ""))
		case "lf":
			bottom += n.Num * cur.num("font-point-size") / ptmm
			if n.Num < 0 {
				bottom = math.Max(bottom, 0) // not off the page
			}
			feeds++
			moved = false
		case "image":
		case "setx":
			moved = true
		case "sety":
			_, h := d.pageSize()
			prev, bottom, feeds, page = n, n.at(h), 0, -1
		case "text", "box":
			runs := perEl[n]
			if len(n.Kids) == 0 && n.K == "text" {
				continue
			}
			c := cur.with(d, n, "")
			pad := [4]float64{}
			if n.K == "box" {
				pad = num4(c["padding"])
			}
			ok := len(runs) > 0 && !runs[0].l.root.dirty
			for _, r := range runs {
				ok = ok && near(r.m.Size, c.num("font-point-size"), 0.01)
			}
			for _, k := range n.Kids {
				ok = ok && (k.K != "br" && strip(k.Txt) != "")
			}
			if !ok {
				prev = nil
				continue
			}
			fst, lst := runs[0], runs[len(runs)-1]
			// a centred or right-aligned line that runs off the right edge is wrapped by the library
			off := moved && (c["h-align"] == "right" || c["h-align"] == "center")
			if page < 0 {
				// after a position: on whatever page it has room on
				page = fst.page
				_, h := d.pageSize()
				if lst.page != fst.page || bottom+pad[1]+lst.m.top()+lst.m.Size/ptmm-fst.m.top()+pad[3]+1 > h-d.M[3] || n.K == "text" && moved {
					prev = nil
				}
			}
			if prev != nil && fst.page == page && !off {
				want := bottom + pad[1]
				stats["probe:distances"]++
				if feeds > 0 {
					stats["probe:line-feeds"]++
				}
				if !near(fst.m.top(), want, 0.1) {
					res.fail("distance", "page %d: %s beginning with %q starts at y=%.2f instead of %.2f after %s %d and %d line feeds", page+1, n.K, fst.m.Text, fst.m.top(), want, prev.K, prev.ID, feeds)
					return
				}
			}
			prev, page, feeds = n, lst.page, 0
			if n.K == "box" && fst.page != lst.page {
				prev = nil // higher than a page
			}
			if moved {
				prev = nil // may run off the right edge, where the library wraps it
			}
			moved = false
			if n.K == "box" {
				bottom = lst.m.top() + lst.m.Size/ptmm + pad[3]
			} else {
				bottom = lst.m.top() + lst.m.Size/ptmm*c.num("line-spacing")
			}
		default:
			prev = nil
		}
	}
}

// countFrames is the number of frames that elements draw.
func countFrames(ns []*Node) int {
	c := 0
	for _, n := range ns {
		if n.K == "box" || n.K == "td" {
			c++
		}
		c += countFrames(n.Kids)
	}
	return c
}

// top is the upper edge of a text run's line.
func (m Mark) top() float64 { return m.Y - 0.8*m.Size/ptmm }

// checkDrawing checks frame, alignment and line spacing of one drawing of an element.
func checkDrawing(res *Result, d *Doc, p *PDF, runs []lookRun) {
	if len(runs) == 0 || res.V != nil {
		return
	}
	l := runs[0].l
	el, c := l.el, l.elc
	what := fmt.Sprintf("page %d: %s beginning with %q", runs[0].page+1, el.K, runs[0].m.Text)
	var left, width float64
	known := false
	uniform := true
	for _, r := range runs {
		if !near(r.m.Size, c.num("font-point-size"), 0.01) {
			uniform = false
		}
	}
	if l.frame && !uniform {
		stats["probe:mixed-sizes-skipped"]++
		return // may overflow the frame, onto another page
	}
	if l.frame {
		var f *Mark
		pg := p.Pages[runs[0].page]
		at := -1
		for i := runs[0].m.Seq - 1; i >= 0; i-- {
			if pg.Marks[i].Kind == 'f' && pg.Marks[i].H > 0.5 { // not an underline
				f, at = &pg.Marks[i], i
				break
			}
		}
		framesBefore := 0
		for _, m := range pg.Marks[:at+1] {
			if m.Kind == 'f' && m.H > 0.5 {
				framesBefore++
			}
		}
		if m := runs[0].m; f == nil || framesBefore <= countFrames(d.Header) || m.X < f.X-0.1 || m.X > f.X+f.W+2 || m.Y < f.Y-1 || m.Y > f.Y+f.H+1 {
			stats["probe:frame-elsewhere-skipped"]++
			return // taller than a page: frame and text may be torn apart
		}
		if f.Color != parseHex(c["background-color"]) {
			res.fail("background", "%s: background %s instead of %s", what, hexColor(f.Color), c["background-color"])
			return
		}
		n := 0
		for _, b := range num4(c["border"]) {
			if b > 0 {
				n++
			}
		}
		lw := c.num("line-width")
		pad := num4(c["padding"])
		x0, y0, x1, y1 := f.X-lw/2, f.Y-lw/2, f.X+f.W+lw/2, f.Y+f.H+lw/2
		bd := num4(c["border"])
		sides := [4][4]float64{{x0, y0, x0, y1}, {x0, y0, x1, y0}, {x1, y0, x1, y1}, {x0, y1, x1, y1}}
		lines := 0
		for i := at + 1; i < runs[0].m.Seq; i++ {
			m := pg.Marks[i]
			if m.Kind != 'l' {
				continue
			}
			lines++
			if m.Color != parseHex(c["color"]) {
				res.fail("border-color", "%s: border %s instead of %s", what, hexColor(m.Color), c["color"])
				return
			}
			if !near(m.LW, c.num("line-width"), 0.01) {
				res.fail("border-width", "%s: border width %.2f instead of %s", what, m.LW, c["line-width"])
				return
			}
			on := false
			for q, e := range sides {
				t := lw/2 + 0.05
				if bd[q] > 0 && math.Abs(math.Min(m.X, m.W)-e[0]) < t && math.Abs(math.Max(m.X, m.W)-e[2]) < t &&
					math.Abs(math.Min(m.Y, m.H)-e[1]) < t && math.Abs(math.Max(m.Y, m.H)-e[3]) < t {
					on = true
				}
			}
			if !on {
				res.fail("border-place", "%s: a border line from (%.2f,%.2f) to (%.2f,%.2f), the frame is (%.2f,%.2f)-(%.2f,%.2f) with borders %s", what, m.X, m.Y, m.W, m.H, x0, y0, x1, y1, c["border"])
				return
			}
		}
		if lines != n {
			res.fail("border", "%s: %d border lines instead of %d", what, lines, n)
			return
		}
		stats["probe:styled-frames"]++
		br := len(el.Kids) == 0
		for _, k := range el.Kids {
			br = br || k.K == "br" || k.K == "box" || k.K == "image"
		}
		split := false
		for _, r := range runs {
			split = split || r.page != runs[0].page
		}
		if !br && !split {
			lst := runs[len(runs)-1]
			over, under := runs[0].m.top()-y0-pad[1], y1-pad[3]-lst.m.top()-lst.m.Size/ptmm
			ok := false
			switch va := c["v-align"]; {
			case el.K == "box":
				ok = math.Abs(over) < 0.1 && math.Abs(under) < 0.1
			case va == "top":
				ok = math.Abs(over) < 0.1
			case va == "bottom":
				ok = math.Abs(under) < 0.1
			default:
				ok = math.Abs(over-under) < 0.2
			}
			// what runs off the printable area is wrapped once more by the library
			if !ok && x1-pad[2] <= p.Pages[0].W-d.M[2]-2.1 && x1-x0-pad[0]-pad[2] > 25 {
				res.fail("v-align", "%s: its text leaves %.2f above and %.2f below inside its padding, it is a %s aligned %s", what, over, under, c["v-align"], el.K)
				return
			}
			stats["probe:vertical-places"]++
		}
		left = f.X - lw/2 + pad[0]
		width = f.W + lw - pad[0] - pad[2]
		known = left+width <= p.Pages[0].W-d.M[2]-2.1
		// the frame is where the style puts it, so its inner width is known
	} else if l.xok {
		left, known = l.x, true
		width = p.Pages[0].W - d.M[0] - d.M[2] - 2
		if w := c.num("width"); w >= 0 && w < width {
			width = w
		}
		if left+width > p.Pages[0].W-d.M[2]-1.9 {
			known = false
		}
	}
	// lines
	type line struct{ runs []lookRun }
	var lines []line
	for i, r := range runs {
		if i == 0 || r.page != runs[i-1].page || !near(r.m.top(), runs[i-1].m.top(), 0.07) {
			lines = append(lines, line{})
		}
		k := len(lines) - 1
		lines[k].runs = append(lines[k].runs, r)
	}
	br := false
	ends := map[string]bool{} // the words before line breaks
	word := ""
	for _, k := range el.Kids {
		switch k.K {
		case "br":
			br = true
			ends[word] = true
			word = ""
		case "t", "p":
			if ws := strings.Fields(k.Txt); len(ws) > 0 {
				word = ws[len(ws)-1]
			}
		}
	}
	if !known {
		return // the library wraps what runs off the printable area
	}
	if uniform && !br {
		for i := 1; i < len(lines); i++ {
			a, b := lines[i-1].runs[0], lines[i].runs[0]
			if a.page != b.page {
				continue
			}
			want := a.m.Size / ptmm * c.num("line-spacing")
			if !near(b.m.Y-a.m.Y, want, 0.05) {
				res.fail("line-spacing", "%s: lines are %.2f apart instead of %.2f", what, b.m.Y-a.m.Y, want)
				return
			}
			stats["probe:line-spacings"]++
		}
	}
	if width < 25 {
		return
	}
	for i, ln := range lines {
		if !uniform && (i > 0 && lines[i-1].runs[0].page != ln.runs[0].page || i+1 < len(lines) && lines[i+1].runs[0].page != ln.runs[0].page) {
			continue // the page break may cut a line of mixed sizes
		}
		fst, lst := ln.runs[0].m, ln.runs[len(ln.runs)-1].m
		// text starts one cell margin to the right of its position
		gapL := fst.X - left - 1
		gapR := left + width - (lst.X + textWidth(lst) - 1)
		slack := gapL + gapR
		stats["probe:aligned-lines"]++
		ok := true
		switch al := c["h-align"]; al {
		case "left":
			ok = math.Abs(gapL) < 0.1
		case "right":
			ok = slack < 4 || gapR < 3.5 && gapR > -0.1
		case "center":
			ok = slack < 4 || math.Abs(gapL-gapR) < 3.5
		case "block":
			ok = math.Abs(gapL) < 0.1
			if len(ln.runs) < 2 {
				break
			}
			if ok && i+1 < len(lines) && !ends[strings.TrimSpace(lst.Text)] {
				ok = math.Abs(gapR) < 0.5
				stats["probe:filled-lines"]++
				break
			}
			// the last line of a paragraph is not stretched
			for q := 1; ok && q < len(ln.runs); q++ {
				a, b := ln.runs[q-1].m, ln.runs[q].m
				ok = b.X-a.X-textWidth(a) < 0.7*math.Max(a.Size, b.Size)/ptmm+0.1
			}
			stats["probe:last-lines"]++
		}
		if !ok {
			res.fail("align", "%s: line %d with %q leaves %.2f left and %.2f right of it, not %s aligned", what, i+1, fst.Text, gapL, gapR, c["h-align"])
			return
		}
	}
}
