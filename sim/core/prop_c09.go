package core

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// headed generates a document with a busy header and footer. Body images and
// header/footer images never share a file.
func headed(r *Rng, sc *Scenario, hbreak bool) *Gen { return headedBy(r, sc, hbreak, nil) }

func headedBy(r *Rng, sc *Scenario, hbreak bool, tune func(k *Knobs)) *Gen {
	k := randKnobs(r)
	k.PosEl = r.P(0.3)
	k.CellImg = r.P(0.3)
	k.PageNo = true
	k.HBreak = hbreak
	if tune != nil {
		tune(&k)
	}
	if r.P(0.25) {
		sc.UF = true
		k.UFonts = []string{ufFamily}
		k.Uni = r.P(0.5)
	}
	k.BigWord = r.P(0.1) && tune == nil
	var bodyImg, headImg []string
	if r.P(0.5) {
		names := append([]string(nil), imgNames...)
		for i := range names {
			j := i + r.Intn(len(names)-i)
			names[i], names[j] = names[j], names[i]
		}
		for i := 0; i < 4; i++ {
			f := FileSpec{Path: "/sim/work/" + imgFile(names[i]), Kind: "img", Arg: names[i]}
			sc.Files = append(sc.Files, f)
			if i < 2 {
				bodyImg = append(bodyImg, imgFile(names[i]))
			} else {
				headImg = append(headImg, imgFile(names[i]))
			}
		}
	}
	g := uniformGen(r, sc, k)
	d := g.doc
	_, h := d.pageSize()
	g.k.Images = bodyImg
	if r.P(0.2) && !k.FontEl {
		f := &Node{K: "font"}
		g.font(f, 0.7)
		d.Body = append(d.Body, f)
	}
	n := 1 + r.Intn(10)
	if r.P(0.2) {
		n += r.Intn(25)
	}
	d.Body = append(d.Body, g.elements(n)...)
	g.k.Images = headImg
	g.k.FontEl = r.P(0.5)
	g.k.PosEl = r.P(0.5)
	g.k.LF = r.P(0.5)
	if r.P(0.5) {
		g.k.Tables = true
	}
	if r.P(0.85) {
		d.Header = g.smallSection(1, 1+r.Intn(5))
	}
	if r.P(0.85) || d.Header == nil {
		if r.P(0.6) {
			d.Footer = append(d.Footer, &Node{K: "sety", Num: g.fromTop(math.Round(h - r.FRange(5, 40)))})
		}
		d.Footer = append(d.Footer, g.smallSection(2, 1+r.Intn(5))...)
	}
	if k.Classes {
		g.classify()
	}
	return g
}

func init() {
	register(&Prop{
		ID: "C09", Quick: 4000, Thorough: 150000,
		Rule: "random documents with busy headers and footers, rendered with and without them; non-trivial: at least one page break happened inside an element or table, so that they ran in the middle of the body's layout; distinct by the body's marks",
		Real: "xdoc loader, processor, hyphenator, gofpdf, image decoders", Stub: "disk (simulated, fault-free); page breaks are the interrupts",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{}
			if r.P(0.35) {
				headedBy(r, sc, false, func(k *Knobs) { k.FontEl, k.CJK = false, false })
				plain(r, sc)
				return sc
			}
			headed(r, sc, r.P(0.2))
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			d := sc.Docs[0]
			if sc.x("plain") != 0 {
				return runC09Plain(sc)
			}
			xd := loadDoc(res, d)
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			if !colored3(d, d.Header) || !colored3(d, d.Footer) || !colored3(d, d.Body) {
				return res // simplified away
			}
			d2 := d.clone()
			d2.Header, d2.Footer = nil, nil
			xd2 := loadDoc(res, d2)
			if xd2 == nil {
				return res
			}
			p2, _ := okRender(res, sc, xd2)
			if p2 == nil {
				return res
			}
			headImgs := map[string]bool{}
			sect := func(n *Node) {
				if n.K == "image" {
					if nm := sc.imgName(n.Txt); nm != "" {
						headImgs[imageID(nm)] = true
					}
				}
			}
			walk(d.Header, sect)
			walk(d.Footer, sect)
			body := func(_ int, m Mark) bool {
				if m.Kind == 'i' {
					return !headImgs[m.Img]
				}
				switch m.Color.R {
				case cHeadText, cFootText, cHeadBG, cFootBG, cHeadStroke, cFootStroke:
					return false
				}
				return true
			}
			a, b := p2.Lines(body), p.Lines(body)
			if diff := firstDiff(a, b); diff != "" {
				res.fail("body", "the body differs with header and footer: %s", diff)
			}
			if len(p.Pages) > 1+countBreaks(d) {
				res.NonTrivial = true
				stats["probe:auto-page-break"]++
			}
			stats["pages"] += len(p.Pages)
			res.add(o.Steps)
			res.Key = hashLines(b)
			res.add(res.Key)
			return res
		},
	})
	register(&Prop{
		ID: "C10", Quick: 6000, Thorough: 200000,
		Rule: "random documents with busy headers and footers (texts, boxes, tables, images, fonts, positions, page breaks, page numbers); non-trivial: more than one page; distinct by the drawn marks",
		Real: "xdoc loader, processor, hyphenator, gofpdf, image decoders", Stub: "disk (simulated, fault-free); page breaks are the interrupts",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{}
			headed(r, sc, true)
			if r.P(0.01) {
				// very many pages
				for i := 256 + r.Intn(40); i > 0; i-- {
					sc.Docs[0].Body = append(sc.Docs[0].Body, &Node{K: "newpage"})
				}
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			d := sc.Docs[0]
			xd := loadDoc(res, d)
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			checkSection(res, sc, p, append(append([]*Node(nil), d.Header...), d.Footer...))
			checkSectionPlaces(res, d, p, d.Header)
			checkSectionPlaces(res, d, p, d.Footer)
			// a header or footer never causes a page break: without their page
			// breaks the document has as many pages
			res.NonTrivial = len(p.Pages) > 1
			stats["pages"] += len(p.Pages)
			res.add(o.Steps)
			res.Key = hashLines(p.Lines(nil))
			res.add(res.Key)
			return res
		},
	})
}

type sectItem struct {
	n    *Node
	kind byte // t f i
	col  RGB
	img  string
	hyph bool
}

// sectItems lists what a header or footer draws, in drawing order.
func sectItems(sc *Scenario, d *Doc, ns []*Node) []sectItem {
	var out []sectItem
	var one func(n *Node)
	one = func(n *Node) {
		switch n.K {
		case "text", "box", "td":
			if n.K != "text" {
				if c, ok := n.bg(d); ok {
					out = append(out, sectItem{n: n, kind: 'f', col: c})
				}
			}
			if c, ok := n.tc(d); ok && n.ownText() != "" {
				out = append(out, sectItem{n: n, kind: 't', col: c})
			}
			if n.K == "td" {
				for _, k := range n.Kids {
					if k.K == "box" || k.K == "image" {
						one(k)
					}
				}
			}
		case "table":
			for _, tr := range n.Kids {
				for _, td := range tr.Kids {
					one(td)
				}
			}
		case "image":
			if nm := sc.imgName(n.Txt); nm != "" {
				out = append(out, sectItem{n: n, kind: 'i', img: imageID(nm)})
			}
		}
	}
	for _, n := range ns {
		one(n)
	}
	return out
}

func checkSection(res *Result, sc *Scenario, p *PDF, ns []*Node) {
	items := sectItems(sc, sc.Docs[0], ns)
	np := strconv.Itoa(len(p.Pages))
	for pi, pg := range p.Pages {
		last := -1
		imgAt := map[string]int{}
		for _, it := range items {
			first, end := -1, -1
			switch it.kind {
			case 'f':
				n := 0
				for _, m := range pg.Marks {
					if m.Kind == 'f' && m.Color == it.col {
						n++
						first, end = m.Seq, m.Seq
					}
				}
				if n != 1 {
					res.fail("frame", "page %d of %d: %s %d of header or footer drawn %d times", pi+1, len(p.Pages), it.n.K, it.n.ID, n)
					return
				}
			case 'i':
				n := 0
				want := 0
				for _, x := range items {
					if x.kind == 'i' && x.img == it.img {
						want++
					}
				}
				k := 0
				for _, m := range pg.Marks {
					if m.Kind == 'i' && m.Img == it.img {
						if k == imgAt[it.img] {
							first, end = m.Seq, m.Seq
						}
						k++
						n++
					}
				}
				imgAt[it.img]++
				if n != want {
					res.fail("image", "page %d of %d: image %s of header or footer drawn %d times, expected %d", pi+1, len(p.Pages), it.n.Txt, n, want)
					return
				}
			case 't':
				want := strings.ReplaceAll(strings.ReplaceAll(it.n.ownText(), "{cp}", strconv.Itoa(pi+1)), "{np}", np)
				var runs []Mark
				var pages []int
				cols := map[RGB]bool{it.col: true}
				for _, k := range it.n.Kids {
					if v, ok := k.eff(sc.Docs[0], "text-color"); ok && k.K == "p" {
						cols[parseHex(v)] = true
					}
				}
				for _, m := range pg.Marks {
					if m.Kind == 't' && cols[m.Color] {
						runs = append(runs, m)
						pages = append(pages, pi)
						if strip(m.Text) != "" {
							if first < 0 {
								first = m.Seq
							}
							end = m.Seq
						}
					}
				}
				if strings.Contains(it.n.ownText(), "{cp}") || strings.Contains(it.n.ownText(), "{np}") {
					stats["probe:page-number"]++
				}
				if strings.Contains(it.n.ownText(), "{np}") && hasOverwide(it.n, runs, availWidth(sc.Docs[0], pg, it.n)) {
					stats["probe:np-in-overwide-word-skipped"]++
					continue
				}
				if msg := matchText(want, runs, pages, true); msg != "" {
					res.fail("text", "page %d of %d: %s %d of header or footer: %s", pi+1, len(p.Pages), it.n.K, it.n.ID, msg)
					return
				}
				if !strings.Contains(it.n.ownText(), "{np}") {
					if msg := matchSpaced(it.n.spaced("{cp}", strconv.Itoa(pi+1)), runs, pages, true, false); msg != "" {
						res.fail("words", "page %d of %d: %s %d of header or footer: %s", pi+1, len(p.Pages), it.n.K, it.n.ID, msg)
						return
					}
				}
			}
			stats["probe:items-on-pages"]++
			if first >= 0 {
				if first < last {
					res.fail("order", "page %d: %s %d of header or footer drawn before earlier content", pi+1, it.n.K, it.n.ID)
					return
				}
				last = end
			}
		}
	}
}

// checkSectionPlaces checks the places of the boxes and texts of a header or footer that
// follow position elements.
func checkSectionPlaces(res *Result, d *Doc, p *PDF, ns []*Node) {
	if res.V != nil {
		return
	}
	lm, w, h := d.M[0], p.Pages[0].W, p.Pages[0].H
	x, y, xok, yok := 0.0, 0.0, false, false
	for _, n := range ns {
		switch n.K {
		case "setx":
			x, xok = n.at(w), true
		case "sety":
			y, yok = n.at(h), true
		case "lf":
			x, xok = lm, true
			yok = yok && n.Num == 0
		case "font", "image", "newpage":
		case "box":
			c, ok := n.bg(d)
			if !ok {
				xok, yok = false, false
				break
			}
			lw, ox, oy := n.effNum(d, "line-width", 1), n.effNum(d, "offset-x", 0), n.effNum(d, "offset-y", 0)
			bottom := 0.0
			for pi, pg := range p.Pages {
				for _, m := range pg.Marks {
					if m.Kind != 'f' || m.Color != c || m.H < 0.5 {
						continue
					}
					left, top := m.X-lw/2, m.Y-lw/2
					if xok && !near(left, x+ox, 0.05) || yok && !near(top, y+oy, 0.05) {
						res.fail("place", "page %d: box %d of header or footer starts at (%.2f,%.2f) instead of (%.2f,%.2f) (known %v,%v)", pi+1, n.ID, left, top, x+ox, y+oy, xok, yok)
						return
					}
					if xok || yok {
						stats["probe:places"]++
					}
					bottom = m.Y + m.H + lw/2
				}
			}
			x, xok = lm, true
			// the font, where the body's font elements decide on it, and page numbers
			// differ from page to page
			y, yok = bottom, yok && bottom > 0 && len(p.Pages) == 1
		case "text":
			if n.ownText() == "" {
				xok = false
				break
			}
			c, ok := n.tc(d)
			if ok && yok && xok && x == lm && n.Kids[0].K != "br" && strip(n.Kids[0].Txt) != "" && colourOf(d, n.Kids[0]) == "" {
				for pi, pg := range p.Pages {
					var runs []Mark
					for _, m := range pg.Marks {
						if m.Kind == 't' && m.Color == c {
							runs = append(runs, m)
						}
					}
					if len(runs) == 0 || hasOverwide(n, runs, availWidth(d, pg, n)) {
						continue
					}
					if !near(runs[0].top(), y, 0.1) {
						res.fail("place", "page %d: text %d of header or footer starts at y=%.2f instead of %.2f", pi+1, n.ID, runs[0].top(), y)
						return
					}
					stats["probe:places"]++
				}
			}
			x, xok, yok = lm, true, false
		default:
			xok, yok = false, false
		}
	}
}

func colourOf(d *Doc, n *Node) string {
	v, _ := n.eff(d, "text-color")
	return v
}

// availWidth is the room for text in an element drawn on pg.
func availWidth(d *Doc, pg PDFPage, n *Node) float64 {
	full := pg.W - d.M[0] - d.M[2] - 2
	if n.K == "text" {
		if w := n.effNum(d, "width", -1); w >= 0 && w < full {
			return w
		}
		return full
	}
	c, _ := n.bg(d)
	var pad [4]float64
	if v, ok := n.eff(d, "padding"); ok {
		pad = num4(v)
	}
	for _, m := range pg.Marks {
		if m.Kind == 'f' && m.Color == c {
			w := m.W
			if m.X+w > pg.W-d.M[2]-2 {
				w = pg.W - d.M[2] - 2 - m.X
			}
			return w - pad[0] - pad[2]
		}
	}
	return full
}

// colored3 tells whether all elements carry their identifying colours.
func colored3(d *Doc, ns []*Node) bool {
	ok := true
	walk(ns, func(n *Node) {
		switch n.K {
		case "box", "td":
			_, a := n.eff(d, "background-color")
			_, b := n.eff(d, "color")
			ok = ok && a && b
			fallthrough
		case "text":
			_, a := n.eff(d, "text-color")
			ok = ok && a
		}
	})
	return ok
}

// plain gives many elements, of header and footer and body, the same colours, and
// many none, so that they can no longer be told apart by them.
func plain(r *Rng, sc *Scenario) {
	d := sc.Docs[0]
	sc.X = map[string]int{"plain": 1}
	pal := []string{"", "#000000", "#ffffff", hexColor(RGB{r.Intn(256), r.Intn(256), r.Intn(256)}), hexColor(RGB{r.Intn(256), r.Intn(256), r.Intn(256)})}
	again := func(kvs []KV) []KV {
		var out []KV
		for _, kv := range kvs {
			if strings.HasSuffix(kv.K, "color") {
				kv.V = pick(r, pal)
				if kv.V == "" {
					continue
				}
			}
			out = append(out, kv)
		}
		return out
	}
	for i := range d.Classes {
		d.Classes[i].Sty = again(d.Classes[i].Sty)
	}
	for _, ns := range [][]*Node{d.Header, d.Footer, d.Body} {
		walk(ns, func(n *Node) { n.Sty = again(n.Sty) })
	}
	noFont := func(ns []*Node) (out []*Node) {
		for _, n := range ns {
			if n.K != "font" {
				out = append(out, n)
			}
		}
		return
	}
	d.Body = noFont(d.Body)
	_, h := d.pageSize()
	// the footer has to start at the same place on every page
	d.Footer = append([]*Node{{K: "sety", Num: pick(r, []float64{-20, math.Round(h - r.FRange(5, 40))})}, {K: "setx", Num: d.M[0]}}, d.Footer...)
}

// runC09Plain finds the body's marks by their place in the page: after the header's
// and before the footer's, of which each page has as many as a page without body.
func runC09Plain(sc *Scenario) *Result {
	res := &Result{}
	d := sc.Docs[0]
	count := func(head, foot []*Node) int {
		e := d.clone()
		e.Header, e.Footer, e.Body = head, foot, nil
		xd := loadDoc(res, e)
		if xd == nil {
			return -1
		}
		p, _ := okRender(res, sc, xd)
		if p == nil || len(p.Pages) != 1 {
			return -1
		}
		return len(p.Pages[0].Marks)
	}
	nh, nf := count(d.Header, nil), count(nil, d.Footer)
	if nh < 0 || nf < 0 {
		return res
	}
	var lines [2][]string
	for i := range lines {
		e := d.clone()
		h, f := nh, nf
		if i == 1 {
			e.Header, e.Footer, h, f = nil, nil, 0, 0
		}
		xd := loadDoc(res, e)
		if xd == nil {
			return res
		}
		p, o := okRender(res, sc, xd)
		if p == nil {
			return res
		}
		if len(p.Pages) > 9 {
			return res // longer page numbers may be drawn in more lines
		}
		res.add(o.Steps)
		for j, pg := range p.Pages {
			if len(pg.Marks) < h+f {
				return res.fail("section", "page %d has %d marks, header and footer alone have %d", j+1, len(pg.Marks), h+f)
			}
			for _, m := range pg.Marks[h : len(pg.Marks)-f] {
				lines[i] = append(lines[i], fmt.Sprintf("p%d %s", j+1, m))
			}
		}
		res.NonTrivial = len(p.Pages) > 1+countBreaks(d)
	}
	if diff := firstDiff(lines[1], lines[0]); diff != "" {
		res.fail("body", "the body differs with header and footer: %s", diff)
	}
	stats["probe:shared-colours"]++
	res.Key = hashLines(lines[0])
	res.add(res.Key)
	return res
}
