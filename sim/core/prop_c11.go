package core

import "math"

func uniformGen(r *Rng, sc *Scenario, k Knobs) *Gen {
	g := newGen(r)
	g.k = k
	g.doc = &Doc{}
	g.page()
	sc.Docs = []*Doc{g.doc}
	sc.Hyph = pick(r, []string{"en-us", "en-us", "latin", "small"})
	sc.MapSeed = r.U64()
	return g
}

func init() {
	register(&Prop{
		ID: "C11", Quick: 12000, Thorough: 300000,
		Rule: "random text/box flows (alignments, fonts, widths, line breaks, positions, page breaks, headers that interrupt); non-trivial: at least one automatic page break interrupted the flow; distinct by the sequence of drawn runs",
		Real: "xdoc loader, processor, hyphenator, gofpdf", Stub: "none (page breaks are the interrupts)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{}
			k := randKnobs(r)
			k.PColor, k.Tables, k.CellBox = false, false, false
			if !k.Texts && !k.Boxes {
				k.Texts = true
			}
			if r.P(0.3) {
				sc.UF = true
				k.UFonts = []string{ufFamily}
				k.Uni = r.P(0.7)
				if r.P(0.4) {
					k.Core = nil
				}
			} else if r.P(0.15) {
				k.Uni = true
			}
			k.PosEl = r.P(0.3)
			k.Hyphens = r.P(0.5)
			g := uniformGen(r, sc, k)
			if r.P(0.3) {
				g.doc.M[0], g.doc.M[2] = r.FRange(10, 60), r.FRange(10, 60)
			}
			n := 1 + r.Intn(12)
			if r.P(0.15) {
				n += r.Intn(40)
			}
			if sc.UF && len(g.k.Core) == 0 {
				f := &Node{K: "font"}
				f.set("font-family", ufFamily)
				g.doc.Body = append(g.doc.Body, f)
			}
			g.doc.Body = append(g.doc.Body, g.elements(n)...)
			if r.P(0.4) {
				g.doc.Header = g.smallSection(1, 1+r.Intn(2))
			}
			if r.P(0.4) {
				g.doc.Footer = g.smallSection(2, 1+r.Intn(2))
			}
			if k.Classes {
				g.classify()
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			xd := loadDoc(res, sc.Docs[0])
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			checkFlow(res, sc.Docs[0], p)
			res.NonTrivial = len(p.Pages) > 1+countBreaks(sc.Docs[0])
			if res.NonTrivial {
				stats["probe:auto-page-break"]++
			}
			stats["pages"] += len(p.Pages)
			res.add(o.Steps)
			l := p.Lines(nil)
			res.Key = hashLines(l)
			res.add(res.Key)
			return res
		},
	})
}

func countBreaks(d *Doc) int {
	n := 0
	for _, b := range d.Body {
		if b.K == "newpage" {
			n++
		}
	}
	return n
}

func (n *Node) hasClassAlign(d *Doc) string {
	// effective h-align of a top-level element: classes in order, then inline
	v := "left"
	for _, c := range n.Cls {
		for _, cd := range d.Classes {
			if cd.Name == c {
				for _, kv := range cd.Sty {
					if kv.K == "h-align" {
						v = kv.V
					}
				}
			}
		}
	}
	if x, ok := n.get("h-align"); ok {
		v = x
	}
	return v
}

// eff is the value of a style key set by the element's classes or inline.
func (n *Node) eff(d *Doc, k string) (string, bool) {
	v, ok := "", false
	for _, c := range n.Cls {
		for _, cd := range d.Classes {
			if cd.Name == c {
				for _, kv := range cd.Sty {
					if kv.K == k {
						v, ok = kv.V, true
					}
				}
			}
		}
	}
	if x, o := n.get(k); o {
		v, ok = x, true
	}
	return v, ok
}

func checkFlow(res *Result, d *Doc, p *PDF) {
	groups := p.byColor()
	w, h := p.Pages[0].W, p.Pages[0].H
	last := [2]int{0, -1}
	expected := map[RGB]bool{}
	moved := false
	offY := 0.0 // of the boxes so far
	for _, n := range d.Body {
		if n.K == "box" {
			offY += math.Min(0, n.effNum(d, "offset-y", 0))
		}
		off := moved
		switch n.K {
		case "setx", "table":
			moved = true
		case "text", "box", "lf", "newpage":
			moved = n.K == "text" && off && n.ownText() == ""
		}
		if n.K != "text" && n.K != "box" {
			continue
		}
		cs, ok := n.eff(d, "text-color")
		if !ok {
			continue // simplified away while minimising
		}
		c := parseHex(cs)
		want := n.ownText()
		g := groups[c]
		expected[c] = true
		if g == nil {
			g = &colored{}
		}
		if n.hasClassAlign(d) == "block" {
			stats["probe:block"]++
		}
		if msg := matchText(want, g.runs, g.pages, n.hasClassAlign(d) == "block"); msg != "" {
			res.fail("text", "%s element %d: %s", n.K, n.ID, msg)
			return
		}
		whole := false
		if len(g.runs) > 0 && !off && n.effNum(d, "offset-x", 0) <= 0 {
			whole = !hasOverwide(n, g.runs, availWidth(d, p.Pages[g.pages[0]-1], n))
		}
		if whole {
			stats["probe:whole-words"]++
		}
		if msg := matchSpaced(n.spaced(), g.runs, g.pages, n.hasClassAlign(d) == "block", whole); msg != "" {
			res.fail("words", "%s element %d: %s", n.K, n.ID, msg)
			return
		}
		for i, m := range g.runs {
			if strip(m.Text) == "" {
				continue
			}
			pos := [2]int{g.pages[i], m.Seq}
			if pos[0] < last[0] || pos[0] == last[0] && pos[1] < last[1] {
				res.fail("order", "%s element %d: %q drawn before text of an earlier element", n.K, n.ID, clip(m.Text, 40))
				return
			}
			last = pos
			tw := textWidth(m)
			if oddWidth(m.Text) {
				tw = math.Max(0, tw-8)
			}
			slack := 0.6
			if tw > w-d.M[0]-d.M[2]-6 {
				slack += m.Size / ptmm // gofpdf forgets a character when it cuts a word
			}
			offX := math.Min(0, n.effNum(d, "offset-x", 0))
			if m.X < offX-0.01 || m.Y < offY-0.01 || m.Y > h+0.01 || m.X+tw > w+slack {
				res.fail("outside", "%s element %d: %q at (%.2f,%.2f) width %.2f lies outside the %gx%g page", n.K, n.ID, clip(m.Text, 40), m.X, m.Y, tw, w, h)
				return
			}
		}
	}
	for i, pg := range p.Pages {
		for _, m := range pg.Marks {
			if m.Kind == 't' && m.Color.R == cBodyText && !expected[m.Color] && strip(m.Text) != "" {
				res.fail("extra", "page %d: text %q belongs to no element", i+1, clip(m.Text, 60))
				return
			}
		}
	}
}

func parseHex(s string) RGB {
	var v int
	for _, ch := range s {
		switch {
		case ch >= '0' && ch <= '9':
			v = v<<4 | int(ch-'0')
		case ch >= 'a' && ch <= 'f':
			v = v<<4 | int(ch-'a'+10)
		}
	}
	return RGB{v >> 16 & 255, v >> 8 & 255, v & 255}
}
