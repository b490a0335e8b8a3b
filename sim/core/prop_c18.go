package core

import (
	"math"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C18", Quick: 25000, Thorough: 800000,
		Rule: "random flows of boxes (padding, width, offsets, borders, alignments, fixed heights) pushed against the bottom margin by fillers, also in headers and footers; non-trivial: a page break was caused by a box; distinct by the drawn frames and runs",
		Real: "xdoc loader, processor, hyphenator, gofpdf", Stub: "none (page breaks are the interrupts)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{}
			k := randKnobs(r)
			k.PColor, k.Tables, k.CellBox, k.BigWord, k.Breaks = false, false, false, false, r.P(0.2)
			k.Boxes, k.Texts, k.Mixed = true, r.P(0.4), r.P(0.25)
			k.Offsets = r.P(0.6)
			k.LF, k.PosEl = r.P(0.7), r.P(0.3)
			k.CP = r.P(0.12)
			if k.CP {
				k.MaxWords = pick(r, []int{2, 3, 8})
			}
			g := uniformGen(r, sc, k)
			d := g.doc
			_, h := d.pageSize()
			n := 2 + r.Intn(14)
			if k.CP {
				g.farPages()
			}
			for i := 0; i < n; i++ {
				if r.P(0.35) {
					y := h - d.M[3] - r.FRange(0, 45)
					if y > d.M[1] {
						d.Body = append(d.Body, &Node{K: "sety", Num: g.fromTop(math.Round(y*10) / 10)})
					}
				}
				if r.P(0.3) {
					d.Body = append(d.Body, &Node{K: "setx", Num: g.fromLeft(r.FRange(5, 60))})
				}
				d.Body = append(d.Body, g.elements(1)...)
			}
			if r.P(0.35) {
				d.Header = g.smallSection(1, 1+r.Intn(2))
			}
			if r.P(0.35) {
				d.Footer = append([]*Node{{K: "sety", Num: g.fromTop(math.Round(h - r.FRange(2, 50)))}}, g.smallSection(2, 1+r.Intn(2))...)
			}
			if k.Classes {
				g.classify()
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			d := sc.Docs[0]
			xd := loadDoc(res, d)
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			checkBoxes(res, d, p)
			stats["pages"] += len(p.Pages)
			res.NonTrivial = len(p.Pages) > 1+countBreaks(d)
			res.add(o.Steps)
			res.Key = hashLines(p.Lines(nil))
			res.add(res.Key)
			return res
		},
	})
}

type frame struct {
	page           int
	x0, y0, x1, y1 float64
	seq            int
}

// frames are the filled boxes by colour; lw undoes the inset of the fill.
func (p *PDF) fills() map[RGB][]frame {
	out := map[RGB][]frame{}
	for i, pg := range p.Pages {
		for _, m := range pg.Marks {
			if m.Kind == 'f' {
				out[m.Color] = append(out[m.Color], frame{i + 1, m.X, m.Y, m.X + m.W, m.Y + m.H, m.Seq})
			}
		}
	}
	return out
}

func (f frame) grow(lw float64) frame {
	f.x0, f.y0, f.x1, f.y1 = f.x0-lw/2, f.y0-lw/2, f.x1+lw/2, f.y1+lw/2
	return f
}

func num4(s string) (o [4]float64) {
	for i, f := range strings.Split(s, ",") {
		if i < 4 {
			o[i] = parseF(f)
		}
	}
	return
}

func parseF(s string) float64 {
	n := &Node{Sty: []KV{{"v", strings.TrimSpace(s)}}}
	return n.num("v", 0)
}

func (n *Node) effNum(d *Doc, k string, def float64) float64 {
	if v, ok := n.eff(d, k); ok {
		return parseF(v)
	}
	return def
}

// hasOverwide tells whether a word of n is wider than w in one of the fonts used.
func hasOverwide(n *Node, runs []Mark, w float64) bool {
	if len(runs) == 0 {
		return false
	}
	var words []string
	glue := func(s string) []string { // a backslash swallows the spaces around it
		s = strings.Join(strings.Fields(s), " ")
		s = strings.ReplaceAll(s, " \\", "\\")
		return strings.Fields(strings.ReplaceAll(s, "\\ ", "\\"))
	}
	raw := n.Txt // adjacent raw text is one text
	for _, k := range n.Kids {
		if k.K == "t" {
			raw += k.Txt
			continue
		}
		words = append(words, glue(raw)...)
		raw = ""
		if k.K == "p" {
			words = append(words, glue(k.Txt)...)
		}
	}
	words = append(words, glue(raw)...)
	type fk struct {
		f string
		s float64
	}
	seen := map[fk]Mark{}
	for _, m := range runs {
		seen[fk{m.Font, m.Size}] = m
	}
	for _, m := range seen {
		for _, wd := range words {
			m.Text = " " + wd + " "
			if textWidth(m)+2 > w {
				return true
			}
		}
	}
	return false
}

func uniformSize(n *Node, d *Doc) bool {
	for _, k := range n.Kids {
		if k.K == "p" {
			if _, ok := k.eff(d, "font-point-size"); ok {
				return false
			}
		}
	}
	return true
}

func checkBoxes(res *Result, d *Doc, p *PDF) {
	pw, ph := p.Pages[0].W, p.Pages[0].H
	lm, tm, rm, bm := d.M[0], d.M[1], d.M[2], d.M[3]
	fills := p.fills()
	texts := p.byColor()
	for sect, list := range [][]*Node{d.Body, d.Header, d.Footer} {
		xKnown, x := sect == 0, lm
		for i, n := range list {
			startX, startKnown := x, xKnown
			switch n.K {
			case "setx":
				x, xKnown = n.at(pw), true
				continue
			case "sety", "font":
				continue
			case "lf":
				x, xKnown = lm, true
				continue
			case "newpage":
				x, xKnown = lm, true
				continue
			case "text", "box":
				x, xKnown = lm, n.ownText() != ""
			default:
				xKnown = false
			}
			if n.K != "box" {
				continue
			}
			bg, ok := n.eff(d, "background-color")
			tc, ok2 := n.eff(d, "text-color")
			if !ok || !ok2 {
				continue
			}
			fs := fills[parseHex(bg)]
			want := 1
			if sect > 0 {
				want = len(p.Pages)
			}
			if len(fs) != want {
				res.fail("frames", "box %d: frame drawn %d times, expected %d", n.ID, len(fs), want)
				return
			}
			lw := n.effNum(d, "line-width", 1)
			g := texts[parseHex(tc)]
			if g == nil {
				g = &colored{}
			}
			pad := [4]float64{}
			if v, ok := n.eff(d, "padding"); ok {
				pad = num4(v)
			}
			fixed := n.effNum(d, "height", 0) > 0
			uniform := uniformSize(n, d)
			offY := n.effNum(d, "offset-y", 0)
			offX := n.effNum(d, "offset-x", 0)
			for _, f0 := range fs {
				f := f0.grow(lw)
				fh := f.y1 - f.y0
				if f.x0 < 0 || f.y0 < 0 {
					stats["probe:over-the-edge"]++
				}
				inner := f.x1 - f.x0 - pad[0] - pad[2] - pad[1] - pad[3]
				fitsH := f.x1 <= pw-rm-2+0.02
				over := hasOverwide(n, g.runs, inner)
				var runs []Mark
				for i, m := range g.runs {
					if sect == 0 || g.pages[i] == f.page {
						if strip(m.Text) == "" {
							continue
						}
						runs = append(runs, m)
						if g.pages[i] != f.page && uniform && !over && fitsH && !fixed && offY+fh <= ph-tm-bm-0.01 {
							res.fail("torn", "box %d: frame on page %d, text %q on page %d", n.ID, f.page, clip(m.Text, 40), g.pages[i])
							return
						}
					}
				}
				if startKnown && !near(f.x0, startX+offX, 0.03) {
					res.fail("xpos", "box %d: frame starts at x=%.2f instead of %.2f (page %d)", n.ID, f.x0, startX+offX, f.page)
					return
				}
				if sect == 0 && i > 0 && list[i-1].K == "box" && offY == 0 && f.page > 1 {
					// the first element of a page starts at its top margin
					prev := 0
					if bg, ok := list[i-1].eff(d, "background-color"); ok {
						for _, pf := range fills[parseHex(bg)] {
							prev = imax(prev, pf.page)
						}
						if tc, ok := list[i-1].eff(d, "text-color"); ok && texts[parseHex(tc)] != nil {
							for _, pg := range texts[parseHex(tc)].pages {
								prev = imax(prev, pg)
							}
						}
					}
					if prev > 0 && prev < f.page {
						stats["probe:first-of-page"]++
						if !near(f.y0, tm, 0.03) {
							res.fail("top", "box %d: first of page %d, its frame starts at y=%.2f, the top margin ends at %.2f", n.ID, f.page, f.y0, tm)
							return
						}
					}
				}
				if sect == 0 && fitsH && offY+fh <= ph-tm-bm-0.01 {
					stats["probe:fits"]++
					if f.y1 > ph-bm+0.03 {
						res.fail("margin", "box %d: frame on page %d ends at y=%.2f, bottom margin starts at %.2f", n.ID, f.page, f.y1, ph-bm)
						return
					}
					if f.page > 9 && strings.Contains(n.ownText(), "{cp}") {
						stats["probe:wider-page-number"]++
					}
					if ph-bm-f.y1 < 5 {
						stats["probe:close-to-bottom"]++
					}
				} else if sect == 0 {
					stats["probe:too-large"]++
				}
				if over || !uniform || fixed || !fitsH || sect == 0 && offY+fh > ph-tm-bm-0.01 {
					continue
				}
				stats["probe:text-in-frame"]++
				for _, m := range runs {
					fhh := m.Size * 25.4 / 72
					w := textWidth(m)
					if m.Y-0.8*fhh < f.y0-0.05 || m.Y+0.2*fhh > f.y1+0.05 || m.X < f.x0-0.05 || m.X+w > f.x1+2.2 {
						res.fail("outside-frame", "box %d page %d: text %q at (%.2f..%.2f, baseline %.2f, size %.2f) lies outside its frame x %.2f..%.2f y %.2f..%.2f", n.ID, f.page, clip(m.Text, 40), m.X, m.X+w, m.Y, m.Size, f.x0, f.x1, f.y0, f.y1)
						return
					}
				}
			}
		}
	}
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
