package core

import (
	"fmt"
	"math"
	"strings"
)

var vocab = strings.Fields(`a I of to the and that for with water river mountain complicated administration
hyphenation representative extraordinary internationalization responsibility paper printer document processor
table column header footer margin break line letter word sentence paragraph section chapter volume library
engineering development organization characteristic understanding communication environment particularly
independence recommendation transformation approximately questionable x y z lo ipsum dolor sit amet
consectetuer adipiscing elit sed diam nonummy nibh euismod tincidunt ut laoreet dolore magna aliquam erat`)

var oddWords = []string{"(paren)", "back\\slash", "a&b", "<tag>", "q'uote", "50%", "semi;colon", "#hash", "))((", "\\\\", "a,b,c", "1/2", "end.", "\"dq\"", "{brace}", "~", "under_score", "[x]"}
var uniWords = []string{"Straße", "über", "naïve", "œuvre", "Ωmega", "Привет", "žluťoučký", "façade", "Größenordnung", "ÄÖÜ", "été",
	"non\u00a0breaking", "soft\u00adhyphenation", "em\u2003space", "zero\u200bwidth", "\ufb01ligature", "e\u0301combining\u0308", "\u212Aelvinization", "\u0130stanbulization", "\u2028line", "\ufeffmark", "\u0085next"}

// Knobs steer the document generator; every scenario draws its own.
type Knobs struct {
	Odd      bool // punctuation-rich words
	Uni      bool // non-ASCII words (with UTF-8 fonts)
	CJK      bool // characters the fonts lack
	UFonts   []string
	Core     []string
	MaxWords int
	Block    bool
	NoBlock  bool
	Hyphens  bool
	Sizes    []float64
	Tables   bool
	Boxes    bool
	Texts    bool
	Images   []string
	Breaks   bool
	FontEl   bool
	PosEl    bool
	LF       bool
	BigWord  bool
	Classes  bool
	Mixed    bool // paragraphs with their own fonts
	PColor   bool
	Deco     bool
	FixedH   bool
	Offsets  bool
	CellBox  bool
	CellImg  bool
	Spans    bool
	Wide     bool // no narrow cells and boxes
	Short    bool // words of at most eight letters
	PageNo   bool // {cp} and {np} in headers and footers
	CP       bool // {cp} in the body
	HBreak   bool // page breaks inside headers and footers
}

type Gen struct {
	r    *Rng
	k    Knobs
	id   int
	sect int // 0 body 1 header 2 footer
	doc  *Doc
}

func newGen(r *Rng) *Gen { return &Gen{r: r} }

func (g *Gen) nextID() int { g.id++; return g.id }

// farPages starts the body a few pages before the page number gets another digit.
func (g *Gen) farPages() {
	n := 6 + g.r.Intn(3)
	if g.r.P(0.03) {
		n = 96 + g.r.Intn(3)
	}
	for i := 0; i < n; i++ {
		g.doc.Body = append(g.doc.Body, &Node{K: "newpage"})
	}
}

func (g *Gen) word() string {
	r := g.r
	if g.k.PageNo && g.sect > 0 && r.P(0.15) {
		return pick(r, []string{"{cp}", "{np}", "{cp}/{np}", "p{cp}", "{np}.", "{cp}{np}"})
	}
	if g.k.CP && g.sect == 0 && r.P(0.4) {
		return pick(r, []string{"{cp}", "{cp}", "{cp}/{cp}", "p{cp}"})
	}
	if g.k.Odd && r.P(0.15) {
		return pick(r, oddWords)
	}
	if g.k.Hyphens && r.P(0.1) {
		return pick(r, []string{"well-known", "up-to-date", "-", "a-", "-b", "semi-automatic-document", "--"})
	}
	if g.k.CJK && r.P(0.02) {
		return pick(r, []string{"日本語テキスト", "𝄞𝄞", "😀"})
	}
	if g.k.Uni && r.P(0.3) {
		return pick(r, uniWords)
	}
	if g.k.BigWord && r.P(0.03) {
		n := r.Range(30, 160)
		if g.k.Uni && r.P(0.5) {
			return strings.Repeat(pick(r, []string{"äöüéßœ", "Привет", "aé"}), n/6+1)
		}
		return strings.Repeat("abcdefghijklmnopqrstuvwxyz", n/26+1)[:n]
	}
	w := pick(r, vocab)
	for g.k.Short && len(w) > 8 {
		w = pick(r, vocab)
	}
	if r.P(0.1) {
		w = strings.ToUpper(w[:1]) + w[1:]
	}
	if r.P(0.1) {
		w += pick(r, []string{".", ",", ";", "!", "?"})
	}
	return w
}

func (g *Gen) words(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.r.P(0.06) {
				b.WriteString(pick(g.r, []string{"\n", "\t", "  ", "\r\n", " \n  ", "   ", "      ", "\n\t\t    \n", "\t\t\t"}))
			} else {
				b.WriteByte(' ')
			}
		}
		b.WriteString(g.word())
	}
	return b.String()
}

func (g *Gen) text(max int) string {
	n := 1
	switch g.r.Intn(4) {
	case 0:
		n = 1 + g.r.Intn(4)
	case 1:
		n = 1 + g.r.Intn(12)
	default:
		n = 1 + g.r.Intn(max)
	}
	return g.words(n)
}

func (g *Gen) kinds() (txt, bg, stroke int) {
	switch g.sect {
	case 1:
		return cHeadText, cHeadBG, cHeadStroke
	case 2:
		return cFootText, cFootBG, cFootStroke
	}
	return cBodyText, cBodyBG, cBodyStroke
}

func (g *Gen) font(n *Node, p float64) {
	r := g.r
	if r.P(p) {
		fams := g.k.Core
		if len(g.k.UFonts) > 0 && (len(fams) == 0 || r.P(0.5)) {
			fams = g.k.UFonts
		}
		if len(fams) > 0 {
			n.set("font-family", pick(r, fams))
		}
	}
	if len(g.k.Sizes) > 0 && r.P(p) {
		n.set("font-point-size", fstr(pick(r, g.k.Sizes)))
	}
	if r.P(p * 0.5) {
		n.set("font-style", pick(r, []string{"italic", "normal"}))
	}
	if r.P(p * 0.5) {
		n.set("font-weight", pick(r, []string{"bold", "normal"}))
	}
	if g.k.Deco && r.P(p*0.4) {
		n.set("font-decoration", pick(r, []string{"underline", "normal"}))
	}
}

func (g *Gen) align(n *Node) {
	r := g.r
	if g.k.NoBlock {
		if r.P(0.4) {
			n.set("h-align", pick(r, []string{"left", "center", "right"}))
		}
		return
	}
	if r.P(0.5) {
		n.set("h-align", pick(r, []string{"left", "center", "right", "block", "block"}))
	}
}

func (g *Gen) styled(k string) *Node {
	n := &Node{K: k, ID: g.nextID()}
	t, bg, st := g.kinds()
	n.set("text-color", hexColor(idColor(t, n.ID)))
	if k == "box" || k == "td" {
		n.set("background-color", hexColor(idColor(bg, n.ID)))
		n.set("color", hexColor(idColor(st, n.ID)))
	}
	g.font(n, 0.4)
	g.align(n)
	if g.r.P(0.3) {
		n.set("line-spacing", fstr(pick(g.r, []float64{1, 1.2, 1.5, 2, 3, 0.75})))
	}
	return n
}

func (g *Gen) inline(n *Node, maxWords int) {
	r := g.r
	parts := 1 + r.Intn(3)
	if r.P(0.2) {
		parts += r.Intn(4)
	}
	for i := 0; i < parts; i++ {
		switch {
		case r.P(0.55) || i == 0 && r.P(0.5):
			n.Kids = append(n.Kids, &Node{K: "t", Txt: g.text(maxWords)})
			if len(n.Kids) > 1 && r.P(0.4) {
				n.Kids = append(n.Kids, &Node{K: "br"})
			}
		default:
			p := &Node{K: "p", ID: g.nextID(), Txt: g.text(maxWords)}
			if g.k.Mixed {
				g.font(p, 0.4)
			}
			if g.k.PColor && r.P(0.4) {
				t, _, _ := g.kinds()
				p.set("text-color", hexColor(idColor(t, p.ID)))
			}
			n.Kids = append(n.Kids, p)
		}
		if r.P(0.2) {
			n.Kids = append(n.Kids, &Node{K: "br"})
		}
	}
}

func (g *Gen) padding() string {
	r := g.r
	return fmt.Sprintf("%s,%s,%s,%s", fstr(r.FRange(0, 5)), fstr(r.FRange(0, 6)), fstr(r.FRange(0, 5)), fstr(r.FRange(0, 6)))
}

// min is the smallest width to use.
func (g *Gen) min(w float64) float64 {
	if g.k.Wide {
		return 80
	}
	return w
}

func (g *Gen) textNode(max int) *Node {
	n := g.styled("text")
	if g.r.P(0.25) {
		n.set("width", fstr(g.r.FRange(g.min(30), 150)))
	} else {
		g.fullWidth(n)
	}
	g.inline(n, max)
	return n
}

func (g *Gen) boxNode(max int) *Node {
	r := g.r
	n := g.styled("box")
	if r.P(0.6) {
		n.set("padding", g.padding())
	}
	if r.P(0.4) {
		n.set("border", pick(r, []string{"1,1,1,1", "0,1,0,1", "1,0,0,0", "0,0,0,1", "2,0,3,1"}))
	}
	if r.P(0.3) {
		n.set("line-width", fstr(pick(r, []float64{0, 0.1, 0.2, 0.5, 1, 2})))
	}
	if r.P(0.4) {
		n.set("width", fstr(r.FRange(g.min(40), 150)))
	} else {
		g.fullWidth(n)
	}
	if g.k.FixedH && r.P(0.3) {
		n.set("height", fstr(r.FRange(2, 60)))
	} else {
		g.freeHeight(n)
	}
	if g.k.Offsets && r.P(0.3) {
		n.set("offset-x", fstr(r.FRange(pick(r, []float64{-8, -8, -8, -40}), 20)))
	}
	if g.k.Offsets && r.P(0.3) {
		n.set("offset-y", fstr(r.FRange(pick(r, []float64{-4, -4, -4, -40}), 15)))
	}
	if r.P(0.93) {
		g.inline(n, max)
	}
	return n
}

func (g *Gen) cell(max int) *Node {
	r := g.r
	n := g.styled("td")
	if r.P(0.6) {
		n.set("padding", g.padding())
	}
	if r.P(0.4) {
		n.set("border", pick(r, []string{"1,1,1,1", "0,1,0,1", "1,0,1,0", "3,2,0,1"}))
	}
	if r.P(0.3) {
		n.set("v-align", pick(r, []string{"top", "middle", "bottom"}))
	}
	if g.k.FixedH && r.P(0.25) {
		n.set("height", fstr(r.FRange(3, 50)))
	} else {
		g.freeHeight(n)
	}
	if g.k.CellBox && r.P(0.15) {
		n.Kids = append(n.Kids, g.boxNode(max/2+1))
		return n
	}
	if g.k.CellImg && len(g.k.Images) > 0 && r.P(0.15) {
		n.Kids = append(n.Kids, g.image())
		return n
	}
	if r.P(0.95) {
		g.inline(n, max)
	}
	return n
}

func (g *Gen) table(rows, cols, max int) *Node {
	r := g.r
	t := &Node{K: "table", ID: g.nextID()}
	if r.P(0.3) && !g.k.Wide {
		t.set("width", fstr(r.FRange(80, 160)))
	} else {
		g.fullWidth(t)
	}
	if r.P(0.6) {
		t.RH = r.Intn(4)
	}
	if len(g.k.Sizes) > 0 && r.P(0.3) {
		t.set("font-point-size", fstr(pick(r, g.k.Sizes)))
	}
	for i := 0; i < rows; i++ {
		tr := &Node{K: "tr", ID: g.nextID()}
		for j := 0; j < cols; j++ {
			c := g.cell(max)
			if i == 0 && r.P(0.3) && !g.k.Wide {
				c.set("column-width", fstr(r.FRange(15, 50)))
			} else if r.P(0.05) {
				c.set("column-width", pick(r, []string{"0", "-1", "-25"}))
			}
			tr.Kids = append(tr.Kids, c)
			if g.k.Spans && r.P(0.12) && j+1 < cols {
				c.CS = 2
				j++
			} else {
				g.noSpan(c)
			}
		}
		t.Kids = append(t.Kids, tr)
	}
	return t
}

// fullWidth sets a width that stands for all there is.
func (g *Gen) fullWidth(n *Node) {
	if g.r.P(0.06) {
		w, _ := g.doc.pageSize()
		w = math.Floor(w - g.doc.M[0] - g.doc.M[2])
		n.set("width", pick(g.r, []string{"-1", "-20", fstr(w + 1), fstr(w + g.doc.M[2]), "500", "10000"}))
	}
}

// freeHeight sets a height that stands for the one the content needs.
func (g *Gen) freeHeight(n *Node) {
	if g.r.P(0.06) {
		n.set("height", pick(g.r, []string{"0", "-1", "-30"}))
	}
}

// noSpan makes a cell span one column or row, or none, which is the same.
func (g *Gen) noSpan(c *Node) {
	if g.r.P(0.06) {
		c.CS = 1
	}
	if g.r.P(0.06) {
		c.RS = 1
	}
}

// fromTop is a position from the top of the page, or the same from its bottom, which
// negative numbers count from.
func (g *Gen) fromTop(y float64) float64 {
	_, h := g.doc.pageSize()
	return g.fromEnd(y, h)
}

func (g *Gen) fromLeft(x float64) float64 {
	w, _ := g.doc.pageSize()
	return g.fromEnd(x, w)
}

func (g *Gen) fromEnd(v, size float64) float64 {
	if z := math.Round((v-size)*10) / 10; z < 0 && g.r.P(0.35) {
		return z
	}
	return v
}

// at is the place a position element names on a page of the size.
func (n *Node) at(size float64) float64 {
	if n.Num < 0 {
		return size + n.Num
	}
	return n.Num
}

func (g *Gen) image() *Node {
	r := g.r
	n := &Node{K: "image", ID: g.nextID(), Txt: pick(r, g.k.Images)}
	switch r.Intn(4) {
	case 0:
		n.set("width", fstr(r.FRange(3, 40)))
	case 1:
		n.set("height", fstr(r.FRange(3, 40)))
	case 2:
		n.set("width", fstr(r.FRange(3, 40)))
		n.set("height", fstr(r.FRange(3, 40)))
	}
	if g.k.Offsets && r.P(0.3) {
		n.set("offset-x", fstr(r.FRange(0, 20)))
	}
	return n
}

func (g *Gen) page() {
	r, d := g.r, g.doc
	d.Orient = pick(r, []string{"portrait", "portrait", "landscape"})
	d.Format = pick(r, []string{"a4", "a4", "a5", "a3", "letter", "legal"})
	d.M = [4]float64{r.FRange(8, 30), r.FRange(8, 40), r.FRange(8, 30), r.FRange(8, 40)}
	if r.P(0.1) {
		some := pick(r, []float64{0.5, 0.5, 1})
		for i := range d.M {
			if r.P(some) {
				d.M[i] = 0
			}
		}
	}
	d.Meta = [3]string{g.words(2), g.words(1), g.words(3)}
}

// body emits n elements of the enabled kinds.
func (g *Gen) elements(n int) []*Node {
	r := g.r
	var out []*Node
	mw := g.k.MaxWords
	if mw == 0 {
		mw = 40
	}
	for len(out) < n {
		type alt struct {
			w int
			f func() *Node
		}
		var alts []alt
		if g.k.Texts {
			alts = append(alts, alt{4, func() *Node { return g.textNode(mw) }})
		}
		if g.k.Boxes {
			alts = append(alts, alt{4, func() *Node { return g.boxNode(mw) }})
		}
		if g.k.Tables {
			alts = append(alts, alt{2, func() *Node { return g.table(1+r.Intn(6), 1+r.Intn(4), mw/4+2) }})
		}
		if len(g.k.Images) > 0 {
			alts = append(alts, alt{2, func() *Node { return g.image() }})
		}
		if g.k.Breaks {
			alts = append(alts, alt{1, func() *Node { return &Node{K: "newpage"} }})
		}
		if g.k.FontEl {
			alts = append(alts, alt{2, func() *Node { f := &Node{K: "font"}; g.font(f, 0.7); return f }})
		}
		if g.k.LF {
			alts = append(alts, alt{2, func() *Node { return &Node{K: "lf", Num: pick(r, []float64{0.5, 1, 1.5, 2, 5, -0.5, -1.5})} }})
		}
		if g.k.PosEl {
			alts = append(alts, alt{1, func() *Node { return &Node{K: "setx", Num: g.fromLeft(r.FRange(10, 60))} }})
			alts = append(alts, alt{1, func() *Node { return &Node{K: "sety", Num: g.fromTop(r.FRange(20, 180))} }})
		}
		tot := 0
		for _, a := range alts {
			tot += a.w
		}
		if tot == 0 {
			return out
		}
		x := r.Intn(tot)
		for _, a := range alts {
			if x < a.w {
				out = append(out, a.f())
				break
			}
			x -= a.w
		}
	}
	return out
}

var coreFams = []string{"Arial", "Times", "Courier", "Helvetica"}

// classify moves some inline styles of elements into classes. Other classes before
// them in an element's list, of its own or of other elements, set some of the same
// keys to other values, without effect on the element.
func (g *Gen) classify() {
	r, d := g.r, g.doc
	n := 0
	pool := map[string][]string{}
	all := func(f func(*Node)) {
		walk(d.Header, f)
		walk(d.Footer, f)
		walk(d.Body, f)
	}
	all(func(nd *Node) {
		for _, kv := range nd.Sty {
			pool[kv.K] = append(pool[kv.K], kv.V)
		}
	})
	all(func(nd *Node) {
		if len(nd.Sty) < 2 || !r.P(0.3) || n > 20 {
			return
		}
		n++
		name := fmt.Sprintf("c%d", n)
		keys := append([]KV(nil), nd.Sty...)
		covered := func(c ClassDef) bool {
			for _, kv := range c.Sty {
				ok := false
				for _, x := range keys {
					ok = ok || x.K == kv.K
				}
				if !ok {
					return false
				}
			}
			return true
		}
		if r.P(0.3) {
			// classes of others
			for _, c := range d.Classes {
				if !strings.Contains(c.Name, ":") && covered(c) && r.P(0.5) {
					nd.Cls = append(nd.Cls, c.Name)
				}
			}
		}
		if r.P(0.4) {
			c := ClassDef{Name: fmt.Sprintf("o%d", n)}
			for _, kv := range keys {
				if r.P(0.6) {
					c.Sty = append(c.Sty, KV{kv.K, pick(r, pool[kv.K])})
				}
			}
			d.Classes = append(d.Classes, c)
			nd.Cls = append(nd.Cls, c.Name)
		}
		if r.P(0.1) {
			nd.Cls = append(nd.Cls, "undefined")
		}
		k := 1 + r.Intn(len(nd.Sty)-1)
		if r.P(0.3) {
			k = len(nd.Sty)
		}
		d.Classes = append(d.Classes, ClassDef{Name: name, Sty: append([]KV(nil), nd.Sty[:k]...)})
		nd.Sty = append([]KV(nil), nd.Sty[k:]...)
		nd.Cls = append(nd.Cls, name)
	})
}

// randKnobs draws a swarm configuration.
func randKnobs(r *Rng) Knobs {
	k := Knobs{
		Odd: r.P(0.4), MaxWords: pick(r, []int{6, 20, 60, 120}), Mixed: r.P(0.5), PColor: r.P(0.5), Deco: r.P(0.4),
		Tables: r.P(0.6), Boxes: r.P(0.8), Texts: r.P(0.8), Breaks: r.P(0.4), FontEl: r.P(0.4), LF: r.P(0.5),
		FixedH: r.P(0.3), Offsets: r.P(0.4), CellBox: r.P(0.3), BigWord: r.P(0.2), Spans: r.P(0.3), Classes: r.P(0.5),
	}
	if r.P(0.7) {
		k.Core = coreFams
	}
	k.Sizes = pick(r, [][]float64{{}, {8, 10.3, 12, 14}, {6, 9, 12, 18, 24, 30}, {11, 12, 13}})
	if !k.Texts && !k.Boxes && !k.Tables {
		k.Texts = true
	}
	return k
}

// smallSection fills a header or footer.
func (g *Gen) smallSection(sect, n int) []*Node {
	old, ok := g.sect, g.k
	g.sect = sect
	g.k.MaxWords = 8
	g.k.Breaks = false
	g.k.BigWord = false
	out := g.elements(n)
	if g.k.HBreak && g.r.P(0.15) {
		at := g.r.Intn(len(out) + 1)
		out = append(out[:at:at], append([]*Node{{K: "newpage"}}, out[at:]...)...)
	}
	g.sect, g.k = old, ok
	return out
}
