package core

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 12000, Thorough: 250000,
		Rule: "random tables (rows, columns, heights, spans, repeat counts, alignments) at random vertical positions between other elements; non-trivial: a table continued on a further page; distinct by the drawn frames and runs",
		Real: "xdoc loader, processor, hyphenator, gofpdf", Stub: "none (page breaks are the interrupts)",
		Gen: genC12,
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			d := sc.Docs[0]
			xd := loadDoc(res, d)
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			for _, n := range d.Body {
				if n.K == "table" {
					checkTable(res, d, p, n)
				}
			}
			stats["pages"] += len(p.Pages)
			res.add(o.Steps)
			res.Key = hashLines(p.Lines(nil))
			res.add(res.Key)
			return res
		},
	})
}

func genC12(r *Rng, idx int) *Scenario {
	sc := &Scenario{}
	k := Knobs{Short: true, Odd: r.P(0.2), MaxWords: pick(r, []int{3, 8, 20, 50}), Texts: r.P(0.5), Boxes: r.P(0.3), LF: r.P(0.5), Classes: r.P(0.3)}
	k.Spans = r.P(0.4)
	k.Sizes = pick(r, [][]float64{{}, {8, 9.3, 10}, {6, 8, 12}, {7, 10, 13}})
	if r.P(0.5) {
		k.Core = coreFams
	}
	k.CP = r.P(0.15)
	if k.CP {
		k.MaxWords = pick(r, []int{2, 3, 8})
	}
	g := uniformGen(r, sc, k)
	d := g.doc
	_, h := d.pageSize()
	if k.CP {
		g.farPages()
	}
	nt := 1 + r.Intn(2)
	for t := 0; t < nt; t++ {
		if r.P(0.5) {
			d.Body = append(d.Body, g.elements(1+r.Intn(3))...)
		}
		if r.P(0.4) {
			d.Body = append(d.Body, &Node{K: "sety", Num: g.fromTop(math.Round((d.M[1]+r.F()*(h-d.M[1]-d.M[3]))*10) / 10)})
		}
		if r.P(0.2) {
			d.Body = append(d.Body, &Node{K: "setx", Num: g.fromLeft(r.FRange(5, 30))})
		}
		d.Body = append(d.Body, g.spanTable())
	}
	if r.P(0.3) {
		d.Header = g.smallSection(1, 1)
	}
	if r.P(0.3) {
		d.Footer = append([]*Node{{K: "sety", Num: g.fromTop(math.Round(h - d.M[3]))}}, g.smallSection(2, 1)...)
	}
	if k.Classes {
		g.classify()
	}
	return sc
}

// spanTable emits a table whose row spans stay within the header or the body
// rows and never meet column spans.
func (g *Gen) spanTable() *Node {
	r := g.r
	t := &Node{K: "table", ID: g.nextID()}
	rows := pick(r, []int{1, 2, 5, 12, 30, 60})
	rows = 1 + r.Intn(rows)
	cols := 1 + r.Intn(4)
	if r.P(0.6) {
		t.RH = r.Intn(4)
	}
	if r.P(0.2) {
		t.set("width", fstr(r.FRange(70, 160)))
	}
	if len(g.k.Sizes) > 0 && r.P(0.3) {
		t.set("font-point-size", fstr(pick(r, g.k.Sizes)))
	}
	uniform := r.P(0.3) // all rows of one round height: rows that end exactly at the margin
	uh := float64(5 * (2 + r.Intn(6)))
	occ := make([][]bool, rows)
	for i := range occ {
		occ[i] = make([]bool, cols)
	}
	for i := 0; i < rows; i++ {
		tr := &Node{K: "tr", ID: g.nextID()}
		for j := 0; j < cols; j++ {
			if occ[i][j] {
				continue
			}
			mw := g.k.MaxWords
			c := g.styled("td")
			if r.P(0.5) {
				c.set("padding", fmt.Sprintf("%s,%s,%s,%s", fstr(r.FRange(0, 2)), fstr(r.FRange(0, 4)), fstr(r.FRange(0, 2)), fstr(r.FRange(0, 4))))
			}
			if r.P(0.4) {
				c.set("border", pick(r, []string{"1,1,1,1", "0,1,0,1", "1,0,1,0"}))
			}
			if r.P(0.3) {
				c.set("v-align", pick(r, []string{"top", "middle", "bottom"}))
			}
			if i == 0 && j == 0 && r.P(0.3) {
				c.set("column-width", fstr(r.FRange(20, 35)))
			}
			switch {
			case uniform:
				c.set("height", fstr(uh))
				c.set("font-point-size", "8")
				c.set("padding", "0,0,0,0")
				c.Kids = []*Node{{K: "t", Txt: pick(r, []string{"x", "y", "of"})}}
			case r.P(0.1):
				ch := float64(r.Range(26, 70))
				c.set("height", fstr(ch))
				c.Kids = []*Node{{K: "t", Txt: pick(r, []string{"x", "y", "of"})}}
				if r.P(0.4) {
					if r.P(0.6) {
						c.Kids = nil
					}
					for k, n := 0, 1+r.Intn(3); k < n; k++ {
						b := g.cellBox()
						if r.P(0.3) {
							// about as high as its cell, or higher
							b.set("height", fstr(ch+float64(r.Range(-3, 6))))
						}
						c.Kids = append(c.Kids, b)
					}
				}
			case r.P(0.93):
				g.inline(c, mw)
				if r.P(0.06) {
					if r.P(0.4) {
						c.Kids = nil
					}
					b := g.cellBox()
					if r.P(0.3) {
						b.set("height", fstr(r.FRange(5, 40)))
					}
					c.Kids = append(c.Kids, b)
				}
			}
			if g.k.Spans && r.P(0.12) && j+1 < cols && !occ[i][j+1] {
				c.CS = 2
				occ[i][j+1] = true
			} else if lim := rows; g.k.Spans && r.P(0.1) && !uniform {
				if i < t.RH {
					lim = t.RH
				}
				n := 2 + r.Intn(2)
				if i+n <= lim && i+n <= rows {
					free := true
					for q := i; q < i+n; q++ {
						if occ[q][j] {
							free = false
						}
					}
					if free {
						c.RS = n
						for q := i; q < i+n; q++ {
							occ[q][j] = true
						}
					}
				}
			}
			occ[i][j] = true
			if len(tr.Kids) == 0 && len(c.Kids) == 0 {
				c.Kids = []*Node{{K: "t", Txt: "x"}}
			}
			tr.Kids = append(tr.Kids, c)
		}
		t.Kids = append(t.Kids, tr)
	}
	return t
}

func (n *Node) bg(d *Doc) (RGB, bool) {
	v, ok := n.eff(d, "background-color")
	return parseHex(v), ok
}

func (n *Node) tc(d *Doc) (RGB, bool) {
	v, ok := n.eff(d, "text-color")
	return parseHex(v), ok
}

type drawn struct {
	page, seq, row, col int
}

func checkTable(res *Result, d *Doc, p *PDF, t *Node) {
	ph := p.Pages[0].H
	avail := ph - d.M[1] - d.M[3]
	fills := p.fills()
	texts := p.byColor()
	rows := t.Kids
	rh := t.RH
	type cellInfo struct {
		n      *Node
		fs     []frame
		lw     float64
		runs   *colored
		row, i int
	}
	var cells [][]*cellInfo
	var seq []drawn
	overwide := false
	for i, tr := range rows {
		var cs []*cellInfo
		for j, c := range tr.Kids {
			if c.RS > 1 && (i+c.RS > len(rows) || i < rh && i+c.RS > rh) {
				return // simplified into something the generator never emits
			}
			bg, ok := c.bg(d)
			tc, ok2 := c.tc(d)
			if !ok || !ok2 {
				return // simplified away
			}
			ci := &cellInfo{n: c, lw: c.effNum(d, "line-width", 1), row: i, i: j}
			for _, f := range fills[bg] {
				ci.fs = append(ci.fs, f.grow(ci.lw))
				seq = append(seq, drawn{f.page, f.seq, i, j})
			}
			if ci.runs = texts[tc]; ci.runs == nil {
				ci.runs = &colored{}
			}
			if len(ci.fs) == 0 {
				res.fail("missing", "table %d: row %d cell %d is not drawn", t.ID, i, j)
				return
			}
			if ci.fs[0].x1 > p.Pages[0].W-d.M[2]-2+0.02 {
				overwide = true // runs off the printable area
			}
			var pad [4]float64
			if v, ok := c.eff(d, "padding"); ok {
				pad = num4(v)
			}
			if hasOverwide(c, ci.runs.runs, ci.fs[0].x1-ci.fs[0].x0-pad[0]-pad[2]) {
				overwide = true
			}
			cs = append(cs, ci)
		}
		cells = append(cells, cs)
	}
	if overwide {
		stats["probe:table-with-overwide-word"]++
	}
	// drawing order
	sort.Slice(seq, func(a, b int) bool {
		if seq[a].page != seq[b].page {
			return seq[a].page < seq[b].page
		}
		return seq[a].seq < seq[b].seq
	})
	// heights
	var head float64
	rowH := make([]float64, len(cells))
	plain := make([]float64, len(cells)) // height without spans
	tall := make([]float64, len(cells))
	for i, cs := range cells {
		for _, c := range cs {
			h := c.fs[0].y1 - c.fs[0].y0
			if c.n.RS <= 1 {
				plain[i] = h
			}
			tall[i] = math.Max(tall[i], h)
		}
	}
	cp := make([]bool, len(cells)) // rows that show the page number may differ in height
	for i, cs := range cells {
		for _, c := range cs {
			cp[i] = cp[i] || strings.Contains(c.n.ownText(), "{cp}")
		}
		for _, c := range cs {
			for _, f := range c.fs[1:] {
				if cp[i] {
					tall[i] = math.Max(tall[i], f.y1-f.y0)
				}
			}
		}
	}
	for i := range cells {
		rowH[i] = plain[i]
		if cp[i] {
			rowH[i] = tall[i]
		}
		if rowH[i] == 0 {
			rowH[i] = tall[i]
			if i+1 < len(cells) && len(cells[i+1]) > 0 && len(cells[i]) > 0 {
				// every cell of the row spans: its height is the distance to the next row
				if a, b := cells[i][0].fs[0], cells[i+1][0].fs[0]; a.page == b.page {
					rowH[i] = b.y0 - a.y0
				}
			}
		}
		if i < rh {
			head += rowH[i]
		}
	}
	var first float64
	for i := 0; i <= rh && i < len(cells); i++ {
		first += tall[i]
	}
	flat := func(i int) bool { // a row without content has no height
		for _, c := range cells[i] {
			if c.n.RS <= 1 && (c.n.ownText() != "" || c.n.effNum(d, "height", 0) > 0 || c.n.hasBox()) {
				return false
			}
		}
		return true
	}
	fits := func(i int) bool {
		if i < rh {
			return first <= avail-0.02
		}
		return head+tall[i] <= avail-0.02
	}
	headFits := head <= avail-0.02
	allFit := true
	for i := range cells {
		if !fits(i) {
			allFit = false
		}
	}
	if !allFit {
		stats["probe:table-with-oversized-row"]++
	}
	if !headFits {
		stats["probe:header-taller-than-page"]++
	}
	if !overwide && headFits && allFit {
		var want []drawn
		emit := func(page, row int) {
			for j := range cells[row] {
				want = append(want, drawn{page: page, row: row, col: j})
			}
		}
		cur := 0
		for i := range cells {
			if len(cells[i]) == 0 {
				continue
			}
			f := cells[i][0].fs[0]
			if i >= rh && cur != 0 && f.page != cur && rh > 0 {
				for k := 0; k < rh && k < len(cells); k++ {
					emit(f.page, k)
				}
				stats["probe:repeated-header"]++
			}
			if cur != 0 && f.page != cur {
				res.NonTrivial = true
				stats["probe:table-break"]++
			}
			cur = f.page
			emit(f.page, i)
		}
		for i := 0; i < len(want) || i < len(seq); i++ {
			switch {
			case i >= len(seq):
				res.fail("rows", "table %d: after %d drawn cells, row %d cell %d expected on page %d but nothing more is drawn", t.ID, i, want[i].row, want[i].col, want[i].page)
				return
			case i >= len(want):
				res.fail("rows", "table %d: row %d cell %d drawn once more on page %d", t.ID, seq[i].row, seq[i].col, seq[i].page)
				return
			case seq[i].row != want[i].row || seq[i].col != want[i].col || seq[i].page != want[i].page:
				res.fail("rows", "table %d (repeatheader %d): drawing step %d is row %d cell %d on page %d, expected row %d cell %d on page %d", t.ID, rh, i, seq[i].row, seq[i].col, seq[i].page, want[i].row, want[i].col, want[i].page)
				return
			}
		}
	}
	if overwide || !headFits || !allFit {
		bodyOnce(res, t, seq, rh)
		return
	}
	if rh > 0 && rh < len(cells) && first <= avail-0.02 && len(cells[0]) > 0 && len(cells[rh]) > 0 {
		if a, b := cells[0][0].fs[0].page, cells[rh][0].fs[0].page; a != b {
			res.fail("header-alone", "table %d: header rows start on page %d, first body row is on page %d", t.ID, a, b)
			return
		}
	}
	prevBottom, prevPage := 0.0, 0
	for i, cs := range cells {
		for _, c := range cs {
			if fits(i) && !flat(i) && (i >= rh || allFit) && c.n.hasBox() {
				if checkCellBoxes(res, d, p, fmt.Sprintf("table %d: row %d cell %d", t.ID, i, c.i), c.n, c.fs, fills); res.V != nil {
					return
				}
			}
			for fi, f := range c.fs {
				if !near(f.x0, c.fs[0].x0, 0.02) || !near(f.x1, c.fs[0].x1, 0.02) {
					res.fail("xpos", "table %d: row %d cell %d at x %.2f..%.2f on page %d, at %.2f..%.2f on page %d", t.ID, i, c.i, c.fs[0].x0, c.fs[0].x1, c.fs[0].page, f.x0, f.x1, f.page)
					return
				}
				if flat(i) {
					continue
				}
				if !near(f.y1-f.y0, c.fs[0].y1-c.fs[0].y0, 0.02) && !cp[i] || !near(f.y0, cs[0].fs[fi].y0, 0.02) {
					res.fail("height", "table %d: row %d cell %d drawn at y %.2f..%.2f on page %d: differs from its row", t.ID, i, c.i, f.y0, f.y1, f.page)
					return
				}
				if !fits(i) || !allFit && i < rh || flat(i) {
					continue
				}
				stats["probe:fitting-cell"]++
				if cp[i] && f.page > 9 {
					stats["probe:wider-page-number"]++
				}
				if f.y1 > ph-d.M[3]+0.03 {
					res.fail("margin", "table %d: row %d cell %d on page %d ends at y=%.2f, bottom margin starts at %.2f", t.ID, i, c.i, f.page, f.y1, ph-d.M[3])
					return
				}
				if f.y1 > ph-d.M[3]-0.03 {
					stats["probe:exactly-at-margin"]++
				}
				if fi == 0 && i > 0 && prevPage == f.page && f.y0 < prevBottom-0.03 {
					res.fail("overlap", "table %d: row %d starts at y=%.2f on page %d, the row before ends at %.2f", t.ID, i, f.y0, f.page, prevBottom)
					return
				}
				// text on this page
				var runs []Mark
				var pages []int
				for q, m := range c.runs.runs {
					if i >= rh && c.runs.pages[q] != f.page && strip(m.Text) != "" {
						res.fail("split", "table %d: row %d cell %d is on page %d, its text %q on page %d", t.ID, i, c.i, f.page, clip(m.Text, 40), c.runs.pages[q])
						return
					}
					if c.runs.pages[q] == f.page {
						runs = append(runs, m)
						pages = append(pages, f.page)
					}
				}
				if msg := matchText(strings.ReplaceAll(c.n.ownText(), "{cp}", strconv.Itoa(f.page)), runs, pages, true); msg != "" {
					res.fail("celltext", "table %d: row %d cell %d on page %d: %s", t.ID, i, c.i, f.page, msg)
					return
				}
				if msg := matchSpaced(c.n.spaced("{cp}", strconv.Itoa(f.page)), runs, pages, true, false); msg != "" {
					res.fail("words", "table %d: row %d cell %d on page %d: %s", t.ID, i, c.i, f.page, msg)
					return
				}
				if !uniformSize(c.n, d) {
					continue
				}
				for _, m := range runs {
					if strip(m.Text) == "" {
						continue
					}
					fhh := m.Size * 25.4 / 72
					if m.Y-0.8*fhh < f.y0-0.05 || m.Y+0.2*fhh > f.y1+0.05 || m.X < f.x0-0.05 || m.X > f.x1+1.05 {
						res.fail("outside-cell", "table %d: row %d cell %d page %d: text %q at (%.2f, baseline %.2f, size %.2f) lies outside x %.2f..%.2f y %.2f..%.2f", t.ID, i, c.i, f.page, clip(m.Text, 40), m.X, m.Y, m.Size, f.x0, f.x1, f.y0, f.y1)
						return
					}
				}
			}
		}
		if len(cs) > 0 && fits(i) && !flat(i) {
			f := cs[0].fs[0]
			prevBottom, prevPage = f.y0+plain[i], f.page
			if plain[i] == 0 {
				prevPage = 0
			}
		} else {
			prevPage = 0
		}
	}
}

func (n *Node) hasBox() bool {
	for _, k := range n.Kids {
		if k.K == "box" {
			return true
		}
	}
	return false
}

// cellBox emits a low box for a cell.
func (g *Gen) cellBox() *Node {
	r := g.r
	n := g.styled("box")
	n.set("height", fstr(r.FRange(2, 5)))
	n.set("font-point-size", "6")
	if r.P(0.4) {
		n.set("padding", pick(r, []string{"1,1,1,1", "0.5,0,1,0", "0,1,2,0", "3,0,0,1"}))
	}
	if r.P(0.4) {
		n.set("width", fstr(r.FRange(5, 30)))
	}
	if r.P(0.3) {
		n.set("offset-x", fstr(r.FRange(0, 4)))
	}
	if r.P(0.3) {
		n.set("offset-y", fstr(r.FRange(0, 2)))
	}
	if r.P(0.4) {
		n.set("border", pick(r, []string{"1,1,1,1", "0,1,0,1", "1,0,0,0", "0,0,0,1"}))
	}
	if r.P(0.7) {
		n.Kids = []*Node{{K: "t", Txt: "x"}}
	}
	return n
}

// checkCellBoxes checks the places of boxes in a cell: they start at the
// cell's padding, and at the top of it unless the cell is aligned otherwise.
func checkCellBoxes(res *Result, d *Doc, p *PDF, where string, td *Node, fs []frame, fills map[RGB][]frame) {
	var pad [4]float64
	if v, ok := td.eff(d, "padding"); ok {
		pad = num4(v)
	}
	va, _ := td.eff(d, "v-align")
	for k, b := range td.Kids {
		if b.K != "box" {
			continue
		}
		bg, ok := b.bg(d)
		if !ok || b.effNum(d, "height", -1) < 2 || b.effNum(d, "line-width", 1) > 1 {
			continue
		}
		var bp [4]float64
		if v, ok := b.eff(d, "padding"); ok {
			bp = num4(v)
		}
		got := fills[bg]
		if len(got) != len(fs) {
			res.fail("cellbox", "%s: box %d in it is drawn %d times, the cell %d times", where, k, len(got), len(fs))
			return
		}
		for i, f := range got {
			f := f.grow(b.effNum(d, "line-width", 1))
			c := fs[i]
			if f.page != c.page {
				res.fail("cellbox", "%s: box %d in it is drawn on page %d, the cell on page %d", where, k, f.page, c.page)
				return
			}
			w := c.x1 - c.x0 - pad[0] - pad[2]
			if bw := b.effNum(d, "width", -1); bw >= 0 && bw < w {
				w = bw
			}
			x := c.x0 + pad[0] + b.effNum(d, "offset-x", 0)
			if w > 4 && (!near(f.x0, x, 0.05) || !near(f.x1, x+w, 0.05)) {
				res.fail("cellbox", "%s: box %d in it at x %.2f..%.2f instead of %.2f..%.2f", where, k, f.x0, f.x1, x, x+w)
				return
			}
			h := b.effNum(d, "height", 0) + bp[1] + bp[3]
			off := b.effNum(d, "offset-y", 0)
			y, room := c.y0+pad[1]+off, c.y1-c.y0-pad[1]-pad[3]-h-off
			switch {
			case room < -0.05 && td.effNum(d, "height", 0) <= 0 && td.RS <= 1:
				res.fail("cellbox", "%s: box %d in it (offset %.2f, height %.2f) is higher than the cell (%.2f..%.2f), whose height is not fixed", where, k, off, h, c.y0, c.y1)
				return
			case room < 0:
				// it hangs over
			case va == "middle":
				y += room / 2
			case va == "bottom":
				y += room
			}
			if !near(f.y0, y, 0.05) || !near(f.y1-f.y0, h, 0.05) {
				res.fail("cellbox", "%s: box %d in it (height %.2f) at y %.2f..%.2f instead of %.2f, the cell is at %.2f..%.2f aligned %q", where, k, h, f.y0, f.y1, y, c.y0, c.y1, va)
				return
			}
			if va == "middle" || va == "bottom" {
				stats["probe:aligned-box-in-cell"]++
			}
			stats["probe:box-in-cell"]++
		}
	}
}

// bodyOnce is the part of the property that holds for degenerate tables too.
func bodyOnce(res *Result, t *Node, seq []drawn, rh int) {
	last := drawn{row: rh - 1, col: 1 << 30}
	for _, s := range seq {
		if s.row < rh {
			continue
		}
		if s.row < last.row || s.row == last.row && s.col <= last.col {
			res.fail("rows", "table %d: row %d cell %d drawn on page %d after row %d cell %d", t.ID, s.row, s.col, s.page, last.row, last.col)
			return
		}
		last = s
	}
}
