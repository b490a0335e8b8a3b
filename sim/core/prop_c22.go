package core

import (
	"fmt"
	"math"
	"sort"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 8000, Thorough: 250000,
		Rule: "random tables (column and row spans, alone and combined, rows of different lengths, fixed and free column widths, repeated header rows, tables in headers and footers) at random positions, interrupted by page breaks; non-trivial: a cell spans columns or rows, or a table continues on a further page; distinct by the drawn frames",
		Real: "xdoc loader, processor, hyphenator, gofpdf", Stub: "none (page breaks are the interrupts)",
		Gen: genC22,
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			d := sc.Docs[0]
			xd := loadDoc(res, d)
			if xd == nil {
				return res
			}
			p, o := okRender(res, sc, xd)
			if p == nil {
				return res
			}
			fills := p.fills()
			for _, l := range [][]*Node{d.Header, d.Footer, d.Body} {
				x := -1.0
				for i, n := range l {
					switch n.K {
					case "setx":
						x = n.at(p.Pages[0].W)
					case "table":
						var next *Node
						if i+1 < len(l) && l[i+1].K == "box" {
							next = l[i+1]
						}
						left := d.M[0]
						if x >= 0 {
							left = x
						}
						checkGrid(res, d, p, n, next, left, fills)
						if res.V != nil {
							return res
						}
					case "sety":
					default:
						x = -1
					}
				}
			}
			stats["pages"] += len(p.Pages)
			res.add(o.Steps)
			res.Key = hashLines(p.Lines(nil))
			res.add(res.Key)
			return res
		},
	})
}

func genC22(r *Rng, idx int) *Scenario {
	sc := &Scenario{}
	k := Knobs{Short: true, NoBlock: r.P(0.5), MaxWords: pick(r, []int{2, 5, 12, 30}), Texts: r.P(0.5), Boxes: r.P(0.3), LF: r.P(0.5), Classes: r.P(0.3)}
	k.Sizes = pick(r, [][]float64{{}, {8, 9.3, 10}, {6, 8, 12}})
	g := uniformGen(r, sc, k)
	d := g.doc
	_, h := d.pageSize()
	for t := 1 + r.Intn(2); t > 0; t-- {
		if r.P(0.5) {
			d.Body = append(d.Body, g.elements(1+r.Intn(3))...)
		}
		if r.P(0.4) {
			d.Body = append(d.Body, &Node{K: "sety", Num: g.fromTop(math.Round((d.M[1]+r.F()*(h-d.M[1]-d.M[3]))*10) / 10)})
		}
		if r.P(0.25) {
			d.Body = append(d.Body, &Node{K: "setx", Num: g.fromLeft(r.FRange(5, 40))})
		} else {
			d.Body = append(d.Body, &Node{K: "lf", Num: 1})
		}
		d.Body = append(d.Body, g.gridTable(pick(r, []int{1, 3, 6, 15, 40})))
		if r.P(0.6) {
			b := g.styled("box")
			b.set("height", "3")
			d.Body = append(d.Body, b)
		}
	}
	for s := 1; s <= 2; s++ {
		if !r.P(0.25) {
			continue
		}
		g.sect = s
		l := []*Node{{K: "sety", Num: g.fromTop(math.Round(h / 4 * float64(2*s-1)))}, {K: "lf", Num: 0}, g.gridTable(3)}
		g.sect = 0
		if s == 1 {
			d.Header = l
		} else {
			d.Footer = l
		}
	}
	if k.Classes {
		g.classify()
	}
	return sc
}

// gridTable emits a table whose spanning cells meet nothing else.
func (g *Gen) gridTable(max int) *Node {
	r := g.r
	t := &Node{K: "table", ID: g.nextID()}
	rows, cols := 1+r.Intn(max), 1+r.Intn(6)
	if r.P(0.5) {
		t.RH = r.Intn(4)
	}
	if r.P(0.3) {
		t.set("width", fstr(r.FRange(60, 170)))
	} else {
		g.fullWidth(t)
	}
	spans := pick(r, []float64{0, 0.1, 0.3, 0.5})
	ragged := r.P(0.2)
	occ := make([][]bool, rows)
	for i := range occ {
		occ[i] = make([]bool, cols)
	}
	fixed := pick(r, []float64{0, 0, 0.1, 0.4})
	for i := 0; i < rows; i++ {
		tr := &Node{K: "tr", ID: g.nextID()}
		for j := 0; j < cols; j++ {
			if occ[i][j] {
				continue
			}
			if ragged && j > 0 && r.P(0.15) {
				break
			}
			c := g.styled("td")
			if r.P(0.3) {
				c.set("padding", fmt.Sprintf("%s,%s,%s,%s", fstr(r.FRange(0, 2)), fstr(r.FRange(0, 4)), fstr(r.FRange(0, 2)), fstr(r.FRange(0, 4))))
			}
			if r.P(0.3) {
				c.set("border", pick(r, []string{"1,1,1,1", "0,1,0,1", "1,0,1,0"}))
			}
			c.set("line-width", pick(r, []string{"0.1", "0.2", "0.5"}))
			if r.P(0.2) {
				c.set("v-align", pick(r, []string{"top", "middle", "bottom"}))
			}
			if r.P(0.3) {
				c.set("height", fstr(float64(5*(1+r.Intn(6)))))
				c.Kids = []*Node{{K: "t", Txt: "x"}}
			} else {
				g.freeHeight(c)
				g.inline(c, g.k.MaxWords)
			}
			cs, rs := 1, 1
			if r.P(spans) {
				cs = 1 + r.Intn(3)
			}
			if r.P(spans) {
				rs = 1 + r.Intn(3)
			}
			for cs > 1 && (j+cs > cols || occ[i][j+cs-1]) {
				cs--
			}
			for k := j; k < j+cs; k++ {
				if occ[i][k] {
					cs = k - j
				}
			}
			lim := rows
			if i < t.RH && t.RH < rows {
				lim = t.RH
			}
			if i+rs > lim {
				rs = lim - i
			}
			g.noSpan(c)
			if cs > 1 {
				c.CS = cs
			} else if r.P(fixed) {
				c.set("column-width", fstr(r.FRange(8, 25)))
			} else if r.P(0.05) {
				c.set("column-width", pick(r, []string{"0", "-1", "-25"}))
			}
			if rs > 1 {
				c.RS = rs
			}
			for q := i; q < i+rs; q++ {
				for k := j; k < j+cs; k++ {
					occ[q][k] = true
				}
			}
			tr.Kids = append(tr.Kids, c)
		}
		t.Kids = append(t.Kids, tr)
	}
	return t
}

type gridCell struct {
	n              *Node
	row, idx       int
	c0, c1, r0, r1 int // the columns and rows covered (exclusive ends)
}

// gridModel places the cells of a table: each in the first columns of its row that
// no cell above covers.
func gridModel(t *Node) (cells []gridCell, cols int, ok bool) {
	occ := map[[2]int]bool{}
	for i, tr := range t.Kids {
		j := 0
		for k, c := range tr.Kids {
			for occ[[2]int{i, j}] {
				j++
			}
			gc := gridCell{n: c, row: i, idx: k, c0: j, c1: j + 1, r0: i, r1: i + 1}
			if c.CS > 1 {
				gc.c1 = j + c.CS
			}
			if c.RS > 1 {
				gc.r1 = i + c.RS
			}
			if gc.r1 > len(t.Kids) || i < t.RH && t.RH < len(t.Kids) && gc.r1 > t.RH {
				return nil, 0, false
			}
			for a := gc.r0; a < gc.r1; a++ {
				for b := gc.c0; b < gc.c1; b++ {
					if occ[[2]int{a, b}] {
						return nil, 0, false
					}
					occ[[2]int{a, b}] = true
				}
			}
			j = gc.c1
			if j > cols {
				cols = j
			}
			cells = append(cells, gc)
		}
		// a row must not end left of columns that cells above it cover
		for b := j; b < cols; b++ {
			if occ[[2]int{i, b}] {
				for a := j; a < b; a++ {
					if !occ[[2]int{i, a}] {
						return nil, 0, false
					}
				}
			}
		}
	}
	return cells, cols, cols > 0
}

func checkGrid(res *Result, d *Doc, p *PDF, t, next *Node, left float64, fills map[RGB][]frame) {
	cells, cols, ok := gridModel(t)
	if !ok {
		stats["probe:ragged-under-span"]++
		return
	}
	// column widths
	width := p.Pages[0].W - d.M[0] - d.M[2] - 2
	if w := t.effNum(d, "width", -1); w >= 0 && w < width {
		width = w
	}
	cw := make([]float64, cols)
	for _, c := range cells {
		cw[c.c0] = math.Max(cw[c.c0], c.n.effNum(d, "column-width", 0))
	}
	var used float64
	free := 0
	for _, w := range cw {
		used += w
		if w == 0 {
			free++
		}
	}
	if free > 0 && (width-used)/float64(free) < 3 {
		stats["probe:narrow-columns"]++
		return
	}
	x := make([]float64, cols+1)
	x[0] = left
	for i := range cw {
		if cw[i] == 0 {
			cw[i] = (width - used) / float64(free)
		}
		x[i+1] = x[i] + cw[i]
	}
	if x[cols] > p.Pages[0].W+200 {
		return
	}
	// what is drawn, in the order of drawing
	type ev struct {
		gridCell
		f frame
	}
	var evs []ev
	covered := make([]bool, len(t.Kids))
	for _, c := range cells {
		if c.r1 > c.r0+1 {
			for i := c.r0; i < c.r1; i++ {
				covered[i] = true
			}
		}
		bg, ok := c.n.bg(d)
		if !ok {
			return // simplified away
		}
		if len(fills[bg]) == 0 {
			res.fail("missing", "table %d: row %d cell %d is not drawn", t.ID, c.row, c.idx)
			return
		}
		for _, f := range fills[bg] {
			lw := c.n.effNum(d, "line-width", 1)
			if f.y1-f.y0 < lw+0.1 {
				return // smaller than its own border
			}
			evs = append(evs, ev{c, f.grow(lw)})
		}
		if c.c1 > c.c0+1 || c.r1 > c.r0+1 {
			res.NonTrivial = true
			if c.c1 > c.c0+1 && c.r1 > c.r0+1 {
				stats["probe:column-and-row-span"]++
			} else {
				stats["probe:span"]++
			}
		}
	}
	sort.SliceStable(evs, func(a, b int) bool {
		if evs[a].f.page != evs[b].f.page {
			return evs[a].f.page < evs[b].f.page
		}
		return evs[a].f.seq < evs[b].f.seq
	})
	for _, e := range evs {
		if !near(e.f.x0, x[e.c0], 0.05) || !near(e.f.x1, x[e.c1], 0.05) {
			res.fail("columns", "table %d: row %d cell %d (columns %d to %d of %d) drawn at x %.2f..%.2f on page %d instead of %.2f..%.2f", t.ID, e.row, e.idx, e.c0+1, e.c1, cols, e.f.x0, e.f.x1, e.f.page, x[e.c0], x[e.c1])
			return
		}
		if e.f.page != evs[0].f.page {
			res.NonTrivial = true
			stats["probe:table-break"]++
		}
	}
	// rows: runs of cells of one row
	type inst struct {
		row, page int
		y, h      float64
		evs       []ev
	}
	var rows []inst
	for i := 0; i < len(evs); {
		j := i + 1
		for j < len(evs) && evs[j].row == evs[i].row && evs[j].f.page == evs[i].f.page && evs[j].idx > evs[j-1].idx {
			j++
		}
		in := inst{row: evs[i].row, page: evs[i].f.page, y: evs[i].f.y0, h: -1, evs: evs[i:j]}
		for _, e := range in.evs {
			if !near(e.f.y0, in.y, 0.05) {
				res.fail("rows", "table %d: row %d on page %d has cells at y %.2f and %.2f", t.ID, in.row, in.page, in.y, e.f.y0)
				return
			}
			if e.r1 > e.r0+1 {
				continue
			}
			if in.h >= 0 && !near(e.f.y1-e.f.y0, in.h, 0.05) {
				res.fail("rows", "table %d: row %d on page %d has cells of the heights %.2f and %.2f", t.ID, in.row, in.page, in.h, e.f.y1-e.f.y0)
				return
			}
			in.h = e.f.y1 - e.f.y0
		}
		rows = append(rows, in)
		i = j
	}
	height := make([]float64, len(t.Kids))
	for i := range height {
		height[i] = -1
	}
	for i, in := range rows {
		if in.h < 0 && i+1 < len(rows) && rows[i+1].page == in.page && rows[i+1].row == in.row+1 {
			in.h = rows[i+1].y - in.y // all cells of the row span others
		}
		if in.h < 0 {
			continue
		}
		if height[in.row] >= 0 && !near(height[in.row], in.h, 0.05) {
			res.fail("rows", "table %d: row %d on page %d is %.2f high, before it was %.2f", t.ID, in.row, in.page, in.h, height[in.row])
			return
		}
		height[in.row] = in.h
		if i+1 < len(rows) && rows[i+1].page == in.page && (rows[i+1].row == in.row+1 || in.row == t.RH-1 && rows[i+1].row > 0 && len(t.Kids[rows[i+1].row-1].Kids) > 0) && !near(rows[i+1].y, in.y+in.h, 0.05) {
			res.fail("rows", "table %d: row %d on page %d ends at y=%.2f, row %d starts at %.2f", t.ID, in.row, in.page, in.y+in.h, rows[i+1].row, rows[i+1].y)
			return
		}
		// fixed heights
		max, all := 0.0, !covered[in.row]
		for _, e := range in.evs {
			h := e.n.effNum(d, "height", 0)
			all = all && h > 0
			max = math.Max(max, h)
		}
		if all && len(in.evs) == len(t.Kids[in.row].Kids) && !near(max, in.h, 0.05) {
			res.fail("height", "table %d: row %d on page %d is %.2f high, its highest cell has a height of %.2f", t.ID, in.row, in.page, in.h, max)
			return
		}
	}
	for _, e := range evs {
		if h := e.n.effNum(d, "height", 0); h > 0 && e.f.y1-e.f.y0 < h-0.05 {
			res.fail("height", "table %d: row %d cell %d on page %d has a height of %.2f and is drawn %.2f high", t.ID, e.row, e.idx, e.f.page, h, e.f.y1-e.f.y0)
			return
		}
		h, known := 0.0, true
		for i := e.r0; i < e.r1; i++ {
			known = known && height[i] >= 0
			h += height[i]
		}
		if known && !near(e.f.y1-e.f.y0, h, 0.08) {
			res.fail("span", "table %d: row %d cell %d on page %d spans %d rows of together %.2f mm and is %.2f high", t.ID, e.row, e.idx, e.f.page, e.r1-e.r0, h, e.f.y1-e.f.y0)
			return
		}
	}
	// what follows starts where the last row ends
	if next == nil || len(rows) == 0 || next.effNum(d, "offset-y", 0) != 0 || next.effNum(d, "offset-x", 0) != 0 {
		return
	}
	last := rows[len(rows)-1]
	if bg, ok := next.bg(d); ok && last.row == len(t.Kids)-1 && height[last.row] >= 0 && len(fills[bg]) == 1 {
		f := fills[bg][0].grow(next.effNum(d, "line-width", 1))
		if f.page == last.page && !near(f.y0, last.y+height[last.row], 0.05) {
			res.fail("end", "table %d: ends at y=%.2f on page %d, the box after it starts at %.2f", t.ID, last.y+height[last.row], f.page, f.y0)
		} else if f.page == last.page {
			stats["probe:end-of-table"]++
		}
	}
}
