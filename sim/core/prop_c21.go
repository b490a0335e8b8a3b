package core

import (
	"fmt"
	"math"
)

// C21: a page break moves content and changes nothing else about it.

func init() {
	register(&Prop{
		ID: "C21", Quick: 4000, Thorough: 150000,
		Rule: "random documents, each rendered several times with page breaks at other places (larger top or bottom margins, everything moved down), with and without headers and footers; non-trivial: a page break separates other marks than before; distinct by document and breaks",
		Real: "xdoc loader, processor, hyphenator, gofpdf, image decoders", Stub: "disk (simulated, fault-free); page breaks are the interrupts",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{}
			// the height of a row counts no boxes and images in its cells, and the
			// first font size only
			g := headedBy(r, sc, false, func(k *Knobs) {
				k.PosEl, k.CellImg, k.CellBox, k.FixedH, k.Mixed, k.BigWord = false, false, false, false, false, false
				k.Short, k.Offsets = r.P(0.85), r.P(0.25)
				k.Wide = r.P(0.7)
				if k.Wide && r.P(0.8) {
					k.Sizes = pick(r, [][]float64{{}, {6, 8.4, 10}, {9, 12, 14}})
				}
				if k.MaxWords > 60 {
					k.MaxWords = 60
				}
			})
			d := g.doc
			g.k.Images, g.k.PosEl = nil, false
			d.Body = append(d.Body, g.elements(r.Intn(20))...)
			if r.P(0.3) {
				d.Header, d.Footer = nil, nil
			}
			if r.P(0.4) {
				// some elements start at a position of their own
				pw, _ := d.pageSize()
				room := pw - d.M[0] - d.M[2]
				p := pick(r, []float64{0.15, 0.4, 0.8})
				var body []*Node
				for _, n := range d.Body {
					switch n.K {
					case "text", "box", "table":
						if r.P(p) {
							w := n.effNum(d, "width", -1)
							if w <= 0 || w > room*0.7 {
								w = float64(int(r.FRange(0.3, 0.7) * room))
								n.set("width", fstr(w))
							}
							body = append(body, &Node{K: "setx", Num: d.M[0] + float64(int(r.FRange(0, room-w-12)))})
						}
					}
					body = append(body, n)
				}
				d.Body = body
			}
			_, h := d.pageSize()
			room := h - d.M[1] - d.M[3]
			for i, n := 0, 2+r.Intn(4); i < n; i++ {
				op := Op{K: pick(r, []string{"top", "bottom", "bottom", "lf", "format"})}
				op.N = 1 + r.Intn(int(room*0.6))
				if r.P(0.3) {
					op.N = 1 + r.Intn(15)
				}
				sc.Ops = append(sc.Ops, op)
			}
			return sc
		},
		Run: runC21,
	})
}

// headRows visits the cells of the repeated header rows.
func headRows(ns []*Node, f func(td *Node)) {
	walk(ns, func(n *Node) {
		if n.K == "table" {
			for i, tr := range n.Kids {
				if i < n.RH {
					for _, td := range tr.Kids {
						f(td)
					}
				}
			}
		}
	})
}

type placed struct {
	page int
	m    Mark
	s    string
	v    []float64 // x, and width and height
}

// bodyMarks lists the marks of the body, without repeated header rows.
func bodyMarks(sc *Scenario, d *Doc, p *PDF) []placed {
	skipImg := map[string]bool{}
	sect := func(n *Node) {
		if n.K == "image" {
			if nm := sc.imgName(n.Txt); nm != "" {
				skipImg[imageID(nm)] = true
			}
		}
	}
	walk(d.Header, sect)
	walk(d.Footer, sect)
	skipID := map[int]bool{}
	headRows(d.Body, func(td *Node) {
		walk([]*Node{td}, func(n *Node) { skipID[n.ID] = true })
	})
	var out []placed
	for i, pg := range p.Pages {
		for _, m := range pg.Marks {
			s := ""
			var v []float64
			switch m.Kind {
			case 'i':
				if skipImg[m.Img] {
					continue
				}
				s = "image " + m.Img
				v = []float64{m.X, m.W, m.H}
			default:
				switch m.Color.R {
				case cHeadText, cFootText, cHeadBG, cFootBG, cHeadStroke, cFootStroke:
					continue
				}
				if skipID[colorID(m.Color)] {
					continue
				}
				c := fmt.Sprintf("%02x%02x%02x", m.Color.R, m.Color.G, m.Color.B)
				switch m.Kind {
				case 't':
					s = fmt.Sprintf("text %s %.2f #%s %q", m.Font, m.Size, c, m.Text)
					v = []float64{m.X}
				case 'f':
					s = fmt.Sprintf("fill #%s", c)
					v = []float64{m.X, m.W, m.H}
				case 'l':
					s = fmt.Sprintf("line w%.2f #%s", m.LW, c)
					v = []float64{m.X, m.W, m.H - m.Y}
				}
			}
			out = append(out, placed{i + 1, m, s, v})
		}
	}
	return out
}

func runC21(sc *Scenario) *Result {
	res := &Result{}
	d := sc.Docs[0]
	for _, ns := range [][]*Node{d.Header, d.Footer, d.Body} {
		if !colored3(d, ns) {
			return res
		}
	}
	xd := loadDoc(res, d)
	if xd == nil {
		return res
	}
	p, o := okRender(res, sc, xd)
	if p == nil {
		return res
	}
	res.add(o.Steps)
	if _, h := d.pageSize(); tallest(d, p) > h-d.M[1]-d.M[3]-0.5 {
		stats["skipped:too-tall"]++
		return res
	}
	for _, pg := range p.Pages {
		for _, m := range pg.Marks {
			// text in boxes that reach over the right margin is wrapped once more
			if m.Kind == 'f' && m.X+m.W > pg.W-d.M[2]-2 {
				stats["skipped:too-wide"]++
				return res
			}
		}
	}
	if overwide(d, p) {
		stats["skipped:too-wide"]++
		return res
	}
	upward := false
	for _, n := range d.Body {
		upward = upward || n.K == "lf" && n.Num < 0
	}
	base := bodyMarks(sc, d, p)
	res.Key = hashStr(d.XML())
	for i := range sc.Ops {
		op := &sc.Ops[i]
		d2 := d.clone()
		what := fmt.Sprintf("%s by %d mm", op.K, op.N)
		switch op.K {
		case "top":
			d2.M[1] += float64(op.N)
		case "bottom":
			d2.M[3] += float64(op.N)
		case "lf":
			// moved down by text of another colour
			n := &Node{K: "lf", Num: float64(op.N) / 4}
			d2.Body = append([]*Node{n}, d2.Body...)
		case "format":
			// a page of another height, with as much space for a line
			d2.Format = []string{"a3", "a4", "a5", "letter", "legal"}[op.N%5]
			_, h := d2.pageSize()
			d2.M[2] += exactWidth(d2) - exactWidth(d)
			if d2.M[2] < 0 || h < d2.M[1]+d2.M[3]+50 {
				continue
			}
			what = d.Format + " to " + d2.Format
		}
		if _, h := d2.pageSize(); tallest(d, p) > h-d2.M[1]-d2.M[3]-0.5 {
			stats["skipped:too-tall"]++
			continue // something does not fit on a page any more
		}
		xd2 := loadDoc(res, d2)
		if xd2 == nil {
			return res
		}
		p2, o2 := okRender(res, sc, xd2)
		if p2 == nil {
			return res
		}
		res.add(o2.Steps)
		for j, pg := range p2.Pages {
			w, h := d2.pageSize()
			if !near(pg.W, w, 1) || !near(pg.H, h, 1) {
				return res.fail("page-size", "page %d is %.2f x %.2f mm in a document in %s %s", j+1, pg.W, pg.H, d2.Format, d2.Orient)
			}
		}
		got := bodyMarks(sc, d2, p2)
		moved := false
		for j := 0; j < len(base) || j < len(got); j++ {
			x, y := "(nothing)", "(nothing)"
			if j < len(base) {
				x = base[j].s
			}
			if j < len(got) {
				y = got[j].s
			}
			if x != y {
				return res.fail("changed", "%s: mark %d of the body: expected %s, got %s", what, j, clip(x, 200), clip(y, 200))
			}
			for k := range base[j].v {
				if !near(base[j].v[k], got[j].v[k], 0.03) {
					return res.fail("changed", "%s: mark %d of the body, %s: %s is %.2f, was %.2f", what, j, clip(x, 200), []string{"x", "width", "height"}[k], got[j].v[k], base[j].v[k])
				}
			}
			if j == 0 {
				continue
			}
			a, a0, b, b0 := base[j], base[j-1], got[j], got[j-1]
			if (a.page == a0.page) != (b.page == b0.page) {
				moved = true
				continue
			}
			if upward && math.Min(d.M[1], d2.M[1]) < 13 {
				continue // a line feed upwards may end at the top of the page
			}
			if a.page == a0.page && !near(a.m.Y-a0.m.Y, b.m.Y-b0.m.Y, 0.03) {
				return res.fail("distance", "%s: mark %d of the body, %s, is %.2f mm below the one before it, was %.2f", what, j, clip(x, 200), b.m.Y-b0.m.Y, a.m.Y-a0.m.Y)
			}
		}
		if moved {
			res.NonTrivial = true
			res.Key = mix(res.Key, hashStr(what))
			stats["probe:break-moved"]++
		}
		stats["pages"] += len(p2.Pages)
	}
	return res
}

// tallest is the height of the tallest box, image, or table row with the repeated
// header rows above it.
func tallest(d *Doc, p *PDF) float64 {
	max := 0.0
	hs := map[int]float64{}
	for _, pg := range p.Pages {
		for _, m := range pg.Marks {
			if m.Kind == 'f' || m.Kind == 'i' {
				max = math.Max(max, m.H)
			}
			if m.Kind == 'f' {
				hs[colorID(m.Color)] = math.Max(m.H, hs[colorID(m.Color)])
			}
		}
	}
	walk(d.Body, func(n *Node) {
		if n.K == "box" {
			max = math.Max(max, hs[n.ID]+n.effNum(d, "line-width", 1)+n.effNum(d, "offset-y", 0))
		}
		if n.K != "table" {
			return
		}
		head := 0.0
		for i, tr := range n.Kids {
			h := 0.0
			for _, td := range tr.Kids {
				h = math.Max(h, hs[td.ID]+td.effNum(d, "line-width", 1))
			}
			if i < n.RH {
				head += h
			}
			max = math.Max(max, head+h)
		}
	})
	return max
}

// exactWidth is the width of the page in the PDF library's units.
func exactWidth(d *Doc) float64 {
	f := map[string][2]float64{"a3": {841.89, 1190.55}, "a4": {595.28, 841.89}, "a5": {420.94, 595.28}, "letter": {612, 792}, "legal": {612, 1008}}[d.Format]
	if d.Format == "" {
		f = [2]float64{595.28, 841.89}
	}
	if d.Orient == "landscape" {
		return f[1] / ptmm
	}
	return f[0] / ptmm
}

// overwide tells whether a box or cell has a word that does not fit into one of its lines.
func overwide(d *Doc, p *PDF) bool {
	runs := map[int][]Mark{}
	inner := map[int]float64{}
	for _, pg := range p.Pages {
		for _, m := range pg.Marks {
			switch m.Kind {
			case 't':
				runs[colorID(m.Color)] = append(runs[colorID(m.Color)], m)
			case 'f':
				if w, ok := inner[colorID(m.Color)]; !ok || m.W > w {
					inner[colorID(m.Color)] = m.W // the frame is wider than an underline
				}
			}
		}
	}
	over := false
	walk(d.Body, func(n *Node) {
		if n.K != "td" && n.K != "box" {
			return
		}
		w := inner[n.ID]
		if v, ok := n.eff(d, "padding"); ok {
			pad := num4(v)
			w -= pad[0] + pad[1] + pad[2] + pad[3]
		}
		rs := runs[n.ID]
		for _, k := range n.Kids {
			rs = append(rs, runs[k.ID]...)
		}
		over = over || hasOverwide(n, rs, w)
	})
	return over
}
