package core

import (
	"fmt"
	"strings"

	"xpdfsim/rt"
)

var oddNums = []string{"0", "-1", "0.1", "0.01", "1", "3", "100", "189", "190", "191", "200", "297", "300", "500", "999", "-50", "-0.5", "1000", extreme}
var oddText = []string{"\U0001F600", "a\U0001F600b\U00010348", "\u00ad", "\u200b", "\u00a0", "\ufeff", "\uffff", "e\u0301", "\u202eabc", "\t\t", "", " ", "\n", "-", "--", "{cp}", "{np}", "((((", "\\", "İ", "ß", "ﬁ", "中文字", "ا ل", "\u2028"}

// extreme stands for numbers that no finite decimal or no PDF can hold.
const extreme = "777001"

// withExtremes replaces the stand-ins in the document's text.
func withExtremes(r *Rng, d *Doc) {
	s := d.XML()
	if !strings.Contains(s, extreme) {
		return
	}
	parts := strings.Split(s, extreme)
	s = parts[0]
	for _, p := range parts[1:] {
		s += pick(r, []string{"NaN", "nan", "Inf", "-Inf", "+inf", "infinity", "1e308", "-1e308", "1e39", "-1e39", "1e30", "1e-320", "0x1p-2", "1e18", "-1e18", "1e400"}) + p
	}
	d.Raw = s
}

// degenerate gives an element values nobody would write on purpose.
func degenerate(r *Rng, n *Node, uni bool) {
	switch n.K {
	case "t", "p":
		switch r.Intn(6) {
		case 0:
			n.Txt = strings.Repeat(pick(r, []string{"W", "i", "ab-", "é", "x "}), 1+r.Intn(400))
		case 1:
			n.Txt += pick(r, oddText)
		case 2:
			n.Txt = pick(r, oddText)
		case 3:
			n.Txt = strings.Repeat(" ", r.Intn(30)) + n.Txt + strings.Repeat("\n", r.Intn(30))
		}
		if n.K == "t" {
			return
		}
	case "lf", "setx", "sety":
		n.Num = parseF(pick(r, oddNums))
		return
	case "newpage", "br":
		return
	case "table":
		n.RH = r.Intn(11)
		if r.P(0.2) {
			n.Kids = nil
		}
	case "tr":
		if r.P(0.3) {
			n.Kids = nil
		}
	case "td":
		switch r.Intn(4) {
		case 0:
			n.CS = pick(r, []int{-1, 1, 2, 3, 7, 50})
		case 1:
			n.RS = pick(r, []int{-1, 1, 2, 3, 7, 50})
		}
		if r.P(0.2) {
			n.Kids = nil
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		k := pick(r, []string{"width", "height", "padding", "offset-x", "offset-y", "font-point-size", "line-spacing", "column-width", "h-align", "v-align", "line-width", "border", "font-family"})
		v := pick(r, oddNums)
		switch k {
		case "padding":
			v = pick(r, oddNums) + "," + pick(r, oddNums) + "," + pick(r, oddNums) + "," + pick(r, oddNums)
		case "h-align":
			v = pick(r, []string{"left", "right", "center", "block", "middle", "top", ""})
		case "v-align":
			v = pick(r, []string{"top", "middle", "bottom", "left", ""})
		case "border":
			v = pick(r, []string{"1,1,1,1", "9,9,9,9", "-1,-1,-1,-1"})
		case "font-family":
			v = pick(r, []string{"Arial", "Courier", "gofont", "Nofont", ""})
		case "line-width":
			v = pick(r, []string{"0", "-1", "100"})
		}
		n.set(k, v)
	}
}

// nest wraps or inserts elements in unusual places.
func nest(r *Rng, g *Gen, l *[]*Node) {
	extra := func() *Node {
		switch r.Intn(9) {
		case 0:
			return &Node{K: "newpage"}
		case 1:
			return g.table(1+r.Intn(3), 1+r.Intn(3), 6)
		case 2:
			return g.boxNode(8)
		case 3:
			return g.textNode(8)
		case 4:
			if len(g.k.Images) > 0 {
				return g.image()
			}
			return &Node{K: "lf", Num: 1}
		case 5:
			return g.grid()
		case 6:
			return &Node{K: "p", Txt: g.text(6)}
		case 7:
			return &Node{K: "br"}
		}
		return &Node{K: "font", Sty: []KV{{"font-point-size", pick(r, oddNums)}}}
	}
	at := r.Intn(len(*l) + 1)
	x := extra()
	for d := r.Intn(3) * r.Intn(8); d > 0; d-- {
		x = &Node{K: pick(r, []string{"box", "text", "box", "table"}), Kids: []*Node{x}}
		if x.K == "table" {
			x.Kids = []*Node{{K: "tr", Kids: []*Node{{K: "td", Kids: x.Kids}}}}
		}
	}
	*l = append((*l)[:at:at], append([]*Node{x}, (*l)[at:]...)...)
}

// damage changes bytes of a text, or cuts or repeats parts of it.
func damage(r *Rng, s string) string {
	b := []byte(s)
	for i := 1 + r.Intn(4); i > 0 && len(b) > 0; i-- {
		p := r.Intn(len(b))
		q := p + r.Intn(minInt(len(b)-p, 200)+1)
		switch r.Intn(6) {
		case 0:
			b[p] ^= byte(1 + r.Intn(255))
		case 1:
			b = append(b[:p:p], b[q:]...)
		case 2:
			b = append(b[:q:q], b[p:]...)
		case 3:
			b = b[:p]
		case 4:
			ins := pick(r, []string{"<", ">", "</td>", "<td>", "</body>", "<body>", "&", "&#0;", "]]>", "<![CDATA[", "style=\"", "\"", "<tr>", "</table>", "<foo/>", "<header>", "<table>", ":", ";", "{", "}", "\x00", "\xff", "<part>", "<gr>", "<p/>", "#", ",,,", "1e", "<!--"})
			b = append(b[:p:p], append([]byte(ins), b[p:]...)...)
		case 5:
			t := append([]byte(nil), b[p:q]...)
			at := r.Intn(len(b) + 1)
			b = append(b[:at:at], append(t, b[at:]...)...)
		}
	}
	return string(b)
}

func init() {
	register(&Prop{
		ID: "C13", Quick: 6000, Thorough: 160000,
		Rule: "random documents made degenerate (sizes, spans, nesting, texts, page breaks in headers and footers) or damaged, loaded, described and rendered, alone and with reader, writer, disk, backend faults and damaged image, font and pattern files; non-trivial: an operation ran on a degenerate or damaged input or under a fault; distinct by input and faults",
		Real: "xdoc loader, describe, hyphenation, fonts, processor, engine, gofpdf, image decoders", Stub: "disk (simulated, failing), reader and writer (failing), backend wrapper (failing)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := manyDocs(r, 1)
			for len(sc.Docs[0].XML()) > 6000 || len((&Doc{Header: sc.Docs[0].Header, Footer: sc.Docs[0].Footer}).XML()) > 2000 {
				sc = manyDocs(r, 1)
			}
			d := sc.Docs[0]
			g := &Gen{r: r, doc: d, id: 1000}
			g.k.Images = nil
			for _, f := range sc.Files {
				if f.Kind == "img" {
					g.k.Images = append(g.k.Images, f.Path)
				}
			}
			if len(g.k.Images) == 0 && r.P(0.5) {
				g.k.Images = genImages(r, sc, 2)
			}
			if r.P(0.8) {
				p := pick(r, []float64{0.05, 0.15, 0.4})
				uni := r.P(0.3)
				f := func(n *Node) {
					if r.P(p) {
						degenerate(r, n, uni)
					}
				}
				walk(d.Header, f)
				walk(d.Footer, f)
				walk(d.Body, f)
			}
			for i := r.Intn(4); i > 0; i-- {
				ls := nodeLists(d)
				k := r.Intn(len(ls))
				if r.P(0.3) {
					k = r.Intn(2) // header, footer
				}
				ok := true
				// only where content is allowed
				for _, n := range *ls[k] {
					if n.K == "tr" || n.K == "td" || n.K == "part" {
						ok = false
					}
				}
				if ok {
					nest(r, g, ls[k])
				}
			}
			if r.P(0.3) {
				for i := range d.M {
					if r.P(0.4) {
						d.M[i] = parseF(pick(r, oddNums))
					}
				}
			}
			if r.P(0.1) {
				d.Orient, d.Format = pick(r, []string{"", "diagonal", "landscape"}), pick(r, []string{"", "a0", "a5"})
			}
			if r.P(0.08) {
				// deeper than anybody writes by hand
				x := &Node{K: "text", Kids: []*Node{{K: "t", Txt: "deep"}}}
				for i := 10 + r.Intn(60); i > 0; i-- {
					x = &Node{K: pick(r, []string{"box", "text", "box"}), Kids: []*Node{x}}
				}
				l := pick(r, []*[]*Node{&d.Body, &d.Body, &d.Header, &d.Footer})
				*l = append(*l, x)
				op := someOp(r, sc)
				op.K, op.Arg = "describe", ""
				sc.Ops = append(sc.Ops, op)
			}
			if r.P(0.02) {
				// one word of thousands of letters in an otherwise small document
				t := strings.Repeat(pick(r, []string{"a", "hyphenation", "W-", "aé", "x1"}), 1+r.Intn(900))
				sc.Docs[0] = &Doc{M: [4]float64{20, 20, 20, 20}, Orient: "portrait", Format: "a4", Body: []*Node{{K: pick(r, []string{"text", "box"}), Sty: []KV{{"h-align", pick(r, []string{"block", "left", "block"})}}, Kids: []*Node{{K: "t", Txt: t}}}}}
				op := someOp(r, sc)
				op.K, op.Arg, op.Hyph = "render", "", "en-us"
				sc.Ops = []Op{op}
				sc.Files = nil
				sc.X = map[string]int{"long": 1}
				return sc
			}
			if r.P(0.06) {
				// long runs of one thing in an otherwise small document
				n := r.Range(2000, 60000)
				long := func(alts ...string) string { return strings.Repeat(pick(r, alts), n) }
				kid := &Node{K: "t", Txt: "a b"}
				el := &Node{K: pick(r, []string{"text", "box", "td"}), Kids: []*Node{kid}}
				switch r.Intn(5) {
				case 0, 1:
					kid.Txt = "a" + long(" ", "\n", "\t", " \n", "\r\n", "\\ ") + "b"
					if r.P(0.5) {
						el.Kids[0] = &Node{K: "p", Txt: kid.Txt}
					}
				case 2:
					for i := 0; i < 3; i++ {
						el.Cls = append(el.Cls, "c"+long(" ", "\n"))
					}
				case 3:
					el.Sty = []KV{{"width", long(" ") + "50"}, {"h-align", "block" + long(" ", "\t")}}
				default:
					kid.Txt = long("x ", "an article ", "i-", "1 ")
				}
				body := []*Node{el}
				if el.K == "td" {
					body = []*Node{{K: "table", Kids: []*Node{{K: "tr", Kids: body}}}}
				}
				sc.Docs[0] = &Doc{M: [4]float64{20, 20, 20, 20}, Orient: "portrait", Format: "a4", Body: body}
				if r.P(0.6) {
					// many small elements, classes or values
					n = r.Range(500, 12000)
					style, in := "", ""
					switch r.Intn(7) {
					case 0:
						n *= 2
						style = long("ab{width:1}\n", "a1:first-row { color:#000000; }", "z{}", "c \t {;}")
					case 1:
						in = "<text style=\"" + long("width:50;", "color:#000000;", ";", "zz:1;") + "\">x</text>"
					case 2:
						in = "<text>" + long("<br/>", "<p>x</p>", "<p/>", "<!-- c -->", "<p class=\"a\">x y</p>", "a<!-- c -->", "<![CDATA[ ]]>", "&amp;", "a&#10;") + "</text>"
					case 3:
						in = "<table>" + long("<tr/>", "<tr><td/></tr>", "<tr><td rowspan=\"2\">x</td><td/></tr>", "<!-- -->", "x", "<td/>") + "</table>"
					case 4:
						in = "<table><tr>" + long("<td/>", "<td>x</td>", "<td colspan=\"2\"/>", "<tr/>", "x ", "<!---->") + "</tr></table>"
					case 5:
						in = long("<text/>", "<text>x</text>", "<lf>0</lf>", "<font/>", "<box/>", "<setx>10</setx>", "<image/>", "<image>x.png</image>", "<unknown/>", "x", "<table/>", "<box><box/></box>", "<grid/>")
					default:
						n = minInt(n, 1200) // the rows of an area are looked through one by one
						in = "<grid>" + "<rows>" + long("<gr>a</gr>", "<x/>", "<gr>a b</gr>\n") + "</rows><parts>" + long("<part area=\"a\"/>", "<part area=\"b\"><text/></part>", "<x/>") + "</parts></grid>"
					}
					sc.Docs[0].Raw = "<document><style>" + style + "</style><body>" + in + "</body></document>"
				}
				op := someOp(r, sc)
				op.K, op.Arg, op.Hyph = pick(r, []string{"render", "render", "describe"}), "", ""
				sc.Ops = []Op{{K: "load"}, op}
				sc.Files = nil
				sc.X = map[string]int{"runs": 1}
				return sc
			}
			if r.P(0.02) {
				// cells that ask for many more columns and rows than there are
				t := &Node{K: "table", RH: r.Intn(3)}
				for i := 1 + r.Intn(3); i > 0; i-- {
					tr := &Node{K: "tr"}
					for k := 1 + r.Intn(3); k > 0; k-- {
						td := &Node{K: "td", Kids: []*Node{{K: "t", Txt: g.text(3)}}}
						for _, v := range []*int{&td.CS, &td.RS} {
							if r.P(0.4) {
								*v = pick(r, []int{50, 99, 100, 101, 1000, 1001, 65535, 1000000, 1 << 31, 1 << 40, 1<<63 - 1, -1 << 31, -1 << 63})
							}
						}
						tr.Kids = append(tr.Kids, td)
					}
					t.Kids = append(t.Kids, tr)
				}
				sc.Docs[0] = &Doc{M: [4]float64{20, 20, 20, 20}, Orient: "portrait", Format: "a4", Body: []*Node{t}}
				op := someOp(r, sc)
				op.K, op.Arg = "render", ""
				sc.Ops = []Op{op}
				sc.Files = nil
				sc.X = map[string]int{"spans": 1}
				return sc
			}
			withExtremes(r, d)
			if r.P(0.25) {
				d.Raw = damage(r, d.XML())
			}
			sc.UF = sc.UF && r.P(0.7) || r.P(0.15)
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				op := someOp(r, sc)
				if i == 0 {
					op.K = "render"
				}
				if op.K == "hyphenate" {
					op.Arg = strings.Join([]string{pick(r, oddText), strings.Repeat("ab\xff", r.Intn(20)), "x\U0001F600y", strings.Repeat("hyphenation", r.Intn(9))}, " ")
				}
				if i > 0 || r.P(0.3) {
					if r.P(0.6) {
						someFault(r, &op, sc.Files)
						if r.P(0.2) {
							someFault(r, &op, sc.Files)
						}
					}
				}
				sc.Ops = append(sc.Ops, op)
			}
			// damaged files
			for i := r.Intn(3); i > 0; i-- {
				p := pick(r, append(sc.imgPaths(), patFile, confFile, docFile(0), "/sim/fonts/Go-Regular.ttf", "/sim/fonts/Go-Bold.ttf"))
				k := pick(r, []string{"cut", "cut", "flip", "flip", "garbage", "empty"})
				sc.Files = append(sc.Files, FileSpec{Path: p, Kind: "harm-" + k, N: int(r.U64() >> 34)})
			}
			if r.P(0.2) {
				sc.Chunk = r.U64() | 1
			}
			return sc
		},
		Run: runC13,
	})
}

func runC13(sc *Scenario) *Result {
	res := &Result{}
	w := newWorld(sc, -1)
	xd, c := load(w.src[0])
	if b := c.bad(); b != "" {
		res.fail("panic", "loading: %s", b)
		return res
	}
	_ = xd
	n := uint64(len(w.src[0]))
	// every character may end up on a page of its own, with header and footer
	hf := n
	if d := sc.Docs[0]; d.Raw == "" {
		hf = uint64(len((&Doc{Header: d.Header, Footer: d.Footer}).XML()))
	}
	base := 5_000_000 + 100*n*hf
	if sc.x("long") == 1 {
		base = 1_000_000 + 500*n
	}
	if sc.x("spans") == 1 {
		base = 1_000_000 + 4_000*n
	}
	if sc.x("runs") == 1 {
		base = 1_000_000 + 500*n
		rt.AllocLimit = 150_000_000 + 4_500*n
		defer func() { rt.AllocLimit = 0 }()
	}
	res.Key = hashStr(w.src[0])
	for i := range sc.Ops {
		op := sc.Ops[i]
		d := w.disk()
		budget := base
		for _, f := range sc.Files {
			if !strings.HasPrefix(f.Kind, "harm-") {
				continue
			}
			b, ok := d.Get(f.Path)
			if !ok || len(b) == 0 {
				continue
			}
			b = append([]byte(nil), b...)
			r := NewRng(uint64(f.N))
			switch f.Kind {
			case "harm-cut":
				b = b[:r.Intn(len(b))]
			case "harm-flip":
				for k := 1 + r.Intn(10); k > 0; k-- {
					p := r.Intn(len(b))
					if r.P(0.5) {
						p = r.Intn(minInt(len(b), 600))
					}
					b[p] ^= byte(1 + r.Intn(255))
				}
			case "harm-garbage":
				b = []byte(damage(r, string(b[:minInt(len(b), 3000)])))
			case "harm-empty":
				b = nil
			}
			d.Put(f.Path, b)
			if strings.HasSuffix(f.Path, ".ttf") {
				// every segment of a character map can cover all characters
				budget += uint64(len(b)) / 8 * 65536 * 2
			}
			stats["fault:damaged-file"]++
		}
		a0 := rt.Allocated()
		o := w.exec(&op, d, budget)
		if sc.x("runs") == 1 {
			if s := int(o.Steps / n); s > stats["max:run-steps-per-byte"] {
				stats["max:run-steps-per-byte"] = s
			}
			if s := int((rt.Allocated() - a0) * 100 / (150_000_000 + 4_500*n)); s > stats["max:run-percent-of-memory"] {
				stats["max:run-percent-of-memory"] = s
			}
			if s := int(o.Steps * 100 / budget); s > stats["max:run-percent-of-steps"] {
				stats["max:run-percent-of-steps"] = s
			}
		} else if sc.x("long") == 1 {
			if s := int(o.Steps / n); s > stats["max:steps-per-byte"] {
				stats["max:steps-per-byte"] = s
			}
		} else if s := int(o.Steps * 100 / base); s > stats["max:percent-of-budget"] {
			stats["max:percent-of-budget"] = s
		}
		if b := o.bad(); b != "" {
			k := "panic"
			if o.Budget {
				k = "endless"
			}
			res.fail(k, "%s: %s", op.K, b)
			return res
		}
		res.NonTrivial = true
		res.Key = mix(res.Key, hashStr(js(op)))
		res.add(o.Steps)
		res.add(hashStr(fmt.Sprint(o.Err)))
		if o.Err != nil {
			stats["probe:op-failed"]++
		} else {
			stats["probe:op-succeeded"]++
		}
	}
	return res
}
