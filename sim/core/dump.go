package core

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// Two dumps of a document's content in the same notation: one of what was
// loaded, one of what the generator wrote.

var styleKeys = func() []string {
	var ks []string
	for k := range defaultCascade() {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}()

func stylesCascade(s style.Styles) cascade {
	rgb := func(c style.RGB) string { return fmt.Sprintf("#%02x%02x%02x", c.R, c.G, c.B) }
	return cascade{
		"font-family": s.Font.Family, "font-point-size": fstr(s.Font.PointSize), "font-style": string(s.Font.Style), "font-weight": string(s.Font.Weight), "font-decoration": string(s.Font.Decoration),
		"border":  fmt.Sprintf("%d,%d,%d,%d", s.Border.Left, s.Border.Top, s.Border.Right, s.Border.Bottom),
		"padding": fmt.Sprintf("%s,%s,%s,%s", fstr(s.Padding.Left), fstr(s.Padding.Top), fstr(s.Padding.Right), fstr(s.Padding.Bottom)),
		"width":   fstr(s.Dimension.Width), "height": fstr(s.Dimension.Height), "line-spacing": fstr(s.LineSpacing), "offset-x": fstr(s.OffsetX), "offset-y": fstr(s.OffsetY),
		"column-width": fstr(s.ColumnWidth), "h-align": string(s.HAlign), "v-align": string(s.VAlign), "color": rgb(s.Color.Foreground), "text-color": rgb(s.Color.Text), "background-color": rgb(s.Color.Background), "line-width": fstr(s.LineWidth),
	}
}

// text lists what differs from the defaults.
func (c cascade) text() string {
	d := defaultCascade()
	var b strings.Builder
	for _, k := range styleKeys {
		v := c[k]
		switch k {
		case "padding":
			n := num4(v)
			v = fmt.Sprintf("%s,%s,%s,%s", fstr(n[0]), fstr(n[1]), fstr(n[2]), fstr(n[3]))
		case "font-point-size", "width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "line-width":
			v = fstr(parseF(v))
		case "color", "text-color", "background-color":
			v = hexColor(parseHex(v))
		}
		if v != d[k] {
			b.WriteString(" " + k + ":" + v)
		}
	}
	return b.String()
}

var selectors = []string{"first-row", "last-row", "first-cell", "last-cell"}

type styler interface {
	MutatedStyles(cs style.Classes, styles style.Styles) style.Styles
	MutatedStylesWithSelector(sel string, cs style.Classes, styles style.Styles) style.Styles
}

type dumper struct{ out []string }

func (d *dumper) put(depth int, f string, a ...interface{}) {
	d.out = append(d.out, strings.Repeat(" ", depth)+fmt.Sprintf(f, a...))
}

func styText(cs style.Classes, s styler, sel bool) string {
	o := stylesCascade(s.MutatedStyles(cs, xpdf.DefaultStyle())).text()
	if sel {
		for _, x := range selectors {
			o += " /" + x + stylesCascade(s.MutatedStylesWithSelector(x, cs, xpdf.DefaultStyle())).text()
		}
	}
	return o
}

func nodeText(d *Doc, n *Node, sel bool) string {
	o := defaultCascade().with(d, n, "").text()
	if sel {
		for _, x := range selectors {
			o += " /" + x + defaultCascade().with(d, n, x).text()
		}
	}
	return o
}

func normText(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

func (d *dumper) loaded(depth int, cs style.Classes, iss []xdoc.Instruction) {
	txt := ""
	flush := func() {
		if strip(txt) != "" {
			d.put(depth, "t %q", strings.TrimSpace(txt))
		}
		txt = ""
	}
	for _, is := range iss {
		if t, ok := is.(*xdoc.TextBlock); ok {
			txt += t.Text
			continue
		}
		flush()
		switch is := is.(type) {
		case *xdoc.Font:
			d.put(depth, "font%s", styText(cs, is, false))
		case *xdoc.LineFeed:
			d.put(depth, "lf %s", fstr(is.Lines))
		case *xdoc.SetX:
			d.put(depth, "setx %s", fstr(is.X))
		case *xdoc.SetY:
			d.put(depth, "sety %s", fstr(is.Y))
		case *xdoc.Box:
			d.put(depth, "box%s", styText(cs, is, false))
			d.loaded(depth+1, cs, is.ISS)
		case *xdoc.Text:
			d.put(depth, "text%s", styText(cs, is, false))
			d.loaded(depth+1, cs, is.ISS)
		case *xdoc.Paragraph:
			d.put(depth, "p%s %q", styText(cs, is, false), is.Text)
		case *xdoc.LineBreak:
			d.put(depth, "br")
		case *xdoc.PageBreak:
			d.put(depth, "newpage")
		case *xdoc.Image:
			d.put(depth, "image%s %q", styText(cs, is, false), is.Source)
		case *xdoc.Table:
			d.put(depth, "table rh=%d%s", is.RepeatHeader, styText(cs, is, false))
			for _, tr := range is.Rows {
				d.put(depth+1, "tr%s", styText(cs, tr, true))
				for _, td := range tr.Cells {
					d.put(depth+2, "td cs=%d rs=%d%s", td.ColSpan, td.RowSpan, styText(cs, td, true))
					d.loaded(depth+3, cs, td.ISS)
				}
			}
		case *xdoc.Grid:
			d.put(depth, "grid%s", styText(cs, is, false))
			for _, r := range is.Rows {
				d.put(depth+1, "gr %q", strings.Join(r.Areas, " "))
			}
			for _, p := range is.Parts {
				d.put(depth+1, "part %q", p.Area)
				d.loaded(depth+2, cs, p.ISS)
			}
		default:
			d.put(depth, "%T", is)
		}
	}
	flush()
}

// dumpLoaded lists the content of a loaded document.
func dumpLoaded(xd *xdoc.Document) []string {
	d := &dumper{}
	d.put(0, "meta %q %q %q", xd.Meta.Author, xd.Meta.Creator, xd.Meta.Subject)
	m := xd.Page.Margins
	d.put(0, "page %q %q %s %s %s %s", xd.Page.Orientation, xd.Page.Format, fstr(m.Left), fstr(m.Top), fstr(m.Right), fstr(m.Bottom))
	cs := xd.StyleClasses()
	d.out = append(d.out, dumpClasses(cs)...)
	d.put(0, "header")
	d.loaded(1, cs, xd.Header.ISS)
	d.put(0, "footer")
	d.loaded(1, cs, xd.Footer.ISS)
	d.put(0, "body")
	d.loaded(1, cs, xd.Body.ISS)
	return d.out
}

func dumpClasses(cs style.Classes) []string {
	var out []string
	var names []string
	for n := range cs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := xpdf.DefaultStyle()
		cs.Mutate(&s, n)
		out = append(out, fmt.Sprintf("class %q%s", n, stylesCascade(s).text()))
		var sels []string
		for x := range cs[n].Selectors {
			sels = append(sels, x)
		}
		sort.Strings(sels)
		for _, x := range sels {
			s := xpdf.DefaultStyle()
			cs.MutateWithSelector(x, &s, n)
			out = append(out, fmt.Sprintf("class %q:%q%s", n, x, stylesCascade(s).text()))
		}
	}
	return out
}

func (d *dumper) written(depth int, doc *Doc, n0 string, ns []*Node) {
	txt := n0
	flush := func() {
		txt = normText(txt)
		if strip(txt) != "" {
			d.put(depth, "t %q", strings.TrimSpace(txt))
		}
		txt = ""
	}
	for _, n := range ns {
		if n.K == "t" {
			txt += n.Txt
			continue
		}
		flush()
		switch n.K {
		case "lf", "setx", "sety":
			d.put(depth, "%s %s", n.K, fstr(n.Num))
		case "font":
			d.put(depth, "font%s", nodeText(doc, n, false))
		case "box", "text":
			d.put(depth, "%s%s", n.K, nodeText(doc, n, false))
			d.written(depth+1, doc, n.Txt, n.Kids)
		case "p", "image":
			d.put(depth, "%s%s %q", n.K, nodeText(doc, n, false), normText(n.Txt))
		case "table":
			d.put(depth, "table rh=%d%s", n.RH, nodeText(doc, n, false))
			for _, tr := range n.Kids {
				d.put(depth+1, "tr%s", nodeText(doc, tr, true))
				for _, td := range tr.Kids {
					d.put(depth+2, "td cs=%d rs=%d%s", td.CS, td.RS, nodeText(doc, td, true))
					d.written(depth+3, doc, td.Txt, td.Kids)
				}
			}
		case "grid":
			d.put(depth, "grid%s", nodeText(doc, n, false))
			for _, r := range strings.Split(n.Txt, ";") {
				d.put(depth+1, "gr %q", r)
			}
			for _, p := range n.Kids {
				d.put(depth+1, "part %q", p.Txt)
				d.written(depth+2, doc, "", p.Kids)
			}
		default:
			d.put(depth, "%s", n.K)
		}
	}
	flush()
}

// dumpWritten lists the content the document was written with.
func dumpWritten(doc *Doc) []string {
	d := &dumper{}
	d.put(0, "meta %q %q %q", normText(doc.Meta[0]), normText(doc.Meta[1]), normText(doc.Meta[2]))
	d.put(0, "page %q %q %s %s %s %s", doc.Orient, doc.Format, fstr(doc.M[0]), fstr(doc.M[1]), fstr(doc.M[2]), fstr(doc.M[3]))
	d.out = append(d.out, writtenClasses(doc)...)
	d.put(0, "header")
	d.written(1, doc, "", doc.Header)
	d.put(0, "footer")
	d.written(1, doc, "", doc.Footer)
	d.put(0, "body")
	d.written(1, doc, "", doc.Body)
	return d.out
}

func writtenClasses(doc *Doc) []string {
	type cl struct {
		sty  []KV
		sels map[string][]KV
	}
	cs := map[string]*cl{}
	for _, c := range doc.Classes {
		if i := strings.IndexByte(c.Name, ':'); i > 0 {
			if b := cs[c.Name[:i]]; b != nil {
				b.sels[c.Name[i+1:]] = c.Sty
			}
			continue
		}
		cs[c.Name] = &cl{c.Sty, map[string][]KV{}}
	}
	var names []string
	for n := range cs {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []string
	txt := func(sty []KV) string { return defaultCascade().with(doc, &Node{Sty: sty}, "").text() }
	for _, n := range names {
		out = append(out, fmt.Sprintf("class %q%s", n, txt(cs[n].sty)))
		var sels []string
		for x := range cs[n].sels {
			sels = append(sels, x)
		}
		sort.Strings(sels)
		for _, x := range sels {
			out = append(out, fmt.Sprintf("class %q:%q%s", n, x, txt(cs[n].sels[x])))
		}
	}
	return out
}
