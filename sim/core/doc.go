package core

import (
	"fmt"
	"strconv"
	"strings"
)

// The generator's model of a document; the oracle's expectations come from it.

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Node struct {
	K    string   `json:"k"` // text box p br t table tr td image lf setx sety font newpage grid x(raw xml)
	ID   int      `json:"id,omitempty"`
	Sty  []KV     `json:"sty,omitempty"`
	Cls  []string `json:"cls,omitempty"`
	Txt  string   `json:"txt,omitempty"`
	Num  float64  `json:"num,omitempty"`
	CS   int      `json:"cs,omitempty"`
	RS   int      `json:"rs,omitempty"`
	RH   int      `json:"rh,omitempty"`
	Kids []*Node  `json:"kids,omitempty"`
	Bad  string   `json:"bad,omitempty"` // "key value": overrides the numeric attribute key
}

type ClassDef struct {
	Name string `json:"name"` // may contain ":selector"
	Sty  []KV   `json:"sty"`
}

type Doc struct {
	Orient  string     `json:"orient,omitempty"`
	Format  string     `json:"format,omitempty"`
	M       [4]float64 `json:"m"` // left top right bottom
	Classes []ClassDef `json:"classes,omitempty"`
	Header  []*Node    `json:"header,omitempty"`
	Footer  []*Node    `json:"footer,omitempty"`
	Body    []*Node    `json:"body,omitempty"`
	Meta    [3]string  `json:"meta,omitempty"`
	Pad     int        `json:"pad,omitempty"` // bytes of comment before each top-level element
	Raw     string     `json:"raw,omitempty"` // overrides everything: literal XML
	Bad     string     `json:"bad,omitempty"` // "left value" and so on: overrides a margin
	Var     notation   `json:"var,omitempty"` // how it is written
}

func fstr(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

var xmlEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;")

func styStr(kvs []KV, nt notation) string {
	var b strings.Builder
	for i, kv := range kvs {
		if i > 0 {
			b.WriteString(nt.one("sep"+kv.K+kv.V, "; ", ";", " ;\n\t", ";; ", ";"))
		}
		if kv.K == "" {
			b.WriteString(kv.V) // damaged
			continue
		}
		b.WriteString(kv.K + nt.one("colon"+kv.K+kv.V, ": ", ":", " : ", ":\t", ":\n ") + nt.value(kv.K, kv.V))
	}
	if len(kvs) > 0 {
		b.WriteString(nt.one("end", "", ";", " ; ", "\n"))
	}
	return b.String()
}

func (n *Node) xml(b *strings.Builder, nt notation) {
	switch n.K {
	case "t":
		switch {
		case n.Num == 1 && !strings.Contains(n.Txt, "]]>"):
			b.WriteString("<![CDATA[" + n.Txt + "]]>")
		case n.Num == 2:
			t := normText(n.Txt)
			h := len(cutText(t))
			b.WriteString(xmlEsc.Replace(t[:h]) + "<!-- <td> & </text> -->" + xmlEsc.Replace(t[h:]) + "<?pi x?>")
		case n.Num == 3:
			for _, r := range normText(n.Txt) {
				fmt.Fprintf(b, "&#x%x;", r)
			}
		default:
			b.WriteString(nt.chars(n.Txt))
		}
		return
	case "grid":
		b.WriteString("<grid")
		if len(n.Cls) > 0 {
			b.WriteString(` class="` + strings.Join(n.Cls, " ") + `"`)
		}
		b.WriteString("><rows>\n")
		for _, r := range strings.Split(n.Txt, ";") {
			b.WriteString("<gr>" + r + "</gr>\n")
		}
		b.WriteString("</rows><parts>")
		for _, p := range n.Kids {
			b.WriteString(`<part area="` + p.Txt + `">` + "\n")
			for _, k := range p.Kids {
				k.xml(b, nt)
			}
			b.WriteString("</part>")
		}
		b.WriteString("</parts></grid>")
		return
	case "x":
		b.WriteString(n.Txt)
		return
	}
	b.WriteString("<" + n.K)
	var as []KV
	if len(n.Cls) > 0 {
		as = append(as, KV{"class", nt.classes(n.Cls)})
	} else if nt.chance("noclass"+n.K, 0.1) {
		as = append(as, KV{"class", nt.one("emptyclass", "", " ")})
	}
	if len(n.Sty) > 0 {
		as = append(as, KV{"style", styStr(n.Sty, nt)})
	} else if nt.chance("nostyle"+n.K, 0.1) {
		as = append(as, KV{"style", nt.one("emptystyle", "", " ", ";", " ; ;\n")})
	}
	attr := func(k, v string) {
		if bk, bv, ok := strings.Cut(n.Bad, " "); ok && bk == k {
			v = bv
		}
		as = append(as, KV{k, v})
	}
	switch n.K {
	case "lf":
		attr("lines", nt.number("lf", fstr(n.Num)))
	case "setx":
		attr("x", nt.number("setx", fstr(n.Num)))
	case "sety":
		attr("y", nt.number("sety", fstr(n.Num)))
	case "table":
		if n.RH > 0 || n.Bad != "" {
			attr("repeatheader", nt.integer("rh", strconv.Itoa(n.RH)))
		}
	case "td":
		if n.CS > 0 || strings.HasPrefix(n.Bad, "colspan") {
			attr("colspan", nt.integer("cs", strconv.Itoa(n.CS)))
		}
		if n.RS > 0 || strings.HasPrefix(n.Bad, "rowspan") {
			attr("rowspan", nt.integer("rs", strconv.Itoa(n.RS)))
		}
	}
	nt.attrs(b, n.K, as)
	if len(n.Kids) == 0 && n.Txt == "" && !nt.chance("closed"+n.K, 0.4) {
		b.WriteString(nt.one("selfclosed"+n.K, "/>", " />"))
		return
	}
	b.WriteString(">")
	b.WriteString(nt.chars(n.Txt))
	for _, k := range n.Kids {
		k.xml(b, nt)
	}
	b.WriteString("</" + n.K + ">")
}

func (d *Doc) section(b *strings.Builder, name string, ns []*Node) {
	b.WriteString("<" + name + ">\n")
	for i, n := range ns {
		if d.Pad > 0 {
			b.WriteString("<!--")
			for j := 0; j < d.Pad; j++ {
				b.WriteByte("abcdefghij klmnop"[(i+j)%17])
			}
			b.WriteString("-->")
		}
		n.xml(b, d.Var)
		b.WriteString("\n")
	}
	b.WriteString("</" + name + ">\n")
}

var marginNames = []string{"left", "top", "right", "bottom"}

// XML serialises the document.
func (d *Doc) XML() string {
	if d.Raw != "" {
		return d.Raw
	}
	nt := d.Var
	var b strings.Builder
	b.WriteString(nt.one("decl", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "", "<!-- a document -->\n", "<?xml version='1.0'?>\n", "\n"))
	b.WriteString("<document" + nt.one("doc", "", "", "\n", ` lang="en"`) + ">\n")
	gap := func(k string) string { return nt.one("gap"+k, "", "", "\n\t", " <!-- < --> ") }
	meta := func() {
		names := []string{"author", "creator", "subject"}
		b.WriteString("<meta>")
		for _, i := range nt.order("meta", 3) {
			b.WriteString("<" + names[i] + ">" + nt.text(d.Meta[i]) + "</" + names[i] + ">" + gap(names[i]))
		}
		b.WriteString("</meta>\n")
	}
	margins := func() {
		b.WriteString("<margins>" + gap("margins"))
		for _, i := range nt.order("margins", 4) {
			k := marginNames[i]
			v := nt.one("m"+k, "", "", " ", "\n") + nt.number("m"+k, fstr(d.M[i])) + nt.one("n"+k, "", "", " ", "\n")
			if bk, bv, ok := strings.Cut(d.Bad, " "); ok && bk == k {
				v = bv
			} else if d.M[i] == 0 && nt.chance("zero"+k, 0.4) {
				continue
			}
			b.WriteString("<" + k + ">" + xmlEsc.Replace(v) + "</" + k + ">" + gap(k))
		}
		b.WriteString("</margins>")
	}
	page := func() {
		parts := []func(){
			func() { b.WriteString("<orientation>" + d.Orient + "</orientation>" + gap("orient")) },
			func() { b.WriteString("<format>" + d.Format + "</format>" + gap("format")) },
			margins,
		}
		b.WriteString("<page>")
		for _, i := range nt.order("page", 3) {
			parts[i]()
		}
		b.WriteString("</page>\n")
	}
	style := func() {
		if len(d.Classes) == 0 {
			return
		}
		b.WriteString("<style>\n")
		for _, c := range d.Classes {
			if strings.HasPrefix(c.Name, "=") {
				b.WriteString(c.Name[1:] + "\n")
				continue
			}
			b.WriteString(c.Name + nt.one("open"+c.Name, " {\n", "{", "\n{\n", " { "))
			for i, kv := range c.Sty {
				if kv.K == "" {
					b.WriteString("\t" + kv.V + ";\n")
					continue
				}
				b.WriteString(nt.one("indent"+kv.K, "\t", "", "  ") + kv.K + nt.one("colon"+kv.K+kv.V, ": ", ":", " : ", ":\t", ":\n ") + nt.value(kv.K, kv.V))
				if i+1 < len(c.Sty) || !nt.chance("last"+c.Name, 0.3) {
					b.WriteString(nt.one("sep"+kv.K+kv.V, ";\n", ";", " ; ", ";;\r\n"))
				}
			}
			b.WriteString(nt.one("close"+c.Name, "}\n", "}", "\n}\n\n", " } "))
		}
		b.WriteString("</style>\n")
	}
	sect := func(name string, ns []*Node) func() {
		return func() { d.section(&b, name, ns) }
	}
	all := []func(){meta, page, style, sect("header", d.Header), sect("footer", d.Footer), sect("body", d.Body)}
	for _, i := range nt.order("sections", len(all)) {
		all[i]()
	}
	b.WriteString("</document>\n")
	return b.String()
}

func cloneNodes(ns []*Node) []*Node {
	if ns == nil {
		return nil
	}
	out := make([]*Node, len(ns))
	for i, n := range ns {
		out[i] = n.clone()
	}
	return out
}

func (n *Node) clone() *Node {
	c := *n
	c.Sty = append([]KV(nil), n.Sty...)
	c.Cls = append([]string(nil), n.Cls...)
	c.Kids = cloneNodes(n.Kids)
	return &c
}

func (d *Doc) clone() *Doc {
	c := *d
	c.Classes = nil
	for _, k := range d.Classes {
		k.Sty = append([]KV(nil), k.Sty...)
		c.Classes = append(c.Classes, k)
	}
	c.Header, c.Footer, c.Body = cloneNodes(d.Header), cloneNodes(d.Footer), cloneNodes(d.Body)
	return &c
}

func (n *Node) get(k string) (string, bool) {
	v, ok := "", false
	for _, kv := range n.Sty {
		if kv.K == k {
			v, ok = kv.V, true
		}
	}
	return v, ok
}
func (n *Node) set(k, v string) {
	for i := range n.Sty {
		if n.Sty[i].K == k {
			n.Sty[i].V = v
			return
		}
	}
	n.Sty = append(n.Sty, KV{k, v})
}
func (n *Node) num(k string, def float64) float64 {
	if v, ok := n.get(k); ok {
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			return f
		}
	}
	return def
}

func walk(ns []*Node, f func(n *Node)) {
	for _, n := range ns {
		f(n)
		walk(n.Kids, f)
	}
}

// Colours encode identity: the red channel is the kind, green/blue the id.
const (
	cBodyText   = 0x10
	cHeadText   = 0x20
	cFootText   = 0x30
	cBodyBG     = 0x80
	cHeadBG     = 0xA0
	cFootBG     = 0xC0
	cBodyStroke = 0x51
	cHeadStroke = 0x61
	cFootStroke = 0x71
)

func idColor(kind, id int) RGB { return RGB{kind, id >> 8 & 255, id & 255} }
func hexColor(c RGB) string    { return fmt.Sprintf("#%02x%02x%02x", c.R, c.G, c.B) }
func colorID(c RGB) int        { return c.G<<8 | c.B }

func strip(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\n', '\r', '\t':
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// ownText is the whitespace-free text directly written by an element: its raw
// text and paragraphs, not its nested boxes.
func (n *Node) ownText() string {
	var b strings.Builder
	b.WriteString(n.Txt)
	for _, k := range n.Kids {
		if k.K == "t" || k.K == "p" {
			b.WriteString(k.Txt)
		}
	}
	return strip(b.String())
}
