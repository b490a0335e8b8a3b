package core

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

// An independent reader for the PDFs the library writes. All lengths in mm,
// origin at the top left.

const ptmm = 72.0 / 25.4

type RGB struct{ R, G, B int }

type Mark struct {
	Kind  byte // 't' text, 'f' filled rect, 'l' stroked line, 'i' image
	X, Y  float64
	W, H  float64 // rect/image; line: end point
	Text  string
	Font  string // base font name
	Size  float64
	Color RGB
	LW    float64
	Img   string // image identity (hash of stream and dictionary)
	Seq   int
}

type PDFPage struct {
	W, H  float64
	Marks []Mark
}

type PDF struct {
	Pages []PDFPage
	Fonts map[string]string // resource name -> base font
	// base font -> its dictionary
	FontObj map[string]pdfDict
	Obj     map[int]*pdfObj
}

type pdfName string
type pdfRef int
type pdfDict map[string]interface{}
type pdfObj struct {
	val    interface{}
	stream []byte
	has    bool
}

type lexer struct {
	b []byte
	p int
}

func isWS(c byte) bool {
	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == 0 || c == '\f'
}
func isDelim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

func (l *lexer) ws() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isWS(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
		} else {
			return
		}
	}
}

type pdfOp string

// token returns the next object or operator; io.EOF at the end.
func (l *lexer) token() (interface{}, error) {
	l.ws()
	if l.p >= len(l.b) {
		return nil, io.EOF
	}
	c := l.b[l.p]
	switch {
	case c == '(':
		return l.str()
	case c == '<' && l.p+1 < len(l.b) && l.b[l.p+1] == '<':
		l.p += 2
		d := pdfDict{}
		for {
			l.ws()
			if l.p+1 < len(l.b) && l.b[l.p] == '>' && l.b[l.p+1] == '>' {
				l.p += 2
				return d, nil
			}
			k, err := l.token()
			if err != nil {
				return nil, err
			}
			n, ok := k.(pdfName)
			if !ok {
				return nil, fmt.Errorf("dict key %v at %d", k, l.p)
			}
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			d[string(n)] = v
		}
	case c == '<':
		e := bytes.IndexByte(l.b[l.p:], '>')
		if e < 0 {
			return nil, fmt.Errorf("hex string")
		}
		hx := l.b[l.p+1 : l.p+e]
		l.p += e + 1
		var out []byte
		var nib []byte
		for _, h := range hx {
			if isWS(h) {
				continue
			}
			nib = append(nib, h)
			if len(nib) == 2 {
				v, err := strconv.ParseUint(string(nib), 16, 8)
				if err != nil {
					return nil, err
				}
				out = append(out, byte(v))
				nib = nib[:0]
			}
		}
		return string(out), nil
	case c == '[':
		l.p++
		var a []interface{}
		for {
			l.ws()
			if l.p < len(l.b) && l.b[l.p] == ']' {
				l.p++
				return a, nil
			}
			v, err := l.value()
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
	case c == '/':
		s := l.p + 1
		l.p++
		for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
			l.p++
		}
		return pdfName(l.b[s:l.p]), nil
	case c == ')' || c == '>' || c == '{' || c == '}' || c == ']':
		return nil, fmt.Errorf("unexpected %q at %d", c, l.p)
	}
	s := l.p
	for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
		l.p++
	}
	w := string(l.b[s:l.p])
	if c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9') {
		f, err := strconv.ParseFloat(w, 64)
		if err != nil {
			return nil, fmt.Errorf("number %q", w)
		}
		return f, nil
	}
	return pdfOp(w), nil
}

// value is token plus references "n g R".
func (l *lexer) value() (interface{}, error) {
	v, err := l.token()
	if err != nil {
		return nil, err
	}
	if f, ok := v.(float64); ok && f == math.Trunc(f) {
		p := l.p
		g, err1 := l.token()
		if _, ok := g.(float64); ok && err1 == nil {
			r, err2 := l.token()
			if r == pdfOp("R") && err2 == nil {
				return pdfRef(int(f)), nil
			}
		}
		l.p = p
	}
	return v, nil
}

func (l *lexer) str() (interface{}, error) {
	l.p++
	depth := 1
	var out []byte
	for l.p < len(l.b) {
		c := l.b[l.p]
		l.p++
		switch c {
		case '\\':
			if l.p >= len(l.b) {
				return nil, fmt.Errorf("string end")
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case '\n':
			default:
				out = append(out, e)
			}
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return string(out), nil
			}
			out = append(out, c)
		default:
			out = append(out, c)
		}
	}
	return nil, fmt.Errorf("unterminated string")
}

// ParsePDF checks the file structure and extracts the marks of every page.
func ParsePDF(b []byte) (*PDF, error) {
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		return nil, fmt.Errorf("no PDF header")
	}
	if !bytes.HasSuffix(bytes.TrimRight(b, "\r\n"), []byte("%%EOF")) {
		return nil, fmt.Errorf("no EOF marker at the end")
	}
	i := bytes.LastIndex(b, []byte("startxref"))
	if i < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	l := &lexer{b: b, p: i + 9}
	t, err := l.token()
	xo, ok := t.(float64)
	if err != nil || !ok || int(xo) >= len(b) || !bytes.HasPrefix(b[int(xo):], []byte("xref")) {
		return nil, fmt.Errorf("startxref does not point to xref")
	}
	l.p = int(xo) + 4
	t1, _ := l.token()
	t2, _ := l.token()
	first, ok1 := t1.(float64)
	cnt, ok2 := t2.(float64)
	if !ok1 || !ok2 || first != 0 {
		return nil, fmt.Errorf("bad xref section")
	}
	pdf := &PDF{Fonts: map[string]string{}, Obj: map[int]*pdfObj{}}
	type ent struct{ n, off int }
	var ents []ent
	for n := 0; n < int(cnt); n++ {
		o, _ := l.token()
		_, _ = l.token()
		k, err := l.token()
		of, ok := o.(float64)
		if err != nil || !ok {
			return nil, fmt.Errorf("bad xref entry %d", n)
		}
		if k == pdfOp("n") {
			ents = append(ents, ent{n, int(of)})
		}
	}
	t, _ = l.token()
	if t != pdfOp("trailer") {
		return nil, fmt.Errorf("no trailer")
	}
	tr, err := l.value()
	if err != nil {
		return nil, err
	}
	trailer, ok := tr.(pdfDict)
	if !ok {
		return nil, fmt.Errorf("bad trailer")
	}
	for _, e := range ents {
		if e.off >= len(b) {
			return nil, fmt.Errorf("object %d beyond end", e.n)
		}
		ol := &lexer{b: b, p: e.off}
		a, _ := ol.token()
		_, _ = ol.token()
		k, err := ol.token()
		if f, ok := a.(float64); err != nil || !ok || int(f) != e.n || k != pdfOp("obj") {
			return nil, fmt.Errorf("xref entry %d does not point to its object", e.n)
		}
		v, err := ol.value()
		if err != nil {
			return nil, fmt.Errorf("object %d: %v", e.n, err)
		}
		o := &pdfObj{val: v}
		pdf.Obj[e.n] = o
		k, err = ol.token()
		if err != nil {
			return nil, fmt.Errorf("object %d: %v", e.n, err)
		}
		if k == pdfOp("stream") {
			d, ok := v.(pdfDict)
			if !ok {
				return nil, fmt.Errorf("object %d: stream without dict", e.n)
			}
			p := ol.p
			if p < len(b) && b[p] == '\r' {
				p++
			}
			if p < len(b) && b[p] == '\n' {
				p++
			}
			ln, ok := d["Length"].(float64)
			if !ok || p+int(ln) > len(b) {
				return nil, fmt.Errorf("object %d: bad length", e.n)
			}
			o.stream = b[p : p+int(ln)]
			o.has = true
			ol.p = p + int(ln)
			if k, err = ol.token(); k != pdfOp("endstream") {
				return nil, fmt.Errorf("object %d: no endstream at its length", e.n)
			}
			k, err = ol.token()
		}
		if k != pdfOp("endobj") {
			return nil, fmt.Errorf("object %d: no endobj", e.n)
		}
	}
	root := pdf.dict(trailer["Root"])
	if root == nil {
		return nil, fmt.Errorf("no catalog")
	}
	pages := pdf.dict(root["Pages"])
	if pages == nil {
		return nil, fmt.Errorf("no pages")
	}
	kids, _ := pages["Kids"].([]interface{})
	if n, _ := pages["Count"].(float64); int(n) != len(kids) {
		return nil, fmt.Errorf("page count %v but %d kids", pages["Count"], len(kids))
	}
	for _, k := range kids {
		pg := pdf.dict(k)
		if pg == nil {
			return nil, fmt.Errorf("missing page object")
		}
		mb, _ := pg["MediaBox"].([]interface{})
		if mb == nil {
			mb, _ = pages["MediaBox"].([]interface{})
		}
		if len(mb) != 4 {
			return nil, fmt.Errorf("no media box")
		}
		res := pdf.dict(pg["Resources"])
		if res == nil {
			res = pdf.dict(pages["Resources"])
		}
		w, _ := mb[2].(float64)
		h, _ := mb[3].(float64)
		p := PDFPage{W: w / ptmm, H: h / ptmm}
		co := pdf.obj(pg["Contents"])
		if co == nil || !co.has {
			return nil, fmt.Errorf("page without content")
		}
		data, err := pdf.decode(co)
		if err != nil {
			return nil, err
		}
		if err := pdf.content(&p, data, h, res); err != nil {
			return nil, err
		}
		pdf.Pages = append(pdf.Pages, p)
	}
	return pdf, nil
}

func (p *PDF) obj(v interface{}) *pdfObj {
	if r, ok := v.(pdfRef); ok {
		return p.Obj[int(r)]
	}
	return nil
}
func (p *PDF) dict(v interface{}) pdfDict {
	if r, ok := v.(pdfRef); ok {
		if o := p.Obj[int(r)]; o != nil {
			d, _ := o.val.(pdfDict)
			return d
		}
		return nil
	}
	d, _ := v.(pdfDict)
	return d
}
func (p *PDF) decode(o *pdfObj) ([]byte, error) {
	d, _ := o.val.(pdfDict)
	if f, _ := d["Filter"].(pdfName); f == "FlateDecode" {
		r, err := zlib.NewReader(bytes.NewReader(o.stream))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}
	return o.stream, nil
}

type gstate struct {
	fill, stroke RGB
	lw           float64
	font         string
	size         float64
	ctm          [6]float64
}

func col(f float64) int { return int(math.Round(f * 255)) }

func (p *PDF) content(pg *PDFPage, data []byte, ph float64, res pdfDict) error {
	fonts := p.dict(res["Font"])
	xobj := p.dict(res["XObject"])
	l := &lexer{b: data}
	gs := gstate{ctm: [6]float64{1, 0, 0, 1, 0, 0}, lw: 1}
	var stack []gstate
	var args []interface{}
	num := func(i int) float64 {
		if i < len(args) {
			f, _ := args[i].(float64)
			return f
		}
		return 0
	}
	type seg struct{ x0, y0, x1, y1 float64 }
	var segs []seg
	var rects [][4]float64
	var cx, cy, sx, sy float64
	var tx, ty float64
	mm := func(x, y float64) (float64, float64) { return x / ptmm, (ph - y) / ptmm }
	addm := func(m Mark) {
		m.Seq = len(pg.Marks)
		pg.Marks = append(pg.Marks, m)
	}
	for {
		t, err := l.token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		op, ok := t.(pdfOp)
		if !ok {
			args = append(args, t)
			if len(args) > 64 {
				return fmt.Errorf("too many operands")
			}
			continue
		}
		switch op {
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				return fmt.Errorf("unbalanced Q")
			}
			gs = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			// composition with the current matrix
			m := [6]float64{num(0), num(1), num(2), num(3), num(4), num(5)}
			c := gs.ctm
			gs.ctm = [6]float64{
				m[0]*c[0] + m[1]*c[2], m[0]*c[1] + m[1]*c[3],
				m[2]*c[0] + m[3]*c[2], m[2]*c[1] + m[3]*c[3],
				m[4]*c[0] + m[5]*c[2] + c[4], m[4]*c[1] + m[5]*c[3] + c[5],
			}
		case "w":
			gs.lw = num(0) / ptmm
		case "J", "j", "d", "M", "i", "ri", "gs", "Tr", "Tc", "Tz", "TL", "Ts":
		case "Tw":
			if num(0) != 0 {
				return fmt.Errorf("word spacing not supported")
			}
		case "rg":
			gs.fill = RGB{col(num(0)), col(num(1)), col(num(2))}
		case "g":
			gs.fill = RGB{col(num(0)), col(num(0)), col(num(0))}
		case "RG":
			gs.stroke = RGB{col(num(0)), col(num(1)), col(num(2))}
		case "G":
			gs.stroke = RGB{col(num(0)), col(num(0)), col(num(0))}
		case "BT":
			tx, ty = 0, 0
		case "ET":
		case "Tf":
			n, _ := args[0].(pdfName)
			fd := p.dict(fonts[string(n)])
			bf, _ := fd["BaseFont"].(pdfName)
			gs.font = string(bf)
			p.Fonts[string(n)] = string(bf)
			if p.FontObj == nil {
				p.FontObj = map[string]pdfDict{}
			}
			p.FontObj[string(bf)] = fd
			gs.size = num(1)
			if st, _ := fd["Subtype"].(pdfName); st == "Type0" {
				gs.font = "u:" + gs.font
			}
			if fd == nil {
				return fmt.Errorf("font %s not in resources", n)
			}
		case "Td":
			tx += num(0)
			ty += num(1)
		case "Tj":
			s, _ := args[0].(string)
			if strings.HasPrefix(gs.font, "u:") {
				u := make([]uint16, 0, len(s)/2)
				for i := 0; i+1 < len(s); i += 2 {
					u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
				}
				s = string(utf16.Decode(u))
			}
			x, y := mm(tx, ty)
			addm(Mark{Kind: 't', X: x, Y: y, Text: s, Font: gs.font, Size: gs.size, Color: gs.fill})
		case "TJ":
			a, _ := args[0].([]interface{})
			var sb strings.Builder
			for _, e := range a {
				if s, ok := e.(string); ok {
					sb.WriteString(s)
				}
			}
			s := sb.String()
			if strings.HasPrefix(gs.font, "u:") {
				u := make([]uint16, 0, len(s)/2)
				for i := 0; i+1 < len(s); i += 2 {
					u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
				}
				s = string(utf16.Decode(u))
			}
			x, y := mm(tx, ty)
			addm(Mark{Kind: 't', X: x, Y: y, Text: s, Font: gs.font, Size: gs.size, Color: gs.fill})
		case "re":
			rects = append(rects, [4]float64{num(0), num(1), num(2), num(3)})
		case "m":
			cx, cy = num(0), num(1)
			sx, sy = cx, cy
		case "l":
			segs = append(segs, seg{cx, cy, num(0), num(1)})
			cx, cy = num(0), num(1)
		case "c":
			segs = append(segs, seg{cx, cy, num(4), num(5)})
			cx, cy = num(4), num(5)
		case "h":
			segs = append(segs, seg{cx, cy, sx, sy})
			cx, cy = sx, sy
		case "f", "F", "f*", "B", "b", "S", "s", "n", "B*", "b*":
			o := string(op)
			if o[0] == 'f' || o[0] == 'F' || o[0] == 'B' || o[0] == 'b' {
				for _, r := range rects {
					x, y := mm(r[0], r[1])
					w, h := r[2]/ptmm, -r[3]/ptmm
					if h < 0 {
						y += h
						h = -h
					}
					if w < 0 {
						x += w
						w = -w
					}
					addm(Mark{Kind: 'f', X: x, Y: y, W: w, H: h, Color: gs.fill})
				}
			}
			if o[0] == 'S' || o[0] == 's' || o[0] == 'B' || o[0] == 'b' {
				for _, s := range segs {
					x0, y0 := mm(s.x0, s.y0)
					x1, y1 := mm(s.x1, s.y1)
					addm(Mark{Kind: 'l', X: x0, Y: y0, W: x1, H: y1, Color: gs.stroke, LW: gs.lw})
				}
			}
			rects, segs = nil, nil
		case "Do":
			n, _ := args[0].(pdfName)
			o := p.obj(xobj[string(n)])
			if o == nil {
				return fmt.Errorf("xobject %s missing", n)
			}
			c := gs.ctm
			x, y := mm(c[4], c[5]+c[3])
			addm(Mark{Kind: 'i', X: x, Y: y, W: c[0] / ptmm, H: c[3] / ptmm, Img: p.imgID(o)})
		default:
			return fmt.Errorf("operator %q", op)
		}
		args = args[:0]
	}
	if len(stack) != 0 {
		return fmt.Errorf("unbalanced q")
	}
	return nil
}

func (p *PDF) imgID(o *pdfObj) string {
	d, _ := o.val.(pdfDict)
	data, err := p.decode(o)
	if err != nil {
		data = o.stream
	}
	w, _ := d["Width"].(float64)
	h, _ := d["Height"].(float64)
	sm := uint64(0)
	if s := p.obj(d["SMask"]); s != nil {
		sd, _ := p.decode(s)
		sm = hashStr(string(sd))
	}
	return fmt.Sprintf("%dx%d:%v:%x:%x", int(w), int(h), d["Filter"], hashStr(string(data)), sm)
}

func r3(f float64) float64 { return math.Round(f*1000) / 1000 }

// String of a mark, rounded as the PDF is.
func (m Mark) String() string {
	c := fmt.Sprintf("%02x%02x%02x", m.Color.R, m.Color.G, m.Color.B)
	switch m.Kind {
	case 't':
		return fmt.Sprintf("text(%.2f,%.2f) %s %.2f #%s %q", m.X, m.Y, m.Font, m.Size, c, m.Text)
	case 'f':
		return fmt.Sprintf("fill(%.2f,%.2f %.2fx%.2f) #%s", m.X, m.Y, m.W, m.H, c)
	case 'l':
		return fmt.Sprintf("line(%.2f,%.2f-%.2f,%.2f) w%.2f #%s", m.X, m.Y, m.W, m.H, m.LW, c)
	}
	return fmt.Sprintf("image(%.2f,%.2f %.2fx%.2f) %s", m.X, m.Y, m.W, m.H, m.Img)
}

// Marks flattens the PDF into comparable lines.
func (p *PDF) Lines(keep func(page int, m Mark) bool) []string {
	var out []string
	for i, pg := range p.Pages {
		out = append(out, fmt.Sprintf("page %d %.2fx%.2f", i+1, pg.W, pg.H))
		for _, m := range pg.Marks {
			if keep == nil || keep(i+1, m) {
				out = append(out, fmt.Sprintf("p%d %s", i+1, m))
			}
		}
	}
	return out
}

// Content is everything but the creation date, for whole-file comparison.
// Normal describes all that a reader of the PDF can see: pages, fonts and
// information, but neither dates nor the numbering of the objects.
func (p *PDF) Normal() (lines []string, info, fonts string) {
	for _, ob := range p.Obj {
		if dd, ok := ob.val.(pdfDict); ok && dd["CreationDate"] != nil {
			c := pdfDict{}
			for k, v := range dd {
				if k != "CreationDate" && k != "ModDate" {
					c[k] = v
				}
			}
			info = canon(c)
		}
	}
	var bases []string
	for b := range p.FontObj {
		bases = append(bases, b)
	}
	sort.Strings(bases)
	for _, b := range bases {
		fonts += fmt.Sprintf("%s %x\n", b, hashStr(string(p.fontFile(b))))
	}
	return p.Lines(nil), info, fonts
}

// NormalLines is Normal as a list.
func (p *PDF) NormalLines() []string {
	l, info, fonts := p.Normal()
	return append(append([]string{info}, strings.Split(fonts, "\n")...), l...)
}

func canon(v interface{}) string {
	switch v := v.(type) {
	case pdfDict:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "<<"
		for _, k := range ks {
			s += k + " " + canon(v[k]) + " "
		}
		return s + ">>"
	case []interface{}:
		s := "["
		for _, e := range v {
			s += canon(e) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%v", v)
}

// fontFile returns the embedded font program of a base font.
func (p *PDF) fontFile(base string) []byte {
	fd := p.FontObj[base]
	ds, _ := fd["DescendantFonts"].([]interface{})
	if len(ds) == 0 {
		return nil
	}
	o := p.obj(p.dict(p.dict(ds[0])["FontDescriptor"])["FontFile2"])
	if o == nil {
		return nil
	}
	b, err := p.decode(o)
	if err != nil {
		return nil
	}
	return b
}
