package core

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"math"
	"sort"
	"strings"
)

func genC05(r *Rng, idx int) *Scenario {
	sc := &Scenario{}
	k := randKnobs(r)
	k.MaxWords = pick(r, []int{4, 12, 30})
	k.BigWord = false
	k.CellImg = true
	k.PosEl = r.P(0.3)
	k.Images = genImages(r, sc, 2+r.Intn(4))
	if r.P(0.3) {
		k.Images = append(k.Images, "missing.png")
	}
	if r.P(0.5) {
		// the process runs somewhere else, next to other images of the same names
		sc.Cwd = "/sim/decoy"
		for _, f := range append([]FileSpec(nil), sc.Files...) {
			if strings.HasPrefix(f.Path, "/sim/work/") && r.P(0.7) {
				sc.Files = append(sc.Files, FileSpec{Path: "/sim/decoy/" + f.Path[len("/sim/work/"):], Kind: "img", Arg: f.Arg[:strings.LastIndexByte(f.Arg, '-')] + "-77"})
			}
		}
	}
	g := uniformGen(r, sc, k)
	d := g.doc
	_, h := d.pageSize()
	for i, n := 0, 2+r.Intn(8); i < n; i++ {
		switch {
		case r.P(0.35):
			d.Body = append(d.Body, &Node{K: "setx", Num: g.fromLeft(r.FRange(5, 90))}, &Node{K: "sety", Num: g.fromTop(math.Round(r.FRange(d.M[1], h-d.M[3])))}, g.image5())
		case r.P(0.25):
			t := g.table(1+r.Intn(4), 1+r.Intn(3), 5)
			for _, tr := range t.Kids {
				for _, td := range tr.Kids {
					if r.P(0.4) {
						td.Kids = []*Node{g.image5()}
						if r.P(0.3) {
							td.Kids = append([]*Node{{K: "t", Txt: g.text(4)}}, td.Kids...)
						}
						if r.P(0.7) {
							td.set("height", fstr(r.FRange(10, 40)))
						}
						if r.P(0.25) {
							// boxes before the image, in a cell that is high enough
							td.set("height", fstr(r.FRange(30, 40)))
							for q, n := 0, 1+r.Intn(2); q < n; q++ {
								td.Kids = append([]*Node{g.cellBox()}, td.Kids...)
							}
						}
					}
				}
			}
			d.Body = append(d.Body, t)
		default:
			d.Body = append(d.Body, g.elements(1)...)
		}
	}
	if r.P(0.5) {
		d.Header = g.smallSection(1, 1+r.Intn(2))
		if r.P(0.6) {
			d.Header = append(d.Header, g.image5())
		}
	}
	if r.P(0.4) {
		d.Footer = []*Node{{K: "sety", Num: g.fromTop(math.Round(h - r.FRange(10, 30)))}, g.image5()}
	}
	if k.Classes {
		g.classify()
	}
	used := sc.usedImages()
	for i, n := 0, 3+r.Intn(4); i < n && len(used) > 0; i++ {
		p := pick(r, used)
		op := Op{Arg: p}
		e := pick(r, []string{"EIO", "ENOENT", "EMFILE", "EACCES", "ESTALE", "ENXIO"})
		switch x := r.Intn(12); {
		case x == 0:
			op.K = "gone"
		case x == 1:
			op.K = pick(r, []string{"garbage", "empty", "text", "dir"})
		case x == 2:
			op.K = "open"
			op.Disk = []DiskFault{{Op: "open", Path: p, Nth: 1, Sticky: true, Err: e}}
		case x <= 6:
			op.K = "pos"
			sz := len(imageBytes(sc.fileImg(p)))
			at := r.Intn(sz + 1)
			if r.P(0.4) {
				at = r.Intn(minInt(sz, 60) + 1)
			}
			if r.P(0.15) {
				at = sz
			}
			op.Disk = []DiskFault{{Op: "read", Path: p, Pos: at + 1, Err: e}}
		default:
			op.K = "shot"
			op.Disk = []DiskFault{{Op: pick(r, []string{"open", "read", "read", "read", "close", "stat", "fstat", "any"}), Path: p, Nth: 1 + r.Intn(1+r.Intn(12)), Err: e, Partial: pick(r, []int{0, 0, 1, 8, 100, 5000})}}
			if r.P(0.3) {
				op.Disk[0].Sticky = true
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	if r.P(0.5) {
		sc.Chunk = r.U64() | 1
	}
	return sc
}

func (g *Gen) image5() *Node {
	n := g.image()
	if g.r.P(0.3) {
		n.set("offset-y", fstr(g.r.FRange(0, 10)))
	}
	if g.r.P(0.15) {
		n.set("width", fstr(g.r.FRange(100, 400)))
	}
	return n
}

func (s *Scenario) absImg(src string) string {
	if strings.HasPrefix(src, "/") {
		return src
	}
	return "/sim/work/" + src
}

func (s *Scenario) fileImg(p string) string {
	for _, f := range s.Files {
		if f.Path == p && f.Kind == "img" {
			return f.Arg
		}
	}
	return ""
}

// usedImages lists the existing image files the document shows.
func (s *Scenario) usedImages() []string {
	set := map[string]bool{}
	d := s.Docs[0]
	for _, l := range [][]*Node{d.Body, d.Header, d.Footer} {
		walk(l, func(n *Node) {
			if n.K == "image" && s.imgName(n.Txt) != "" {
				set[s.absImg(n.Txt)] = true
			}
		})
	}
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// without removes the image elements showing the file p.
func (s *Scenario) without(p string) *Doc {
	d := s.Docs[0].clone()
	var del func(ns []*Node) []*Node
	del = func(ns []*Node) []*Node {
		var out []*Node
		for _, n := range ns {
			if n.K == "image" && s.absImg(n.Txt) == p {
				continue
			}
			n.Kids = del(n.Kids)
			out = append(out, n)
		}
		return out
	}
	d.Header, d.Footer, d.Body = del(d.Header), del(d.Footer), del(d.Body)
	return d
}

// failReader delivers data and then an error.
type failReader struct {
	b []byte
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.ErrClosedPipe
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

func recognisable(b []byte) bool {
	_, _, err := image.DecodeConfig(&failReader{b})
	return err == nil
}

func init() {
	register(&Prop{
		ID: "C05", Quick: 2500, Thorough: 100000,
		Rule: "random documents with images at top level, in cells, headers and footers, each rendered with several faults of one image file (missing, unrecognisable, open errors, unreadable from a byte on, single failing operations, short reads); non-trivial: a fault happened; distinct by document and fault",
		Real: "xdoc loader, processor, image decoders, engine, gofpdf", Stub: "disk (simulated, failing), working directory",
		Gen: genC05,
		Run: runC05,
	})
}

func runC05(sc *Scenario) *Result {
	res := &Result{}
	d := sc.Docs[0]
	xd := loadDoc(res, d)
	if xd == nil {
		return res
	}
	disk := sc.Disk
	sc.Disk = nil
	ref, _ := okRender(res, sc, xd)
	sc.Disk = disk
	if ref == nil {
		return res
	}
	checkPlaces(res, sc, ref)
	if res.V != nil {
		return res
	}
	res.Key = hashLines(ref.Lines(nil))
	refAll := ref.Lines(nil)
	for oi := range sc.Ops {
		op := &sc.Ops[oi]
		nm := sc.fileImg(op.Arg)
		if nm == "" {
			continue
		}
		j := sc.job(xd)
		left, mustFail, any := false, false, false
		switch op.K {
		case "gone":
			delete(j.D.files, op.Arg)
			left = true
		case "garbage":
			j.D.Put(op.Arg, []byte("\x89PNQ this is no image at all \x00\x01\x02\xff\xd8"))
			left = true
		case "text":
			j.D.Put(op.Arg, []byte("<html>404 not found</html>"))
			left = true
		case "empty":
			j.D.Put(op.Arg, nil)
			left = true
		case "dir":
			delete(j.D.files, op.Arg)
			j.D.MkDirs(op.Arg)
			left = true
		case "open":
			left = true
		case "pos":
			if len(op.Disk) == 0 {
				continue
			}
			at := op.Disk[0].Pos - 1
			data := imageBytes(nm)
			if at < 0 || at > len(data) {
				continue
			}
			if recognisable(data[:at]) {
				mustFail = true
				stats["probe:fails-after-recognition"]++
			} else {
				left = true
				stats["probe:fails-before-recognition"]++
			}
		case "shot":
			any = true
		default:
			continue
		}
		for k := range op.Disk {
			f := op.Disk[k]
			f.seen, f.Fired = 0, 0
			j.D.faults = append(j.D.faults, &f)
		}
		o := j.render()
		fired := j.D.fired() > 0
		if len(op.Disk) == 0 {
			fired = true
			stats["fault:image-"+op.K]++
		} else if op.K == "pos" && fired {
			stats["fault:image-unreadable-sector"]++
		}
		what := fmt.Sprintf("fault %s of %s %s", op.K, op.Arg, js(op.Disk))
		if b := o.bad(); b != "" {
			res.fail("render", "%s: %s", what, b)
			return res
		}
		if !fired {
			stats["probe:fault-not-reached"]++
			if op.K != "shot" && (op.K == "open" || op.K == "pos") {
				res.fail("not-read", "%s: the file was never opened or read to that point, although it is shown", what)
				return res
			}
		} else {
			res.NonTrivial = true
			res.Key = mix(res.Key, hashStr(what))
		}
		res.add(o.Steps)
		res.add(j.D.hash)
		if o.Err != nil {
			if n := o.W.buf.Len(); n > 0 {
				res.fail("output", "%s: rendering failed (%v) but wrote %d bytes", what, o.Err, n)
				return res
			}
			if !fired {
				res.fail("false-failure", "%s: rendering failed without a fault: %v", what, o.Err)
				return res
			}
			if left {
				res.fail("not-left-out", "%s: rendering failed (%v), the image should be left out", what, o.Err)
				return res
			}
			stats["probe:reported"]++
			continue
		}
		p, err := ParsePDF(o.Bytes())
		if err != nil {
			res.fail("malformed", "%s: output is not a well-formed PDF: %v", what, err)
			return res
		}
		if mustFail {
			res.fail("not-reported", "%s: the image could not be read to its end, but rendering reported success", what)
			return res
		}
		got := p.Lines(nil)
		switch {
		case left:
			d2 := sc.without(op.Arg)
			xd2 := loadDoc(res, d2)
			if xd2 == nil {
				return res
			}
			p2, _ := okRender(res, &Scenario{Docs: []*Doc{d2}, Hyph: sc.Hyph, UF: sc.UF, Files: sc.Files, Cwd: sc.Cwd, MapSeed: sc.MapSeed}, xd2)
			if p2 == nil {
				return res
			}
			if diff := firstDiff(p2.Lines(nil), got); diff != "" {
				res.fail("left-out", "%s: differs from the document without the image: %s", what, diff)
				return res
			}
			stats["probe:left-out"]++
		case any:
			// some showings of this file may be missing, nothing else
			id := "image"
			i := 0
			for _, l := range refAll {
				if i < len(got) && got[i] == l {
					i++
					continue
				}
				if fired && strings.Contains(l, " "+id+"(") && strings.HasSuffix(l, imageID(nm)) {
					stats["probe:showing-left-out"]++
					continue
				}
				x := "(nothing)"
				if i < len(got) {
					x = got[i]
				}
				res.fail("changed", "%s: expected %s, got %s", what, clip(l, 200), clip(x, 200))
				return res
			}
			if i < len(got) {
				res.fail("changed", "%s: additional %s", what, clip(got[i], 200))
				return res
			}
			if bytes.Equal(o.Bytes(), nil) {
				res.fail("empty", "%s: success without output", what)
			}
		}
	}
	return res
}

// checkPlaces checks the showings of images whose place is known.
func checkPlaces(res *Result, sc *Scenario, p *PDF) {
	d := sc.Docs[0]
	pw, ph := p.Pages[0].W, p.Pages[0].H
	type want struct {
		n          *Node
		id         string
		x, y, w, h float64
		sz, xy     bool
	}
	size := func(n *Node, nm string, aw, ah float64) (w, h float64) {
		px, py := imgPx(nm)
		iw, ih := float64(px)*25.4/96, float64(py)*25.4/96
		sw, sh := n.effNum(d, "width", -1), n.effNum(d, "height", -1)
		switch {
		case sw > 0 && sh > 0:
			w, h = sw, sh
		case sh > 0:
			w, h = iw/ih*sh, sh
		case sw > 0:
			w, h = sw, ih/iw*sw
		default:
			w, h = iw, ih
		}
		if w > aw {
			h, w = h*aw/w, aw
		}
		if h > ah {
			w, h = w*ah/h, ah
		}
		return
	}
	fills := p.fills()
	var body []want
	x, y, known := 0.0, 0.0, 0
	for _, n := range d.Body {
		switch n.K {
		case "setx":
			x = n.at(pw)
			known |= 1
		case "sety":
			y = n.at(ph)
			known |= 2
		case "image":
			nm := sc.imgName(n.Txt)
			if nm == "" {
				continue
			}
			ox, oy := n.effNum(d, "offset-x", 0), n.effNum(d, "offset-y", 0)
			w, h := size(n, nm, pw-d.M[0]-d.M[2]-2-ox, ph-d.M[1]-d.M[3]-oy)
			body = append(body, want{n, imageID(nm), x + ox, y + oy, w, h, true, known == 3})
		case "font":
		case "table":
			known = 0
			tight := tightColumns(d, n, pw)
			for i, tr := range n.Kids {
				for _, td := range tr.Kids {
					c, ok := td.bg(d)
					ok = ok && !tight
					for _, k := range td.Kids {
						nm := ""
						if k.K == "image" {
							nm = sc.imgName(k.Txt)
						}
						if nm == "" {
							continue
						}
						fs := fills[c]
						if i < n.RH {
							body = append(body, want{n: nil})
							continue
						}
						// the cell is as large as its fill, which is inset by half of the line
						if !ok || len(fs) != 1 || math.Abs(fs[0].y1-fs[0].y0) < 3 || math.Abs(fs[0].x1-fs[0].x0) < 3 {
							body = append(body, want{n: k, id: imageID(nm)})
							continue
						}
						f := fs[0].grow(td.effNum(d, "line-width", 1))
						var pad [4]float64
						if v, ok := td.eff(d, "padding"); ok {
							pad = num4(v)
						}
						ox, oy := k.effNum(d, "offset-x", 0), k.effNum(d, "offset-y", 0)
						iw, ih := f.x1-f.x0-pad[0]-pad[2]-ox, f.y1-f.y0-pad[1]-pad[3]-oy
						w, h := size(k, nm, iw, ih)
						// an area that rounding may take for none is not judged
						ok = w > 0 && h > 0 && iw > 0.5 && ih > 0.5
						body = append(body, want{k, imageID(nm), f.x0 + pad[0] + ox, f.y0 + pad[1] + oy, w, h, ok, ok})
					}
				}
			}
		default:
			known = 0
		}
	}
	// drawn images of the body: those that headers and footers do not show
	sect := map[string]bool{}
	for _, l := range [][]*Node{d.Header, d.Footer} {
		walk(l, func(n *Node) {
			if n.K == "image" {
				if nm := sc.imgName(n.Txt); nm != "" {
					sect[imageID(nm)] = true
				}
			}
		})
	}
	rep := false
	for _, w := range body {
		rep = rep || w.n == nil
	}
	var drawnImgs []Mark
	for _, pg := range p.Pages {
		for _, m := range pg.Marks {
			if m.Kind == 'i' && !sect[m.Img] {
				drawnImgs = append(drawnImgs, m)
			}
		}
	}
	if rep {
		stats["probe:repeated-images-skipped"]++
		return
	}
	i := 0
	for _, w := range body {
		if sect[w.id] {
			continue
		}
		if i >= len(drawnImgs) {
			res.fail("missing", "image %s is not shown", w.n.Txt)
			return
		}
		m := drawnImgs[i]
		i++
		if m.Img != w.id {
			res.fail("wrong-image", "image %s: another image or incomplete data is shown in its place (%s)", w.n.Txt, m.Img)
			return
		}
		tol := 0.03
		if w.sz {
			// the PDF's rounding of the frame is scaled up with the image
			tol += 0.01 * math.Max(w.w/w.h, w.h/w.w)
		}
		if w.sz && (!near(m.W, w.w, tol) || !near(m.H, w.h, tol)) {
			res.fail("wrong-size", "image %s is shown at %.2fx%.2f, its style asks for %.2fx%.2f", w.n.Txt, m.W, m.H, w.w, w.h)
			return
		}
		if w.xy && (!near(m.X, w.x, 0.03) || !near(m.Y, w.y, 0.03)) {
			res.fail("wrong-place", "image %s is shown at (%.2f,%.2f) instead of (%.2f,%.2f)", w.n.Txt, m.X, m.Y, w.x, w.y)
			return
		}
		stats["probe:images-placed"]++
	}
	if i < len(drawnImgs) {
		res.fail("additional", "%d images are shown that belong to no element", len(drawnImgs)-i)
	}
}

// tightColumns tells whether the fixed columns of a table leave no room for
// the others, which then have no width, or a negative one.
func tightColumns(d *Doc, t *Node, pw float64) bool {
	w := pw - d.M[0] - d.M[2]
	if tw := t.effNum(d, "width", -1); tw >= 0 && tw < w {
		w = tw
	}
	cols := map[int]float64{}
	n := 0
	for _, tr := range t.Kids {
		for j, td := range tr.Kids {
			cols[j] = math.Max(cols[j], td.effNum(d, "column-width", 0))
			if j >= n {
				n = j + 1
			}
		}
	}
	for _, c := range cols {
		w -= c
	}
	return w < 3*float64(n)
}
