package core

import (
	"bytes"
	"fmt"
	"strings"
)

// anyDoc generates a document with everything enabled now and then.
func anyDoc(r *Rng, sc *Scenario) *Gen {
	if r.P(0.5) {
		return headed(r, sc, true)
	}
	k := randKnobs(r)
	if r.P(0.3) {
		sc.UF = true
		k.UFonts = []string{ufFamily}
		k.Uni = r.P(0.5)
	}
	if r.P(0.5) {
		k.Images = genImages(r, sc, 1+r.Intn(3))
		k.CellImg = r.P(0.5)
	}
	k.PosEl = r.P(0.2)
	k.MaxWords = pick(r, []int{4, 15, 40})
	g := uniformGen(r, sc, k)
	g.doc.Body = g.elements(1 + r.Intn(8))
	g.k.PageNo = true
	if r.P(0.5) {
		g.doc.Header = g.smallSection(1, 1+r.Intn(3))
	}
	if r.P(0.5) {
		g.doc.Footer = g.smallSection(2, 1+r.Intn(3))
	}
	if k.Classes {
		g.classify()
	}
	return g
}

func init() {
	register(&Prop{
		ID: "C03", Quick: 3000, Thorough: 120000,
		Rule: "random documents, each rendered to writers that fail at random byte offsets (first, last and one past the last included) with an error, a short write, or an error after accepting everything; non-trivial: a writer fault happened; distinct by document, fault kind and offset",
		Real: "xdoc loader, processor, engine, gofpdf", Stub: "output writer (simulated, failing), disk (simulated, fault-free)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{X: map[string]int{}}
			g := anyDoc(r, sc)
			if r.P(0.15) {
				// numbers nobody would write on purpose
				sc.X["odd"] = 1
				p := pick(r, []float64{0.03, 0.1, 0.3})
				f := func(n *Node) {
					if r.P(p) {
						degenerate(r, n, sc.UF)
					}
				}
				walk(g.doc.Header, f)
				walk(g.doc.Footer, f)
				walk(g.doc.Body, f)
				if r.P(0.3) {
					g.doc.M[r.Intn(4)] = parseF(pick(r, oddNums))
				}
				withExtremes(r, g.doc)
			}
			for i, n := 0, 3+r.Intn(5); i < n; i++ {
				f := WrFault{Kind: pick(r, []string{"err", "err", "short", "errfull"}), Err: pick(r, []string{"ENOSPC", "EIO", "EPIPE", "closed", "EDQUOT", "EAGAIN", "EINTR", "ETIMEDOUT", "timeout", "shortwrite", "pipeclosed", "weof"})}
				f.At = int(r.U64() >> 34) // reduced modulo the length
				switch r.Intn(8) {
				case 0:
					f.At = 0
				case 1:
					f.At = -1 // the last byte is refused
				case 2:
					f.At = -2 // everything is accepted
				case 3:
					f.At = -3 - r.Intn(20)
				case 4:
					f.At = r.Intn(40)
				}
				sc.Wr = append(sc.Wr, f)
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			var o *Out
			if sc.X["odd"] == 1 {
				xd, c := load(sc.Docs[0].XML())
				if b := c.bad(); b != "" {
					res.fail("load", "loading: %s", b)
					return res
				}
				if xd == nil {
					stats["probe:odd-document-refused"]++
					res.Key = hashStr(sc.Docs[0].XML())
					return res
				}
				j := sc.job(xd)
				o = j.render()
				if b := o.bad(); b != "" {
					if !o.Budget {
						res.fail("render", "rendering: %s", b)
					}
					return res
				}
				if o.Err != nil {
					stats["probe:odd-document-failed"]++
					res.NonTrivial = true
					if n := len(o.Bytes()); n > 0 {
						res.fail("output", "rendering failed (%v) but wrote %d bytes", o.Err, n)
					}
					return res
				}
				stats["probe:odd-document-rendered"]++
				if _, err := ParsePDF(o.Bytes()); err != nil {
					res.fail("malformed", "rendering reported success but the PDF is not well-formed: %v", err)
					return res
				}
			}
			xd := loadDoc(res, sc.Docs[0])
			if xd == nil {
				return res
			}
			if o == nil {
				var p *PDF
				if p, o = okRender(res, sc, xd); p == nil {
					return res
				}
			}
			whole := o.Bytes()
			l := len(whole)
			res.add(hashStr(string(whole)))
			res.Key = hashStr(string(whole))
			for i, f := range sc.Wr {
				w := f
				switch {
				case w.At == -1:
					w.At = l - 1
				case w.At == -2:
					w.At = l
				case w.At < 0:
					w.At = l + w.At + 1
					if w.At < 0 {
						w.At = 0
					}
				default:
					w.At %= l + 1
				}
				if w.Kind == "errfull" && w.At == 0 {
					w.At = 1
				}
				j := sc.job(xd)
				j.Wr = &w
				out := j.render()
				if b := out.bad(); b != "" {
					res.fail("render", "writer fault %d %s: %s", i, js(w), b)
					return res
				}
				got := out.Bytes()
				if !bytes.HasPrefix(whole, got) {
					k := 0
					for k < len(got) && k < l && got[k] == whole[k] {
						k++
					}
					res.fail("not-prefix", "writer fault %s: accepted output differs from the fault-free output at byte %d of %d", js(w), k, l)
					return res
				}
				if out.W.after > 0 {
					res.fail("write-after-failure", "writer fault %s: written to again after the failed write", js(w))
					return res
				}
				if out.W.fired {
					stats["fault:writer-"+w.Kind]++
					res.NonTrivial = true
					res.Key = mix(res.Key, hashStr(js(w)))
					if out.Err == nil {
						res.fail("false-success", "rendering reported success although the writer failed (%s, %d of %d bytes accepted)", js(w), len(got), l)
						return res
					}
				} else {
					if len(got) < l && out.Err == nil {
						res.fail("incomplete", "rendering reported success after writing %d of %d bytes", len(got), l)
						return res
					}
					if out.Err != nil {
						res.fail("false-failure", "rendering failed although the writer accepted everything: %v", out.Err)
						return res
					}
					stats["probe:writer-fault-past-end"]++
				}
				res.add(out.Steps)
			}
			return res
		},
	})
	register(&Prop{
		ID: "C04", Quick: 3500, Thorough: 120000,
		Rule: "random documents, each rendered with the backend entering its error state at chosen engine operations (body, header, footer, page break, last footer, writing) or using an undefined font family; non-trivial: the failure happened; distinct by document and failing operation",
		Real: "xdoc loader, processor, engine, gofpdf", Stub: "engine wrapper that provokes the backend's own error state, output writer (recording), disk (simulated, fault-free)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := &Scenario{X: map[string]int{}}
			g := anyDoc(r, sc)
			if r.P(0.3) {
				// the document provokes the failure itself
				var cand []*Node
				d := g.doc
				for _, l := range [][]*Node{d.Body, d.Header, d.Footer} {
					walk(l, func(n *Node) {
						switch n.K {
						case "text", "box", "td", "p":
							if strip(n.allText()) != "" {
								cand = append(cand, n)
							}
						}
					})
				}
				if len(cand) > 0 {
					n := pick(r, cand)
					n.set("font-family", pick(r, []string{"Nofont", "gofontx", "arial narrow"}))
					sc.X["undefined"] = 1
				}
			}
			for i, n := 0, 3+r.Intn(6); i < n; i++ {
				sc.Points = append(sc.Points, int(r.U64()>>34))
			}
			return sc
		},
		Run: runC04,
	})
}

func undefinedFamily(d *Doc) bool {
	found := false
	for _, l := range [][]*Node{d.Body, d.Header, d.Footer} {
		walk(l, func(n *Node) {
			if v, ok := n.eff(d, "font-family"); ok && (v == "Nofont" || v == "gofontx" || v == "arial narrow") && strip(n.allText()) != "" {
				found = true
			}
		})
	}
	return found
}

func runC04(sc *Scenario) *Result {
	res := &Result{}
	d := sc.Docs[0]
	xd := loadDoc(res, d)
	if xd == nil {
		return res
	}
	judge := func(o *Out, what string) bool {
		if b := o.bad(); b != "" {
			res.fail("render", "%s: %s", what, b)
			return false
		}
		if o.Err == nil {
			res.fail("false-success", "%s: rendering reported success (%d bytes written)", what, o.W.buf.Len())
			return false
		}
		if n := o.W.buf.Len(); n > 0 {
			res.fail("output", "%s: rendering failed (%v) but wrote %d bytes", what, o.Err, n)
			return false
		}
		res.NonTrivial = true
		return true
	}
	j := sc.job(xd)
	j.OpsOn = true
	o := j.render()
	if undefinedFamily(d) {
		stats["fault:backend-undefined-family"]++
		judge(o, "a font family that is not defined is used")
		res.Key = hashStr(d.XML())
		res.add(o.Steps)
		return res
	}
	if b := o.bad(); b != "" || o.Err != nil {
		res.fail("render", "rendering a valid document failed: %s %v", b, o.Err)
		return res
	}
	n := o.Eng.calls
	byPhase := map[byte][]int{}
	// the first font always exists: before it is set the backend cannot fail
	first := 0
	for first < n && !strings.HasPrefix(o.Eng.ops[first], "ChangeFont") {
		first++
	}
	if first+1 >= n {
		return res
	}
	for i, s := range o.Eng.ops {
		if i <= first {
			continue
		}
		ph := s[len(s)-1]
		byPhase[ph] = append(byPhase[ph], i+1)
	}
	var phases []byte
	for _, ph := range []byte("0123") {
		if len(byPhase[ph]) > 0 {
			phases = append(phases, ph)
		}
	}
	for _, pt := range sc.Points {
		// pick the phase first, so that rare moments are hit often
		r := NewRng(uint64(pt))
		at := first + 2 + r.Intn(n-first-1)
		if r.P(0.7) {
			l := byPhase[pick(r, phases)]
			at = l[r.Intn(len(l))]
			if r.P(0.15) {
				at = l[len(l)-1]
			}
		}
		j := sc.job(xd)
		j.FailAt = at
		o := j.render()
		if o.Eng == nil || !o.Eng.fired {
			res.fail("nondeterminism", "operation %d of %d was not reached again", at, n)
			return res
		}
		ph := o.Eng.failOp[strings.LastIndexByte(o.Eng.failOp, '/')+1:]
		stats["fault:backend-"+map[string]string{"0": "body", "1": "header", "2": "footer", "3": "last-footer"}[ph]]++
		if !judge(o, fmt.Sprintf("backend fails at operation %d of %d (%s)", at, n, o.Eng.failOp)) {
			return res
		}
		res.Key = mix(res.Key, hashStr(o.Eng.failOp)+uint64(at))
		res.add(o.Steps)
	}
	res.Key = mix(res.Key, hashStr(d.XML()))
	return res
}
