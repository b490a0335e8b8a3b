package core

import "strings"

func init() {
	register(&Prop{
		ID: "C14", Quick: 1100, Thorough: 70000,
		Rule: "random operations (load from file, pattern and font definition files, image, engine, render), each first without faults, then with disk operations inside it failing one after the other (sampled; first and last always), single and persistent, and with damaged files, backend and writer failures; non-trivial: a file was opened; distinct by operation and fault",
		Real: "xdoc loader, hyphenation, font definition, engine, processor, gofpdf, image decoders", Stub: "disk (simulated, failing, tracks handles and changes), output writer (failing), backend wrapper (failing)",
		Gen: func(r *Rng, idx int) *Scenario {
			sc := manyDocs(r, 1)
			sc.MapSeed = r.U64()
			if len(sc.imgPaths()) == 0 && r.P(0.6) {
				g := &Gen{r: r, doc: sc.Docs[0]}
				g.k.Images = genImages(r, sc, 2)
				for i := 0; i < 2; i++ {
					sc.Docs[0].Body = append(sc.Docs[0].Body, g.image())
				}
			}
			for i, n := 0, 2+r.Intn(3); i < n; i++ {
				op := someOp(r, sc)
				for op.K == "hyphenate" || op.K == "describe" || op.K == "loadr" && r.P(0.7) {
					op = someOp(r, sc)
				}
				op.UF = r.P(0.3)
				sc.Ops = append(sc.Ops, op)
			}
			for i, n := 0, 6+r.Intn(6); i < n; i++ {
				sc.Points = append(sc.Points, int(r.U64()>>34))
			}
			if r.P(0.3) {
				sc.Chunk = r.U64() | 1
			}
			return sc
		},
		Run: runC14,
	})
}

func runC14(sc *Scenario) *Result {
	res := &Result{}
	w := newWorld(sc, -1)
	if w.docs[0] == nil {
		res.fail("load", "loading a valid document failed")
		return res
	}
	check := func(what string, d *Disk) bool {
		if hs := d.OpenHandles(); len(hs) > 0 {
			res.fail("leak", "%s: still open after the operation returned: %s", what, strings.Join(hs, ", "))
			return false
		}
		if ms := d.Mutated(); len(ms) > 0 {
			res.fail("changed", "%s: changed files: %s", what, strings.Join(ms, ", "))
			return false
		}
		if len(d.escapes) > 0 {
			res.fail("changed", "%s: changed files: %s", what, strings.Join(d.escapes, ", "))
			return false
		}
		return true
	}
	errns := []string{"EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE", "UEOF"}
	for i := range sc.Ops {
		op := sc.Ops[i]
		d := w.disk()
		w.exec(&op, d, 0)
		what := op.K
		if op.Arg != "" {
			what += " " + op.Arg
		}
		if !check(what, d) {
			return res
		}
		n := d.ops
		res.add(d.hash)
		if n == 0 {
			continue
		}
		res.NonTrivial = true
		res.Key = mix(res.Key, hashStr(what)+uint64(n))
		kinds := append([]string(nil), d.opKinds...)
		for pi, pt := range sc.Points {
			r := NewRng(uint64(pt))
			o := op
			k := 1 + r.Intn(n)
			switch pi {
			case 0:
				k = n
			case 1:
				k = 1
			case 2:
				k = minInt(2, n)
			}
			f := DiskFault{Op: "any", Nth: k, Err: pick(r, errns), Sticky: r.P(0.4), Partial: pick(r, []int{0, 0, 1, 50})}
			o.Disk = []DiskFault{f}
			if r.P(0.2) {
				// closing fails as well
				o.Disk = append(o.Disk, DiskFault{Op: "close", Nth: 1, Err: "EIO", Sticky: true})
			}
			dd := w.disk()
			at := "?"
			if k <= len(kinds) {
				at = kinds[k-1]
			}
			desc := what + ", disk fault " + f.Err + " at " + at
			if op.K == "render" && r.P(0.3) {
				o.Disk = nil
				desc = what
				if r.P(0.5) {
					o.Wr = &WrFault{Kind: "err", At: r.Intn(5000), Err: "ENOSPC"}
					desc += ", writer fails"
				} else {
					o.FailAt = 3 + r.Intn(300)
					desc += ", backend fails"
				}
			} else if r.P(0.3) {
				// a damaged file instead
				o.Disk = nil
				if f := strings.SplitN(at, " ", 2); len(f) == 2 {
					if _, ok := dd.Get(f[1]); ok && r.P(0.25) {
						delete(dd.files, f[1])
						desc = what + ", missing " + f[1]
						stats["fault:missing-file"]++
					} else if b, ok := dd.Get(f[1]); ok && len(b) > 0 {
						c := append([]byte(nil), b[:r.Intn(len(b))]...)
						if r.P(0.4) {
							c = append([]byte(nil), b...)
							for q := 0; q < 1+r.Intn(8); q++ {
								c[r.Intn(len(c))] ^= byte(1 + r.Intn(255))
							}
						}
						dd.Put(f[1], c)
						dd.mutated = map[string]bool{}
						desc = what + ", damaged " + f[1]
						stats["fault:damaged-file"]++
					}
				}
			}
			w.exec(&o, dd, 40000000)
			if !check(desc, dd) {
				return res
			}
			res.Key = mix(res.Key, hashStr(desc)+uint64(k))
			res.add(dd.hash)
		}
	}
	return res
}
