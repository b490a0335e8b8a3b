package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 900, Thorough: 15000,
		Rule: "random histories of 3-9 operations (load, describe, image, patterns, font definition, hyphenate, engine, render with different hyphenators, fonts and working directories) on 2-3 documents, half of them hit by reader, writer, disk or backend faults, files changing in between, run in one process; every operation is also run alone in a fresh process; non-trivial: at least two operations that came to the same end as alone; distinct by history",
		Real: "xdoc loader, describe, hyphenation, fonts, processor, engine, gofpdf, image decoders", Stub: "disk (simulated, failing), input stream, output writer, backend wrapper (failing)",
		Gen: genC08,
		Run: runC08,
	})
}

const altDir = "/sim/alt"

func genC08(r *Rng, idx int) *Scenario {
	sc := manyDocs(r, 2+r.Intn(2))
	sc.UF = r.P(0.3)
	sc.MapSeed = r.U64()
	sc.X["regorder"] = r.Intn(24)
	if len(sc.imgPaths()) == 0 && r.P(0.7) {
		g := &Gen{r: r, doc: sc.Docs[0]}
		g.k.Images = genImages(r, sc, 2)
		for _, d := range sc.Docs {
			d.Body = append(d.Body, g.image())
		}
	}
	if r.P(0.12) {
		// a document that is refused, again and again
		bad := *sc
		bad.Docs = sc.Docs[len(sc.Docs)-1:]
		damageValue(r, &bad)
	}
	// the same names below another directory, other images
	for _, f := range append([]FileSpec(nil), sc.Files...) {
		if f.Kind == "img" && strings.HasPrefix(f.Path, "/sim/work/") {
			nm := f.Arg
			for k := 0; k < 20 && (nm == f.Arg || nm[:3] != f.Arg[:3]); k++ {
				nm = pick(r, imgNames)
			}
			if nm[:3] == f.Arg[:3] {
				sc.Files = append(sc.Files, FileSpec{Path: altDir + strings.TrimPrefix(f.Path, "/sim/work"), Kind: "img", Arg: nm})
			}
		}
	}
	for i, n := 0, 3+r.Intn(7); i < n; i++ {
		if len(sc.Ops) > 1 && r.P(0.2) {
			// once more
			sc.Ops = append(sc.Ops, sc.Ops[r.Intn(len(sc.Ops))])
			continue
		}
		if r.P(0.2) {
			if op := somePut(r, sc); op.K != "" {
				sc.Ops = append(sc.Ops, op)
				continue
			}
		}
		op := someOp(r, sc)
		op.UF = r.P(0.3)
		if op.K == "render" && r.P(0.3) {
			op.Arg = altDir
		}
		if op.K == "image" && r.P(0.3) {
			op.Arg = strings.Replace(op.Arg, "/sim/work", altDir, 1)
		}
		if (op.K == "inline" || op.K == "classes") && r.P(0.25) {
			k := pick(r, damageStyles)
			op.Arg = pick(r, []string{"", "width: 7; ", "color: #123456; "}) + k + ": " + drawDamage(r, k) + pick(r, []string{"", "; height: 5"})
			if op.K == "classes" {
				op.Arg = "c { " + op.Arg + " } d { width: 3 }"
			}
			sc.Ops = append(sc.Ops, op)
		}
		if op.K == "hyphenate" && r.P(0.6) {
			op.Arg = (&Gen{r: r}).words(6)
		}
		if r.P(0.45) {
			someFault(r, &op, sc.Files)
			if r.P(0.6) {
				// and then without
				again := op
				again.Disk, again.Wr, again.FailAt = nil, nil, 0
				if again.Rd != nil {
					again.Rd = &RdPlan{Seed: r.U64(), Mode: r.Intn(6)}
				}
				sc.Ops = append(sc.Ops, op)
				op = again
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

// somePut changes a file between operations.
func somePut(r *Rng, sc *Scenario) Op {
	op := Op{K: "put"}
	ps := sc.imgPaths()
	switch x := r.Intn(8); {
	case x < 4 && len(ps) > 0:
		p := pick(r, ps)
		b := filepath.Base(p)
		for k := 0; k < 30; k++ {
			nm := pick(r, imgNames)
			if nm[:3] == b[:3] && nm+"."+nm[:3] != b {
				op.Arg = p + "|img|" + nm
				return op
			}
		}
	case x == 4 && len(ps) > 0:
		op.Arg = pick(r, ps) + "|gone|"
		return op
	case x == 5:
		op.Arg = patFile + "|raw|" + pick(r, []string{"", "a1b\nab1a\nx1q\n", ".hy3ph\nhe2n\nhena4\nhen5at\n1na\nn2at\n1tio\n2io\n"})
		return op
	case x == 6:
		op.Arg = confFile + "|raw|" + pick(r, []string{"", "MonoFont = \"x\"\n", "MonoFont = \"y\"\n[[Fonts]]\nName = \"gofont\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"/sim/fonts/Go-Italic.ttf\"\n"})
		return op
	default:
		op.Arg = fmt.Sprintf("%s|doc|%d", docFile(r.Intn(len(sc.Docs))), r.Intn(len(sc.Docs)))
		return op
	}
	return Op{}
}

// fresh lets a fresh process run the history (only < 0) or one operation.
func fresh(sc *Scenario, only int) (outs []opOut, st map[string]int, death string) {
	outs, st, death, _ = child(execFile{Scenario: sc, Only: only})
	return
}

func child(ef execFile) (outs []opOut, st map[string]int, death, output string) {
	f, err := os.CreateTemp("", "xpdfsim-exec-*.json")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	if err := json.NewEncoder(f).Encode(ef); err != nil {
		panic(err)
	}
	f.Close()
	rc, out := runSelf(100*time.Second, "-exec", f.Name(), "-sites", sitesFile)
	i := strings.LastIndex(out, "\n@@")
	if rc != 0 || i < 0 {
		if fatalOutput(out) {
			return nil, nil, firstFatal(out), out
		}
		panic(fmt.Sprintf("child process: rc %d: %s", rc, tail(out, 2000)))
	}
	var m struct {
		Outs  []opOut        `json:"outs"`
		Stats map[string]int `json:"stats"`
	}
	if err := json.Unmarshal([]byte(out[i+3:]), &m); err != nil {
		panic(err)
	}
	return m.Outs, m.Stats, "", out
}

func runC08(sc *Scenario) *Result {
	res := &Result{}
	if len(sc.Ops) == 0 {
		return res
	}
	hist, st, death := fresh(sc, -1)
	if death != "" {
		res.fail("process-end", "the history ended the process: %s", death)
		return res
	}
	addStats(st)
	alone := map[string]opOut{}
	puts := ""
	same := 0
	for i := range sc.Ops {
		op := sc.Ops[i]
		if op.K == "put" {
			puts += op.Arg + "\n"
			stats["fault:file-changed"]++
			continue
		}
		if hist[i].Note != "" {
			res.fail("document-changed", "operation %d (%s) changed the loaded document %d: %s", i, opName(&op), op.Doc, hist[i].Note)
			return res
		}
		key := puts + js(op)
		o, ok := alone[key]
		if !ok {
			outs, _, death := fresh(sc, i)
			if death != "" {
				res.fail("process-end", "operation %d alone ended the process: %s", i, death)
				return res
			}
			o = outs[i]
			alone[key] = o
			stats["baseline-processes"]++
		}
		if o.Digest != hist[i].Digest {
			res.fail("history", "operation %d (%s) after %s came to another end than alone in a fresh process: %s and %s", i, opName(&op), opNames(sc.Ops[:i]), clip(hist[i].Digest, 400), clip(o.Digest, 400))
			return res
		}
		same++
		if o.Failed {
			stats["probe:failed-operation"]++
		}
		res.add(hashStr(o.Digest))
	}
	stats["histories"]++
	res.NonTrivial = same > 1
	res.Key = hashStr(js(sc.Ops)) ^ hashStr(sc.Docs[0].XML())
	return res
}

func opName(op *Op) string {
	s := op.K
	if op.Arg != "" {
		s += " " + clip(op.Arg, 60)
	}
	if op.K == "render" || op.K == "load" || op.K == "loadr" || op.K == "describe" {
		s += fmt.Sprintf(" doc%d", op.Doc)
	}
	if len(op.Disk) > 0 || op.Wr != nil || op.FailAt > 0 || op.Rd != nil && op.Rd.FailAt > 0 {
		s += " with fault"
	}
	return s
}

func opNames(ops []Op) string {
	var s []string
	for i := range ops {
		s = append(s, opName(&ops[i]))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func addStats(st map[string]int) {
	for k, v := range st {
		if strings.HasPrefix(k, "max:") {
			if v > stats[k] {
				stats[k] = v
			}
			continue
		}
		stats[k] += v
	}
}
