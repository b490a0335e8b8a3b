package core

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/mazzegi/xpdf/hyphenation"

	"xpdfsim/rt"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 900, Thorough: 6000,
		Rule: "2-4 concurrent clients, each with 1-2 operations (load, describe, image, patterns, font definition, hyphenate, new hyphenator, engine, render) on shared documents, hyphenators and font registry, some with faults of their own, in a fresh process under a random schedule: switches at random statements (by statement and visit, or by step), race detector on; every operation is also run alone; non-trivial: at least one switch happened between clients; distinct by operations and schedule",
		Real: "xdoc loader, describe, hyphenation, fonts, processor, engine, gofpdf, image decoders, Go race detector", Stub: "disk per client (simulated, failing), input stream, output writer, backend wrapper (failing), scheduler (simulated: one client runs at a time)",
		Gen: genC07,
		Run: runC07,
	})
}

func genC07(r *Rng, idx int) *Scenario {
	sc := manyDocs(r, 1+r.Intn(2))
	sc.UF = r.P(0.3)
	sc.MapSeed = r.U64()
	n := 2 + r.Intn(3)
	if r.P(0.5) {
		n = 2
	}
	sc.X["clients"] = n
	sc.X["apart"] = 0
	if r.P(0.25) {
		sc.X["apart"] = 1
	}
	sc.X["regorder"] = r.Intn(24)
	sc.X["pool"] = r.Intn(2)
	var kind Op
	for c := 0; c < n; c++ {
		for i, k := 0, 1+r.Intn(2); i < k; i++ {
			op := someOp(r, sc)
			op.UF = r.P(0.3)
			if len(sc.Ops) == 0 && r.P(0.3) {
				op.K = "render" // the operation with the most in common
			}
			if op.K == "hyphenate" && r.P(0.6) {
				op.Arg = (&Gen{r: r}).words(6)
			}
			if kind.K != "" && r.P(0.5) {
				op = kind
				if r.P(0.5) {
					op.Doc = r.Intn(len(sc.Docs))
				}
			}
			kind = op
			op.MapSeed = 0
			op.Client = c
			if r.P(0.2) {
				concFault(r, &op, sc)
			}
			sc.Ops = append(sc.Ops, op)
		}
	}
	// the schedule
	var mine []int
	for _, s := range siteTab {
		if !strings.HasPrefix(s.File, "cmd/") && !strings.HasPrefix(s.File, "v2@") {
			mine = append(mine, s.ID)
		}
	}
	m := 2 + r.Intn(25)
	big := r.P(0.3)
	for i := 0; i < m; i++ {
		s := rt.Switch{Client: r.Intn(n), Target: r.Intn(n)}
		if s.Target == s.Client {
			s.Target = (s.Client + 1) % n
		}
		if len(mine) > 0 && r.P(0.7) && !big {
			s.Site = uint32(pick(r, mine))
			s.Step = 1
			for r.P(0.6) && s.Step < 400 {
				s.Step = s.Step*2 - uint64(r.Intn(2))
				if s.Step == 0 {
					s.Step = 1
				}
			}
		} else {
			s.Step = uint64(math.Exp(r.F() * math.Log(3e5)))
		}
		sc.Switch = append(sc.Switch, s)
	}
	if r.P(0.4) {
		// time slices instead
		sc.Switch = nil
		mean := math.Exp(r.FRange(math.Log(30), math.Log(30000)))
		total := 60 + r.Intn(240)
		for c := 0; c < n; c++ {
			at := 0.0
			for i := 0; i < total/n; i++ {
				at += 1 - mean*math.Log(1-r.F())
				sc.Switch = append(sc.Switch, rt.Switch{Client: c, Step: uint64(at), Target: (c + 1 + r.Intn(n-1)) % n})
			}
		}
	}
	// by step in order
	for i := range sc.Switch {
		for j := i; j > 0 && sc.Switch[j].Step < sc.Switch[j-1].Step; j-- {
			sc.Switch[j], sc.Switch[j-1] = sc.Switch[j-1], sc.Switch[j]
		}
	}
	return sc
}

// concFault puts a fault into an operation that hits it in every order of its
// map iterations.
func concFault(r *Rng, op *Op, sc *Scenario) {
	switch op.K {
	case "render":
		if r.P(0.5) {
			op.Wr = &WrFault{Kind: "err", At: r.Intn(900), Err: "ENOSPC"}
		} else if ps := sc.imgPaths(); len(ps) > 0 {
			op.Disk = []DiskFault{{Op: "open", Path: pick(r, ps), Nth: 1, Err: "EIO", Sticky: true}}
		}
	case "load":
		op.Disk = []DiskFault{{Op: pick(r, []string{"open", "read"}), Path: docFile(op.Doc), Nth: 1, Err: "EIO", Sticky: true}}
	case "loadr":
		op.Rd = &RdPlan{Seed: r.U64(), Mode: r.Intn(6), FailAt: 1 + r.Intn(2000), Err: "EIO"}
	case "classes", "inline", "patr":
		op.Rd = &RdPlan{Seed: r.U64(), Mode: r.Intn(6), FailAt: 1 + r.Intn(len(op.Arg)+1), Err: "EIO"}
	case "image":
		op.Disk = []DiskFault{{Op: "open", Nth: 1, Err: "EIO", Sticky: true}}
	case "patterns":
		op.Disk = []DiskFault{{Op: "read", Nth: 1, Err: "EIO", Sticky: true}}
	}
}

func (r *opRun) concDigest() string {
	e := "ok"
	if r.Err != nil {
		e = "failed"
	}
	return r.outcome(e)
}

// execConc runs in a fresh process.
func execConc(sc *Scenario, mode int) {
	n := sc.x("clients")
	if n < 1 {
		n = 1
	}
	conc := make([]opOut, len(sc.Ops))
	if mode != 3 {
		w := concWorld(sc)
		var before [][]string
		for i, d := range w.docs {
			var l []string
			if d != nil {
				// of another copy, so that nobody has used the shared one yet
				if xd, c := load(w.src[i]); c.bad() == "" && c.Err == nil {
					l = dumpLoaded(xd)
				}
			}
			before = append(before, l)
		}
		runs := make([]*opRun, len(sc.Ops))
		var clients []func()
		var disks []*Disk
		for c := 0; c < n; c++ {
			var idx []int
			var fs []func() error
			d := w.disk()
			for i := range sc.Ops {
				if sc.Ops[i].Client%n == c {
					r, f := w.body(&sc.Ops[i])
					runs[i] = r
					idx = append(idx, i)
					fs = append(fs, f)
				}
			}
			disks = append(disks, d)
			clients = append(clients, func() {
				for k, i := range idx {
					d.arm(&sc.Ops[i])
					runs[i].Call = protect(fs[k])
				}
			})
		}
		simOn(nil, sc.MapSeed, 0, nil, stepBudget)
		for c, d := range disks {
			installDisk(c, d)
			clocks[c] = clocks[0]
		}
		sync.SimPoolKeep = sc.x("pool") == 1
		steps, sw := rt.Run(clients, sc.Switch, stepBudget, 0)
		sync.SimPoolKeep = false
		simOff()
		for c := range disks {
			installDisk(c, nil)
		}
		stats["steps"] += int(steps)
		stats["switches"] += sw
		stats["lock-waits"] += rt.LockWaits()
		if sw > 0 {
			stats["scheduled"]++
		}
		for i := range sc.Ops {
			conc[i] = opOut{Digest: runs[i].concDigest(), Failed: runs[i].Err != nil}
			stats["op:"+sc.Ops[i].K]++
			if runs[i].w.fired {
				stats["fault:writer-err"]++
			}
		}
		for _, d := range disks {
			d.fired()
		}
		for i, d := range w.docs {
			if d != nil {
				if x := firstDiff(before[i], dumpLoaded(d)); x != "" && len(conc) > 0 {
					conc[0].Note = fmt.Sprintf("document %d: %s", i, x)
				}
			}
		}
	}
	if mode != 2 {
		hyphs = map[string]*hyphenation.Hyphenator{}
		w := concWorld(sc)
		for i := range sc.Ops {
			op := sc.Ops[i]
			op.MapSeed = sc.MapSeed
			d := w.disk()
			r := w.exec(&op, d, 0)
			conc = append(conc, opOut{Digest: r.concDigest(), Failed: r.Err != nil, Steps: r.Steps})
		}
	}
	printOuts(conc)
}

// concWorld loads only the documents that some operation shares.
func concWorld(sc *Scenario) *World {
	need := map[int]bool{}
	for i := range sc.Ops {
		switch sc.Ops[i].K {
		case "render", "describe", "engine":
			need[sc.Ops[i].Doc] = true
		}
	}
	w := newWorld(sc, -2)
	for i := range w.src {
		if need[i] {
			xd, c := load(w.src[i])
			if c.bad() == "" && c.Err == nil {
				w.docs[i] = xd
			}
		}
	}
	return w
}

func runC07(sc *Scenario) *Result {
	res := &Result{}
	if len(sc.Ops) == 0 {
		return res
	}
	run := func(mode int) []opOut {
		outs, st, death, out := child(execFile{Scenario: sc, Only: -1, Conc: mode})
		if death != "" {
			kind := "process-end"
			if strings.Contains(out, "DATA RACE") {
				kind = "race"
				death = raceFrames(out)
			}
			res.fail(kind, "%s: %s", concNames(sc), death)
			return nil
		}
		if mode != 3 {
			addStats(st)
		}
		if st["scheduled"] > 0 {
			res.NonTrivial = true
		}
		return outs
	}
	mode := 1
	if sc.x("apart") == 1 {
		mode = 2
	}
	outs := run(mode)
	if res.V != nil {
		return res
	}
	n := len(sc.Ops)
	conc := outs[:n]
	solo := outs[n:]
	if mode == 2 {
		o := run(3)
		if res.V != nil {
			return res
		}
		solo = o[n:]
		stats["baseline-processes"]++
	}
	if conc[0].Note != "" {
		res.fail("document-changed", "%s: a shared document changed: %s", concNames(sc), conc[0].Note)
		return res
	}
	for i := range sc.Ops {
		if conc[i].Digest != solo[i].Digest {
			res.fail("interference", "%s: operation %d (%s of client %d) came to another end than alone: %s and %s", concNames(sc), i, opName(&sc.Ops[i]), sc.Ops[i].Client, clip(conc[i].Digest, 400), clip(solo[i].Digest, 400))
			return res
		}
		if conc[i].Failed {
			stats["probe:failed-operation"]++
		}
		res.add(hashStr(conc[i].Digest))
	}
	j, _ := json.Marshal(sc.Switch)
	res.Key = hashStr(js(sc.Ops)) ^ hashStr(string(j))
	return res
}

func concNames(sc *Scenario) string {
	var s []string
	for i := range sc.Ops {
		s = append(s, fmt.Sprintf("client %d: %s", sc.Ops[i].Client, opName(&sc.Ops[i])))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

// raceFrames condenses a report of the race detector.
func raceFrames(out string) string {
	i := strings.Index(out, "DATA RACE")
	var s []string
	for _, l := range strings.Split(out[i:], "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") {
			s = append(s, strings.Fields(t)[0]+" "+strings.Fields(t)[1]+":")
		} else if strings.HasPrefix(t, "github.com/mazzegi") || strings.HasPrefix(t, "xpdfsim/core.(") {
			s = append(s, t)
		} else if strings.HasPrefix(t, "Goroutine") {
			break
		}
		if len(s) > 9 {
			break
		}
	}
	return "DATA RACE: " + strings.Join(s, " ")
}
