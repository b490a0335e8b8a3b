package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

// opOut is the outcome of one operation of a history.
type opOut struct {
	Digest string `json:"d"`
	Steps  uint64 `json:"s"`
	Failed bool   `json:"f,omitempty"`
	Note   string `json:"n,omitempty"` // a shared document changed
}

// execFile is what a fresh process is asked to do: the whole history, or,
// alone, operation Only with the files as they were at that point.
type execFile struct {
	Scenario *Scenario `json:"scenario"`
	Only     int       `json:"only"` // -1: all
	Conc     int       `json:"conc"` // 1: the clients of the scenario concurrently, then each operation alone; 2: concurrently only; 3: alone only
}

func execMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var ef execFile
	if err := json.Unmarshal(b, &ef); err != nil {
		panic(err)
	}
	// pools are emptied by the garbage collector
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	sc := ef.Scenario
	if ef.Conc > 0 {
		execConc(sc, ef.Conc)
		return
	}
	only := -1
	if ef.Only >= 0 {
		only = sc.Ops[ef.Only].Doc
	}
	w := newWorld(sc, only)
	d := w.disk()
	var outs []opOut
	for i := range sc.Ops {
		op := &sc.Ops[i]
		if op.K == "put" {
			w.put(d, op.Arg)
			outs = append(outs, opOut{})
			continue
		}
		if ef.Only >= 0 && i != ef.Only {
			outs = append(outs, opOut{})
			continue
		}
		var before []string
		if ef.Only < 0 && op.Doc < len(w.docs) && w.docs[op.Doc] != nil {
			before = dumpLoaded(w.docs[op.Doc])
		}
		r := w.exec(op, d, 0)
		o := opOut{Digest: r.digest(), Steps: r.Steps, Failed: r.Err != nil || r.bad() != ""}
		if before != nil {
			if x := firstDiff(before, dumpLoaded(w.docs[op.Doc])); x != "" {
				o.Note = x
			}
		}
		outs = append(outs, o)
		d.faults = nil
		d.handles = map[*handle]bool{}
		if ef.Only == i {
			break
		}
	}
	printOuts(outs)
}

func printOuts(outs []opOut) {
	j, _ := json.Marshal(struct {
		Outs  []opOut        `json:"outs"`
		Stats map[string]int `json:"stats"`
	}{outs, stats})
	fmt.Printf("\n@@%s\n", j)
}
