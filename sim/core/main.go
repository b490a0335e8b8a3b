package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jung-kurt/gofpdf/v2"
)

type workerMsg struct {
	Start *int       `json:"start,omitempty"`
	V     *Violation `json:"v,omitempty"`
	Idx   int        `json:"idx,omitempty"`
	Done  *doneMsg   `json:"done,omitempty"`
}

type doneMsg struct {
	Runs       int            `json:"runs"`
	NonTrivial int            `json:"nontrivial"`
	Keys       []uint64       `json:"keys"`
	Stats      map[string]int `json:"stats"`
	Samples    []string       `json:"samples"`
	Hash       uint64         `json:"hash"`
	Known      map[string]int `json:"known"`
	Sites      int            `json:"sites"`
}

type replayFile struct {
	Property  string     `json:"property"`
	Seed      uint64     `json:"seed"`
	Binary    string     `json:"binary"`
	Violation *Violation `json:"violation"`
	Scenario  *Scenario  `json:"scenario"`
	Index     int        `json:"index"`
	History   []int      `json:"history,omitempty"` // scenario indices run before it in the same process
	Tier      string     `json:"tier"`
	Trace     []string   `json:"trace,omitempty"`
	Hash      string     `json:"hash"`
	Note      string     `json:"note,omitempty"`
}

var (
	tierN int
)

func scenarioFor(p *Prop, seed uint64, idx int) *Scenario {
	s := mix(mix(seed, hashStr(p.ID)), uint64(idx)+1)
	sc := p.Gen(NewRng(s), idx)
	for i, d := range sc.Docs {
		if r := NewRng(mix(s, uint64(i)+1000)); r.P(0.4) {
			d.Var = notation(r.U64() | 1)
		}
	}
	sc.Prop = p.ID
	sc.Seed = s
	return sc
}

func runScenario(p *Prop, sc *Scenario) (res *Result) {
	defer func() {
		if r := recover(); r != nil {
			// a panic of the harness itself: never a violation
			fmt.Fprintf(os.Stderr, "HARNESS PANIC: %v\n%s\n", r, debug.Stack())
			os.Exit(4)
		}
	}()
	return p.Run(sc.clone())
}

// Main is the entry of every simulator binary.
func Main() {
	var (
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "VERIF_SEED")
		worker  = flag.String("worker", "", "i/n")
		count   = flag.Int("count", 0, "scenarios")
		secs    = flag.Float64("secs", 0, "time cap of a worker")
		replay  = flag.String("replay", "", "replay file")
		minim   = flag.String("min", "", "minimise this replay file in place")
		evid    = flag.String("evidence", "", "evidence file")
		repdir  = flag.String("replays", "/verif/replays", "")
		known   = flag.String("known", "/verif/known-findings.txt", "")
		one     = flag.Int("one", -1, "run one scenario, print its result")
		execOp  = flag.String("exec", "", "internal: execute ops of a scenario file")
		workers = flag.Int("workers", 8, "")
		show    = flag.Bool("show", false, "with -replay: list everything drawn by fault-free renders")
		sites   = flag.String("sites", "", "sites.json")
	)
	flag.Parse()
	showMarks = *show
	initSim()
	gofpdf.SetDefaultCompression(false)
	gofpdf.SetDefaultCatalogSort(true)
	if *tier == "thorough" {
		tierN = 1
	}
	loadSites(*sites)
	if *execOp != "" {
		runtime.GOMAXPROCS(1)
		execMain(*execOp)
		os.Exit(0)
	}
	if *replay != "" {
		os.Exit(replayMain(*replay))
	}
	if *minim != "" {
		os.Exit(minMain(*minim, *secs))
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	loadKnown(*known, p.ID)
	if *one >= 0 {
		runtime.GOMAXPROCS(1)
		sc := scenarioFor(p, *seed, *one)
		res := runScenario(p, sc)
		j, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(j))
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("V=%+v hash=%x key=%x nt=%v\n", res.V, res.Hash, res.Key, res.NonTrivial)
		os.Exit(0)
	}
	if *worker != "" {
		workerMain(p, *worker, *seed, *count, *secs)
		os.Exit(0)
	}
	os.Exit(parent(p, *tier, *seed, *count, *secs, *workers, *evid, *repdir))
}

func workerMain(p *Prop, spec string, seed uint64, count int, secs float64) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var i, n int
	fmt.Sscanf(spec, "%d/%d", &i, &n)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	start := time.Now()
	d := &doneMsg{Stats: stats, Known: map[string]int{}}
	keys := map[uint64]bool{}
	for idx := i; idx < count; idx += n {
		if secs > 0 && time.Since(start).Seconds() > secs {
			break
		}
		x := idx
		enc.Encode(workerMsg{Start: &x})
		out.Flush()
		sc := scenarioFor(p, seed, idx)
		res := runScenario(p, sc)
		d.Runs++
		d.Hash = mix(d.Hash, res.Hash)
		if res.NonTrivial {
			d.NonTrivial++
			keys[res.Key] = true
		}
		if len(d.Samples) < 2 && res.NonTrivial {
			j, _ := json.Marshal(sc)
			if len(j) > 1500 {
				j = append(j[:1500], "..."...)
			}
			d.Samples = append(d.Samples, fmt.Sprintf("seed=%d index=%d run-seed=%d digest=%x scenario=%s", seed, idx, sc.Seed, res.Hash, j))
		}
		if res.V != nil {
			if k := knownMatch(res.V); k != "" {
				d.Known[k]++
				continue
			}
			enc.Encode(workerMsg{V: res.V, Idx: idx})
			out.Flush()
			break
		}
	}
	for k := range keys {
		d.Keys = append(d.Keys, k)
	}
	sort.Slice(d.Keys, func(a, b int) bool { return d.Keys[a] < d.Keys[b] })
	d.Sites = siteCount()
	siteKeys(d)
	enc.Encode(workerMsg{Done: d})
	out.Flush()
}

type found struct {
	idx int
	v   *Violation
	w   int
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return e
}

func parent(p *Prop, tier string, seed uint64, count int, secs float64, nw int, evid, repdir string) int {
	t0 := time.Now()
	if count == 0 {
		count = p.Quick
		if tier == "thorough" {
			count = p.Thorough
		}
	}
	if secs == 0 {
		secs = 120
		if tier == "thorough" {
			secs = 600
		}
	}
	fmt.Printf("%s: seed=%d tier=%s scenarios=%d workers=%d\n", p.ID, seed, tier, count, nw)
	var mu sync.Mutex
	var finds []found
	var dead []string
	total := &doneMsg{Stats: map[string]int{}, Known: map[string]int{}}
	keys := map[uint64]bool{}
	siteSet := map[uint64]bool{}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self(), "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-count", fmt.Sprint(count), "-secs", fmt.Sprint(secs), "-worker", fmt.Sprintf("%d/%d", w, nw), "-sites", sitesFile)
			cmd.Env = workerEnv()
			var errb tailBuf
			cmd.Stderr = &errb
			po, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mu.Lock()
				dead = append(dead, err.Error())
				mu.Unlock()
				return
			}
			wd := time.AfterFunc(time.Duration(secs*float64(time.Second))+120*time.Second, func() { cmd.Process.Kill() })
			dec := json.NewDecoder(po)
			last := -1
			done := false
			for {
				var m workerMsg
				if err := dec.Decode(&m); err != nil {
					break
				}
				switch {
				case m.Start != nil:
					last = *m.Start
				case m.V != nil:
					mu.Lock()
					finds = append(finds, found{m.Idx, m.V, w})
					mu.Unlock()
				case m.Done != nil:
					done = true
					mu.Lock()
					d := m.Done
					total.Runs += d.Runs
					total.NonTrivial += d.NonTrivial
					for k, v := range d.Stats {
						if strings.HasPrefix(k, "max:") {
							if v > total.Stats[k] {
								total.Stats[k] = v
							}
						} else {
							total.Stats[k] += v
						}
					}
					for k, v := range d.Known {
						total.Known[k] += v
					}
					for _, k := range d.Keys {
						keys[k] = true
					}
					for _, k := range d.SiteKeys() {
						siteSet[k] = true
					}
					if len(total.Samples) < 4 {
						total.Samples = append(total.Samples, d.Samples...)
					}
					total.Hash ^= mix(d.Hash, uint64(w))
					mu.Unlock()
				}
			}
			io.Copy(io.Discard, po)
			err = cmd.Wait()
			wd.Stop()
			if !done {
				mu.Lock()
				e := errb.String()
				if last >= 0 && fatalOutput(e) {
					finds = append(finds, found{last, &Violation{Kind: "process-death", Msg: firstFatal(e)}, w})
				} else {
					dead = append(dead, fmt.Sprintf("worker %d died at scenario %d: %v\n%s", w, last, err, e))
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wall := time.Since(t0).Seconds()
	sort.Slice(finds, func(a, b int) bool { return finds[a].idx < finds[b].idx })
	viol := 0
	if len(finds) > 0 {
		viol = 1
	}
	writeEvidence(p, tier, seed, total, keys, siteSet, wall, viol, evid, nw)
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %.1fs\n", p.ID, total.Runs, len(keys), wall)
	var kk []string
	for k := range total.Known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if len(finds) > 0 {
		return report(p, tier, seed, finds, nw, repdir)
	}
	if len(dead) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(dead, "\n"))
		return 4
	}
	if total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no runs")
		return 4
	}
	return 0
}

type tailBuf struct {
	head, b []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.head) < 8000 {
		t.head = append(t.head, p...)
	} else {
		t.b = append(t.b, p...)
		if len(t.b) > 16000 {
			t.b = t.b[len(t.b)-8000:]
		}
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.head) + string(t.b) }

func fatalOutput(e string) bool {
	if strings.Contains(e, "HARNESS PANIC") {
		return false
	}
	return strings.Contains(e, "fatal error:") || strings.Contains(e, "goroutine stack exceeds") || strings.Contains(e, "DATA RACE") || strings.Contains(e, "panic:")
}
func firstFatal(e string) string {
	for _, l := range strings.Split(e, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "stack exceeds") || strings.Contains(l, "DATA RACE") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return "died"
}

func workerEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GOGC=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "TZ=") || strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "PWD=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "TZ=UTC", "GORACE=exitcode=66 halt_on_error=1 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=all")
}

func writeReplay(path string, rf *replayFile) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	j, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(j, '\n'), 0o644)
}

// runSelf runs this binary and returns exit code and output.
func runSelf(limit time.Duration, args ...string) (int, string) {
	cmd := exec.Command(self(), args...)
	cmd.Env = workerEnv()
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	s := b.String()
	if err == nil {
		return 0, s
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), s
	}
	return -1, s
}

func report(p *Prop, tier string, seed uint64, finds []found, nw int, repdir string) int {
	var lastOut string
	for fi, f := range finds {
		if fi >= 4 {
			break
		}
		path := filepath.Join(repdir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, f.idx))
		sc := scenarioFor(p, seed, f.idx)
		rf := &replayFile{Property: p.ID, Seed: seed, Binary: filepath.Base(self()), Violation: f.v, Scenario: sc, Index: f.idx, Tier: tier}
		writeReplay(path, rf)
		rc, out := runSelf(150*time.Second, "-replay", path, "-tier", tier, "-sites", sitesFile)
		lastOut = out
		if rc != 1 {
			// state carried over from earlier runs of the same worker process
			for i := f.w; i < f.idx; i += nw {
				rf.History = append(rf.History, i)
			}
			writeReplay(path, rf)
			if rc, out = runSelf(300*time.Second, "-replay", path, "-tier", tier, "-sites", sitesFile); rc != 1 {
				fmt.Fprintf(os.Stderr, "scenario %d: %s not reproduced in a fresh process (rc %d)\n%s\n", f.idx, f.v.Kind, rc, tail(out, 3000))
				continue
			}
			rf.Note = "needs the listed earlier runs in the same process"
			deadline := time.Now().Add(60 * time.Second)
			for chunk := (len(rf.History) + 1) / 2; chunk >= 1; chunk /= 2 {
				for lo := 0; lo < len(rf.History) && time.Now().Before(deadline); {
					hi := lo + chunk
					if hi > len(rf.History) {
						hi = len(rf.History)
					}
					c := *rf
					c.History = append(append([]int(nil), rf.History[:lo]...), rf.History[hi:]...)
					writeReplay(path+".try", &c)
					if rc, _ := runSelf(100*time.Second, "-replay", path+".try", "-tier", tier, "-sites", sitesFile); rc == 1 {
						rf = &c
					} else {
						lo += chunk
					}
				}
			}
			os.Remove(path + ".try")
			writeReplay(path, rf)
		} else {
			runSelf(100*time.Second, "-min", path, "-secs", "40", "-tier", tier, "-sites", sitesFile)
			if rc, o := runSelf(150*time.Second, "-replay", path, "-tier", tier, "-sites", sitesFile); rc != 1 {
				// minimisation broke it: go back to the original
				writeReplay(path, rf)
			} else {
				out = o
			}
		}
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "violation:") {
				fmt.Println(l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Fprintln(os.Stderr, "violation seen but not reproducible:", finds[0].v, lastOut)
	return 5
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// replayMain re-executes a replay file; exit 1 if the same violation occurs.
func replayMain(path string) int {
	runtime.GOMAXPROCS(1)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[rf.Property]
	if p == nil {
		return 3
	}
	if rf.Violation != nil && rf.Violation.Kind == "process-death" && os.Getenv("SIM_CHILD") == "" {
		// the run kills its process: observe it from outside
		os.Setenv("SIM_CHILD", "1")
		rc, out := runSelf(140*time.Second, "-replay", path)
		if rc != 0 && rc != 1 && fatalOutput(out) {
			fmt.Printf("violation: %s: %s\n", "process-death", firstFatal(out))
			return 1
		}
		if rc == 1 {
			fmt.Print(out)
		}
		return rc
	}
	if rf.Tier == "thorough" {
		tierN = 1
	}
	for _, i := range rf.History {
		runScenario(p, scenarioFor(p, rf.Seed, i))
	}
	res := runScenario(p, rf.Scenario)
	if res.V == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("violation: %s: %s\n", res.V.Kind, res.V.Msg)
	for _, l := range res.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("digest %x\n", res.Hash)
	if rf.Violation != nil && rf.Violation.Kind != res.V.Kind {
		fmt.Println("different kind of violation than recorded:", rf.Violation.Kind)
	}
	return 1
}

func minMain(path string, secs float64) int {
	runtime.GOMAXPROCS(1)
	b, err := os.ReadFile(path)
	if err != nil {
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return 3
	}
	p := props[rf.Property]
	kind := rf.Violation.Kind
	if kind == "process-death" {
		return 0
	}
	if rf.Tier == "thorough" {
		tierN = 1
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var best *Result
	save := func(sc *Scenario, res *Result) {
		rf.Scenario, rf.Violation, rf.Trace, rf.Hash = sc, res.V, res.Trace, fmt.Sprintf("%x", res.Hash)
		writeReplay(path, &rf)
	}
	sc := simplify(rf.Scenario, func(c *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		res := runScenario(p, c)
		if res.V != nil && res.V.Kind == kind && knownMatch(res.V) == "" {
			best = res
			return true
		}
		return false
	})
	if best != nil {
		save(sc, best)
	} else if res := runScenario(p, rf.Scenario); res.V != nil {
		save(rf.Scenario, res)
	}
	return 0
}

// ---- known findings

type knownEntry struct{ kind, sub, what string }

var knowns []knownEntry

// lines: "known: property=C12 kind=<kind> match=<text> :: <what fails>"
func loadKnown(path, prop string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		e := knownEntry{what: l[i+4:]}
		head := l[:i]
		if j := strings.Index(head, "kind="); j >= 0 {
			e.kind = strings.Fields(head[j+5:])[0]
		}
		if j := strings.Index(head, "match="); j >= 0 {
			e.sub = head[j+6:]
		}
		knowns = append(knowns, e)
	}
}

func knownMatch(v *Violation) string {
	for _, k := range knowns {
		if v.Kind == k.kind && strings.Contains(v.Msg, k.sub) {
			return k.what
		}
	}
	return ""
}
