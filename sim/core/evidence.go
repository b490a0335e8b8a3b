package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"xpdfsim/rt"
)

var sitesFile string

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"f"`
	Line int    `json:"l"`
}

var siteTab []siteInfo

func loadSites(f string) {
	if f == "" {
		e, _ := os.Executable()
		f = filepath.Join(filepath.Dir(e), "ov", "sites.json")
	}
	sitesFile = f
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	json.Unmarshal(b, &siteTab)
	rt.SiteHits = make([]uint32, len(siteTab)+1)
}

func siteCount() int {
	n := 0
	for _, h := range rt.SiteHits {
		if h > 0 {
			n++
		}
	}
	return n
}

func siteKeys(d *doneMsg) {
	for i, h := range rt.SiteHits {
		if h > 0 {
			d.Stats[fmt.Sprintf("site:%d", i)] = 1
		}
	}
}

func (d *doneMsg) SiteKeys() []uint64 { return nil }

func writeEvidence(p *Prop, tier string, seed uint64, t *doneMsg, keys, sites map[uint64]bool, wall float64, viol int, path string, nw int) {
	if path == "" {
		path = "/verif/evidence/" + p.ID + ".json"
	}
	faults := map[string]int{}
	probes := map[string]int{}
	other := map[string]int{}
	reached := 0
	for k, v := range t.Stats {
		switch {
		case strings.HasPrefix(k, "site:"):
			reached++
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe:"):
			probes[k[6:]] = v
		default:
			other[k] = v
		}
	}
	var zero []string
	for k, v := range probes {
		if v == 0 {
			zero = append(zero, k)
		}
	}
	sort.Strings(zero)
	lvl := p.Level
	if lvl == "" {
		lvl = "exploration"
	}
	steps := t.Stats["steps"]
	cov := map[string]interface{}{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(keys),
		"rule":                p.Rule,
		"samples":             t.Samples,
		"nontrivial_runs":     t.NonTrivial,
		"runs_per_hour":       int(float64(t.Runs) / wall * 3600),
		"seeds":               fmt.Sprintf("one run seed per scenario, derived from VERIF_SEED=%d and the scenario index", seed),
		"faults_injected":     faults,
		"probes":              probes,
		"counters":            other,
		"simulated_steps":     steps,
		"simulated_time_s":    float64(steps) / 1e6,
		"clock_rule":          "one executed statement of the code under test is one simulated microsecond, plus injected clock jumps",
		"statements_reached":  reached,
		"statements_total":    len(siteTab),
		"real_components":     p.Real,
		"stub_components":     p.Stub,
		"batch_digest":        fmt.Sprintf("%x", t.Hash),
	}
	var kn []string
	for k, v := range t.Known {
		kn = append(kn, fmt.Sprintf("%s (%d runs)", k, v))
	}
	if len(kn) > 0 {
		cov["known_findings"] = kn
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"sampled search: a clean batch is evidence, not proof",
			"gofpdf, encoding/xml and the other dependencies run as real code but are not themselves verified",
			"the oracle's own PDF reader is trusted",
		},
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
