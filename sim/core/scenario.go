package core

import (
	"encoding/json"
	"fmt"

	"xpdfsim/rt"
)

type FileSpec struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // img, font, doc, raw, dir
	Arg  string `json:"arg,omitempty"`
	N    int    `json:"n,omitempty"`
}

// Op is one operation of a client or a history.
type Op struct {
	K       string      `json:"k"`
	Doc     int         `json:"doc"`
	Arg     string      `json:"arg,omitempty"`
	N       int         `json:"n,omitempty"`
	FailAt  int         `json:"failat,omitempty"`
	Wr      *WrFault    `json:"wr,omitempty"`
	Rd      *RdPlan     `json:"rd,omitempty"`
	Disk    []DiskFault `json:"disk,omitempty"`
	MapSeed uint64      `json:"mapseed,omitempty"`
	Client  int         `json:"client,omitempty"`
	UF      bool        `json:"uf,omitempty"`
	Hyph    string      `json:"hyph,omitempty"`
}

// Scenario is one simulated run, completely determined by its content.
type Scenario struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Docs    []*Doc         `json:"docs,omitempty"`
	Hyph    string         `json:"hyph,omitempty"`
	UF      bool           `json:"uf,omitempty"`
	Files   []FileSpec     `json:"files,omitempty"`
	Ops     []Op           `json:"ops,omitempty"`
	Disk    []DiskFault    `json:"disk,omitempty"`
	Wr      []WrFault      `json:"wr,omitempty"`
	Rd      []RdPlan       `json:"rd,omitempty"`
	Points  []int          `json:"points,omitempty"`
	Switch  []rt.Switch    `json:"switch,omitempty"`
	MapSeed uint64         `json:"mapseed,omitempty"`
	Clock   int64          `json:"clock,omitempty"`
	Jumps   []int64        `json:"jumps,omitempty"`
	Chunk   uint64         `json:"chunk,omitempty"`
	Text    string         `json:"text,omitempty"`
	Cwd     string         `json:"cwd,omitempty"`
	X       map[string]int `json:"x,omitempty"`
}

func (s *Scenario) clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type Result struct {
	V          *Violation
	NonTrivial bool
	Key        uint64 // identifies what was explored
	Hash       uint64 // digest of the run, for determinism checks
	Trace      []string
}

func (r *Result) fail(kind, f string, a ...interface{}) *Result {
	if r.V == nil {
		r.V = &Violation{Kind: kind, Msg: fmt.Sprintf(f, a...)}
	}
	return r
}

func (r *Result) add(h uint64) { r.Hash = mix(r.Hash, h) }

type Prop struct {
	ID       string
	Gen      func(r *Rng, idx int) *Scenario
	Run      func(sc *Scenario) *Result
	Quick    int
	Thorough int
	Rule     string
	Real     string
	Stub     string
	Level    string
	Extra    func(sc *Scenario, r *Result) // optional statistics
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---- minimisation

type shrinkFn func(sc *Scenario) bool

func lenNodes(ns []*Node) int {
	n := 0
	walk(ns, func(*Node) { n++ })
	return n
}

// size orders scenarios; smaller is simpler.
func (s *Scenario) size() int {
	b, _ := json.Marshal(s)
	return len(b)
}

type nodeRef struct {
	list *[]*Node
	i    int
}

func nodeLists(d *Doc) []*[]*Node {
	var out []*[]*Node
	var rec func(l *[]*Node)
	rec = func(l *[]*Node) {
		out = append(out, l)
		for _, n := range *l {
			if len(n.Kids) > 0 {
				rec(&n.Kids)
			}
		}
	}
	rec(&d.Header)
	rec(&d.Footer)
	rec(&d.Body)
	return out
}

// candidates calls try with simplified copies until try returns true for one
// (accepted); it returns whether any was accepted.
func simplify(sc *Scenario, try func(c *Scenario) bool) *Scenario {
	cur := sc
	accept := func(c *Scenario) bool {
		if c.size() >= cur.size() {
			return false
		}
		if try(c) {
			cur = c
			return true
		}
		return false
	}
	// generic list reduction: del(c, lo, hi) removes [lo,hi) from a list of length n
	reduce := func(length func(*Scenario) int, del func(c *Scenario, lo, hi int)) bool {
		any := false
		for chunk := length(cur) / 2; chunk >= 1; chunk /= 2 {
			for lo := 0; lo < length(cur); {
				hi := lo + chunk
				if n := length(cur); hi > n {
					hi = n
				}
				c := cur.clone()
				del(c, lo, hi)
				if accept(c) {
					any = true
				} else {
					lo += chunk
				}
			}
		}
		return any
	}
	for round := 0; round < 8; round++ {
		any := false
		any = reduce(func(s *Scenario) int { return len(s.Switch) }, func(c *Scenario, lo, hi int) { c.Switch = append(c.Switch[:lo:lo], c.Switch[hi:]...) }) || any
		any = reduce(func(s *Scenario) int { return len(s.Ops) }, func(c *Scenario, lo, hi int) { c.Ops = append(c.Ops[:lo:lo], c.Ops[hi:]...) }) || any
		any = reduce(func(s *Scenario) int { return len(s.Disk) }, func(c *Scenario, lo, hi int) { c.Disk = append(c.Disk[:lo:lo], c.Disk[hi:]...) }) || any
		any = reduce(func(s *Scenario) int { return len(s.Wr) }, func(c *Scenario, lo, hi int) { c.Wr = append(c.Wr[:lo:lo], c.Wr[hi:]...) }) || any
		any = reduce(func(s *Scenario) int { return len(s.Rd) }, func(c *Scenario, lo, hi int) { c.Rd = append(c.Rd[:lo:lo], c.Rd[hi:]...) }) || any
		any = reduce(func(s *Scenario) int { return len(s.Points) }, func(c *Scenario, lo, hi int) { c.Points = append(c.Points[:lo:lo], c.Points[hi:]...) }) || any
		for di := range cur.Docs {
			di := di
			// per node list
			for li := 0; li < len(nodeLists(cur.Docs[di])); li++ {
				li := li
				any = reduce(func(s *Scenario) int {
					ls := nodeLists(s.Docs[di])
					if li >= len(ls) {
						return 0
					}
					return len(*ls[li])
				}, func(c *Scenario, lo, hi int) {
					l := nodeLists(c.Docs[di])[li]
					*l = append((*l)[:lo:lo], (*l)[hi:]...)
				}) || any
			}
			any = reduce(func(s *Scenario) int { return len(s.Docs[di].Classes) }, func(c *Scenario, lo, hi int) {
				d := c.Docs[di]
				d.Classes = append(d.Classes[:lo:lo], d.Classes[hi:]...)
			}) || any
			// styles and texts
			var count int
			for _, l := range nodeLists(cur.Docs[di]) {
				count += len(*l)
			}
			at := func(c *Scenario, k int) *Node {
				for _, l := range nodeLists(c.Docs[di]) {
					if k < len(*l) {
						return (*l)[k]
					}
					k -= len(*l)
				}
				return nil
			}
			for k := 0; k < count && k < 400; k++ {
				for si := 0; ; {
					n := at(cur, k)
					if n == nil || si >= len(n.Sty) {
						break
					}
					c := cur.clone()
					m := at(c, k)
					m.Sty = append(m.Sty[:si:si], m.Sty[si+1:]...)
					if accept(c) {
						any = true
					} else {
						si++
					}
				}
				n := at(cur, k)
				if n == nil {
					break
				}
				for len(n.Txt) > 3 {
					c := cur.clone()
					m := at(c, k)
					m.Txt = cutText(m.Txt)
					if !accept(c) {
						break
					}
					any = true
					n = at(cur, k)
				}
				if n.Num != 0 && n.K == "lf" && n.Num != 1 {
					c := cur.clone()
					at(c, k).Num = 1
					any = accept(c) || any
				}
				if n.RH > 1 || n.CS > 0 || n.RS > 0 {
					c := cur.clone()
					m := at(c, k)
					if m.RH > 1 {
						m.RH = 1
					}
					m.CS, m.RS = 0, 0
					any = accept(c) || any
				}
			}
			c := cur.clone()
			c.Docs[di].Meta = [3]string{}
			any = accept(c) || any
			c = cur.clone()
			c.Docs[di].Pad = 0
			any = accept(c) || any
			c = cur.clone()
			c.Docs[di].Var = 0
			any = accept(c) || any
			c = cur.clone()
			c.Docs[di].Orient, c.Docs[di].Format = "", ""
			any = accept(c) || any
			c = cur.clone()
			c.Docs[di].M = [4]float64{20, 20, 20, 20}
			any = accept(c) || any
		}
		for _, f := range []func(c *Scenario){
			func(c *Scenario) { c.Chunk = 0 }, func(c *Scenario) { c.MapSeed = 0 }, func(c *Scenario) { c.Clock = 0; c.Jumps = nil },
			func(c *Scenario) { c.UF = false }, func(c *Scenario) { c.Hyph = "none" }, func(c *Scenario) { c.Text = c.Text[:len(c.Text)/2] }, func(c *Scenario) { c.Text = c.Text[len(c.Text)/2:] },
		} {
			c := cur.clone()
			f(c)
			any = accept(c) || any
		}
		if !any {
			break
		}
	}
	return cur
}

func cutText(s string) string {
	h := len(s) / 2
	for h > 0 && s[h] >= 0x80 && s[h] < 0xC0 {
		h--
	}
	return s[:h]
}
