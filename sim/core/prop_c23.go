package core

import (
	"fmt"
	"strings"
)

// values that no key of their kind allows
var damages = map[string][]string{
	"number":  {"true", "t", "0x", "2!", "\u0662", "", "abc", "12mm", "1,5", "--1", "1e", "1 2", "1.2.3", "ten", "5%", "+-3", "NaN", "Inf", "-inf", "1e999"},
	"four":    {"", "1", "1,2,3", "a,b,c,d", "1;2", "1 2 3 4", "1,2,,4", "1,x,3,4", ",1,2,3", "x1,2,3,4"},
	"reals":   {"NaN,1,1,1", "1,2,Inf,4", "1,2,3,-inf"},
	"ints":    {"a,0,0,0", "0.5,1,1,1", "1,2,3,x1"},
	"colour":  {"", "red", "#12345", "#1234567", "#gg0000", "12 456", "#", "rgb(1,2,3)", "0x1234", "#-12345", "#12345z"},
	"syntax":  {"width", "width 10", "width: 1: 2", "width = 10", "color: #000000: x", "h-align: left: right", "font-weight: bold font-style: italic", "font-family: Arial: Times"},
	"float":   {"true", "t", "one", "0x", "2;", "\u0662", "abc", "12mm", "1,5", "--1", "1e", "1 2", "1.2.3", "5%"},
	"integer": {"true", "t", "F", "0x2", "0b1", "0o1", "1_0", "one", "1.0", "2;", "\u0662", "0x", "", "x", "1.5", "2x", "1 2", "1,5", "--1", "1e2", "99999999999999999999"},
	"repeat":  {"-1", "11", "1000", "-9223372036854775808"},
	"class":   {"{ width: 5; }", "zz:first { width: 5; }", "  { }", "zz { width: 5;", "zz width: 5; }", "zz } yy", "} zz", "zz { width: 5; } }", "zz { color: #fff000; odd:first", "zz {{ width: 5; } yy"},
	// written without braces of their own
	"raw": {"=zz width: 5; }", "=}", "=zz { width: 5;", "=zz { width: 5; yy:first", "=zz { width: 5 }}", "=zz", "=width: 5;", "=;"},
}

var damageKinds = map[string][]string{
	"padding": {"four", "reals"}, "margin": {"four", "reals"}, "border": {"four", "ints"},
	"color": {"colour"}, "text-color": {"colour"}, "background-color": {"colour"},
	"width": {"number"}, "height": {"number"}, "line-spacing": {"number"}, "offset-x": {"number"}, "offset-y": {"number"}, "column-width": {"number"}, "line-width": {"number"}, "font-point-size": {"number"},
	"": {"syntax"}, "lines": {"float"}, "x": {"float"}, "y": {"float"}, "left": {"float"}, "top": {"float"}, "right": {"float"}, "bottom": {"float"},
	"colspan": {"integer"}, "rowspan": {"integer"}, "repeatheader": {"integer", "repeat"},
}

// the damageable keys of styles, without the one for broken syntax
var damageStyles = strings.Fields("padding margin border color text-color background-color width height line-spacing offset-x offset-y column-width line-width font-point-size")

var numAttr = map[string][]string{"lf": {"lines"}, "setx": {"x"}, "sety": {"y"}, "table": {"repeatheader"}, "td": {"colspan", "rowspan"}}

func isDamage(k, v string) bool {
	for _, kind := range damageKinds[k] {
		for _, x := range damages[kind] {
			if v == x {
				return true
			}
		}
	}
	return false
}

func drawDamage(r *Rng, k string) string { return pick(r, damages[pick(r, damageKinds[k])]) }

// sound walks the elements of the document that have to be right: what stands in a
// cell or in a grid is loaded as far as it can be.
func sound(d *Doc, f func(n *Node)) {
	var walk func(l []*Node)
	walk = func(l []*Node) {
		for _, n := range l {
			if n.K == "grid" || n.K == "t" || n.K == "x" {
				continue
			}
			f(n)
			if n.K != "td" {
				walk(n.Kids)
			}
		}
	}
	walk(d.Header)
	walk(d.Footer)
	walk(d.Body)
}

func hasStyle(n *Node) bool {
	switch n.K {
	case "text", "box", "p", "td", "tr", "table", "font", "image":
		return true
	}
	return false
}

// damaged names a damaged value of the document.
func damaged(d *Doc) string {
	what := ""
	bad := func(where string, kvs []KV) {
		n := map[string]int{}
		for _, kv := range kvs {
			n[kv.K]++
		}
		for _, kv := range kvs {
			if isDamage(kv.K, kv.V) && (n[kv.K] == 1 || kv.K == "") {
				what = fmt.Sprintf("%s: %s: %q", where, kv.K, kv.V)
			}
		}
	}
	for i, c := range d.Classes {
		if strings.HasPrefix(c.Name, "=") {
			for _, x := range damages["raw"] {
				// without a brace it may be part of the next class's name
				if c.Name == x && (strings.ContainsAny(x, "{}") || i == len(d.Classes)-1) {
					what = "class " + x
				}
			}
			continue
		}
		bad("class "+c.Name, c.Sty)
		for _, x := range damages["class"] {
			if strings.TrimSpace(c.Name) == x {
				what = "class " + x
			}
		}
	}
	sound(d, func(n *Node) {
		if hasStyle(n) {
			bad(n.K, n.Sty)
		}
		if k, v, ok := strings.Cut(n.Bad, " "); ok && isDamage(k, v) {
			for _, a := range numAttr[n.K] {
				if a == k {
					what = fmt.Sprintf("%s: %s=%q", n.K, k, v)
				}
			}
		}
	})
	if k, v, ok := strings.Cut(d.Bad, " "); ok && isDamage(k, v) {
		what = fmt.Sprintf("margin %s %q", k, v)
	}
	return what
}

func damageValue(r *Rng, sc *Scenario) {
	d := sc.Docs[0]
	var els, nums []*Node
	sound(d, func(n *Node) {
		if hasStyle(n) {
			els = append(els, n)
		}
		if numAttr[n.K] != nil {
			nums = append(nums, n)
		}
	})
	style := func(kvs []KV) []KV {
		k := pick(r, damageStyles)
		if r.P(0.12) {
			k = ""
		}
		v := drawDamage(r, k)
		for i := range kvs {
			if kvs[i].K == k {
				kvs[i].V = v
				return kvs
			}
		}
		at := r.Intn(len(kvs) + 1)
		return append(append(append([]KV{}, kvs[:at]...), KV{k, v}), kvs[at:]...)
	}
	switch x := r.F(); {
	case x < 0.25 && len(d.Classes) > 0:
		c := &d.Classes[r.Intn(len(d.Classes))]
		c.Sty = style(c.Sty)
	case x < 0.3:
		name := pick(r, []string{"odd", "odd", "odd:first-row", "odd:hover", "odd:odd-row", "odd:first", "odd:x:y"})
		if name != "odd" {
			d.Classes = append(d.Classes, ClassDef{Name: "odd"})
		}
		d.Classes = append(d.Classes, ClassDef{Name: name, Sty: style(nil)})
	case x < 0.35:
		d.Classes = append(d.Classes, ClassDef{Name: pick(r, damages["class"]), Sty: nil})
	case x < 0.38:
		at := r.Intn(len(d.Classes) + 1)
		if r.P(0.5) {
			at = len(d.Classes)
		}
		d.Classes = append(append(append([]ClassDef{}, d.Classes[:at]...), ClassDef{Name: pick(r, damages["raw"])}), d.Classes[at:]...)
	case x < 0.45:
		k := pick(r, marginNames)
		d.Bad = k + " " + drawDamage(r, k)
	case x < 0.6 && len(nums) > 0:
		n := pick(r, nums)
		k := pick(r, numAttr[n.K])
		n.Bad = k + " " + drawDamage(r, k)
	case len(els) > 0:
		n := pick(r, els)
		n.Sty = style(n.Sty)
	}
}

func init() {
	register(&Prop{
		ID: "C23", Quick: 20000, Thorough: 600000,
		Rule: "random documents with one value damaged (a number, a list of numbers, a colour, a style's syntax, a class, an attribute, a margin, in a class or selector, used or not, in the body, the header or the footer), loaded from readers and files under random splittings and map iteration orders; non-trivial: a value is damaged; distinct by document",
		Real: "xdoc loader, style decoder, encoding/xml", Stub: "input stream and disk (simulated), map iteration order (seeded)",
		Gen: func(r *Rng, idx int) *Scenario {
			var sc *Scenario
			for {
				if sc = loadable(r); sc.x("kind") == kDoc {
					break
				}
			}
			if sc.Docs[0].Pad > 3000 {
				sc.Docs[0].Pad = r.Intn(3000)
			}
			damageValue(r, sc)
			for i := 0; i < 3; i++ {
				p := randDelivery(r)
				p.Seed = r.U64()
				sc.Rd = append(sc.Rd, p)
			}
			return sc
		},
		Run: func(sc *Scenario) *Result {
			res := &Result{}
			if len(sc.Docs) == 0 || sc.x("kind") != kDoc {
				return res
			}
			data := sc.payload()
			what := damaged(sc.Docs[0])
			if what == "" {
				return res
			}
			res.NonTrivial = true
			res.Key = hashStr(data)
			stats["fault:damaged-value"]++
			for i := range sc.Rd {
				p := sc.Rd[i]
				d := NewDisk("/sim/work")
				s := *sc
				s.MapSeed = p.Seed
				var c Call
				if sc.x("file") == 1 {
					d.Put("/sim/data/in/file.txt", []byte(data))
					d.chunk = NewRng(p.Seed)
					_, _, c = s.loadFrom(nil, d, "/sim/data/in/file.txt")
				} else {
					_, _, c = s.loadFrom(newReader([]byte(data), p), d, "")
				}
				stats[fmt.Sprintf("fault:delivery-mode-%d", p.Mode)]++
				if b := c.bad(); b != "" {
					res.fail("panic", "loading a document with a damaged value (%s): %s", what, b)
					return res
				}
				if c.Err == nil {
					res.fail("accepted", "a document with a damaged value was loaded (%s)", what)
					return res
				}
			}
			return res
		},
	})
}
