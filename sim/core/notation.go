package core

import (
	"regexp"
	"strings"
)

// notation varies how a document is written without changing what it says: the order
// of sections and attributes, white space, the notation of numbers and colours. Every
// choice depends on the seed and on what is written only, so that it survives
// minimisation. Zero stands for the plain notation.
type notation uint64

func (nt notation) rng(key string) *Rng { return NewRng(mix(uint64(nt), hashStr(key))) }

// one of the alternatives, the first being the plain one
func (nt notation) one(key string, alts ...string) string {
	if nt == 0 {
		return alts[0]
	}
	return pick(nt.rng(key), alts)
}

func (nt notation) chance(key string, p float64) bool { return nt != 0 && nt.rng(key).P(p) }

// order is a permutation of n things.
func (nt notation) order(key string, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if nt != 0 {
		nt.rng(key).Shuffle(n, func(i, j int) { o[i], o[j] = o[j], o[i] })
	}
	return o
}

var (
	reNumber = regexp.MustCompile(`^-?\d{1,9}(\.\d{1,9})?$`)
	reInt    = regexp.MustCompile(`^\d{1,9}$`)
	reColour = regexp.MustCompile(`^#[0-9a-f]{6}$`)
)

// number is another notation of a floating point number.
func (nt notation) number(key, v string) string {
	if nt == 0 || !reNumber.MatchString(v) {
		return v
	}
	alts := []string{v, v, v + "e0", v + "0"}
	if !strings.Contains(v, ".") {
		alts[3] = v + ".0"
	}
	if v[0] != '-' {
		alts = append(alts, "+"+v, "0"+v)
	}
	return pick(nt.rng(key+v), alts)
}

func (nt notation) integer(key, v string) string {
	if nt == 0 || !reInt.MatchString(v) {
		return v
	}
	return pick(nt.rng(key+v), []string{v, v, "+" + v, "0" + v})
}

// value is another notation of a valid style value.
func (nt notation) value(k, v string) string {
	if nt == 0 {
		return v
	}
	switch k {
	case "width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "line-width", "font-point-size":
		return nt.number(k, v)
	case "color", "text-color", "background-color":
		if reColour.MatchString(v) {
			return nt.one(k+v, v, strings.ToUpper(v), v[1:], strings.ToUpper(v[1:]))
		}
	case "padding", "margin", "border":
		vs := strings.Split(v, ",")
		if len(vs) != 4 {
			return v
		}
		for i := range vs {
			if !reNumber.MatchString(vs[i]) || k == "border" && strings.Contains(vs[i], ".") {
				return v
			}
			if k == "border" {
				vs[i] = nt.integer(k, vs[i])
			} else {
				vs[i] = nt.number(k, vs[i])
			}
		}
		return strings.Join(vs, nt.one("list"+v, ",", ",", ", ", ",  "))
	}
	return v
}

// attrs writes the attributes of an element.
func (nt notation) attrs(b *strings.Builder, el string, as []KV) {
	for _, i := range nt.order(el+"attrs", len(as)) {
		a := as[i]
		b.WriteString(nt.one("space"+a.K+a.V, " ", " ", "\n\t", "  "))
		v := xmlEsc.Replace(a.V)
		if nt.chance("quote"+a.K+a.V, 0.3) {
			b.WriteString(a.K + nt.one("eq"+a.K, "=", "=", " = ") + "'" + strings.ReplaceAll(v, "'", "&#39;") + "'")
		} else {
			b.WriteString(a.K + `="` + v + `"`)
		}
	}
}

// text escapes character data.
func (nt notation) text(s string) string {
	if nt == 0 || strings.Contains(s, "]]>") {
		return xmlEsc.Replace(s)
	}
	return strings.NewReplacer("&", nt.one("amp", "&amp;", "&#38;", "&#x26;"), "<", nt.one("lt", "&lt;", "&#60;", "&#x3c;"), ">", nt.one("gt", "&gt;", ">"), "\"", nt.one("quot", "&quot;", "\"", "&#34;")).Replace(s)
}

// chars is text in which a comment or the like may stand between two words.
func (nt notation) chars(s string) string {
	if !nt.chance("chars"+s, 0.15) || strings.Contains(s, "]]>") {
		return nt.text(s)
	}
	var at []int
	for i := 1; i+1 < len(s); i++ {
		if s[i] == ' ' && strings.TrimSpace(s[:i]) != "" && strings.TrimSpace(s[i:]) != "" && s[i-1] != '\\' && s[i+1] != '\\' && s[i-1] != ' ' && s[i+1] != ' ' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return nt.text(s)
	}
	i := at[nt.rng("at"+s).Intn(len(at))]
	switch a, b := s[:i], s[i+1:]; nt.one("mid"+s, "0", "1", "2", "3", "4") {
	case "1":
		return nt.text(a) + "<!-- x -->" + nt.text(" "+b)
	case "2":
		return nt.text(a) + " <?pi x?>" + nt.text(b)
	case "3":
		return nt.text(a) + "<![CDATA[ " + b + "]]>"
	case "4":
		return nt.text(a+" ") + "<!-- x --><?pi?>" + nt.text(b)
	default:
		return nt.text(a) + " <!-- <x> -->" + nt.text(b)
	}
}

func (nt notation) classes(cls []string) string {
	if nt.chance("classtwice", 0.25) {
		// what is set once more later on doesn't matter
		cls = append([]string{cls[len(cls)-1-nt.rng("again").Intn(len(cls))]}, cls...)
	}
	s := strings.Join(cls, nt.one("classes", " ", "  ", "\n", "\t"))
	if nt.chance("classpad", 0.2) {
		s = " " + s + "\n"
	}
	return s
}
