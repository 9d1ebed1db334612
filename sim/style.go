package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// node is a JSON value that keeps its order.
type node struct {
	kind byte // { [ " 0 for a literal, n for a number
	keys []string
	kids []*node
	text string
}

func parseNode(d *json.Decoder) *node {
	t, err := d.Token()
	must(err)
	switch v := t.(type) {
	case json.Delim:
		o := &node{kind: byte(v)}
		for d.More() {
			if v == '{' {
				k, err := d.Token()
				must(err)
				o.keys = append(o.keys, k.(string))
			}
			o.kids = append(o.kids, parseNode(d))
		}
		_, err := d.Token()
		must(err)
		return o
	case string:
		return &node{kind: '"', text: v}
	case json.Number:
		return &node{kind: 'n', text: v.String()}
	}
	return &node{text: fmt.Sprint(t)}
}

func (o *node) write(b *strings.Builder, r *Rng, props, lines bool) {
	gap := func() {
		if r.p(0.15) {
			b.WriteString(r.pickS(" ", "  ", "\t", " \t "))
			if lines && r.p(0.3) {
				b.WriteString(r.pickS("\n", "\r\n", "\n\n"))
			}
		}
	}
	gap()
	switch o.kind {
	case '"':
		spellString(b, r, o.text)
	case 'n':
		s := o.text
		if !props && r.p(0.3) {
			s = spellNumber(r, s)
		}
		b.WriteString(s)
	case '[':
		b.WriteByte('[')
		for i, k := range o.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			k.write(b, r, props, lines)
		}
		b.WriteByte(']')
	case '{':
		b.WriteByte('{')
		at := make([]int, len(o.kids))
		for i := range at {
			at[i] = i
		}
		for i := len(at) - 1; i > 0; i-- {
			k := r.n(i + 1)
			at[i], at[k] = at[k], at[i]
		}
		for i, k := range at {
			if i > 0 {
				b.WriteByte(',')
			}
			gap()
			spellString(b, r, o.keys[k])
			gap()
			b.WriteByte(':')
			o.kids[k].write(b, r, props || o.keys[k] == "properties", lines)
		}
		b.WriteByte('}')
	default:
		if o.text == "<nil>" {
			b.WriteString("null")
		} else {
			b.WriteString(o.text)
		}
	}
	gap()
}

func spellString(b *strings.Builder, r *Rng, s string) {
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 32 || (c < 0x10000 && r.p(0.02)):
			fmt.Fprintf(b, "\\u%04x", c)
		case c == '/' && r.p(0.1):
			b.WriteString("\\/")
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

// spellNumber writes the same value another way.
func spellNumber(r *Rng, s string) string {
	v, err := strconv.ParseFloat(s, 64)
	must(err)
	t := s
	switch r.n(4) {
	case 0:
		t = strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		t = strconv.FormatFloat(v, 'E', -1, 64)
	case 2:
		if !strings.ContainsAny(s, ".eE") {
			t = s + ".0"
		}
	case 3:
		if !strings.ContainsAny(s, ".eE") {
			t = s + r.pickS("e0", "E+0", "e-0", ".000")
		}
	}
	if u, err := strconv.ParseFloat(t, 64); err != nil || u != v {
		return s
	}
	return t
}

// spellPath writes a path below /sim, the working directory, another way.
func spellPath(r *Rng, p string) string {
	if !r.p(0.3) {
		return p
	}
	b := strings.TrimPrefix(p, "/sim/")
	return r.pickS(b, "./"+b, "/sim/./"+b, "//sim//"+b, "/sim/../sim/"+b, "../sim/"+b)
}

// respell writes one JSON text another way, with members nothing asks for.
func respell(r *Rng, s string, lines bool) string {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	o := parseNode(d)
	if lines { // a configuration
		for i, k := range o.keys {
			if (k == "input" || k == "output" || k == "constraints") && o.kids[i].text != "" {
				o.kids[i].text = spellPath(r, o.kids[i].text)
			}
			if (k == "input" || k == "output" || k == "constraints") && o.kids[i].text != "" && r.p(0.2) {
				o.kids[i].text = r.pickS(" ", "\t", "") + o.kids[i].text + r.pickS(" ", "\n", "")
			}
			if k == "simplification_type" && r.p(0.3) {
				t := o.kids[i].text
				o.kids[i].text = r.pickS(strings.ToUpper(t), " "+t, t+"\t", strings.ToUpper(t[:1])+t[1:])
			}
		}
		if r.p(0.3) {
			o.keys = append(o.keys, "comment")
			o.kids = append(o.kids, &node{kind: '"', text: "none"})
		}
	} else if o.kind == '{' {
		o.extra(r)
	}
	var b strings.Builder
	o.write(&b, r, false, lines)
	return b.String()
}

func (o *node) extra(r *Rng) {
	if r.p(0.2) {
		o.keys = append(o.keys, "bbox")
		o.kids = append(o.kids, &node{kind: '[', kids: []*node{{kind: 'n', text: "0"}, {kind: 'n', text: "0"}, {kind: 'n', text: "9"}, {kind: 'n', text: "9"}}})
	}
	for i, k := range o.keys {
		switch k {
		case "type":
			if o.kids[i].text == "Feature" && r.p(0.2) {
				o.keys = append(o.keys, "id")
				o.kids = append(o.kids, &node{kind: 'n', text: strconv.Itoa(r.n(99))})
			}
		case "features":
			for _, c := range o.kids[i].kids {
				c.extra(r)
			}
		}
	}
}

// respellLines does so for each line of a file.
func respellLines(r *Rng, s string) string {
	v := strings.Split(s, "\n")
	for i, l := range v {
		if l != "" {
			v[i] = respell(r, l, false)
		}
		if i+1 < len(v) && r.p(0.1) {
			v[i] += "\r"
		}
	}
	return strings.Join(v, "\n")
}

// form puts the same features and constraints into files another way.
func form(d *Case, r *Rng) {
	if r.p(0.5) {
		d.Cfg.B64 = !d.Cfg.B64
	}
	if len(d.Cons) > 0 {
		d.Pack, d.Raw, d.Null = r.n(3), r.p(0.5), r.p(0.3)
		d.ConZ = r.pickF(0, 0, 0, 5, -2.5, 700)
	}
	for i := range d.Feats {
		f := &d.Feats[i]
		if f.linear() && (f.Props == "" || f.Props == "{}") && r.p(0.4) {
			f.Kind, f.Props = r.pickS("feature", "geometry"), r.pickS("", "{}")
		}
		if f.linear() && r.p(0.3) { // a third ordinate of zero may be left out
			f.Mix = !f.Mix
			if f.Dim == 2 {
				f.Dim = 3
			}
		}
	}
	for k := r.n(4); k > 0; k-- {
		i := r.n(len(d.Feats) + 1)
		x := Feature{Kind: r.pickS("blank", "point", "polygon", "nowhere")}
		d.Feats = append(d.Feats[:i:i], append([]Feature{x}, d.Feats[i:]...)...)
	}
	d.Coll, d.NoTail = r.p(0.4), r.p(0.4)
}
