package main

import (
	"encoding/json"
	"math"
	"strconv"
	"strings"
)

// Feature is one line of the input file.
type Feature struct {
	Kind  string `json:"kind"`            // feature, geometry, blank, point, polygon
	Multi bool   `json:"multi,omitempty"` // MultiLineString
	Dim   int    `json:"dim,omitempty"`
	Mix   bool   `json:"mix,omitempty"` // third ordinates only where they are not zero
	Parts [][]Pt `json:"parts,omitempty"`
	Props string `json:"props,omitempty"` // JSON text, "" = absent
}

func (f *Feature) linear() bool { return f.Kind == "feature" || f.Kind == "geometry" }

type Config struct {
	Type   string  `json:"type"`
	Thr    float64 `json:"thr"`
	Min    float64 `json:"min"`
	NPD    float64 `json:"npd"`
	FC     bool    `json:"fc,omitempty"`
	Planar bool    `json:"planar,omitempty"`
	NonPl  bool    `json:"nonpl,omitempty"`
	Avoid  bool    `json:"avoid,omitempty"`
	Geom   bool    `json:"geom,omitempty"`
	Dist   bool    `json:"dist,omitempty"`
	Side   bool    `json:"side,omitempty"`
	B64    bool    `json:"b64,omitempty"`
	// Coordinates are written as (v + T) * 2^Exp, exactly; lengths scale with them.
	Exp int     `json:"exp,omitempty"`
	TX  float64 `json:"tx,omitempty"`
	TY  float64 `json:"ty,omitempty"`
}

func (g *Config) unit() float64 { return math.Ldexp(1, g.Exp) }

// enc maps a vertex of the case to the tool's coordinates, dec maps it back.
func (g *Config) enc(p Pt) Pt {
	s := g.unit()
	return Pt{(p[0] + g.TX) * s, (p[1] + g.TY) * s, p[2]}
}

func (g *Config) dec(p Pt) Pt {
	s := g.unit()
	return Pt{p[0]/s - g.TX, p[1]/s - g.TY, p[2]}
}

func (g *Config) encs(l []Pt) []Pt {
	o := make([]Pt, len(l))
	for i, p := range l {
		o[i] = g.enc(p)
	}
	return o
}

func (g *Config) encss(ls [][]Pt) [][]Pt {
	o := make([][]Pt, len(ls))
	for i, l := range ls {
		o[i] = g.encs(l)
	}
	return o
}

// Case is one input to the tool.
type Case struct {
	Feats  []Feature `json:"feats"`
	Cons   []Geo     `json:"cons,omitempty"`
	Raw    bool      `json:"raw,omitempty"`    // constraints as bare geometries
	NoTail bool      `json:"notail,omitempty"` // no newline at end of file
	Pack   int       `json:"pack,omitempty"`   // constraints: 1 as multi geometries, 2 as a feature collection
	Null   bool      `json:"null,omitempty"`   // constraints: one more, without a location
	ConZ   float64   `json:"conz,omitempty"`   // constraints: third ordinate, 0 for none
	Coll   bool      `json:"coll,omitempty"`   // runs of features as feature collections
	Style  uint64    `json:"style,omitempty"`  // how the texts are spelled
	Cfg    Config    `json:"cfg"`
}

func num(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }

// mixed is the dimension of lines whose positions differ in dimension.
const mixed = 23

func ptText(p Pt, dim int) string {
	s := "[" + num(p[0]) + "," + num(p[1])
	if dim == 3 || dim == mixed && p[2] != 0 {
		s += "," + num(p[2])
	}
	return s + "]"
}

func lineText(l []Pt, dim int) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, p := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(ptText(p, dim))
	}
	b.WriteByte(']')
	return b.String()
}

func linesText(ls [][]Pt, dim int) string {
	var s []string
	for _, l := range ls {
		s = append(s, lineText(l, dim))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (f *Feature) text(cfg *Config) string {
	switch f.Kind {
	case "blank":
		return ""
	case "point":
		return `{"type":"Feature","geometry":{"type":"Point","coordinates":[1,2]},"properties":{"skip":true}}`
	case "nowhere":
		return `{"type":"Feature","geometry":null,"properties":{"id":7}}`
	case "mixed":
		return `{"type":"Feature","geometry":{"type":"GeometryCollection","geometries":[{"type":"LineString","coordinates":[[0,0],[1,1],[2,0]]}]},"properties":{}}`
	case "polygon":
		return `{"type":"Polygon","coordinates":[[[0,0],[4,0],[4,4],[0,0]]]}`
	}
	var g string
	dim := f.Dim
	if f.Mix && dim == 3 {
		dim = mixed
	}
	if f.Multi {
		g = `{"type":"MultiLineString","coordinates":` + linesText(cfg.encss(f.Parts), dim) + "}"
	} else {
		g = `{"type":"LineString","coordinates":` + lineText(cfg.encs(f.Parts[0]), dim) + "}"
	}
	if f.Kind == "geometry" {
		return g
	}
	s := `{"type":"Feature","geometry":` + g
	if f.Props != "" {
		s += `,"properties":` + f.Props
	}
	return s + "}"
}

// coords is the coordinate text of a constraint.
func (g Geo) coords(cfg *Config, z float64) string {
	pts := cfg.encss(g.Pts)
	dim := 2
	if z != 0 {
		dim = 3
		for _, l := range pts {
			for k := range l {
				l[k][2] = z * float64(1+k%3)
			}
			if len(l) > 1 && same2(l[0], l[len(l)-1]) {
				l[len(l)-1][2] = l[0][2]
			}
		}
	}
	switch g.Kind {
	case "Point":
		return ptText(pts[0][0], dim)
	case "LineString":
		return lineText(pts[0], dim)
	}
	return linesText(pts, dim)
}

const (
	pathCfg = "/sim/cfg.json"
	pathIn  = "/sim/in.json"
	pathCon = "/sim/con.json"
	pathOut = "/sim/out.json"
)

func (c *Case) inputText() string {
	var s []string
	for i := 0; i < len(c.Feats); i++ {
		if !c.Coll {
			s = append(s, c.Feats[i].text(&c.Cfg))
			continue
		}
		var run []string
		for ; i < len(c.Feats) && (c.Feats[i].Kind == "feature" || c.Feats[i].Kind == "point" || c.Feats[i].Kind == "nowhere"); i++ {
			run = append(run, c.Feats[i].text(&c.Cfg))
		}
		if len(run) > 0 {
			s = append(s, `{"type":"FeatureCollection","features":[`+strings.Join(run, ",")+`]}`)
		}
		if i < len(c.Feats) {
			s = append(s, c.Feats[i].text(&c.Cfg))
		}
	}
	t := strings.Join(s, "\n")
	if c.Style != 0 {
		t = respellLines(newRng(c.Style, 1), t)
	}
	if !c.NoTail {
		t += "\n"
	}
	return t
}

func (c *Case) consText() string {
	var s []string
	for i := 0; i < len(c.Cons); i++ {
		g := c.Cons[i]
		t := `{"type":"` + g.Kind + `","coordinates":` + g.coords(&c.Cfg, c.ConZ) + "}"
		if c.Pack == 1 { // runs of one kind make a multi geometry
			run := []string{g.coords(&c.Cfg, c.ConZ)}
			for i+1 < len(c.Cons) && c.Cons[i+1].Kind == g.Kind {
				i++
				run = append(run, c.Cons[i].coords(&c.Cfg, c.ConZ))
			}
			t = `{"type":"Multi` + g.Kind + `","coordinates":[` + strings.Join(run, ",") + "]}"
		}
		if !c.Raw || c.Pack == 2 {
			t = `{"type":"Feature","geometry":` + t + `,"properties":{}}`
		}
		s = append(s, t)
	}
	if c.Null {
		s = append(s, `{"type":"Feature","geometry":null,"properties":{}}`)
	}
	t := strings.Join(s, "\n") + "\n"
	if c.Pack == 2 {
		t = `{"type":"FeatureCollection","features":[` + strings.Join(s, ",") + "]}\n"
	}
	if c.Style != 0 {
		t = respellLines(newRng(c.Style, 2), t)
	}
	return t
}

// place is where a file is, in a case told another way.
func (c *Case) place(p string) string {
	if c.Style == 0 {
		return p
	}
	g := newRng(c.Style, 5)
	if p == pathCon {
		g.n(9)
	}
	if g.p(0.7) {
		return p
	}
	if (p == pathCon) == (c.Style>>32%4 == 0) && g.p(0.2) {
		return pathOut // the output takes its place
	}
	return g.pickS("/sim/IN 1.JSON", "/sim/Old Data/Straße, Nord.geojson", "/sim/Old Data/in", "/sim/~in.json.txt", "/sim/%20in.json") + strings.TrimSuffix(strings.TrimPrefix(p, "/sim/"), ".json")
}

func (c *Case) cfgText() string {
	con := ""
	if len(c.Cons) > 0 {
		con = c.place(pathCon)
	}
	u := c.Cfg.unit()
	m := map[string]interface{}{
		"input": c.place(pathIn), "output": pathOut, "constraints": con, "simplification_type": c.Cfg.Type,
		"threshold": c.Cfg.Thr * u, "minimum_distance": c.Cfg.Min * u, "non_planar_displacement": c.Cfg.NPD * u,
		"is_feature_class": c.Cfg.FC, "planar_self": c.Cfg.Planar, "non_planar_self": c.Cfg.NonPl,
		"avoid_new_self_intersects": c.Cfg.Avoid, "geometric_relation": c.Cfg.Geom,
		"distance_relation": c.Cfg.Dist, "homotopy_relation": c.Cfg.Side,
	}
	b, err := json.Marshal(m)
	must(err)
	if c.Style != 0 {
		return respell(newRng(c.Style, 3), string(b), true)
	}
	return string(b)
}

// run turns a case into a simulated run.
func (c *Case) run(s Sched) *Run {
	r := &Run{Bin: "cli", Files: map[string]string{c.place(pathIn): c.inputText()}, Dirs: []string{"/sim", "/sim/Old Data"}, Sched: s}
	r.Sched.MaxSteps = c.steps(s.MaxSteps)
	if len(c.Cons) > 0 {
		r.Files[c.place(pathCon)] = c.consText()
	}
	if c.Cfg.B64 {
		r.Args = []string{"-b", b64(c.cfgText())}
	} else {
		r.Files[pathCfg] = c.cfgText()
		r.Args = []string{"-f", pathCfg}
	}
	if c.Style != 0 {
		g := newRng(c.Style, 4)
		if !c.Cfg.B64 {
			r.Args[1] = spellPath(g, pathCfg)
		}
		if g.p(0.3) {
			r.Args[0] = "-" + r.Args[0]
		}
		if g.p(0.3) {
			r.Args = []string{r.Args[0] + "=" + r.Args[1]}
		}
	}
	return r
}

// steps allows long lines more steps.
func (c *Case) steps(m uint64) uint64 {
	if m != stepCap {
		return m
	}
	if c.over(40) {
		return stepCap << 2
	}
	return m
}

func (c *Case) long() bool { return c.over(200) }

// over tells of a line of more than n vertices.
func (c *Case) over(n int) bool {
	for i := range c.Feats {
		for _, l := range c.Feats[i].Parts {
			if len(l) > n {
				return true
			}
		}
	}
	return false
}

// Out is one line of the output file.
type Out struct {
	Multi bool
	Dim   int
	Parts [][]Pt
	Dims  []int // of each part
	Props map[string]interface{}
	Raw   string
}

func toPt(v []float64) (Pt, bool) {
	if len(v) < 2 || len(v) > 3 {
		return Pt{}, false
	}
	var p Pt
	copy(p[:], v)
	return p, true
}

func parseOut(text string) ([]Out, string) {
	var outs []Out
	if text == "" {
		return nil, ""
	}
	for n, line := range strings.Split(text, "\n") {
		var f struct {
			Type       string                 `json:"type"`
			Properties map[string]interface{} `json:"properties"`
			Geometry   *struct {
				Type        string          `json:"type"`
				Coordinates json.RawMessage `json:"coordinates"`
			} `json:"geometry"`
		}
		where := "output line " + strconv.Itoa(n+1) + ": "
		if !json.Valid([]byte(line)) {
			return nil, where + "not JSON"
		}
		dec := json.NewDecoder(strings.NewReader(line))
		dec.UseNumber()
		if err := dec.Decode(&f); err != nil {
			return nil, where + err.Error()
		}
		if f.Type != "Feature" || f.Geometry == nil {
			return nil, where + "not a feature"
		}
		o := Out{Props: f.Properties, Raw: line}
		var parts [][][]float64
		switch f.Geometry.Type {
		case "LineString":
			var l [][]float64
			if err := json.Unmarshal(f.Geometry.Coordinates, &l); err != nil {
				return nil, where + err.Error()
			}
			parts = [][][]float64{l}
		case "MultiLineString":
			o.Multi = true
			if err := json.Unmarshal(f.Geometry.Coordinates, &parts); err != nil {
				return nil, where + err.Error()
			}
		default:
			return nil, where + "geometry type " + f.Geometry.Type
		}
		for _, l := range parts {
			var q []Pt
			dim := 0
			for _, v := range l {
				p, ok := toPt(v)
				if !ok {
					return nil, where + "bad coordinate"
				}
				dim = max(dim, len(v))
				q = append(q, p)
			}
			o.Dim = max(o.Dim, dim)
			o.Dims = append(o.Dims, dim)
			o.Parts = append(o.Parts, q)
		}
		outs = append(outs, o)
	}
	return outs, ""
}
