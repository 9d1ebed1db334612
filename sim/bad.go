package main

import (
	"strings"
)

// Bad is a defect of the input, configuration, invocation or environment, with
// which the tool cannot produce a meaningful result.
type Bad struct {
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
	Text string `json:"text,omitempty"`
}

var badKinds = []string{
	"no-flags", "both-flags", "unknown-flag", "cfg-missing", "cfg-dir", "cfg-cut", "cfg-garbage", "cfg-type", "b64-garbage",
	"simpl-type", "in-missing", "in-empty-path", "in-dir", "con-missing", "con-dir", "out-empty", "out-dir", "out-nodir", "out-readonly",
	"cfg-kind", "cfg-tail", "b64-tail", "in-part", "in-props", "in-tail", "con-part", "con-tail",
	"in-cut", "in-garbage", "in-coord", "in-position", "in-short", "con-cut", "con-garbage", "con-coord", "read-fault",
}

// cutLine cuts text inside a line, so that the line is no longer JSON.
func cutLine(text string, n int) string {
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	var idx []int
	for i, l := range lines {
		if len(l) > 2 {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return "{"
	}
	k := idx[n%len(idx)]
	l := lines[k]
	c := 1 + n/7%(len(l)-1)
	return strings.Join(append(append([]string{}, lines[:k]...), l[:c]), "\n")
}

func replaceLine(text string, n int, with string) string {
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	lines[n%len(lines)] = with
	return strings.Join(lines, "\n")
}

var garbage = []string{"garbage", "{", "[1,2", `{"type":`, "\x00\x01", "LINESTRING(0 0, 1 1)", "]", "[", "}", "},", ",", "]}", "[]", "1", `"x"`, "true", "# a comment", "// a comment", "{}{", "{'type':'Point'}", "\x1e{}}", `{"type":"LineString","coordinates":[[0,0],[1,1]],}`,
	`{"type":"LineString","coordinates":[[0,0],[1,1],]}`, `{"type":"LineString","coordinates":[[0,0],[1,NaN]]}`, `{"type":"LineString","coordinates":[[0,0],[01,1]]}`, `{type:"LineString","coordinates":[[0,0],[1,1]]}`, `{"type":"LineString","coordinates":[[0,0],[+1,1]]}`, `{"type":"LineString" "coordinates":[[0,0],[1,1]]}`, `{"type":5,"coordinates":[[0,0],[1,1]]}`}

var badCoords = []string{`"a"`, `[["1","2"],[3,4]]`, `[[1,2],3]`, `{"x":1}`, `[[[1,2],[3,4]]]`, `[[1,2],[null]]`}

// apply damages a run.
func (b *Bad) apply(c *Case, r *Run) {
	set := func(key, val string) {
		cfg := c.cfgText()
		old := map[string]string{"input": pathIn, "output": pathOut, "constraints": pathCon}[key]
		if key == "constraints" && len(c.Cons) == 0 {
			old = ""
		}
		if key == "simplification_type" {
			old = c.Cfg.Type
		}
		a, z := `"`+key+`":"`+old+`"`, `"`+key+`":"`+val+`"`
		if !strings.Contains(cfg, a) {
			fatal("config text lacks %s", a)
		}
		cfg = strings.Replace(cfg, a, z, 1)
		if c.Cfg.B64 {
			r.Args = []string{"-b", b64(cfg)}
		} else {
			r.Files[pathCfg] = cfg
		}
	}
	whole := func(text string) {
		if c.Cfg.B64 {
			r.Args = []string{"-b", b64(text)}
		} else {
			r.Files[pathCfg] = text
		}
	}
	switch b.Kind {
	case "no-flags":
		r.Args = nil
	case "both-flags":
		r.Files[pathCfg] = c.cfgText()
		r.Args = []string{"-f", pathCfg, "-b", b64(c.cfgText())}
	case "unknown-flag":
		r.Args = append([]string{"-zz"}, r.Args...)
	case "cfg-missing":
		r.Args = []string{"-f", "/sim/absent.json"}
	case "cfg-dir":
		r.Args = []string{"-f", "/sim"}
	case "cfg-cut":
		t := c.cfgText()
		whole(t[:b.N%len(t)])
	case "cfg-garbage":
		whole([]string{"not json", "[]", `"x"`, "{]", "{}}", "17"}[b.N%6])
	case "cfg-type":
		whole(strings.Replace(c.cfgText(), `"threshold":`, `"threshold":"x","was":`, 1))
	case "cfg-kind":
		key := []string{"threshold", "minimum_distance", "non_planar_displacement", "is_feature_class", "planar_self", "non_planar_self", "avoid_new_self_intersects", "geometric_relation", "distance_relation", "homotopy_relation", "input", "output", "simplification_type"}[b.N%13]
		var bad []string
		switch b.N % 13 {
		case 0, 1, 2:
			bad = []string{`"1"`, `true`, `[1]`, `{}`, `1e999`}
		case 10, 11, 12:
			bad = []string{`7`, `false`, `["dp"]`, `{}`, `1.5`}
		default:
			bad = []string{`1`, `"true"`, `[]`, `0`, `{}`}
		}
		t := strings.TrimSpace(c.cfgText())
		whole(t[:len(t)-1] + `,"` + key + `":` + bad[b.N/13%5] + "}")
	case "cfg-tail":
		whole(c.cfgText() + []string{"x", "}", "{}", "[1]", " 17"}[b.N%5])
	case "b64-garbage":
		r.Args = []string{"-b", []string{"!!!!", "e30", "%%%", "abc"}[b.N%4]}
	case "b64-tail":
		t := b64(c.cfgText())
		k := b.N / 6 % (len(t) - 4)
		r.Args = []string{"-b", []string{t + "!", t + "AAAA*", strings.TrimRight(t, "=") + "#", t[:k] + "*" + t[k+1:], t[:k] + "=" + t[k+1:], t + "===="}[b.N%6]}
	case "simpl-type":
		set("simplification_type", []string{"", "rdp", "dpx", "d p", "douglas"}[b.N%5])
	case "in-missing":
		set("input", "/sim/absent.json")
	case "in-empty-path":
		set("input", "")
	case "in-dir":
		set("input", "/sim")
	case "con-missing":
		set("constraints", "/sim/absent.json")
	case "con-dir":
		set("constraints", "/sim")
	case "out-empty":
		set("output", "")
	case "out-dir":
		set("output", "/sim")
	case "out-nodir":
		set("output", "/sim/none/out.json")
	case "out-readonly":
		r.RO = append(r.RO, pathOut, "/sim")
	case "in-cut":
		r.Files[pathIn] = cutLine(r.Files[pathIn], b.N)
	case "in-garbage":
		r.Files[pathIn] = replaceLine(r.Files[pathIn], b.N, garbage[b.N/5%len(garbage)])
	case "in-coord":
		r.Files[pathIn] = replaceLine(r.Files[pathIn], b.N, `{"type":"LineString","coordinates":`+badCoords[b.N/5%len(badCoords)]+"}")
	case "in-position":
		r.Files[pathIn] = replaceLine(r.Files[pathIn], b.N, `{"type":"LineString","coordinates":`+[]string{"[[1],[2,3]]", "[[1,2],[]]", "[[],[]]"}[b.N/5%3]+"}")
	case "in-part":
		r.Files[pathIn] = replaceLine(r.Files[pathIn], b.N, []string{
			`{"type":"MultiLineString","coordinates":[[[0,0],[9,9]],%s]}`,
			`{"type":"Feature","properties":{},"geometry":{"type":"MultiLineString","coordinates":[[[0,0],[9,9]],%s]}}`,
			`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"LineString","coordinates":[[0,0],[9,9]]}},{"type":"Feature","properties":{},"geometry":{"type":"LineString","coordinates":%s}}]}`,
			`{"type":"Feature","properties":{"a":1},"geometry":{"type":"LineString","coordinates":%s}}`}[b.N/5%4])
		r.Files[pathIn] = strings.Replace(r.Files[pathIn], "%s", []string{`7`, `"x"`, `[[1,2]]`, `[]`, `[[1,2],[3]]`, `[[1,2],["3",4]]`, `[[1,2],[3,1e999]]`, `null`, `[[1,2],null]`, `[[1,2,"t"],[3,4,5]]`}[b.N/20%10], 1)
	case "in-props":
		r.Files[pathIn] = replaceLine(r.Files[pathIn], b.N, `{"type":"Feature","properties":`+[]string{`7`, `"x"`, `[1]`, `true`}[b.N/5%4]+`,"geometry":{"type":"LineString","coordinates":[[0,0],[9,9],[20,1]]}}`)
	case "in-tail", "con-tail":
		p := pathIn
		if b.Kind == "con-tail" {
			p = pathCon
		}
		lines := strings.Split(strings.TrimRight(r.Files[p], "\n"), "\n")
		for k := range lines {
			if l := &lines[(k+b.N)%len(lines)]; strings.HasPrefix(strings.TrimSpace(*l), "{") {
				*l = strings.TrimSpace(*l) + []string{"x", "}", " {}", ",", "]"}[b.N/5%5]
				r.Files[p] = strings.Join(lines, "\n")
				return
			}
		}
		r.Files[p] += "\nx"
	case "con-part":
		r.Files[pathCon] = replaceLine(r.Files[pathCon], b.N, []string{
			`{"type":"Polygon","coordinates":[]}`, `{"type":"Polygon","coordinates":[[]]}`,
			`{"type":"MultiPolygon","coordinates":[[[[0,0],[1,1],[1,0],[0,0]]],7]}`,
			`{"type":"MultiPoint","coordinates":[[1,2],[3]]}`, `{"type":"MultiPoint","coordinates":[[1,2],[]]}`,
			`{"type":"Point","coordinates":[]}`, `{"type":"Point","coordinates":[1]}`, `{"type":"Point","coordinates":[1,1e999]}`,
			`{"type":"LineString","coordinates":[[1,2]]}`, `{"type":"LineString","coordinates":[]}`,
			`{"type":"MultiLineString","coordinates":[[[0,0],[1,1]],[[2]]]}`, `{"type":"MultiLineString","coordinates":[[[0,0],[1,1]],"x"]}`,
			`{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":["1",2]}}`,
			`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[1,2]}},{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":[null,2]}}]}`,
		}[b.N/5%14])
	case "in-short":
		r.Files[pathIn] = replaceLine(r.Files[pathIn], b.N, `{"type":"LineString","coordinates":`+[]string{"[]", "[[1,2]]"}[b.N/5%2]+"}")
	case "con-cut":
		r.Files[pathCon] = cutLine(r.Files[pathCon], b.N)
	case "con-garbage":
		r.Files[pathCon] = replaceLine(r.Files[pathCon], b.N, garbage[b.N/5%len(garbage)])
	case "con-coord":
		r.Files[pathCon] = replaceLine(r.Files[pathCon], b.N, []string{
			`{"type":"Point","coordinates":["a","b"]}`, `{"type":"Polygon","coordinates":[[0,0],[1,1]]}`,
			`{"type":"LineString","coordinates":7}`, `{"type":"Point","coordinates":{"x":1}}`}[b.N/5%4])
	}
}
