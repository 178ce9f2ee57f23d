package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

// confCase: settings of an index as they arrive from a request or from disk.
// Kind "number": field F x all numbers x all companions; "subset": all subsets of
// fields with the first field F; "pair": fields F and G x all pairs of values;
// "shape": documents of another shape; "config": the internal settings; "update": an
// index with the search settings F is given others; "validate": which changes of
// settings are refused.
type confCase struct {
	Kind string `json:"kind"`
	F    int    `json:"f,omitempty"`
	G    int    `json:"g,omitempty"`
}

type field struct {
	path string
	set  func(u *hnsw.UserConfig, v interface{})
	kind byte // i int, b bool, s free text, t encoder type, d encoder distribution
}

var fields = []field{
	{"maxConnections", func(u *hnsw.UserConfig, v interface{}) { u.MaxConnections = v.(int) }, 'i'},
	{"efConstruction", func(u *hnsw.UserConfig, v interface{}) { u.EFConstruction = v.(int) }, 'i'},
	{"cleanupIntervalSeconds", func(u *hnsw.UserConfig, v interface{}) { u.CleanupIntervalSeconds = v.(int) }, 'i'},
	{"ef", func(u *hnsw.UserConfig, v interface{}) { u.EF = v.(int) }, 'i'},
	{"dynamicEfMin", func(u *hnsw.UserConfig, v interface{}) { u.DynamicEFMin = v.(int) }, 'i'},
	{"dynamicEfMax", func(u *hnsw.UserConfig, v interface{}) { u.DynamicEFMax = v.(int) }, 'i'},
	{"dynamicEfFactor", func(u *hnsw.UserConfig, v interface{}) { u.DynamicEFFactor = v.(int) }, 'i'},
	{"vectorCacheMaxObjects", func(u *hnsw.UserConfig, v interface{}) { u.VectorCacheMaxObjects = v.(int) }, 'i'},
	{"flatSearchCutoff", func(u *hnsw.UserConfig, v interface{}) { u.FlatSearchCutoff = v.(int) }, 'i'},
	{"pq.segments", func(u *hnsw.UserConfig, v interface{}) { u.PQ.Segments = v.(int) }, 'i'},
	{"pq.centroids", func(u *hnsw.UserConfig, v interface{}) { u.PQ.Centroids = v.(int) }, 'i'},
	{"skip", func(u *hnsw.UserConfig, v interface{}) { u.Skip = v.(bool) }, 'b'},
	{"pq.enabled", func(u *hnsw.UserConfig, v interface{}) { u.PQ.Enabled = v.(bool) }, 'b'},
	{"pq.bitCompression", func(u *hnsw.UserConfig, v interface{}) { u.PQ.BitCompression = v.(bool) }, 'b'},
	{"distance", func(u *hnsw.UserConfig, v interface{}) { u.Distance = v.(string) }, 's'},
	{"pq.encoder.type", func(u *hnsw.UserConfig, v interface{}) { u.PQ.Encoder.Type = v.(string) }, 't'},
	{"pq.encoder.distribution", func(u *hnsw.UserConfig, v interface{}) { u.PQ.Encoder.Distribution = v.(string) }, 'd'},
}

// defaults are those that the package documents.
func defaults() hnsw.UserConfig {
	return hnsw.UserConfig{MaxConnections: 64, EFConstruction: 128, CleanupIntervalSeconds: 300, EF: -1, DynamicEFMin: 100, DynamicEFMax: 500,
		DynamicEFFactor: 8, VectorCacheMaxObjects: 1e12, FlatSearchCutoff: 40000, Distance: "cosine",
		PQ: hnsw.PQConfig{Centroids: 256, Encoder: hnsw.PQEncoder{Type: "kmeans", Distribution: "log-normal"}}}
}

var ints = []string{"0", "1", "-1", "2", "3", "4", "5", "7", "8", "64", "100", "127", "128", "255", "256", "32767", "65535", "65536", "1000000", "2147483647", "2147483648", "4294967295", "4294967296",
	"-4", "-2147483649", "9007199254740992", "9007199254740993", "1000000000000", "9223372036854775807", "9223372036854775808", "18446744073709551616", "100000000000000000000000", "-9223372036854775808", "-9223372036854775809", "-100000000000000000000000"}

// saturated is the number a text means, limited to the range of int64.
func saturated(s string) int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	if b.Cmp(big.NewInt(math.MaxInt64)) > 0 {
		return math.MaxInt64
	}
	if b.Cmp(big.NewInt(math.MinInt64)) < 0 {
		return math.MinInt64
	}
	return int(b.Int64())
}

// value is a JSON text and what it means (nil: has to be refused).
type value struct {
	js   string
	want interface{}
}

func valuesOf(f field) (vs []value) {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch f.kind {
	case 'i':
		for _, s := range ints {
			vs = append(vs, value{s, saturated(s)})
		}
	case 'b':
		vs = []value{{"true", true}, {"false", false}}
	case 's':
		for _, s := range []string{"cosine", "dot", "l2-squared", "manhattan", "hamming"} {
			vs = append(vs, value{q(s), s})
		}
	case 't':
		vs = []value{{q("tile"), "tile"}, {q("kmeans"), "kmeans"}, {q("Kmeans"), nil}, {q(""), nil}, {q("log-normal"), nil}, {q("kmeans "), nil}}
	case 'd':
		vs = []value{{q("log-normal"), "log-normal"}, {q("normal"), "normal"}, {q("lognormal"), nil}, {q(""), nil}, {q("kmeans"), nil}}
	}
	return vs
}

type setting struct {
	f int
	v value
}

// document is the JSON object with the settings, nested as the paths say.
func document(ss []setting) string {
	tree := map[string]interface{}{}
	for _, s := range ss {
		parts := strings.Split(fields[s.f].path, ".")
		t := tree
		for _, p := range parts[:len(parts)-1] {
			if t[p] == nil {
				t[p] = map[string]interface{}{}
			}
			t = t[p].(map[string]interface{})
		}
		t[parts[len(parts)-1]] = json.RawMessage(s.v.js)
	}
	b, err := json.Marshal(tree)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func decode(js string, number bool) interface{} {
	d := json.NewDecoder(bytes.NewReader([]byte(js)))
	if number {
		d.UseNumber()
	}
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

// tryParse keeps a crash of the parser apart from one of the harness.
func tryParse(in interface{}) (uc hnsw.UserConfig, err error) {
	v, err := hnsw.ParseAndValidateConfig(in)
	if u, ok := v.(hnsw.UserConfig); ok {
		uc = u
	} else if err == nil {
		err = fmt.Errorf("result is a %T", v)
	}
	return uc, err
}

// checkSettings parses one set of settings as numbers and as floats, and the
// result once more.
func checkSettings(r *kit.Result, ss []setting) {
	for _, number := range []bool{true, false} {
		want := defaults()
		refuse := false
		for _, s := range ss {
			v := s.v.want
			if v == nil {
				refuse = true
				continue
			}
			if fields[s.f].kind == 'i' && !number {
				x, _ := new(big.Float).SetString(s.v.js)
				f64, _ := x.Float64()
				b, _ := new(big.Float).SetFloat64(f64).Int(nil)
				v = saturated(b.String())
			}
			fields[s.f].set(&want, v)
		}
		refuse = refuse || want.MaxConnections < 4 || want.EFConstruction < 4
		js := document(ss)
		got, err := tryParse(decode(js, number))
		r.Executions++
		r.Transitions++
		if refuse {
			if err == nil {
				r.Fail("accepted", "settings %s (json.Number: %v) are accepted as %+v", js, number, got)
			}
			continue
		}
		if err != nil {
			r.Fail("refused", "settings %s (json.Number: %v) are refused: %v", js, number, err)
			continue
		}
		if got != want {
			r.Fail("meaning", "settings %s (json.Number: %v) mean %+v, want %+v", js, number, got, want)
			continue
		}
		if got.IndexType() != "hnsw" {
			r.Fail("type", "index type %q", got.IndexType())
		}
		// written down and read again
		b, err := json.Marshal(got)
		if err != nil {
			r.Fail("round-trip", "settings %s: %v", js, err)
			continue
		}
		again, err := tryParse(decode(string(b), true))
		if err != nil || again != got {
			r.Fail("round-trip", "settings %s are %+v, written down and read again %+v, %v", js, got, again, err)
		}
	}
}

func runConf(c kit.Case, r *kit.Result) {
	var cc confCase
	if err := json.Unmarshal(c.Data, &cc); err != nil {
		panic(err)
	}
	switch cc.Kind {
	case "number":
		for _, v := range valuesOf(fields[cc.F]) {
			checkSettings(r, []setting{{cc.F, v}})
			for g := range fields {
				if g != cc.F {
					checkSettings(r, []setting{{cc.F, v}, {g, distinct(g, 0)}})
				}
			}
		}
	case "pair":
		for _, v := range valuesOf(fields[cc.F]) {
			for _, x := range valuesOf(fields[cc.G]) {
				checkSettings(r, []setting{{cc.F, v}, {cc.G, x}})
			}
		}
	case "subset":
		for mask := cc.F; mask < 1<<len(fields); mask += subsetParts {
			var ss []setting
			for f := range fields {
				if mask>>f&1 == 1 {
					ss = append(ss, setting{f, distinct(f, mask%2)})
				}
			}
			checkSettings(r, ss)
		}
	case "race-conf":
		raceConf(cc.F, r)
	case "shape":
		runShapes(r)
	case "config":
		runInternal(r)
	case "update":
		runUpdate(r, cc.F, cc.G)
	case "validate":
		runValidate(r)
	}
	r.State(cc)
	r.Outcome(cc.Kind)
	r.Sample("%+v: every setting means what was written", cc)
}

const subsetParts = 64

// distinct is a value of field f unlike any other field's.
func distinct(f, variant int) value {
	switch fields[f].kind {
	case 'i':
		s := fmt.Sprint(1000*(variant+1) + f)
		return value{s, saturated(s)}
	case 'b':
		return value{"true", true}
	}
	vs := valuesOf(fields[f])
	return vs[1-vs01(fields[f].kind)]
}

// vs01: the index of the default among the first two values.
func vs01(kind byte) int {
	if kind == 't' {
		return 1
	}
	return 0
}

func runShapes(r *kit.Result) {
	for _, in := range []interface{}{"cosine", 3, 3.5, true, []interface{}{}, []interface{}{map[string]interface{}{}}, map[string]string{"distance": "dot"}, map[string]interface{}(nil), json.Number("1"), json.RawMessage("{}")} {
		_, err := tryParse(in)
		r.Executions++
		if err == nil {
			r.Fail("shape", "settings %#v are accepted", in)
		}
	}
	same := func(in interface{}) {
		got, err := tryParse(in)
		r.Executions++
		if err != nil || got != defaults() {
			r.Fail("shape", "settings %#v mean %+v, %v, want the defaults", in, got, err)
		}
	}
	same(nil)
	for _, js := range []string{`{}`, `{"pq":{}}`, `{"pq":{"encoder":{}}}`, `{"unknown":7}`, `{"MaxConnections":7}`, `{"maxconnections":7}`, `{"pq":{"maxConnections":7,"skip":true}}`, `{"encoder":{"type":"tile"}}`, `{"segments":7}`, `{"enabled":true}`} {
		same(decode(js, true))
		same(decode(js, false))
	}
	// numbers that are not whole ones are refused where they can be told apart
	for _, f := range fields {
		if f.kind == 'i' {
			for _, s := range []string{"1.5", "-0.5"} {
				js := document([]setting{{indexOf(f.path), value{s, 0}}})
				if got, err := tryParse(decode(js, true)); err == nil {
					r.Fail("shape", "settings %s are accepted as %+v", js, got)
				}
				r.Executions++
			}
		}
	}
	u := hnsw.NewDefaultUserConfig()
	if u != defaults() {
		r.Fail("shape", "the default settings are %+v, want %+v", u, defaults())
	}
	// defaults replace whatever was there
	u = hnsw.UserConfig{MaxConnections: 1, EFConstruction: 1, CleanupIntervalSeconds: 1, EF: 1, DynamicEFMin: 1, DynamicEFMax: 1, DynamicEFFactor: 1, VectorCacheMaxObjects: 1, FlatSearchCutoff: 1, Skip: true, Distance: "x",
		PQ: hnsw.PQConfig{Enabled: true, BitCompression: true, Segments: 1, Centroids: 1, Encoder: hnsw.PQEncoder{Type: "x", Distribution: "x"}}}
	u.SetDefaults()
	if u != defaults() {
		r.Fail("shape", "SetDefaults gives %+v, want %+v", u, defaults())
	}
}

func indexOf(path string) int {
	for i, f := range fields {
		if f.path == path {
			return i
		}
	}
	panic(path)
}

// runInternal: an index is created with complete internal settings only.
func runInternal(r *kit.Result) {
	for mask := 0; mask < 32; mask++ {
		var c hnsw.Config
		if mask&1 != 0 {
			c.ID = "i"
		}
		if mask&2 != 0 {
			c.RootPath = "-"
		}
		if mask&4 != 0 {
			c.MakeCommitLoggerThunk = hnsw.MakeNoopCommitLogger
		}
		if mask&8 != 0 {
			c.VectorForIDThunk = func(context.Context, uint64) ([]float32, error) { return nil, nil }
		}
		if mask&16 != 0 {
			c.DistanceProvider = distancer.NewCosineDistanceProvider()
		}
		err := c.Validate()
		r.Executions++
		if (err == nil) != (mask == 31) {
			r.Fail("config", "internal settings, set %05b of id, path, log, vectors, distance: %v", mask, err)
		}
		if mask != 31 {
			if _, err := hnsw.New(c, hnsw.NewDefaultUserConfig(), nil); err == nil {
				r.Fail("config", "an index is created with internal settings, set %05b of id, path, log, vectors, distance", mask)
			}
		}
	}
}

func confCases(tier string) (cs []kit.Case) {
	add := func(c confCase) { cs = append(cs, kit.MkCase(c.Kind, c)) }
	for f := range fields {
		add(confCase{Kind: "race-conf", F: f})
	}
	for f := range fields {
		add(confCase{Kind: "number", F: f})
		for g := 0; g < f; g++ {
			add(confCase{Kind: "pair", F: f, G: g})
		}
	}
	for p := 0; p < subsetParts; p++ {
		add(confCase{Kind: "subset", F: p})
	}
	add(confCase{Kind: "shape"})
	add(confCase{Kind: "config"})
	step := 13
	if tier == "thorough" {
		step = 1
	}
	for f := range widths {
		add(confCase{Kind: "update", F: f, G: step})
	}
	add(confCase{Kind: "validate"})
	return cs
}
