package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

// lookCase: documents with the values Vals of the alphabet of Kind in the
// indexed field are added, then those of Repl are replaced: {document, value}.
// Mode: 0 one by one, 1 one batch, 2 a restart after every step.
type lookCase struct {
	Kind string   `json:"kind"`
	Vals []int    `json:"vals"`
	Repl [][2]int `json:"repl,omitempty"`
	Mode int      `json:"mode,omitempty"`
}

// special: the dependency reads the looked-up text as an expression; values
// with these characters cannot be looked up reliably (known finding).
const special = `+?()[]{}^$*|\=<>!`

func lookAlphabet(kind string) []interface{} {
	m := func(kv ...string) interface{} {
		r := map[string]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			r[kv[i]] = kv[i+1]
		}
		return r
	}
	l := func(s ...string) interface{} {
		r := []interface{}{}
		for _, x := range s {
			r = append(r, x)
		}
		return r
	}
	switch kind {
	case "id":
		return []interface{}{"a", "ab", "b", "1", "10", "A", "a b", "é", "a/b", "x?y=1&z", "C++", "(x", "a:b", "a.b", "<b>"}
	case "string":
		return []interface{}{"a", "ab", "abc", "b", "A", "1", "10", "a b", "é", "日本", "a.b", "a/b", "a:b", " ", " a"}
	case "special":
		return []interface{}{"a", "C++", "a?", "(x)", "a=b", "a>b", "<b>", "[x", "^a", "$5", "a|b", "x!", "a*", `\d`, "a.c", ".*", "abc"}
	case "number":
		return []interface{}{0.0, 1.0, 2.0, 10.0, 100.0, 12.0, -1.0, -12.0, 999999.0}
	case "bignumber":
		return []interface{}{1.0, 1e6, 1234567.0, 1e15, 9007199254740992.0, 0.5, 1.5, -2.5, 1e-7}
	case "list":
		return []interface{}{l(), l("x"), l("y"), l("x", "y"), l("y", "x"), l("xy"), l("x", "xy"), l("é", "a b")}
	case "duplist":
		return []interface{}{l("x"), l("x", "x"), l("y", "x", "y")}
	case "map":
		return []interface{}{m(), m("k", "v"), m("k", "w"), m("l", "v"), m("k", "v", "l", "w"), m("k", "vl"), m("kv", "l"), m("k", "")}
	}
	panic(kind)
}

var lookTypes = map[string]collection.IndexType{"string": collection.StringIndex, "special": collection.StringIndex, "number": collection.NumberIndex,
	"bignumber": collection.NumberIndex, "list": collection.ListIndex, "duplist": collection.ListIndex, "map": collection.MapIndex}

// has tells whether a document with value v has to be found by the text q.
func lookHas(v interface{}, q string) bool {
	switch t := v.(type) {
	case string:
		return t == q
	case float64:
		f, err := strconv.ParseFloat(q, 64)
		return err == nil && f == t
	case []interface{}:
		for _, x := range t {
			if x == q {
				return true
			}
		}
	case map[string]interface{}:
		if k, w, ok := strings.Cut(q, ":"); ok {
			return t[k] == w
		}
	}
	return false
}

// lookKeys lists the texts a value is indexed by.
func lookKeys(v interface{}) (ks []string) {
	switch t := v.(type) {
	case string:
		ks = []string{t}
	case []interface{}:
		for _, x := range t {
			ks = append(ks, x.(string))
		}
	case map[string]interface{}:
		for k, x := range t {
			ks = append(ks, k+x.(string))
		}
	}
	return ks
}

// lookQueries lists all texts worth looking up in an alphabet.
func lookQueries(kind string) (qs []string) {
	seen := map[string]bool{}
	add := func(q string) {
		if !seen[q] {
			seen[q] = true
			qs = append(qs, q)
		}
	}
	for _, v := range lookAlphabet(kind) {
		switch t := v.(type) {
		case string:
			add(t)
		case float64:
			add(strconv.FormatFloat(t, 'f', -1, 64))
		case []interface{}:
			for _, x := range t {
				add(x.(string))
			}
		case map[string]interface{}:
			var keys []string
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				add(k + ":" + t[k].(string))
			}
		}
	}
	switch kind {
	case "number", "bignumber":
		add("3")
		add("-3")
		add("x")
		add("1000")
		add("1.25")
	case "map":
		add("l:k")
		add("k:vv")
		add("x:y")
	default:
		add("abcd")
		add("0")
		add("zz")
		add("~")
		add(" ")
		add("  ")
		add("\t")
		add(" a")
	}
	return qs
}

func runLook(c kit.Case, r *kit.Result) {
	var lc lookCase
	if err := json.Unmarshal(c.Data, &lc); err != nil {
		panic(err)
	}
	dsim.SeedLevels(1)
	st := dsim.World.Fresh()
	cl := dsim.Open(st)
	col := &dsim.MCol{Name: "col", Indexes: map[string]collection.IndexType{}}
	field := "id"
	if lc.Kind != "id" {
		field = "f"
		col.Indexes["f"] = lookTypes[lc.Kind]
	}
	if err := cl.CreateCollection(col.Real()); err != nil {
		r.Fail("create", "creating a collection with a %s index: %v", lc.Kind, err)
		return
	}
	vals := lookAlphabet(lc.Kind)
	rev := 0
	mk := func(i, v int) *dsim.MDoc {
		rev++
		d := &dsim.MDoc{ID: fmt.Sprintf("d%d", i), Props: map[string]interface{}{"rev": float64(rev)}}
		if lc.Kind == "id" {
			d.ID = vals[v].(string)
		} else {
			d.Props["f"] = vals[v]
		}
		if rev%2 == 1 {
			d.Vec = dsim.Alphabet[rev%len(dsim.Alphabet)]
		}
		return d
	}
	desc := func() string {
		var s []string
		for i, v := range lc.Vals {
			s = append(s, fmt.Sprintf("add d%d %s=%v", i, field, vals[v]))
		}
		for _, p := range lc.Repl {
			s = append(s, fmt.Sprintf("replace d%d %s=%v", p[0], field, vals[p[1]]))
		}
		return fmt.Sprintf("%s (mode %d)", strings.Join(s, ", "), lc.Mode)
	}
	// shared: a value of a replaced document was also that of another one; the
	// dependency then forgets the other's index entry (known finding)
	shared := map[string]bool{}
	// ever: how many times each index key was written. The dependency's prefix
	// tree handles a key that is a strict prefix of another one wrongly when it
	// is written twice or deleted (known finding).
	ever := map[string]int{}
	prefixed := func(key string) bool {
		for k := range ever {
			if len(k) > len(key) && strings.HasPrefix(k, key) {
				return true
			}
		}
		return false
	}
	put := func(ds ...*dsim.MDoc) bool {
		prefix := false
		for _, d := range ds {
			if lc.Kind == "id" {
				break
			}
			if old := col.Get(d.ID); old != nil {
				for _, k := range lookKeys(old.Props["f"]) {
					prefix = prefix || prefixed(k)
				}
			}
			for _, k := range lookKeys(d.Props["f"]) {
				ever[k]++
			}
		}
		for _, d := range ds {
			if old := col.Get(d.ID); old != nil && lc.Kind != "id" {
				for _, e := range col.Docs {
					if e.ID == d.ID {
						continue
					}
					a, _ := json.Marshal(e.Props["f"])
					b, _ := json.Marshal(old.Props["f"])
					if string(a) == string(b) {
						shared[string(a)] = true
					}
				}
			}
		}
		if err, _ := tryErr(func() error { return dsim.Add(cl, "col", ds...) }); err != nil {
			sig := "add"
			if len(lc.Repl) > 0 {
				sig = "replace"
				if len(shared) > 0 {
					sig = "shared-value"
				} else if prefix && strings.Contains(err.Error(), "no Manifest found") {
					sig = "prefix-value"
				}
			}
			r.Fail(sig, "%v: %s", err, desc())
			return false
		}
		col.Put(ds...)
		if lc.Mode == 2 {
			cl = dsim.Open(st)
		}
		return true
	}
	var ds []*dsim.MDoc
	for i, v := range lc.Vals {
		ds = append(ds, mk(i, v))
	}
	if lc.Mode == 1 {
		if !put(ds...) {
			return
		}
	} else {
		for _, d := range ds {
			if !put(d) {
				return
			}
		}
	}
	for _, p := range lc.Repl {
		if !put(mk(p[0], p[1])) {
			return
		}
	}
	found := 0
	for pass := 0; pass < 2; pass++ {
		for _, q := range lookQueries(lc.Kind) {
			var want []*dsim.MDoc
			for _, d := range col.Docs {
				v := d.Props["f"]
				if lc.Kind == "id" {
					v = d.ID
				}
				if lookHas(v, q) {
					want = append(want, d)
				}
			}
			raw, err := cl.GetDocument("col", field, q)
			r.Transitions++
			if err != nil {
				if len(want) == 0 {
					continue
				}
				sig := "not-found"
				enc, _ := json.Marshal(want[0].Props["f"])
				f, numErr := strconv.ParseFloat(q, 64)
				switch {
				case lc.Kind == "special" && strings.ContainsAny(q, special):
					sig = "special-characters"
				case lc.Kind == "bignumber" && numErr == nil && (f != float64(int64(f)) || f >= 1e6):
					sig = "number-format"
				case shared[string(enc)]:
					sig = "shared-value"
				case ever[strings.Replace(q, ":", "", 1)] > 1 && prefixed(strings.Replace(q, ":", "", 1)):
					sig = "prefix-value"
				}
				r.Fail(sig, "get %s=%s: %v, but document %s has that value: %s", field, q, err, want[0].ID, desc())
				continue
			}
			ok := false
			for _, d := range want {
				ok = ok || dsim.SameDoc(raw, d) == nil
			}
			if !ok {
				r.Fail("wrong-document", "get %s=%s returned %s, which is not a stored document with that value: %s", field, q, raw, desc())
				continue
			}
			found++
		}
		for _, q := range []string{"none", "rev", "vector", "hnswIdx"} {
			if raw, err := cl.GetDocument("col", q, "1"); err == nil {
				r.Fail("not-indexed", "get %s=1 without an index returned %s: %s", q, raw, desc())
			}
		}
		for _, d := range col.Docs {
			if err := dsim.CheckGet(cl, "col", d); err != nil {
				r.Fail("by-id", "%v: %s", err, desc())
			}
		}
		cl = dsim.Open(st)
	}
	r.Executions++
	r.State(lc.Kind, desc())
	r.Outcome(fmt.Sprintf("%s: %d documents, %d replacements, %d found", lc.Kind, len(lc.Vals), len(lc.Repl), found/2))
	r.Sample("%s: every lookup right before and after a restart", desc())
}

func lookCases(tier string) []kit.Case {
	var cs []kit.Case
	add := func(lc lookCase) { cs = append(cs, kit.MkCase(lc.Kind, lc)) }
	for _, kind := range []string{"id", "string", "special", "number", "bignumber", "list", "duplist", "map"} {
		n := len(lookAlphabet(kind))
		for a := 0; a < n; a++ {
			add(lookCase{Kind: kind, Vals: []int{a}, Mode: a % 3})
			for w := 0; w < n; w++ {
				if kind != "id" {
					add(lookCase{Kind: kind, Vals: []int{a}, Repl: [][2]int{{0, w}}, Mode: (a + w) % 3})
				}
			}
			for b := 0; b < n; b++ {
				if a != b || kind != "id" {
					add(lookCase{Kind: kind, Vals: []int{a, b}, Mode: (a + b) % 3})
				}
				if kind == "id" {
					// replace the first of two: the second has to stay
					if a != b {
						add(lookCase{Kind: kind, Vals: []int{a, b, a}, Mode: (a + b) % 3})
					}
					continue
				}
				for i := 0; i < 2; i++ {
					w := (a + 2*b + i + 1) % n
					add(lookCase{Kind: kind, Vals: []int{a, b}, Repl: [][2]int{{i, w}}, Mode: (a + b + i) % 3})
				}
				if tier == "thorough" {
					for w := 0; w < n; w++ {
						add(lookCase{Kind: kind, Vals: []int{a, b, w}, Mode: (a + b + w) % 3})
						add(lookCase{Kind: kind, Vals: []int{a, b}, Repl: [][2]int{{1, w}, {0, (a + w) % n}}, Mode: (a + b + w) % 3})
					}
				} else {
					add(lookCase{Kind: kind, Vals: []int{a, b, (a + 3*b + 1) % n}, Mode: (a + b) % 3})
					add(lookCase{Kind: kind, Vals: []int{a, b}, Repl: [][2]int{{1, (a + b) % n}, {0, (2*a + b + 1) % n}}, Mode: (a + b) % 3})
				}
			}
		}
	}
	return cs
}
