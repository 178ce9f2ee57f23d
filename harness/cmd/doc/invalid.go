package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

// invalidCase: after history H (0 empty collection, 1 documents, 2 documents
// and a restart, 3 only documents without vectors) the requests of one kind
// are made; each has to be refused and to leave nothing behind.
type invalidCase struct {
	Kind string
	H    int
	I    int `json:"i,omitempty"`
}

func (l *life) start(h int) {
	l.cols = map[string]*dsim.MCol{}
	m := dsim.NewCol("col")
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("history: %v", err))
		}
	}
	must(l.cl.CreateCollection(m.Real()))
	l.cols["col"] = m
	var ds []*dsim.MDoc
	switch h {
	case 1, 2:
		ds = []*dsim.MDoc{dsim.D("a", 1, dsim.Alphabet[0]), dsim.DT("b", 2, 4), dsim.DN("c", 3)}
	case 3:
		ds = []*dsim.MDoc{dsim.DN("a", 1), dsim.DN("b", 2)}
	}
	if ds != nil {
		must(dsim.Add(l.cl, "col", ds...))
		m.Put(ds...)
	}
	if h == 2 {
		l.cl = dsim.Open(l.st)
	}
}

type badDoc struct {
	name string
	doc  *document.Document
	// dims: only invalid when the collection or the batch has a vector of
	// another length
	dims bool
}

func badDocs() []badDoc {
	var l []badDoc
	n := 40
	add := func(name string, change func(p map[string]interface{})) {
		n++
		p := map[string]interface{}{"title": fmt.Sprintf("bad-%d", n), "n": float64(n), "content": "v3"}
		change(p)
		l = append(l, badDoc{name: name, doc: &document.Document{ID: fmt.Sprintf("bad%d", n), Properties: p}})
	}
	vec := func(name string, v interface{}) {
		add("vector "+name, func(p map[string]interface{}) { p["vector"] = v })
	}
	inf, nan := math.Inf(1), math.NaN()
	vec("[]float64", []float64{1, 2, 3})
	vec("[]int", []int{1, 2, 3})
	vec("string", "1,2,3")
	vec("number", 1.5)
	vec("bool", true)
	vec("map", map[string]interface{}{"x": 1})
	vec("list of strings", []interface{}{"1", "2", "3"})
	vec("list with null", []interface{}{1.0, nil, 3.0})
	vec("list with list", []interface{}{1.0, []interface{}{2.0}, 3.0})
	vec("list with bool at the end", []interface{}{1.0, 2.0, true})
	vec("not a number", []interface{}{json.Number("1"), json.Number("abc"), json.Number("3")})
	vec("number out of range", []interface{}{json.Number("1"), json.Number("1e400"), json.Number("3")})
	vec("number out of float32", []interface{}{json.Number("1"), json.Number("1e300"), json.Number("3")})
	vec("float64 out of float32", []interface{}{1.0, 2.0, -1e300})
	vec("NaN", []float32{1, float32(nan), 3})
	vec("Inf", []float32{1, float32(inf), 3})
	vec("-Inf", []float32{float32(-inf), 0, 0})
	vec("NaN in list", []interface{}{1.0, nan, 3.0})
	vec("Inf in list", []interface{}{float32(inf), float32(1), float32(2)})
	vec("empty", []float32{})
	vec("empty list", []interface{}{})
	vec("nil slice", []float32(nil))
	for _, k := range []int{1, 2, 4, 7} {
		v := make([]float32, k)
		for i := range v {
			v[i] = float32(i + 1)
		}
		vec(fmt.Sprintf("of length %d", k), v)
		l[len(l)-1].dims = true
	}
	for _, v := range []interface{}{7, 1.5, true, []interface{}{"a"}, map[string]interface{}{"a": "b"}, nil} {
		v := v
		add(fmt.Sprintf("text %v", v), func(p map[string]interface{}) { p["content"] = v })
	}
	add("second text property", func(p map[string]interface{}) { p["more"] = 3 })
	for _, f := range []string{"title", "n"} {
		f := f
		add("without "+f, func(p map[string]interface{}) { delete(p, f) })
		for _, v := range []interface{}{nil, true, []interface{}{"x"}, map[string]interface{}{"k": "v"}} {
			v := v
			add(fmt.Sprintf("%s=%v", f, v), func(p map[string]interface{}) { p[f] = v })
		}
	}
	add("title a number", func(p map[string]interface{}) { p["title"] = 5 })
	add("n a string", func(p map[string]interface{}) { p["n"] = "5" })
	for name, v := range map[string]interface{}{"channel": make(chan int), "function": func() {}, "NaN": nan, "Inf": inf, "bad number": json.Number("1x")} {
		v := v
		add("extra property "+name, func(p map[string]interface{}) { p["extra"] = v })
		add("nested "+name, func(p map[string]interface{}) { p["extra"] = []interface{}{map[string]interface{}{"x": v}} })
	}
	l = append(l,
		badDoc{name: "nil"},
		badDoc{name: "no properties", doc: &document.Document{ID: "bad1"}},
		badDoc{name: "no id", doc: &document.Document{Properties: map[string]interface{}{"title": "bad-noid", "n": 77.0, "vector": []float32{1, 2, 3}}}},
	)
	return l
}

type badRequest struct {
	name string
	do   func(c *document.Client) error
}

func badReads() []badRequest {
	var l []badRequest
	near := func(name, col string, q dsim.Near) {
		l = append(l, badRequest{name: name, do: func(c *document.Client) error {
			if q.Text == "" {
				_, _, err := c.GetNearDocumentsByVector(col, q.Vec, q.Dist, q.Limit)
				return err
			}
			_, _, err := c.GetNearDocuments(col, q.Text, q.Dist, q.Limit)
			return err
		}})
	}
	v := dsim.Alphabet[6]
	for _, lim := range []int{-1, -2, math.MinInt} {
		near(fmt.Sprintf("near-vector limit %d", lim), "col", dsim.Near{Vec: v, Dist: 1, Limit: lim})
		near(fmt.Sprintf("near-text limit %d", lim), "col", dsim.Near{Text: "v1", Dist: 1, Limit: lim})
	}
	for _, n := range []string{"none", "", "Col", "co", "col2", "fave_col", "col ", " "} {
		n := n
		near(fmt.Sprintf("near-vector on %q", n), n, dsim.Near{Vec: v, Dist: 1})
		near(fmt.Sprintf("near-text on %q", n), n, dsim.Near{Text: "v1", Dist: 1})
		l = append(l, badRequest{fmt.Sprintf("get on %q", n), func(c *document.Client) error { _, err := c.GetDocument(n, "id", "a"); return err }})
		l = append(l, badRequest{fmt.Sprintf("add on %q", n), func(c *document.Client) error { return dsim.Add(c, n, dsim.D("zz", 90, dsim.Alphabet[1])) }})
	}
	for _, x := range [][2]string{{"id", "none"}, {"id", "A"}, {"id", "a "}, {"id", "aa"}, {"title", "t"}, {"title", ""}, {"n", "999"}, {"n", "x"}, {"n", "-1"}, {"none", "a"}, {"none", ""}, {"content", "v4"}, {"hnswId", "999"}, {"ID", "a"}} {
		x := x
		if x[1] == "" {
			continue // an empty value means "any document"
		}
		l = append(l, badRequest{fmt.Sprintf("get %s=%s", x[0], x[1]), func(c *document.Client) error { _, err := c.GetDocument("col", x[0], x[1]); return err }})
	}
	return l
}

// badVectors are queries that cannot be compared with the stored vectors.
func badVectors() map[string][]float32 {
	inf, nan := float32(math.Inf(1)), float32(math.NaN())
	return map[string][]float32{"empty": {}, "nil": nil, "length 1": {1}, "length 2": {1, 2}, "length 4": {1, 2, 3, 4}, "length 8": {1, 2, 3, 4, 5, 6, 7, 8},
		"NaN": {1, nan, 2}, "Inf": {inf, 0, 0}, "-Inf": {0, -inf, 0}, "Inf and -Inf": {inf, -inf, 0}}
}

func tryErr(f func() error) (err error, panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			err, panicked = fmt.Errorf("panic: %v", p), true
		}
	}()
	return f(), false
}

// traces checks that the collections are as the model says, also after one
// more valid add and after a restart.
func (l *life) traces(bad ...*document.Document) error {
	ids := []string{}
	for _, d := range bad {
		if d != nil && d.ID != "" {
			ids = append(ids, d.ID)
		}
	}
	check := func(when string) error {
		if err := l.checkNamed("col"); err != nil {
			return fmt.Errorf("%s: %v", when, err)
		}
		for _, id := range ids {
			if l.cols["col"].Get(id) == nil {
				if raw, err := l.cl.GetDocument("col", "id", id); err == nil {
					return fmt.Errorf("%s: the refused document is there: %s", when, raw)
				}
			}
		}
		return nil
	}
	if err := check("afterwards"); err != nil {
		return err
	}
	l.rev++
	d := dsim.D(fmt.Sprintf("more%d", l.rev), 60+l.rev, dsim.Alphabet[l.rev%9])
	if err := dsim.Add(l.cl, "col", d); err != nil {
		return fmt.Errorf("a valid document is refused afterwards: %v", err)
	}
	l.cols["col"].Put(d)
	if err := check("after one more document"); err != nil {
		return err
	}
	l.cl = dsim.Open(l.st)
	return check("after a restart")
}

func runInvalid(c kit.Case, r *kit.Result) {
	var ic invalidCase
	if err := json.Unmarshal(c.Data, &ic); err != nil {
		panic(err)
	}
	fresh := func() *life {
		dsim.SeedLevels(int64(ic.H))
		l := &life{st: dsim.World.Fresh(), pods: map[string]map[string]*dsim.MCol{}, pod: fenv.Pod}
		l.cl = dsim.Open(l.st)
		l.start(ic.H)
		return l
	}
	refuse := func(l *life, name string, f func() error) {
		r.Transitions++
		err, panicked := tryErr(f)
		if panicked {
			r.Fail("panic", "%s: %v", name, err)
		} else if err == nil {
			r.Fail("accepted", "%s is not refused", name)
		}
		r.State(ic.Kind, ic.H, name)
		r.Outcome(ic.Kind + " refused")
	}
	switch ic.Kind {
	case "doc":
		// alone, and at every place of a batch of valid documents
		b := badDocs()[ic.I]
		for place := -1; place < 3; place++ {
			l := fresh()
			good := []*dsim.MDoc{dsim.D("g1", 31, dsim.Alphabet[7]), dsim.DT("g2", 32, 8), dsim.D("a", 33, dsim.Alphabet[2])}
			reals := dsim.Reals(good...)
			var batch []*document.Document
			if place < 0 {
				batch = []*document.Document{b.doc}
			} else {
				batch = append(batch, reals[:place]...)
				batch = append(batch, b.doc)
				batch = append(batch, reals[place:]...)
			}
			if b.dims && place < 0 && (ic.H == 0 || ic.H == 3) {
				continue // the first vector of the collection
			}
			r.Executions++
			refuse(l, fmt.Sprintf("document with %s at place %d after history %d", b.name, place, ic.H), func() error {
				return l.cl.AddDocuments("col", dsim.Vectorize, batch...)
			})
			for _, g := range good {
				if l.cols["col"].Get(g.ID) == nil {
					if raw, err := l.cl.GetDocument("col", "id", g.ID); err == nil {
						r.Fail("partly", "document with %s at place %d after history %d: the batch is refused, but %s is there", b.name, place, ic.H, raw)
					}
				}
			}
			if err := l.traces(append([]*document.Document{b.doc}, reals[0], reals[1])...); err != nil {
				r.Fail("trace", "document with %s at place %d after history %d: %v", b.name, place, ic.H, err)
			}
		}
	case "read":
		l := fresh()
		r.Executions++
		for _, b := range badReads() {
			refuse(l, fmt.Sprintf("%s after history %d", b.name, ic.H), func() error { return b.do(l.cl) })
		}
		if err := l.traces(&document.Document{ID: "zz"}); err != nil {
			r.Fail("trace", "after bad reads and history %d: %v", ic.H, err)
		}
	case "vector":
		l := fresh()
		r.Executions++
		for name, v := range badVectors() {
			for _, lim := range []int{0, 1} {
				v := v
				var docs [][]byte
				err, panicked := tryErr(func() (err error) {
					docs, _, err = l.cl.GetNearDocumentsByVector("col", append([]float32{}, v...), 2.5, lim)
					return
				})
				r.Transitions++
				r.State("vector", ic.H, name, lim)
				if panicked {
					r.Fail("panic", "near-search by a vector with %s after history %d: %v", name, ic.H, err)
				} else if err == nil && len(docs) > 0 {
					r.Fail("accepted", "near-search by a vector with %s after history %d returned %d documents", name, ic.H, len(docs))
				} else if err == nil && (ic.H == 1 || ic.H == 2) {
					r.Fail("accepted", "near-search by a vector with %s after history %d is not refused", name, ic.H)
				}
			}
		}
		if err := l.traces(); err != nil {
			r.Fail("trace", "after bad searches and history %d: %v", ic.H, err)
		}
	case "wide":
		// vectors of I dimensions: whichever component is not a number, and
		// every other length, is refused, in documents and in searches
		runWide(ic, r)
	case "typed":
		// every kind of value in every kind of index
		runTyped(ic, r)
	case "pod":
		// pods that cannot be opened or created, and accounts that do not exist
		l := fresh()
		for _, x := range []badRequest{
			{"opening a pod without a name", func(c *document.Client) error { return c.OpenPod("") }},
			{"opening a pod with a long name", func(c *document.Client) error { return c.OpenPod(strings.Repeat("p", 65)) }},
			{"opening a pod with a very long name", func(c *document.Client) error { return c.OpenPod(strings.Repeat("pod ", 500)) }},
			{"login with a wrong password", func(c *document.Client) error { return c.Login(fenv.User, "wrong password 12") }},
			{"login of nobody", func(c *document.Client) error { return c.Login("nobody", fenv.Password) }},
			{"login without a name", func(c *document.Client) error { return c.Login("", fenv.Password) }},
			{"login without a password", func(c *document.Client) error { return c.Login(fenv.User, "") }},
		} {
			r.Executions++
			refuse(l, x.name, func() error { return x.do(l.cl) })
			if err := l.traces(); err != nil {
				r.Fail("trace", "%s after history %d: %v", x.name, ic.H, err)
				return
			}
		}
	case "distance":
		// distances that exclude everything, and NaN
		l := fresh()
		r.Executions++
		for _, d := range []float64{-1, -1e-3, math.Inf(-1)} {
			docs, _, err := l.cl.GetNearDocumentsByVector("col", append([]float32{}, dsim.Alphabet[0]...), float32(d), 0)
			if err != nil || len(docs) > 0 {
				r.Fail("distance", "near-search within distance %v after history %d: %d documents, %v", d, ic.H, len(docs), err)
			}
			r.Transitions++
		}
		for _, d := range []float64{3, 1e30, math.Inf(1)} {
			q := dsim.Near{Vec: dsim.Alphabet[6], Dist: float32(d)}
			if err := l.near("col", q); err != nil {
				r.Fail("distance", "history %d: %v", ic.H, err)
			}
			r.Transitions++
		}
		for _, lim := range []int{1 << 20, math.MaxInt} {
			q := dsim.Near{Vec: dsim.Alphabet[6], Dist: 2.5, Limit: lim}
			if err := l.near("col", q); err != nil {
				r.Fail("limit", "history %d: %v", ic.H, err)
			}
			r.Transitions++
		}
		r.State("distance", ic.H)
		r.Outcome("distance")
	case "order":
		// before Login, before OpenPod, after a failed Login
		stages := []string{"new client", "logged in", "wrong password", "pod not opened after restart"}
		stage := stages[ic.I]
		st := dsim.World.Fresh()
		if ic.H > 0 {
			l := &life{st: st, cl: dsim.Open(st)}
			l.start(ic.H)
		}
		api := dsim.World.API(st)
		cl, err := document.New(document.Config{VectorizerUrl: fenv.VecURL}, api)
		if err != nil {
			panic(err)
		}
		switch stage {
		case "logged in", "pod not opened after restart":
			if err := cl.Login(fenv.User, fenv.Password); err != nil {
				panic(err)
			}
		case "wrong password":
			if err := cl.Login(fenv.User, "wrong password 12"); err == nil {
				r.Fail("login", "a wrong password is accepted")
			}
			if err := cl.Login("nobody", fenv.Password); err == nil {
				r.Fail("login", "an unknown user is accepted")
			}
			if err := cl.OpenPod(fenv.Pod); err == nil {
				r.Fail("login", "a pod can be opened without a login")
			}
		}
		r.Executions++
		l := &life{st: st, cl: cl}
		for _, q := range []badRequest{
			{"create", func(c *document.Client) error { return c.CreateCollection(dsim.NewCol("new").Real()) }},
			{"delete", func(c *document.Client) error { return c.DeleteCollection("col") }},
			{"list", func(c *document.Client) error { _, err := c.GetCollections(); return err }},
			{"add", func(c *document.Client) error { return dsim.Add(c, "col", dsim.D("q", 50, dsim.Alphabet[1])) }},
			{"add text", func(c *document.Client) error { return dsim.Add(c, "col", dsim.DT("q", 50, 1)) }},
			{"get", func(c *document.Client) error { _, err := c.GetDocument("col", "id", "a"); return err }},
			{"near-vector", func(c *document.Client) error {
				_, _, err := c.GetNearDocumentsByVector("col", []float32{1, 2, 3}, 1, 0)
				return err
			}},
			{"near-text", func(c *document.Client) error { _, _, err := c.GetNearDocuments("col", "v1", 1, 0); return err }},
		} {
			refuse(l, fmt.Sprintf("%s by a %s (history %d)", q.name, stage, ic.H), func() error { return q.do(cl) })
		}
		// and then it works
		if err := cl.Login(fenv.User, fenv.Password); err != nil {
			r.Fail("login", "login after refused requests (%s): %v", stage, err)
			return
		}
		if err := cl.OpenPod(fenv.Pod); err != nil {
			r.Fail("login", "opening the pod after refused requests (%s): %v", stage, err)
			return
		}
		names, err := dsim.Names(cl)
		want := "[]"
		if ic.H > 0 {
			want = "[col]"
		}
		if err != nil || fmt.Sprint(names) != want {
			r.Fail("trace", "collections after refused requests (%s): %v %v", stage, names, err)
		}
	case "collection":
		// what a collection can be created with
		for _, x := range []struct {
			name string
			col  *document.Collection
			ok   bool
		}{
			{"nil indexes", &document.Collection{Name: "new"}, true},
			{"no indexes", &document.Collection{Name: "new", Indexes: map[string]collection.IndexType{}}, true},
			{"own hnswId", &document.Collection{Name: "new", Indexes: map[string]collection.IndexType{"hnswId": collection.NumberIndex}}, true},
			{"all types", &document.Collection{Name: "new", Indexes: map[string]collection.IndexType{"s": collection.StringIndex, "n": collection.NumberIndex, "m": collection.MapIndex, "l": collection.ListIndex}}, true},
		} {
			l := fresh()
			r.Executions++
			err, panicked := tryErr(func() error { return l.cl.CreateCollection(x.col) })
			if panicked || x.ok && err != nil {
				r.Fail("create", "creating a collection with %s: %v", x.name, err)
				continue
			}
			d := &document.Document{ID: "p", Properties: map[string]interface{}{"s": "x", "n": 1.0, "m": map[string]interface{}{"k": "v"}, "l": []interface{}{"i"}, "vector": []float32{1, 2, 3}}}
			if err := l.cl.AddDocuments("new", nil, d); err != nil {
				r.Fail("create", "adding to a collection with %s: %v", x.name, err)
				continue
			}
			for restart := 0; restart < 2; restart++ {
				if raw, err := l.cl.GetDocument("new", "id", "p"); err != nil {
					r.Fail("create", "getting from a collection with %s (restart=%d): %s %v", x.name, restart, raw, err)
				}
				if docs, _, err := l.cl.GetNearDocumentsByVector("new", []float32{1, 2, 3}, 1, 0); err != nil || len(docs) != 1 {
					r.Fail("create", "near-search in a collection with %s (restart=%d): %d documents, %v", x.name, restart, len(docs), err)
				}
				l.cl = dsim.Open(l.st)
			}
			r.State("collection", ic.H, x.name)
			r.Transitions += 6
		}
		r.Outcome("collection")
	}
	r.Sample("%s: refused without a trace", c.Data)
}

// runTyped: a collection with an index of every type (H 1: with a document in
// it; I 1: reopened). For every index, every kind of value that does not fit it
// is refused without a trace, alone and behind a valid document, and every kind
// that does is stored.
func runTyped(ic invalidCase, r *kit.Result) {
	type m = map[string]interface{}
	type l = []interface{}
	kinds := []struct {
		name string
		v    interface{}
		fits string
	}{
		{"nothing", nil, ""}, {"text", "x", "s"}, {"empty text", "", "s"}, {"number", 1.0, "n"}, {"whole number", 7, "n"}, {"json number", json.Number("12"), "n"},
		{"bool", true, ""}, {"list", l{"i", "j"}, "l"}, {"list of one", l{"i"}, "l"}, {"empty list", l{}, "l"}, {"strings", []string{"i", "j"}, "l"},
		{"map", m{"k": "v", "k2": "w"}, "m"}, {"empty map", m{}, "m"}, {"map of strings", map[string]string{"k": "v"}, "m"},
		{"list of numbers", l{1.0}, ""}, {"list with a number at the end", l{"i", "j", 2.0}, ""}, {"list with null", l{"i", nil}, ""}, {"list with a bool", l{true, "i"}, ""},
		{"list with a list", l{l{"i"}}, ""}, {"list with a map", l{m{"k": "v"}, "i"}, ""},
		{"map of a number", m{"k": 1.0}, ""}, {"map with a number", m{"a": "v", "k": 1.0, "z": "w"}, ""}, {"map with null", m{"k": nil, "a": "v"}, ""}, {"map with a bool", m{"k": false}, ""},
		{"map with a list", m{"k": l{"v"}}, ""}, {"map with a map", m{"k": m{"v": "w"}}, ""},
	}
	good := func() m { return m{"s": "x", "n": 1.0, "m": m{"k": "v"}, "l": l{"i"}, "vector": []float32{1, 2, 3}} }
	for _, field := range []string{"s", "n", "m", "l", "missing"} {
		for _, k := range kinds {
			if field == "missing" && k.v != nil {
				continue
			}
			dsim.SeedLevels(1)
			st := dsim.World.Fresh()
			cl := dsim.Open(st)
			if err := cl.CreateCollection(&document.Collection{Name: "typed", Indexes: map[string]collection.IndexType{"s": collection.StringIndex, "n": collection.NumberIndex, "m": collection.MapIndex, "l": collection.ListIndex}}); err != nil {
				panic(err)
			}
			there := map[string]bool{}
			put := func(id string, p m) (error, bool) {
				return tryErr(func() error {
					return cl.AddDocuments("typed", nil, &document.Document{ID: id, Properties: p})
				})
			}
			if ic.H == 1 {
				if err, _ := put("first", good()); err != nil {
					panic(err)
				}
				there["first"] = true
			}
			if ic.I == 1 {
				cl = dsim.Open(st)
			}
			p := good()
			name := fmt.Sprintf("history %d, restart %d: %s with %s", ic.H, ic.I, field, k.name)
			if field == "missing" {
				delete(p, "l")
			} else {
				p[field] = k.v
			}
			r.Executions++
			r.Transitions++
			r.State("typed", ic.H, ic.I, field, k.name)
			err, panicked := put("bad", p)
			fits := k.fits == field
			switch {
			case panicked:
				r.Fail("panic", "%s: %v", name, err)
				continue
			case fits && err != nil:
				r.Fail("refused", "%s is refused: %v", name, err)
				continue
			case !fits && err == nil:
				r.Fail("accepted", "%s is not refused", name)
				continue
			}
			if fits {
				there["bad"] = true
			} else {
				err, panicked = tryErr(func() error {
					return cl.AddDocuments("typed", nil, &document.Document{ID: "before", Properties: good()}, &document.Document{ID: "bad", Properties: p}, &document.Document{ID: "after", Properties: good()})
				})
				if panicked {
					r.Fail("panic", "batch: %s: %v", name, err)
					continue
				}
				if err == nil {
					r.Fail("accepted", "batch: %s is not refused", name)
					continue
				}
			}
			look := func(when string) {
				for _, id := range []string{"first", "bad", "before", "after", "last"} {
					_, err := cl.GetDocument("typed", "id", id)
					if (err == nil) != there[id] {
						r.Fail("trace", "%s: %s document %s: %v", name, when, id, err)
						return
					}
				}
				docs, _, err := cl.GetNearDocumentsByVector("typed", []float32{1, 2, 4}, 2.5, 0)
				if err != nil || len(docs) != len(there) {
					r.Fail("trace", "%s: %s a search finds %d documents, want %d (%v)", name, when, len(docs), len(there), err)
				}
			}
			look("then")
			if err, _ := put("last", good()); err != nil {
				r.Fail("trace", "%s: a valid document is refused afterwards: %v", name, err)
				continue
			}
			there["last"] = true
			look("after another document")
			cl = dsim.Open(st)
			look("after a restart")
		}
	}
	r.Outcome("typed")
}

// wideVec is the k-th vector of n components.
func wideVec(n, k int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = float32((i*7+k*k*11)%13) - 5.5
	}
	return v
}

// runWide: H 0 an empty collection, 1 documents, 2 documents and a restart,
// 3 documents without vectors only; all vectors have I components.
func runWide(ic invalidCase, r *kit.Result) {
	n := ic.I
	dsim.SeedLevels(int64(ic.H))
	st := dsim.World.Fresh()
	cl := dsim.Open(st)
	if err := cl.CreateCollection(&document.Collection{Name: "wide"}); err != nil {
		panic(err)
	}
	var good []string
	put := func(id string, v []float32) error {
		d := &document.Document{ID: id, Properties: map[string]interface{}{"x": id}}
		if v != nil {
			d.Properties["vector"] = v
		}
		return cl.AddDocuments("wide", nil, d)
	}
	keep := func(k int) {
		id := fmt.Sprintf("g%d", k)
		if err := put(id, wideVec(n, k)); err != nil {
			r.Fail("wide", "a document with %d components (history %d) is refused: %v", n, ic.H, err)
			return
		}
		good = append(good, id)
	}
	switch ic.H {
	case 1, 2:
		for k := 1; k <= 3; k++ {
			keep(k)
		}
	case 3:
		if err := put("none", nil); err != nil {
			panic(err)
		}
	}
	if ic.H == 2 {
		cl = dsim.Open(st)
	}
	state := func(when string) {
		r.Transitions++
		for q := 1; q <= 4; q++ {
			docs, _, err := cl.GetNearDocumentsByVector("wide", wideVec(n, q), 3, 0)
			if err != nil || len(docs) != len(good) {
				r.Fail("trace", "%d components, history %d, %s: a search finds %d documents, want %d (%v)", n, ic.H, when, len(docs), len(good), err)
				return
			}
		}
		for _, id := range good {
			if _, err := cl.GetDocument("wide", "id", id); err != nil {
				r.Fail("trace", "%d components, history %d, %s: %s: %v", n, ic.H, when, id, err)
			}
		}
	}
	refuse := func(name string, f func() error) {
		r.Executions++
		r.State("wide", ic.H, n, name)
		if err, panicked := tryErr(f); panicked {
			r.Fail("panic", "%d components, history %d: %s: %v", n, ic.H, name, err)
		} else if err == nil {
			r.Fail("accepted", "%d components, history %d: %s is not refused", n, ic.H, name)
		} else if _, err := cl.GetDocument("wide", "id", "bad"); err == nil {
			r.Fail("trace", "%d components, history %d: %s is refused, but the document is there", n, ic.H, name)
		}
	}
	places := []int{}
	for i := 0; i < n; i++ {
		if n <= 40 || i < 9 || i >= n-9 || i%37 == 0 {
			places = append(places, i)
		}
	}
	specials := map[string]float32{"NaN": float32(math.NaN()), "Inf": float32(math.Inf(1)), "-Inf": float32(math.Inf(-1))}
	for _, name := range []string{"NaN", "Inf", "-Inf"} {
		for _, i := range places {
			v := wideVec(n, 5)
			v[i] = specials[name]
			refuse(fmt.Sprintf("a document with %s at component %d", name, i), func() error { return put("bad", v) })
			if len(good) > 0 {
				w := wideVec(n, 5)
				w[i] = specials[name]
				refuse(fmt.Sprintf("a search with %s at component %d", name, i), func() error {
					_, _, err := cl.GetNearDocumentsByVector("wide", w, 3, 0)
					return err
				})
			}
		}
		state("after vectors with " + name)
	}
	if len(good) == 0 {
		keep(1)
	}
	for _, m := range []int{0, 1, 2, n / 2, n - 1, n + 1, n + 3, 2 * n, 4*n + 1} {
		if m == n || m < 0 {
			continue
		}
		m := m
		refuse(fmt.Sprintf("a document with %d components", m), func() error { return put("bad", wideVec(m, 5)) })
		refuse(fmt.Sprintf("a search with %d components", m), func() error {
			_, _, err := cl.GetNearDocumentsByVector("wide", wideVec(m, 5), 3, 0)
			return err
		})
		state(fmt.Sprintf("after vectors with %d components", m))
	}
	keep(6)
	state("after one more document")
	cl = dsim.Open(st)
	state("after a restart")
	r.Outcome("wide vectors refused")
}

func invalidCases(tier string) []kit.Case {
	var cs []kit.Case
	for h := 0; h < 4; h++ {
		for _, k := range []string{"read", "vector", "distance", "pod", "collection"} {
			cs = append(cs, kit.MkCase(k, invalidCase{Kind: k, H: h}))
		}
		for restart := 0; restart < 2; restart++ {
			if h < 2 {
				cs = append(cs, kit.MkCase("typed", invalidCase{Kind: "typed", H: h, I: restart}))
			}
		}
		for _, n := range []int{1, 2, 8, 9, 16, 17, 33, 300} {
			if tier == "quick" && n > 33 && h > 1 {
				continue
			}
			cs = append(cs, kit.MkCase("wide", invalidCase{Kind: "wide", H: h, I: n}))
		}
		for i := 0; i < 4; i++ {
			cs = append(cs, kit.MkCase("order", invalidCase{Kind: "order", H: h, I: i}))
		}
		for i := range badDocs() {
			cs = append(cs, kit.MkCase("doc", invalidCase{Kind: "doc", H: h, I: i}))
		}
	}
	return cs
}
