package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/pkg/vectorizer"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

// vectCase: Kind "answer": answer I of the vectorizer to the Kth call of
// operation Op after history H; the other kinds see runVect.
type vectCase struct {
	Kind string
	H    int    `json:"h,omitempty"`
	Op   string `json:"op,omitempty"`
	K    int    `json:"k,omitempty"`
	I    int    `json:"i,omitempty"`
}

type vectAnswer struct {
	name string
	// reply for a request whose right answer is vec
	reply func(r *http.Request, vec []float32) (*http.Response, error)
	// ok: the answer follows the specification and carries the vector
	ok bool
	// dims: a vector, of another dimension than those stored
	dims bool
}

type brokenBody struct{ s *strings.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	if n, err := b.s.Read(p); err == nil {
		return n, nil
	}
	return 0, io.ErrUnexpectedEOF
}
func (brokenBody) Close() error { return nil }

func vectAnswers() []vectAnswer {
	var l []vectAnswer
	text := func(name string, code int, f func(good string, vec []float32) string) *vectAnswer {
		l = append(l, vectAnswer{name: name, reply: func(r *http.Request, vec []float32) (*http.Response, error) {
			good, _ := json.Marshal(map[string]interface{}{"vector": vec})
			return fenv.Resp(r, code, f(string(good), vec)), nil
		}})
		return &l[len(l)-1]
	}
	same := func(good string, _ []float32) string { return good }
	text("200 with the vector", 200, same).ok = true
	text("200 with white space", 200, func(g string, _ []float32) string { return " \n\t" + g + "\n \n" }).ok = true
	text("200 with integers and exponents", 200, func(_ string, v []float32) string {
		var s []string
		for _, x := range v {
			s = append(s, strings.Replace(fmt.Sprintf("%e", x), "e", "E", 1))
		}
		return `{"vector":[` + strings.Join(s, ",") + `]}`
	}).ok = true
	for _, code := range []int{400, 401, 403, 404, 405, 408, 413, 429, 500, 502, 503, 504} {
		text(fmt.Sprintf("%d with a vector", code), code, same)
		text(fmt.Sprintf("%d with a message", code), code, func(string, []float32) string { return `{"error":"no"}` })
		text(fmt.Sprintf("%d with nothing", code), code, func(string, []float32) string { return "" })
	}
	for _, b := range []string{``, `null`, `{}`, `[]`, `"x"`, `7`, `true`, `{"vector":null}`, `{"vector":[]}`, `{"vector":{}}`, `{"vector":"1,2,3"}`, `{"vector":7}`, `{"vector":["1","2","3"]}`,
		`{"vector":[true,false,true]}`, `{"vector":[[1,2,3]]}`, `{"vector":[1,"x",3]}`, `{"vector":[1e300,0,0]}`, `{"vector":[NaN,0,0]}`, `{"vector":[1,2,]}`, `{"vector":[1,2,3]`, `{"vector":[1,2,3`, `{"vector`, `{`,
		`<html><body>not found</body></html>`, `{"vectors":[1,2,3]}`, `[1,2,3]`, `{"error":"out of memory"}`} {
		b := b
		text("200 with "+b, 200, func(string, []float32) string { return b })
	}
	for _, v := range [][]float32{{1}, {1, 2}, {1, 2, 3, 4}, {1, 2, 3, 4, 5, 6, 7, 8, 9}} {
		v := v
		text(fmt.Sprintf("200 with %d dimensions", len(v)), 200, func(string, []float32) string {
			b, _ := json.Marshal(map[string]interface{}{"vector": v})
			return string(b)
		}).dims = true
	}
	l = append(l,
		vectAnswer{name: "no connection", reply: func(*http.Request, []float32) (*http.Response, error) { return nil, errors.New("connection refused") }},
		vectAnswer{name: "timeout", reply: func(*http.Request, []float32) (*http.Response, error) { return nil, errors.New("i/o timeout") }},
		vectAnswer{name: "connection lost in the body", reply: func(r *http.Request, vec []float32) (*http.Response, error) {
			good, _ := json.Marshal(map[string]interface{}{"vector": vec})
			resp := fenv.Resp(r, 200, "")
			resp.Body = brokenBody{strings.NewReader(string(good[:len(good)-3]))}
			resp.ContentLength = int64(len(good))
			return resp, nil
		}})
	return l
}

func vectHist(h int) (*hist, error) {
	x, err := newHist(int64(h))
	if err != nil {
		return nil, err
	}
	for _, op := range [][]int{{}, {0, 1}, {3, 5}, {2}}[h] {
		if err := x.step(op); err != nil {
			return nil, err
		}
	}
	return x, nil
}

func query(body []byte) (string, error) {
	var q map[string]interface{}
	if err := json.Unmarshal(body, &q); err != nil {
		return "", err
	}
	l, ok := q["query"].([]interface{})
	if !ok || len(q) != 1 || len(l) != 1 {
		return "", fmt.Errorf("not one text: %s", body)
	}
	s, ok := l[0].(string)
	if !ok {
		return "", fmt.Errorf("not a text: %s", body)
	}
	return s, nil
}

func runVectAnswer(vc vectCase, r *kit.Result) {
	an := vectAnswers()[vc.I]
	h, err := vectHist(vc.H)
	if err != nil {
		r.Fail("history", "%v", err)
		return
	}
	calls := 0
	script := func(req *http.Request, body []byte) (*http.Response, error, bool) {
		if req.Method != "POST" {
			return nil, nil, false
		}
		calls++
		if calls-1 != vc.K {
			return nil, nil, false
		}
		s, err := query(body)
		if err != nil {
			r.Fail("request", "%v", err)
		}
		resp, err := an.reply(req, dsim.TextVec(s))
		return resp, err, true
	}
	where := fmt.Sprintf("vectorizer call %d of %s after history %d is answered %q", vc.K, vc.Op, vc.H, an.name)
	r.Executions++
	r.Transitions++
	r.State(where)
	hasVec := false
	for _, d := range h.m.Docs {
		hasVec = hasVec || d.Vec != nil
	}
	v := dsim.World.Vect
	defer v.Script(nil)
	switch vc.Op {
	case "near":
		q := dsim.Near{Text: "v4", Dist: 2.5, Limit: 1}
		v.Script(script)
		var docs [][]byte
		var dists []float32
		err, panicked := tryErr(func() (err error) { docs, dists, err = q.Do(h.cl, "col"); return })
		v.Script(nil)
		switch {
		case panicked:
			r.Fail("panic", "%s: %v", where, err)
		case an.ok:
			if e := dsim.JudgeNear(dsim.Want{Must: h.m.Docs}, q, docs, dists, err); e != nil {
				r.Fail("answer", "%s: %v", where, e)
			}
		case an.dims && !hasVec && err == nil && len(docs) == 0:
		case err == nil:
			r.Fail("believed", "%s: the search returns %d documents and no error", where, len(docs))
		}
		if err := h.checkAll(r); err != nil {
			r.Fail("harm", "%s: afterwards %v", where, err)
		}
	default:
		var docs []*dsim.MDoc
		switch vc.Op {
		case "add":
			docs = []*dsim.MDoc{h.doc("t", "p")}
		case "batch":
			docs = []*dsim.MDoc{h.doc("t", "p"), h.doc("v", "q"), h.doc("t", "r"), h.doc("n", "s"), h.doc("t", "t")}
		case "replace":
			docs = []*dsim.MDoc{h.doc("t", "a"), h.doc("t", "b")}
		}
		before := h.m
		v.Script(script)
		err, panicked := tryErr(func() error { return dsim.Add(h.cl, "col", docs...) })
		v.Script(nil)
		if panicked {
			r.Fail("panic", "%s: %v", where, err)
			return
		}
		if an.ok && err != nil {
			r.Fail("refused", "%s: the add fails: %v", where, err)
			return
		}
		// a first vector may have any dimension, and decides about the others
		free := an.dims && !hasVec && vc.K == 0
		if !an.ok && err == nil && !free {
			r.Fail("believed", "%s: the add is acknowledged", where)
			return
		}
		if free {
			r.Outcome("first vector of any dimension")
			return
		}
		if err == nil {
			h.m = before.Clone()
			h.m.Put(docs...)
		}
		if err != nil {
			// nothing of the batch is there, for this process and for another
			if e := h.nothingStored(docs, r); e != nil {
				r.Fail("partly", "%s: the add fails (%v) and then: %v", where, err, e)
				return
			}
			hr := &hist{st: h.st.Clone(), m: h.m}
			hr.cl = dsim.Open(hr.st)
			if e := hr.nothingStored(docs, r); e != nil {
				r.Fail("partly", "%s: the add fails (%v) and after a restart: %v", where, err, e)
				return
			}
		}
		if fe := h.judgeFaultyAdd(before, docs, err, r); fe != nil {
			r.Fail(fe.sig, "%s: %v", where, fe.err)
		}
	}
	r.Outcome(fmt.Sprintf("%s ok=%v", vc.Op, an.ok))
}

// nothingStored checks that the collection is as before, without the documents.
func (h *hist) nothingStored(docs []*dsim.MDoc, r *kit.Result) error {
	if err := h.checkAll(r); err != nil {
		return err
	}
	for _, d := range docs {
		if h.m.Get(d.ID) == nil {
			if raw, err := h.cl.GetDocument(h.m.Name, "id", d.ID); err == nil {
				return fmt.Errorf("%s of the refused batch is there: %s", d.ID, raw)
			}
		}
	}
	return nil
}

// runVectRequest: which requests the vectorizer gets.
func runVectRequest(vc vectCase, r *kit.Result) {
	values := []string{"one", "two words", "", " lead", "trail ", "é漢字", "quote\"back\\slash", "line\nbreak", "{\"query\":[]}", "&<>", "inner  blanks", "\ttab\t"}
	props := []string{"p1", "p2", "p3"}
	// every list of up to 3 of 4 property names (one of them missing)
	var lists [][]string
	names := []string{"p1", "p2", "p3", "missing"}
	sequences(len(names), 3, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, names[i])
		}
		lists = append(lists, l)
	})
	lists = append(lists, nil, []string{})
	h, err := newHist(3)
	if err != nil {
		r.Fail("history", "%v", err)
		return
	}
	var got []string
	dsim.World.Vect.Script(func(req *http.Request, body []byte) (*http.Response, error, bool) {
		if req.Method != "POST" || req.URL.String() != fenv.VecURL+"/vectorize" {
			r.Fail("request", "vectorizer is asked with %s %s", req.Method, req.URL)
		}
		if ct := req.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			r.Fail("request", "vectorizer is asked with content type %q", ct)
		}
		s, err := query(body)
		if err != nil {
			r.Fail("request", "vectorizer is asked %v", err)
		}
		got = append(got, s)
		return nil, nil, false
	})
	defer dsim.World.Vect.Script(nil)
	// the values, separated by a blank; one more at the end is of no interest
	norm := func(s string) string { return strings.TrimSuffix(s, " ") }
	for li, l := range lists {
		if li%4 != vc.I {
			continue
		}
		for variant := 0; variant < 3; variant++ {
			p := map[string]interface{}{"title": fmt.Sprintf("t%d-%d", li, variant), "n": float64(li*10 + variant), "other": "not vectorized"}
			for i, n := range props {
				p[n] = values[(li+i*3+variant*7)%len(values)]
			}
			want := ""
			asked := false
			for _, n := range l {
				if x, ok := p[n].(string); ok {
					want += x + " "
					asked = true
				}
			}
			if variant == 2 {
				p["vector"] = []float32{1, 2, 3}
				asked = false
			}
			got = nil
			id := fmt.Sprintf("d%d-%d", li, variant)
			if err := h.cl.AddDocuments("col", l, &document.Document{ID: id, Properties: p}); err != nil {
				r.Fail("request", "adding %v with %v: %v", p, l, err)
				return
			}
			r.Executions++
			r.Transitions++
			r.State(li, variant)
			blank := strings.TrimSpace(want) == ""
			if asked && !blank && (len(got) != 1 || norm(got[0]) != norm(want)) || !asked && len(got) != 0 || blank && len(got) > 1 {
				r.Fail("text", "vectorizing %v of %v asks for %q, want %q", l, p, got, want)
			}
		}
	}
	for _, v := range values {
		if v == "" {
			continue
		}
		got = nil
		_, _, err := h.cl.GetNearDocuments("col", v, 1, 0)
		if err != nil || len(got) != 1 || got[0] != v {
			r.Fail("text", "near-search for %q asks for %q (%v)", v, got, err)
		}
		r.Transitions++
	}
	got = nil
	if _, _, err := h.cl.GetNearDocumentsByVector("col", []float32{1, 2, 3}, 1, 0); err != nil || len(got) != 0 {
		r.Fail("text", "a search by vector asks the vectorizer %q (%v)", got, err)
	}
	r.Outcome("requests")
}

// runVectHealth: the server only starts with a working vectorizer, or without.
func runVectHealth(r *kit.Result) {
	v := dsim.World.Vect
	defer v.Script(nil)
	st := dsim.World.Fresh()
	for _, code := range []int{200, 204, 301, 302, 400, 401, 404, 405, 500, 503, 0} {
		var asked []string
		v.Script(func(req *http.Request, body []byte) (*http.Response, error, bool) {
			asked = append(asked, req.Method+" "+req.URL.Path)
			if code == 0 {
				return nil, errors.New("connection refused"), true
			}
			return fenv.Resp(req, code, ""), nil, true
		})
		_, err := document.New(document.Config{VectorizerUrl: fenv.VecURL}, dsim.World.API(st))
		r.Executions++
		r.Transitions++
		r.State("health", code)
		if (err == nil) != (code == 200) && code != 204 {
			r.Fail("health", "starting with a vectorizer whose health is %d: %v", code, err)
		}
		if len(asked) == 0 || asked[0] != "GET /health" {
			r.Fail("health", "the health of the vectorizer is asked with %q", asked)
		}
	}
	// without a vectorizer
	n := 0
	v.Script(func(req *http.Request, body []byte) (*http.Response, error, bool) { n++; return nil, nil, false })
	cl, err := document.New(document.Config{}, dsim.World.API(st))
	if err != nil {
		r.Fail("health", "starting without a vectorizer: %v", err)
		return
	}
	l := &life{st: st, cl: cl, cols: map[string]*dsim.MCol{}}
	for _, e := range []error{cl.Login(fenv.User, fenv.Password), cl.OpenPod(fenv.Pod)} {
		if e != nil {
			panic(e)
		}
	}
	l.start(0)
	m := l.cols["col"]
	if err := dsim.Add(cl, "col", dsim.DT("t", 1, 2)); err == nil {
		r.Fail("without", "without a vectorizer a text document is accepted")
	}
	if _, _, err := cl.GetNearDocuments("col", "v1", 1, 0); err == nil {
		r.Fail("without", "without a vectorizer a text search is answered")
	}
	ds := []*dsim.MDoc{dsim.D("a", 1, dsim.Alphabet[1]), dsim.DN("b", 2), dsim.D("c", 3, dsim.Alphabet[4])}
	if err := dsim.Add(cl, "col", ds...); err != nil {
		r.Fail("without", "without a vectorizer, documents with vectors: %v", err)
	}
	m.Put(ds...)
	if err := dsim.CheckCol(cl, m, nil); err != nil {
		r.Fail("without", "without a vectorizer: %v", err)
	}
	if n != 0 {
		r.Fail("without", "without a vectorizer, %d requests are made", n)
	}
	r.Outcome("health")
}

// runVectType: the vector type on all pairs of small vectors.
func runVectType(r *kit.Result) {
	vals := []float32{0, 1, -1, 0.5, 1e10, -2.5e-7}
	var all [][]float32
	sequences(len(vals), 3, func(ix []int) {
		var v []float32
		for _, i := range ix {
			v = append(v, vals[i])
		}
		all = append(all, v)
	})
	all = append(all, nil, []float32{})
	for _, a := range all {
		va := vectorizer.NewVector(append([]float32(nil), a...))
		if va.Len() != len(a) {
			r.Fail("type", "length of %v is %d", a, va.Len())
		}
		arr := va.ToArray()
		if fmt.Sprint(arr) != fmt.Sprint(a) {
			r.Fail("type", "array of %v is %v", a, arr)
		}
		for i := range arr {
			arr[i] += 1
		}
		if fmt.Sprint(va.ToArray()) != fmt.Sprint(a) {
			r.Fail("type", "changing the array of %v changes the vector", a)
		}
		var s []string
		for _, x := range a {
			s = append(s, fmt.Sprintf("%.6f", x))
		}
		if want := "[" + strings.Join(s, ", ") + "]"; va.ToString() != want {
			r.Fail("type", "string of %v is %q, want %q", a, va.ToString(), want)
		}
		for _, b := range all {
			vb := vectorizer.NewVector(append([]float32(nil), b...))
			eq, e1 := va.Equal(&vb)
			d, e2 := va.Distance(&vb)
			r.Executions++
			r.Transitions += 2
			if (e1 != nil) != (len(a) != len(b)) || (e2 != nil) != (len(a) != len(b)) {
				r.Fail("type", "%v and %v: errors %v, %v", a, b, e1, e2)
				continue
			}
			if len(a) != len(b) {
				continue
			}
			same, sum := true, 0.0
			for i := range a {
				same = same && a[i] == b[i]
				sum += (float64(a[i]) - float64(b[i])) * (float64(a[i]) - float64(b[i]))
			}
			if eq != same || math.Abs(float64(d)-math.Sqrt(sum)) > 1e-6*(1+math.Sqrt(sum)) {
				r.Fail("type", "%v and %v: equal %v, distance %v", a, b, eq, d)
			}
		}
		r.State("type", fmt.Sprint(a))
	}
	r.Outcome("type")
}

func runVect(c kit.Case, r *kit.Result) {
	var vc vectCase
	if err := json.Unmarshal(c.Data, &vc); err != nil {
		panic(err)
	}
	switch vc.Kind {
	case "answer":
		runVectAnswer(vc, r)
	case "request":
		runVectRequest(vc, r)
	case "health":
		runVectHealth(r)
	case "type":
		runVectType(r)
	}
	r.Sample("%s: as specified", c.Data)
}

func vectCases(tier string) []kit.Case {
	cs := []kit.Case{kit.MkCase("health", vectCase{Kind: "health"}), kit.MkCase("type", vectCase{Kind: "type"})}
	for i := 0; i < 4; i++ {
		cs = append(cs, kit.MkCase("request", vectCase{Kind: "request", I: i}))
	}
	n := len(vectAnswers())
	for h := 0; h < 4; h++ {
		for i := 0; i < n; i++ {
			cs = append(cs, kit.MkCase("answer", vectCase{Kind: "answer", Op: "near", H: h, I: i}))
			cs = append(cs, kit.MkCase("answer", vectCase{Kind: "answer", Op: "add", H: h, I: i}))
			for k := 0; k < 3; k++ {
				if tier == "thorough" || (h+i+k)%2 == 0 {
					cs = append(cs, kit.MkCase("answer", vectCase{Kind: "answer", Op: "batch", H: h, I: i, K: k}))
				}
				if k < 2 && (tier == "thorough" || (h+i+k)%2 == 1) {
					cs = append(cs, kit.MkCase("answer", vectCase{Kind: "answer", Op: "replace", H: h, I: i, K: k}))
				}
			}
		}
	}
	return cs
}
