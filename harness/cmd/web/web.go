package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strings"

	"github.com/fairDataSociety/FaVe/restapi"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	dfs "github.com/fairDataSociety/FaVe/vmc/vdfs"
	"github.com/fairDataSociety/FaVe/vmc/vrace"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/go-openapi/loads"
)

type webCase struct {
	Ops  []int `json:"ops,omitempty"`
	Hist int   `json:"h,omitempty"`
	Part int   `json:"p,omitempty"`
}

// serve starts the server over the store, with the given environment.
func serve(st *fenv.Store, env map[string]string) (h http.Handler, opts *dfs.Options, err error) {
	for _, k := range envNames {
		_ = os.Unsetenv(k)
	}
	for k, v := range env {
		_ = os.Setenv(k, v)
	}
	dfs.Make = func(_ context.Context, o *dfs.Options) (*dfs.API, error) {
		opts = o
		return dsim.World.API(st), nil
	}
	spec, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	if err != nil {
		return nil, nil, err
	}
	api := operations.NewFaveAPI(spec)
	api.Logger = func(string, ...interface{}) {}
	s := restapi.NewServer(api)
	s.ConfigureAPI()
	return s.GetHandler(), opts, nil
}

var envNames = []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL", "USER", "PASSWORD", "POD"}

var stdEnv = map[string]string{"VECTORIZER_URL": fenv.VecURL, "USER": fenv.User, "PASSWORD": fenv.Password, "POD": fenv.Pod}

type web struct {
	st   *fenv.Store
	h    http.Handler
	cols map[string]*dsim.MCol
	rev  int
	r    *kit.Result
}

type answer struct {
	code int
	body []byte
}

func (a answer) String() string { return fmt.Sprintf("%d %s", a.code, bytes.TrimSpace(a.body)) }

// do performs one request; a panic of the handler is a violation.
func (w *web) do(method, path string, body string) (a answer) {
	defer func() {
		if p := recover(); p != nil {
			w.r.Fail("panic", "%s %s %s: the handler panics: %v", method, path, body, p)
			a = answer{code: 599}
		}
	}()
	var rd *strings.Reader
	req := httptest.NewRequest(method, "http://fave"+path, nil)
	if body != "" || method == "POST" {
		rd = strings.NewReader(body)
		req = httptest.NewRequest(method, "http://fave"+path, rd)
		req.Header.Set("Content-Type", "application/json")
	}
	req.Header.Set("Accept", "application/json")
	rec := httptest.NewRecorder()
	w.h.ServeHTTP(rec, req)
	w.r.Transitions++
	return answer{rec.Code, rec.Body.Bytes()}
}

func (w *web) restart() {
	h, _, err := serve(w.st, stdEnv)
	if err != nil {
		panic(err)
	}
	w.h = h
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var typeNames = map[collection.IndexType]string{collection.StringIndex: "string", collection.NumberIndex: "number", collection.ListIndex: "list", collection.MapIndex: "map"}

func (w *web) create(name string, ix map[string]collection.IndexType) answer {
	var l []map[string]string
	var fields []string
	for f := range ix {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		l = append(l, map[string]string{"fieldName": f, "fieldType": typeNames[ix[f]]})
	}
	return w.do("POST", "/v1/collections", js(map[string]interface{}{"name": name, "indexes": l}))
}

func reqDoc(d *dsim.MDoc) map[string]interface{} {
	p := map[string]interface{}{}
	for k, v := range d.Props {
		p[k] = v
	}
	if d.Vec != nil && !d.Text {
		p["vector"] = d.Vec
	}
	return map[string]interface{}{"id": d.ID, "properties": p}
}

func (w *web) add(name string, ds ...*dsim.MDoc) answer {
	var l []interface{}
	for _, d := range ds {
		l = append(l, reqDoc(d))
	}
	return w.do("POST", "/v1/documents", js(map[string]interface{}{"name": name, "documents": l, "propertiesToVectorize": dsim.Vectorize}))
}

func (w *web) get(col, prop, value string) answer {
	q := url.Values{"collection": {col}, "property": {prop}, "value": {value}}
	return w.do("GET", "/v1/documents?"+q.Encode(), "")
}

func (w *web) near(col string, q dsim.Near) answer {
	if q.Text != "" {
		return w.do("POST", "/v1/nearest-documents", js(map[string]interface{}{"name": col, "text": q.Text, "distance": q.Dist, "limit": q.Limit}))
	}
	return w.do("POST", "/v1/nearest-documents-by-vector", js(map[string]interface{}{"name": col, "vector": q.Vec, "distance": q.Dist, "limit": q.Limit}))
}

// toRaw turns an API document into what the document layer would have
// returned, and its distance.
func toRaw(d json.RawMessage) (raw []byte, dist float32, err error) {
	var doc struct {
		ID         string                     `json:"id"`
		Properties map[string]json.RawMessage `json:"properties"`
	}
	dec := json.NewDecoder(bytes.NewReader(d))
	dec.DisallowUnknownFields()
	if err = dec.Decode(&doc); err != nil {
		return nil, 0, err
	}
	if x, ok := doc.Properties["distance"]; ok {
		if err = json.Unmarshal(x, &dist); err != nil {
			return nil, 0, err
		}
		delete(doc.Properties, "distance")
	}
	if doc.Properties == nil {
		doc.Properties = map[string]json.RawMessage{}
	}
	if _, ok := doc.Properties["id"]; ok {
		return nil, 0, fmt.Errorf("the id is repeated in the properties")
	}
	doc.Properties["id"] = json.RawMessage(js(doc.ID))
	raw, err = json.Marshal(doc.Properties)
	return
}

func hasDistance(d json.RawMessage) bool {
	var doc struct {
		Properties map[string]*float64 `json:"properties"`
	}
	var any struct{ Properties map[string]json.RawMessage }
	if json.Unmarshal(d, &any) != nil {
		return false
	}
	_ = json.Unmarshal(d, &doc)
	_, ok := any.Properties["distance"]
	return ok && doc.Properties["distance"] != nil
}

func judgeNear(col string, docs []*dsim.MDoc, q dsim.Near, a answer) error {
	if a.code != 200 {
		return dsim.JudgeNear(dsim.Want{Must: docs}, q, nil, nil, fmt.Errorf("%v", a))
	}
	var resp struct {
		Name      string            `json:"name"`
		Documents []json.RawMessage `json:"documents"`
	}
	if err := json.Unmarshal(a.body, &resp); err != nil {
		return fmt.Errorf("%v answered %v: %v", q, a, err)
	}
	if resp.Name != col {
		return fmt.Errorf("%v on %s answers for collection %q", q, col, resp.Name)
	}
	raws, dists := [][]byte{}, []float32{}
	for _, d := range resp.Documents {
		raw, dist, err := toRaw(d)
		if err == nil && !hasDistance(d) {
			err = fmt.Errorf("a document without its distance")
		}
		if err != nil {
			return fmt.Errorf("%v answered %v: %v", q, a, err)
		}
		raws, dists = append(raws, raw), append(dists, dist)
	}
	return dsim.JudgeNear(dsim.Want{Must: docs}, q, raws, dists, nil)
}

func (w *web) checkNear(col string, q dsim.Near) error {
	m := w.cols[col]
	a := w.near(col, q)
	if m == nil {
		if a.code < 400 || a.code > 499 {
			return fmt.Errorf("%v on %s, which does not exist, answered %v", q, col, a)
		}
		return nil
	}
	return judgeNear(col, m.Docs, q, a)
}

func (w *web) checkDoc(col string, d *dsim.MDoc) error {
	a := w.get(col, "id", d.ID)
	if a.code != 200 {
		return fmt.Errorf("GET document %s of %s: %v", d.ID, col, a)
	}
	raw, _, err := toRaw(a.body)
	if err != nil {
		return fmt.Errorf("GET document %s of %s: %v: %v", d.ID, col, a, err)
	}
	return dsim.SameDoc(raw, d)
}

func (w *web) checkList() error {
	a := w.do("GET", "/v1/collections", "")
	var l []struct {
		Name    string
		Indexes []struct{ FieldName, FieldType string }
	}
	if a.code != 200 || json.Unmarshal(a.body, &l) != nil {
		return fmt.Errorf("GET collections: %v", a)
	}
	seen := map[string]bool{}
	for _, c := range l {
		m := w.cols[c.Name]
		if m == nil || seen[c.Name] {
			return fmt.Errorf("collection %q listed: %v", c.Name, a)
		}
		seen[c.Name] = true
		ix := map[string]string{}
		for _, i := range c.Indexes {
			ix[i.FieldName] = i.FieldType
		}
		for f, t := range m.Indexes {
			if ix[f] != typeNames[t] {
				return fmt.Errorf("index %s of %s is listed as %q, created as %q", f, c.Name, ix[f], typeNames[t])
			}
			delete(ix, f)
		}
		delete(ix, "id")
		delete(ix, "hnswId")
		if len(ix) > 0 {
			return fmt.Errorf("collection %s is listed with indexes nobody created: %v", c.Name, ix)
		}
	}
	if len(seen) != len(w.cols) {
		return fmt.Errorf("%d collections listed, %d exist", len(seen), len(w.cols))
	}
	return nil
}

func (w *web) checkAll() error {
	if err := w.checkList(); err != nil {
		return err
	}
	for name, m := range w.cols {
		for _, d := range m.Docs {
			if err := w.checkDoc(name, d); err != nil {
				return err
			}
			if t, ok := d.Props["title"].(string); ok && m.Indexes["title"] == collection.StringIndex {
				if a := w.get(name, "title", t); a.code != 200 {
					return fmt.Errorf("GET title=%s of %s: %v", t, name, a)
				}
			}
		}
		for _, q := range []dsim.Near{{Vec: dsim.Alphabet[6], Dist: 2.5}, {Text: "v7", Dist: 2.5}, {Vec: dsim.Alphabet[4], Dist: 0.8, Limit: 1}, {Text: "v8", Dist: 1, Limit: 2}} {
			if err := w.checkNear(name, q); err != nil {
				return err
			}
		}
		if a := w.get(name, "id", uuid(999)); a.code < 400 || a.code > 499 {
			return fmt.Errorf("GET of a document that does not exist answered %v", a)
		}
	}
	return nil
}

func uuid(n int) string { return fmt.Sprintf("721dfcef-5b95-4eeb-99fc-%012d", n) }

func (w *web) mkdoc(id int, kind int) *dsim.MDoc {
	w.rev++
	vi := (w.rev*2 + kind) % len(dsim.Alphabet)
	var d *dsim.MDoc
	switch kind % 3 {
	case 0:
		d = dsim.D(uuid(id), w.rev, dsim.Alphabet[vi])
	case 1:
		d = dsim.DT(uuid(id), w.rev, vi)
	default:
		d = dsim.DN(uuid(id), w.rev)
	}
	d.Props["title"] = fmt.Sprintf("t-%d-%d", id, w.rev)
	return d
}

var webOps = []string{"create alpha", "create beta", "delete alpha", "add one to alpha", "add three to alpha", "add to beta", "replace in alpha", "near vector", "near text", "get", "restart", "root", "add nothing to alpha"}

func ok(a answer, what string) error {
	if a.code != 200 {
		return fmt.Errorf("%s answered %v", what, a)
	}
	return nil
}

func (w *web) put(col string, ds ...*dsim.MDoc) error {
	a := w.add(col, ds...)
	if w.cols[col] == nil {
		if a.code < 400 || a.code > 499 {
			return fmt.Errorf("adding to %s, which does not exist, answered %v", col, a)
		}
		return nil
	}
	if err := ok(a, "adding"); err != nil {
		return err
	}
	w.cols[col].Put(ds...)
	return nil
}

func (w *web) step(op int) error {
	switch op {
	case 0, 1:
		name := []string{"alpha", "beta"}[op]
		ix := dsim.DefaultIndexes()
		if op == 1 {
			ix = map[string]collection.IndexType{"title": collection.StringIndex, "tags": collection.ListIndex, "attr": collection.MapIndex}
		}
		a := w.create(name, ix)
		if w.cols[name] != nil {
			return nil
		}
		w.cols[name] = &dsim.MCol{Name: name, Indexes: ix}
		return ok(a, "creating "+name)
	case 2:
		a := w.do("DELETE", "/v1/collections/alpha", "")
		had := w.cols["alpha"] != nil
		delete(w.cols, "alpha")
		if had {
			return ok(a, "deleting alpha")
		}
		if a.code != 200 && (a.code < 400 || a.code > 499) {
			return fmt.Errorf("deleting what is not there answered %v", a)
		}
	case 3:
		return w.put("alpha", w.mkdoc(w.rev+10, 0))
	case 4:
		return w.put("alpha", w.mkdoc(w.rev+10, 1), w.mkdoc(w.rev+11, 2), w.mkdoc(w.rev+12, 0))
	case 5:
		d := w.mkdoc(w.rev+10, 1)
		d.Props["tags"] = []interface{}{fmt.Sprintf("tag%d", w.rev)}
		d.Props["attr"] = map[string]interface{}{"k": fmt.Sprintf("val%d", w.rev)}
		return w.put("beta", d)
	case 6:
		if m := w.cols["alpha"]; m != nil && len(m.Docs) > 0 {
			d := w.mkdoc(0, w.rev)
			d.ID = m.Docs[0].ID
			return w.put("alpha", d)
		}
	case 7:
		return w.checkNear("alpha", dsim.Near{Vec: dsim.Alphabet[7], Dist: 2.5, Limit: 2})
	case 8:
		return w.checkNear("alpha", dsim.Near{Text: "v2", Dist: 1.2})
	case 9:
		if m := w.cols["alpha"]; m != nil && len(m.Docs) > 0 {
			return w.checkDoc("alpha", m.Docs[len(m.Docs)-1])
		}
	case 10:
		w.restart()
	case 11:
		return ok(w.do("GET", "/v1/", ""), "the root")
	case 12:
		a := w.do("POST", "/v1/documents", `{"name":"alpha","documents":[],"propertiesToVectorize":[]}`)
		if a.code != 200 && (a.code < 400 || a.code > 499) {
			return fmt.Errorf("adding nothing answered %v", a)
		}
	}
	return nil
}

func newWeb(r *kit.Result) *web {
	dsim.SeedLevels(5)
	w := &web{st: dsim.World.Fresh(), cols: map[string]*dsim.MCol{}, r: r}
	w.restart()
	return w
}

func names(ops []int) (l []string) {
	for _, o := range ops {
		l = append(l, webOps[o])
	}
	return
}

func runSeq(wc webCase, r *kit.Result) {
	w := newWeb(r)
	r.Executions++
	for i, op := range wc.Ops {
		if err := w.step(op); err != nil {
			r.Fail("api", "%v: step %d: %v", names(wc.Ops), i, err)
			return
		}
	}
	for _, when := range []string{"", "after a restart: "} {
		if err := w.checkAll(); err != nil {
			r.Fail("api", "%v: %s%v", names(wc.Ops), when, err)
			return
		}
		w.restart()
	}
	r.State(fmt.Sprint(wc.Ops))
	n := 0
	for _, m := range w.cols {
		n += len(m.Docs)
	}
	r.Outcome(fmt.Sprintf("%d collections, %d documents", len(w.cols), n))
}

// bad: requests that have to be refused.
func badRequests() [][3]string {
	vec := `[0.1,0.2,0.3]`
	id := uuid(500)
	doc := func(s string) [3]string {
		return [3]string{"POST", "/v1/documents", `{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + s + `]}`}
	}
	good := `{"id":"` + uuid(600) + `","properties":{"title":"good","n":1,"vector":[1,2,3]}}`
	l := [][3]string{
		{"POST", "/v1/collections", `{"indexes":[{"fieldName":"a","fieldType":"string"}]}`},
		{"POST", "/v1/collections", `{"name":"","indexes":[{"fieldName":"a","fieldType":"string"}]}`},
		{"POST", "/v1/collections", `{"name":"gamma"}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[null]}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[{}]}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[{"fieldName":"a"}]}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[{"fieldType":"string"}]}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[{"fieldName":"a","fieldType":"blob"}]}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[{"fieldName":"a","fieldType":"string"},{"fieldName":"b","fieldType":"String"}]}`},
		{"POST", "/v1/collections", `{"name":"gamma","indexes":[{"fieldName":"a","fieldType":"string"}]`},
		{"POST", "/v1/collections", ``},
		{"POST", "/v1/collections", `null`},
		{"POST", "/v1/collections", `[]`},
		{"PUT", "/v1/collections", `{}`},
		{"DELETE", "/v1/collections", ``},
		{"GET", "/v1/nothing", ``},
		{"GET", "/v1/documents", ``},
		{"GET", "/v1/documents?collection=alpha", ``},
		{"GET", "/v1/documents?collection=alpha&property=id", ``},
		{"GET", "/v1/documents?collection=alpha&property=&value=", ``},
		{"GET", "/v1/documents?property=id&value=" + uuid(10), ``},
		{"GET", "/v1/documents?collection=&property=id&value=" + uuid(10), ``},
		{"GET", "/v1/documents?collection=nope&property=id&value=" + uuid(10), ``},
		{"GET", "/v1/documents?collection=alpha&property=body&value=x", ``},
		{"GET", "/v1/documents?collection=alpha&property=title&value=none", ``},
		{"GET", "/v1/documents?collection=alpha&property=n&value=one", ``},
		{"POST", "/v1/nearest-documents", `{"text":"v1","distance":1}`},
		{"POST", "/v1/nearest-documents", `{"name":"alpha","distance":1}`},
		{"POST", "/v1/nearest-documents", `{"name":"nope","text":"v1","distance":1}`},
		{"POST", "/v1/nearest-documents", `{"name":"alpha","text":"v1","distance":1,"limit":-1}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"vector":` + vec + `,"distance":1}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","distance":1}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"nope","vector":` + vec + `,"distance":1}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","vector":` + vec + `,"distance":1,"limit":-5}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","vector":["a"],"distance":1}`},
		{"POST", "/v1/documents", `{"propertiesToVectorize":["content"],"documents":[` + good + `]}`},
		{"POST", "/v1/documents", `{"name":"alpha","documents":[` + good + `]}`},
		{"POST", "/v1/documents", `{"name":"alpha","propertiesToVectorize":["content"]}`},
		{"POST", "/v1/documents", `{"name":"nope","propertiesToVectorize":["content"],"documents":[` + good + `]}`},
		doc(`null`), doc(good + `,null`), doc(`{}`), doc(good + `,{}`),
		doc(`{"id":"` + id + `"}`), doc(`{"id":"` + id + `","properties":[]}`), doc(`{"id":"` + id + `","properties":"x"}`),
		doc(`{"id":"not a uuid","properties":{"title":"x","n":1}}`),
		doc(good + `,{"properties":{"title":"x","n":1}}`),
		doc(good + `,{"id":"` + id + `","properties":{"title":1,"n":1}}`),
		doc(good + `,{"id":"` + id + `","properties":{"title":"x","n":"1"}}`),
		doc(good + `,{"id":"` + id + `","properties":{"n":1}}`),
		doc(good + `,{"id":"` + id + `","properties":{"title":"x","n":1,"content":5}}`),
		doc(`{"id":"` + id + `","properties":{"title":"x","n":1,"vector":"abc"}}`),
		doc(`{"id":"` + id + `","properties":{"title":"x","n":1,"vector":{"a":1}}}`),
		doc(`{"id":"` + id + `","properties":{"title":"x","n":1,"vector":[1,"a",3]}}`),
		doc(`{"id":"` + id + `","properties":{"title":"x","n":1,"vector":[1,null,3]}}`),
	}
	return l
}

// jsonValues replace the fields of request bodies one by one.
var jsonValues = []string{`null`, `true`, `-1`, `0`, `1`, `1.5`, `1e300`, `99999999999999999999`, `""`, `" "`, `"x"`, `"/"`, `"a=b"`, `"é漢"`, `"id"`, `"hnswId"`, `"vector"`, `[]`, `{}`, `[null]`, `[1]`, `["x"]`, `[{}]`, `[[1,2,3]]`, `{"a":{"b":[]}}`}

type field struct {
	method, path string
	body         string // with one %s
}

func fields() []field {
	d := `{"id":"` + uuid(700) + `","properties":{"title":"f","n":7,"content":"v3"%s}}`
	add := func(s string) field {
		return field{"POST", "/v1/documents", s}
	}
	return []field{
		{"POST", "/v1/collections", `{"name":%s,"indexes":[{"fieldName":"title","fieldType":"string"}]}`},
		{"POST", "/v1/collections", `{"name":"delta","indexes":%s}`},
		{"POST", "/v1/collections", `{"name":"delta","indexes":[%s]}`},
		{"POST", "/v1/collections", `{"name":"delta","indexes":[{"fieldName":%s,"fieldType":"number"}]}`},
		{"POST", "/v1/collections", `{"name":"delta","indexes":[{"fieldName":"title","fieldType":%s}]}`},
		{"POST", "/v1/collections", `%s`},
		add(`%s`),
		add(`{"name":%s,"propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, "") + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":%s,"documents":[` + fmt.Sprintf(d, "") + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":[%s],"documents":[` + fmt.Sprintf(d, "") + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":%s}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[%s]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, "") + `,%s]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[{"id":%s,"properties":{"title":"f","n":7}}]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[{"id":"` + uuid(701) + `","properties":%s}]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, `,"vector":%s`) + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, `,"vector":[1,%s,2]`) + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[{"id":"` + uuid(702) + `","properties":{"title":%s,"n":7,"content":"v1"}}]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[{"id":"` + uuid(703) + `","properties":{"title":"g","n":%s,"content":"v1"}}]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[{"id":"` + uuid(704) + `","properties":{"title":"g","n":8,"content":%s}}]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, `,"free":%s`) + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, `,"id":%s`) + `]}`),
		add(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[` + fmt.Sprintf(d, `,"hnswId":%s`) + `]}`),
		{"POST", "/v1/nearest-documents", `%s`},
		{"POST", "/v1/nearest-documents", `{"name":%s,"text":"v1","distance":1}`},
		{"POST", "/v1/nearest-documents", `{"name":"alpha","text":%s,"distance":1}`},
		{"POST", "/v1/nearest-documents", `{"name":"alpha","text":"v1","distance":%s}`},
		{"POST", "/v1/nearest-documents", `{"name":"alpha","text":"v1","distance":1,"limit":%s}`},
		{"POST", "/v1/nearest-documents-by-vector", `%s`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","vector":%s,"distance":1}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","vector":[1,%s,2],"distance":1}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","vector":[1,0,2],"distance":%s}`},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"alpha","vector":[1,0,2],"distance":1,"limit":%s}`},
	}
}

// history 0: nothing, 1: an empty collection, 2: documents in it, 3: and restarted.
func (w *web) history(h int) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	if h >= 1 {
		must(w.step(0))
	}
	if h >= 2 {
		must(w.step(4))
		must(w.step(3))
	}
	if h >= 3 {
		w.restart()
	}
}

func runBad(wc webCase, r *kit.Result) {
	base := newWeb(r)
	base.history(wc.Hist)
	st := base.st
	fresh := func() *web {
		w := &web{st: st.Clone(), cols: map[string]*dsim.MCol{}, r: r}
		for k, m := range base.cols {
			w.cols[k] = m.Clone()
		}
		w.restart()
		return w
	}
	w := fresh()
	for _, b := range badRequests() {
		a := w.do(b[0], b[1], b[2])
		r.Executions++
		if a.code < 400 || a.code > 499 {
			r.Fail("accepted", "history %d: %s %s %s answered %v", wc.Hist, b[0], b[1], b[2], a)
			w = fresh()
			continue
		}
		if err := w.checkAll(); err != nil {
			r.Fail("trace", "history %d: after the refused %s %s %s: %v", wc.Hist, b[0], b[1], b[2], err)
			w = fresh()
		}
		r.State(wc.Hist, b)
		r.Outcome(fmt.Sprintf("%s %d", b[1], a.code))
	}
	w.restart()
	if err := w.checkAll(); err != nil {
		r.Fail("trace", "history %d: after all refused requests and a restart: %v", wc.Hist, err)
	}
}

// runField: one field of a request with every JSON value.
func runField(wc webCase, r *kit.Result) {
	base := newWeb(r)
	base.history(wc.Hist)
	f := fields()[wc.Part]
	for _, v := range jsonValues {
		w := &web{st: base.st.Clone(), cols: map[string]*dsim.MCol{}, r: r}
		for k, m := range base.cols {
			w.cols[k] = m.Clone()
		}
		w.restart()
		body := fmt.Sprintf(f.body, v)
		a := w.do(f.method, f.path, body)
		r.Executions++
		what := fmt.Sprintf("history %d: %s %s %s", wc.Hist, f.method, f.path, body)
		if a.code != 200 && (a.code < 400 || a.code > 499) {
			r.Fail("status", "%s answered %v", what, a)
			continue
		}
		for _, when := range []string{"", " and a restart"} {
			if a.code == 200 && f.path == "/v1/collections" {
				// a collection more
				delete(w.cols, "?")
				var q struct{ Name string }
				_ = json.Unmarshal([]byte(body), &q)
				if w.cols[q.Name] == nil {
					l := w.do("GET", "/v1/collections", "")
					if !strings.Contains(string(l.body), js(q.Name)) {
						r.Fail("lost", "%s answered %v but the collection is not there%s: %v", what, a, when, l)
					}
				}
			}
			if a.code == 200 && f.path == "/v1/documents" {
				// the documents of the request have to be there
				var q struct {
					Documents []struct {
						ID         string
						Properties map[string]interface{}
					}
				}
				_ = json.Unmarshal([]byte(body), &q)
				for _, d := range q.Documents {
					got := w.get("alpha", "id", d.ID)
					if got.code != 200 {
						r.Fail("lost", "%s answered %v but the document cannot be fetched%s: %v", what, a, when, got)
						continue
					}
					var back struct{ Properties map[string]interface{} }
					_ = json.Unmarshal(got.body, &back)
					for k, v := range d.Properties {
						if k == "vector" || k == "id" || k == "hnswId" {
							continue
						}
						if js(back.Properties[k]) != js(v) {
							r.Fail("changed", "%s%s: property %s comes back as %s", what, when, k, js(back.Properties[k]))
						}
					}
				}
			}
			// the documents that were there are still there
			for name, m := range w.cols {
				for _, d := range m.Docs {
					if err := w.checkDoc(name, d); err != nil {
						r.Fail("harm", "%s answered %v%s; then: %v", what, a, when, err)
					}
				}
				if a.code != 200 {
					if err := w.checkNear(name, dsim.Near{Vec: dsim.Alphabet[6], Dist: 2.5}); err != nil {
						r.Fail("harm", "%s answered %v%s; then: %v", what, a, when, err)
					}
				} else if got := w.near(name, dsim.Near{Vec: dsim.Alphabet[6], Dist: 2.5}); got.code != 200 {
					r.Fail("harm", "%s answered %v%s; then near-search: %v", what, a, when, got)
				}
			}
			if a.code != 200 {
				if err := w.checkList(); err != nil {
					r.Fail("trace", "%s answered %v%s; then: %v", what, a, when, err)
				}
			}
			w.restart()
		}
		r.State(wc, v)
		r.Outcome(fmt.Sprintf("%s %d", f.path, a.code))
	}
}

// roundValues are property values that have to come back as they were.
var roundValues = []string{`"plain"`, `""`, `" spaces "`, `"line\nbreak\t\"quoted\" \\ back"`, `"é漢字🙂"`, `"\u0000"`, `"<b>&amp;</b>"`, `"\u2028"`,
	`0`, `-0.5`, `1e21`, `0.1`, `123456789.123456789`, `9007199254740993`, `-12345678901234567890`, `1e-7`, `5e-324`, `1.7976931348623157e308`,
	`true`, `false`, `null`, `[]`, `{}`, `[1,"two",[3,{}],null,true]`, `{"a":{"b":{"c":[1,2,{"d":null}]}}}`, `{"id":"inner","distance":3,"vector":[1]}`, `[[[[[[1]]]]]]`, `"null"`, `"123"`, `["9007199254740993",9007199254740993]`}

func sameJSON(a, b interface{}) bool {
	switch x := a.(type) {
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		r1, ok1 := new(big.Rat).SetString(x.String())
		r2, ok2 := new(big.Rat).SetString(y.String())
		return ok1 && ok2 && r1.Cmp(r2) == 0
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if _, has := y[k]; !has || !sameJSON(x[k], y[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func decode(s []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(s))
	d.UseNumber()
	return d.Decode(v)
}

// runRound: a document whose property p has each of the values.
func runRound(wc webCase, r *kit.Result) {
	w := newWeb(r)
	w.history(1)
	pname := []string{"free", "content2", "Id", "a b", "é", "title2", "distance"}[wc.Part%7]
	for i, v := range roundValues {
		id := uuid(800 + i)
		var want interface{}
		if err := decode([]byte(v), &want); err != nil {
			panic(err)
		}
		body := fmt.Sprintf(`{"name":"alpha","propertiesToVectorize":["content"],"documents":[{"id":"%s","properties":{"title":"r%d","n":%d,"vector":[1,%d,0.5],%s:%s}}]}`, id, i, i, i, js(pname), v)
		if err := ok(w.do("POST", "/v1/documents", body), "adding "+body); err != nil {
			r.Fail("round", "%v", err)
			continue
		}
		r.Executions++
		check := func(how string, d json.RawMessage) {
			var got struct {
				ID         string
				Properties map[string]interface{}
			}
			if err := decode(d, &got); err != nil {
				r.Fail("round", "%s %s: %v", how, d, err)
				return
			}
			if _, has := got.Properties[pname]; !has || got.ID != id || !sameJSON(got.Properties[pname], want) {
				r.Fail("round", "%s: property %q was %s, comes back as %s", how, pname, v, js(got.Properties[pname]))
			}
		}
		for _, when := range []string{"", " after a restart"} {
			a := w.get("alpha", "id", id)
			if a.code != 200 {
				r.Fail("round", "GET %s%s: %v", id, when, a)
				continue
			}
			check("GET"+when, a.body)
			if pname == "distance" {
				break // a search answers with its own
			}
			for _, q := range []dsim.Near{{Vec: []float32{1, float32(i), 0.5}, Dist: 0.0001, Limit: 1}} {
				a := w.near("alpha", q)
				var resp struct{ Documents []json.RawMessage }
				if a.code != 200 || json.Unmarshal(a.body, &resp) != nil || len(resp.Documents) != 1 {
					r.Fail("round", "%v%s: %v", q, when, a)
					continue
				}
				check("near-search"+when, resp.Documents[0])
			}
			if when == "" && i%7 != 0 {
				break
			}
			w.restart()
		}
		r.State(pname, v)
	}
	r.Outcome("comes back")
}

// runIDs: ids in every spelling that is accepted, next to each other.
func runIDs(wc webCase, r *kit.Result) {
	w := newWeb(r)
	w.history(2)
	base := "AbCdEf01-2345-4789-8abC-DeF012345678"
	ids := []string{base, strings.ToLower(base), strings.ToUpper(base), strings.ReplaceAll(base, "-", ""), "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "{" + base + "}", "urn:uuid:" + base, base + " ", " " + base, base[:35], base + "0"}
	for i := 0; i < len(ids); i++ {
		for j := 0; j < len(ids); j++ {
			if i == j || (i+j)%4 != wc.Part {
				continue
			}
			for _, x := range []int{i, j} {
				d := w.mkdoc(1, x)
				d.ID = ids[x]
				if a := w.add("alpha", d); a.code == 200 {
					w.cols["alpha"].Put(d)
				} else if a.code < 400 || a.code > 499 || x < 3 {
					r.Fail("id", "adding a document with the id %q answered %v", ids[x], a)
				}
			}
			r.Executions++
			r.State("id", i, j)
			for _, x := range []int{i, j} {
				a := w.get("alpha", "id", ids[x])
				var got struct{ ID string }
				if w.cols["alpha"].Get(ids[x]) == nil && a.code == 200 {
					r.Fail("id", "GET of the id %q, which was never added, answered %v", ids[x], a)
				}
				if a.code == 200 && (json.Unmarshal(a.body, &got) != nil || got.ID != ids[x]) {
					r.Fail("id", "GET of the id %q answered %v", ids[x], a)
				}
			}
		}
	}
	for _, when := range []string{"", "after a restart: "} {
		if err := w.checkAll(); err != nil {
			r.Fail("id", "%s%v", when, err)
		}
		w.restart()
	}
	r.Outcome("ids")
}

var webNames = []string{"a", "A", "fave_", "fave_a", "a_fave_a", "a b", " a", "a/b", "a.b", "..", ".", "a%2Fb", "a?b=c", "a#b", "a&b", "a+b", "é", "日本", "\"q\"", "a\\b", "a:b", "a;b", "null", "0", "collections", "a,b", "a\nb"}

// runNames: collections with these names are created, filled, read, deleted.
func runNames(wc webCase, r *kit.Result) {
	for i := range webNames {
		if i%6 != wc.Part {
			continue
		}
		w := newWeb(r)
		w.history(2)
		pair := []string{webNames[i], webNames[(i+4)%len(webNames)]}
		for k, n := range pair {
			ix := dsim.DefaultIndexes()
			a := w.create(n, ix)
			if a.code >= 400 && a.code <= 499 && strings.ContainsAny(n, ",\n") {
				continue // refused
			}
			if a.code != 200 {
				r.Fail("names", "creating collection %q answered %v", n, a)
				return
			}
			w.cols[n] = &dsim.MCol{Name: n, Indexes: ix}
			if err := w.put(n, w.mkdoc(20+k, 0), w.mkdoc(30, 1), w.mkdoc(40, 2)); err != nil {
				r.Fail("names", "collection %q: %v", n, err)
				return
			}
		}
		for _, when := range []string{"", "after a restart: "} {
			if err := w.checkAll(); err != nil {
				r.Fail("names", "collections %q: %s%v", pair, when, err)
				return
			}
			w.restart()
		}
		for _, n := range pair {
			if n == "." || n == ".." {
				continue // these cannot be named in a path
			}
			a := w.do("DELETE", "/v1/collections/"+url.PathEscape(n), "")
			if w.cols[n] == nil {
				continue
			}
			if a.code != 200 {
				r.Fail("names", "deleting collection %q answered %v", n, a)
				return
			}
			delete(w.cols, n)
			if err := w.checkAll(); err != nil {
				r.Fail("names", "collections %q, after deleting %q: %v", pair, n, err)
				return
			}
		}
		r.Executions++
		r.State("name", i)
	}
	r.Outcome("names")
}

// runEnv: the settings of the environment reach where they belong.
func runEnv(wc webCase, r *kit.Result) {
	for set := wc.Part * 32; set < wc.Part*32+32; set++ {
		env := map[string]string{}
		vals := map[string]string{"VERBOSE": "true", "BEE_API": "http://bee.example:1633", "RPC_API": "http://rpc.example", "STAMP_ID": strings.Repeat("ab", 32), "VECTORIZER_URL": fenv.VecURL, "POD": fenv.Pod, "USER": fenv.User, "PASSWORD": fenv.Password}
		for i, k := range []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL"} {
			if set&(1<<i) != 0 {
				env[k] = vals[k]
			}
		}
		pod := fenv.Pod
		if set&32 != 0 {
			pod = "another"
		}
		env["POD"], env["USER"], env["PASSWORD"] = pod, fenv.User, fenv.Password
		st := dsim.World.Fresh()
		h, opts, err := serve(st, env)
		r.Executions++
		if err != nil {
			r.Fail("env", "%v: %v", env, err)
			continue
		}
		want := func(name, got, def string) {
			w := env[name]
			if w == "" {
				w = def
			}
			if got != w {
				r.Fail("env", "%v: %s arrives as %q, want %q", env, name, got, w)
			}
		}
		want("BEE_API", opts.BeeApiEndpoint, "http://localhost:1633")
		want("STAMP_ID", opts.Stamp, strings.Repeat("0", 64))
		want("RPC_API", opts.EnsConfig.ProviderBackend, "")
		if opts.FeedCacheSize <= 0 {
			r.Fail("env", "%v: the feed pool is switched off, adds would publish piecemeal", env)
		}
		w := &web{st: st, h: h, cols: map[string]*dsim.MCol{}, r: r}
		if err := w.step(0); err != nil {
			r.Fail("env", "%v: %v", env, err)
			continue
		}
		d, t := w.mkdoc(10, 0), w.mkdoc(11, 1)
		if err := w.put("alpha", d); err != nil {
			r.Fail("env", "%v: %v", env, err)
		}
		a := w.add("alpha", t)
		if env["VECTORIZER_URL"] != "" {
			if a.code != 200 {
				r.Fail("env", "%v: adding text answered %v", env, a)
			}
			w.cols["alpha"].Put(t)
		} else if a.code < 400 || a.code > 499 {
			r.Fail("env", "%v: adding text without a vectorizer answered %v", env, a)
		}
		for _, q := range []dsim.Near{{Vec: dsim.Alphabet[6], Dist: 2.5}, {Text: "v1", Dist: 2.5}} {
			if q.Text != "" && env["VECTORIZER_URL"] == "" {
				if a := w.near("alpha", q); a.code < 400 || a.code > 499 {
					r.Fail("env", "%v: text search without a vectorizer answered %v", env, a)
				}
				continue
			}
			if err := w.checkNear("alpha", q); err != nil {
				r.Fail("env", "%v: %v", env, err)
			}
		}
		// the documents are in that pod
		w.restart()
		other := pod != fenv.Pod
		if list := w.do("GET", "/v1/collections", ""); strings.Contains(string(list.body), `"alpha"`) == other {
			r.Fail("env", "%v: pod %s, collections in pod %s: %v", env, pod, fenv.Pod, list)
		}
		r.State(set)
		r.Outcome(fmt.Sprintf("vectorizer %v", env["VECTORIZER_URL"] != ""))
	}
}

func runWeb(c kit.Case, r *kit.Result) {
	var wc webCase
	if err := json.Unmarshal(c.Data, &wc); err != nil {
		panic(err)
	}
	switch c.Group {
	case "requests":
		runSeq(wc, r)
	case "bad":
		runBad(wc, r)
	case "field":
		runField(wc, r)
	case "round":
		runRound(wc, r)
	case "env":
		runEnv(wc, r)
	case "ids":
		runIDs(wc, r)
	case "names":
		runNames(wc, r)
	case "race":
		runRaceWeb(wc, r)
	}
}

// runRaceWeb: two requests, of which nothing in the server orders one before
// the other, under the race detector.
func runRaceWeb(wc webCase, r *kit.Result) {
	for b := range webOps {
		if b == 10 {
			continue
		}
		w := newWeb(r)
		w.history(wc.Hist)
		r.Executions++
		var errs [2]error
		vrace.Apart(func() { errs[0] = w.step(wc.Part) }, func() { errs[1] = w.step(b) })
		for i, err := range errs {
			if err != nil {
				r.Fail("race", "history %d, %s and %s: request %d: %v", wc.Hist, webOps[wc.Part], webOps[b], i, err)
			}
		}
		for _, rep := range vrace.New() {
			r.Fail("race", "history %d, %s and %s: unsynchronised accesses: %s", wc.Hist, webOps[wc.Part], webOps[b], rep)
		}
		r.State(fmt.Sprint("race", wc.Hist, wc.Part, b))
	}
	r.Outcome(fmt.Sprintf("race: %s: no unsynchronised access", webOps[wc.Part]))
}

func webCases(tier string) []kit.Case {
	var cs []kit.Case
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	var rec func(s []int)
	rec = func(s []int) {
		if len(s) > 0 {
			cs = append(cs, kit.MkCase("requests", webCase{Ops: s}))
		}
		if len(s) == depth {
			return
		}
		for op := range webOps {
			if len(s) == 0 && op > 1 && op != 3 && op != 7 && op != 9 && op != 2 {
				continue // nothing there yet: one of each kind of request will do
			}
			rec(append(append([]int{}, s...), op))
		}
	}
	rec(nil)
	for h := 0; h < 4; h++ {
		cs = append(cs, kit.MkCase("bad", webCase{Hist: h}))
		for f := range fields() {
			if h == 2 || tier == "thorough" {
				cs = append(cs, kit.MkCase("field", webCase{Hist: h, Part: f}))
			}
		}
	}
	for p := 0; p < 7; p++ {
		cs = append(cs, kit.MkCase("round", webCase{Part: p}))
	}
	for p := 0; p < 6; p++ {
		if p < 4 {
			cs = append(cs, kit.MkCase("ids", webCase{Part: p}))
		}
		cs = append(cs, kit.MkCase("names", webCase{Part: p}))
	}
	for op := range webOps {
		for h := 2; h < 4 && op != 10; h++ {
			cs = append(cs, kit.MkCase("race", webCase{Part: op, Hist: h}))
		}
	}
	cs = append(cs, kit.MkCase("env", webCase{Part: 0}), kit.MkCase("env", webCase{Part: 1}))
	return cs
}
