// Package dsim holds the reference model of the document layer and the
// comparisons of the real document.Client with it.
package dsim

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/feed/lookup"
)

// Tol is the comparison tolerance for float32 cosine distances.
const Tol = 1e-5

// World is the environment of this worker.
var World *fenv.World

// Init prepares the worker: silences stdout of the code under test, makes
// feed lookups sequential and registers user and pod.
func Init() error {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	os.Stdout = null
	lookup.Lookup = lookup.FluzCapacitorAlgorithm
	World, err = fenv.NewWorld()
	if err != nil {
		return err
	}
	World.Vect.Vec = TextVec
	return nil
}

// Alphabet of vectors used by all document-level explorations.
var Alphabet = [][]float32{
	{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {1, 1, 0}, {2, 0, 0}, {0.3, 0.4, 0.5}, {1, 2, 3}, {-0.2, 0.9, 0.1},
}

// TextVec is the scripted vectorizer: the first token "v<i>" selects the
// alphabet vector i; any other text maps to a vector derived from its bytes.
func TextVec(text string) []float32 {
	for _, tok := range strings.FieldsFunc(text, func(r rune) bool { return r == ' ' || r == '|' }) {
		var i int
		if n, err := fmt.Sscanf(tok, "v%d", &i); n == 1 && err == nil && i >= 0 && i < len(Alphabet) && tok == fmt.Sprintf("v%d", i) {
			return append([]float32{}, Alphabet[i]...)
		}
	}
	v := []float32{1, 1, 1}
	for i, b := range []byte(text) {
		v[i%3] += float32(b%13) * float32(i%5+1)
	}
	return v
}

// CosDist is the reference distance.
func CosDist(a, b []float32) float64 {
	var dot, na, nb float64
	for i := range a {
		dot += float64(a[i]) * float64(b[i])
		na += float64(a[i]) * float64(a[i])
		nb += float64(b[i]) * float64(b[i])
	}
	if na == 0 || nb == 0 {
		return 1
	}
	return 1 - dot/math.Sqrt(na)/math.Sqrt(nb)
}

// MDoc is a document of the reference model.
type MDoc struct {
	ID    string
	Props map[string]interface{} // as the user gave them, without "vector"
	Vec   []float32              // nil: not in the vector index
	Text  bool                   // vector comes from the vectorizer
	Bulk  bool                   // one of many: only near-searches look for it
	Form  string                 // how an explicit vector is given: "" []float32, "f64" / "num" / "f32" as []interface{} of that type
}

// MCol is a collection of the reference model.
type MCol struct {
	Name    string
	Indexes map[string]collection.IndexType
	Docs    []*MDoc
}

// DefaultIndexes is what most explorations use.
func DefaultIndexes() map[string]collection.IndexType {
	return map[string]collection.IndexType{"title": collection.StringIndex, "n": collection.NumberIndex}
}

func NewCol(name string) *MCol { return &MCol{Name: name, Indexes: DefaultIndexes()} }

func (m *MCol) Clone() *MCol {
	c := &MCol{Name: m.Name, Indexes: m.Indexes}
	c.Docs = append(c.Docs, m.Docs...)
	return c
}

// Real returns the request object for creating the collection.
func (m *MCol) Real() *document.Collection {
	ix := map[string]collection.IndexType{}
	for k, v := range m.Indexes {
		ix[k] = v
	}
	return &document.Collection{Name: m.Name, Indexes: ix}
}

// Put applies an acknowledged add to the model (same id replaces).
func (m *MCol) Put(ds ...*MDoc) {
	for _, d := range ds {
		for i, e := range m.Docs {
			if e.ID == d.ID {
				m.Docs = append(append([]*MDoc{}, m.Docs[:i]...), m.Docs[i+1:]...)
				break
			}
		}
		m.Docs = append(m.Docs, d)
	}
}

func (m *MCol) Get(id string) *MDoc {
	for _, d := range m.Docs {
		if d.ID == id {
			return d
		}
	}
	return nil
}

// D makes a document with vector v: explicit (text=false) or via the
// vectorizer (text=true, v = alphabet index text).
func D(id string, n int, vec []float32) *MDoc {
	return &MDoc{ID: id, Vec: vec, Props: map[string]interface{}{
		"title": "t-" + id, "n": float64(n), "body": "body of " + id, "nested": map[string]interface{}{"a": []interface{}{"x", 1.5, nil, true}},
	}}
}

// DT makes a document vectorized from its text property "content".
func DT(id string, n int, vi int) *MDoc {
	d := D(id, n, Alphabet[vi])
	d.Text = true
	// the text is made of the vectorized properties, in their order
	switch n % 3 {
	case 0:
		d.Props["content"] = fmt.Sprintf("v%d", vi)
	case 1:
		d.Props["content"] = fmt.Sprintf("v%d", vi)
		d.Props["more"] = fmt.Sprintf("v%d", (vi+1)%len(Alphabet))
	default:
		d.Props["content"] = "plain words"
		d.Props["more"] = fmt.Sprintf("v%d", vi)
	}
	return d
}

// DN makes a document without any vector.
func DN(id string, n int) *MDoc { return D(id, n, nil) }

func deepCopy(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, x := range t {
			m[k] = deepCopy(x)
		}
		return m
	case []interface{}:
		s := make([]interface{}, len(t))
		for i, x := range t {
			s[i] = deepCopy(x)
		}
		return s
	}
	return v
}

// Real returns a fresh request object (the code under test mutates it).
func (d *MDoc) Real() *document.Document {
	p := deepCopy(d.Props).(map[string]interface{})
	if d.Vec != nil && !d.Text {
		p["vector"] = VecForm(d.Form, d.Vec)
	}
	return &document.Document{ID: d.ID, Properties: p}
}

// VecForm gives a vector in one of the accepted request forms.
func VecForm(form string, vec []float32) interface{} {
	var l []interface{}
	for _, x := range vec {
		switch form {
		case "f64":
			l = append(l, float64(x))
		case "f32":
			l = append(l, x)
		case "num":
			l = append(l, json.Number(fmt.Sprint(x)))
		}
	}
	if l != nil {
		return l
	}
	return append([]float32{}, vec...)
}

// Vectorize is the propertiesToIndex argument of every add.
var Vectorize = []string{"content", "more"}

func Reals(ds ...*MDoc) []*document.Document {
	out := make([]*document.Document, len(ds))
	for i, d := range ds {
		out[i] = d.Real()
	}
	return out
}

// Add adds through the real client.
func Add(c *document.Client, col string, ds ...*MDoc) error {
	return c.AddDocuments(col, Vectorize, Reals(ds...)...)
}

// Open starts a new process image and fails loudly.
func Open(s *fenv.Store) *document.Client {
	c, err := World.Client(s)
	if err != nil {
		panic(fmt.Sprintf("environment: %v", err))
	}
	return c
}

// SameDoc compares a returned document with the model document.
func SameDoc(raw []byte, d *MDoc) error {
	var got map[string]interface{}
	if err := json.Unmarshal(raw, &got); err != nil {
		return fmt.Errorf("returned document is not JSON: %v", err)
	}
	if got["id"] != d.ID {
		return fmt.Errorf("returned id %v, want %s", got["id"], d.ID)
	}
	for k, want := range d.Props {
		if k == "id" || k == "hnswId" {
			continue // reserved: what the database itself stores under these names
		}
		b1, _ := json.Marshal(got[k])
		b2, _ := json.Marshal(want)
		if string(b1) != string(b2) {
			return fmt.Errorf("document %s property %q is %s, stored %s", d.ID, k, b1, b2)
		}
	}
	for k := range got {
		if _, ok := d.Props[k]; !ok && k != "id" && k != "hnswId" && k != "vector" {
			return fmt.Errorf("document %s has foreign property %q", d.ID, k)
		}
	}
	return nil
}

func rawID(raw []byte) string {
	var got map[string]interface{}
	if json.Unmarshal(raw, &got) != nil {
		return "?"
	}
	return fmt.Sprint(got["id"])
}

// Near is one near-search request.
type Near struct {
	Vec   []float32
	Text  string // non-empty: text search
	Dist  float32
	Limit int
}

func (q Near) String() string {
	if q.Text != "" {
		return fmt.Sprintf("near(text=%q dist=%v limit=%d)", q.Text, q.Dist, q.Limit)
	}
	return fmt.Sprintf("near(vec=%v dist=%v limit=%d)", q.Vec, q.Dist, q.Limit)
}

// Do performs the request on the real client.
func (q Near) Do(c *document.Client, col string) ([][]byte, []float32, error) {
	if q.Text != "" {
		return c.GetNearDocuments(col, q.Text, q.Dist, q.Limit)
	}
	return c.GetNearDocumentsByVector(col, append([]float32{}, q.Vec...), q.Dist, q.Limit)
}

func (q Near) vec() []float32 {
	if q.Text != "" {
		return TextVec(q.Text)
	}
	return q.Vec
}

// Want describes what the collection may contain: docs that must be there
// and docs that may be there (unacknowledged).
type Want struct {
	Must  []*MDoc
	Maybe []*MDoc
	// Loose: only well-formedness and presence (limit 0 / unlimited) are
	// checked, not that the k nearest are chosen.
	Loose bool
}

// CheckNear runs one search and compares it with the exact answer.
func CheckNear(c *document.Client, col string, w Want, q Near) error {
	docs, dists, err := q.Do(c, col)
	return JudgeNear(w, q, docs, dists, err)
}

// JudgeNear compares a search answer with the exact answer.
func JudgeNear(w Want, q Near, docs [][]byte, dists []float32, err error) error {
	if err != nil {
		return fmt.Errorf("%v failed: %v", q, err)
	}
	if len(docs) != len(dists) {
		return fmt.Errorf("%v returned %d documents but %d distances", q, len(docs), len(dists))
	}
	if q.Limit > 0 && len(docs) > q.Limit {
		return fmt.Errorf("%v returned %d documents", q, len(docs))
	}
	byID := map[string]*MDoc{}
	for _, d := range w.Must {
		byID[d.ID] = d
	}
	maybe := map[string][]*MDoc{}
	for _, d := range w.Maybe {
		maybe[d.ID] = append(maybe[d.ID], d)
	}
	qv := q.vec()
	seen := map[string]bool{}
	prev := math.Inf(-1)
	for i, raw := range docs {
		id := rawID(raw)
		if seen[id] {
			return fmt.Errorf("%v returned document %s twice", q, id)
		}
		seen[id] = true
		cands := append([]*MDoc{}, maybe[id]...)
		if d := byID[id]; d != nil {
			cands = append(cands, d)
		}
		if len(cands) == 0 {
			return fmt.Errorf("%v returned document %q which is not in the collection", q, id)
		}
		var last error
		ok := false
		for _, d := range cands {
			if d.Vec == nil {
				last = fmt.Errorf("%v returned document %s which has no vector", q, id)
				continue
			}
			if e := SameDoc(raw, d); e != nil {
				last = fmt.Errorf("%v: %v", q, e)
				continue
			}
			td := CosDist(qv, d.Vec)
			if math.Abs(td-float64(dists[i])) > Tol {
				last = fmt.Errorf("%v reported distance %v for document %s, true distance %v", q, dists[i], id, td)
				continue
			}
			if td > float64(q.Dist)+Tol {
				last = fmt.Errorf("%v returned document %s at true distance %v", q, id, td)
				continue
			}
			ok = true
		}
		if !ok {
			return last
		}
		if math.IsNaN(float64(dists[i])) || float64(dists[i]) < prev {
			return fmt.Errorf("%v: distances not ascending: %v", q, dists)
		}
		prev = float64(dists[i])
	}
	// completeness
	var within []float64
	for _, d := range w.Must {
		if d.Vec == nil {
			continue
		}
		td := CosDist(qv, d.Vec)
		if td > float64(q.Dist)-Tol {
			continue
		}
		within = append(within, td)
		if q.Limit == 0 && !seen[d.ID] {
			return fmt.Errorf("%v misses document %s at distance %v (got %s)", q, d.ID, td, ids(docs))
		}
	}
	if q.Limit > 0 && !w.Loose {
		sort.Float64s(within)
		k := len(within)
		if k > q.Limit {
			k = q.Limit
		}
		if len(docs) < k {
			return fmt.Errorf("%v returned %d documents, %d are within the distance (got %s)", q, len(docs), len(within), ids(docs))
		}
		for i := 0; i < k; i++ {
			if float64(dists[i]) > within[i]+2*Tol {
				return fmt.Errorf("%v result %d is at distance %v but a document at %v exists (got %s)", q, i, dists[i], within[i], ids(docs))
			}
		}
	}
	return nil
}

func ids(docs [][]byte) string {
	var s []string
	for _, d := range docs {
		s = append(s, rawID(d))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// CheckGet looks a document up by id and compares.
func CheckGet(c *document.Client, col string, d *MDoc) error {
	raw, err := c.GetDocument(col, "id", d.ID)
	if err != nil {
		return fmt.Errorf("get id=%s failed: %v", d.ID, err)
	}
	return SameDoc(raw, d)
}

// CheckLookup looks documents up by an indexed property.
func CheckLookup(c *document.Client, col string, docs []*MDoc, prop, value string, maybe ...*MDoc) error {
	raw, err := c.GetDocument(col, prop, value)
	match := func(d *MDoc) bool {
		if prop == "id" {
			return d.ID == value
		}
		switch v := d.Props[prop].(type) {
		case string:
			return v == value
		case float64:
			return fmt.Sprint(v) == value
		}
		return false
	}
	var want []*MDoc
	for _, d := range docs {
		if match(d) {
			want = append(want, d)
		}
	}
	if err != nil {
		if len(want) > 0 {
			return fmt.Errorf("get %s=%s failed (%v) but document %s matches", prop, value, err, want[0].ID)
		}
		return nil
	}
	for _, d := range append(append([]*MDoc{}, want...), maybe...) {
		if match(d) && SameDoc(raw, d) == nil {
			return nil
		}
	}
	return fmt.Errorf("get %s=%s returned %s, which is not a stored document with that value", prop, value, raw)
}

// CheckCol checks every acknowledged document of a collection in every way a
// user can reach it: by id, by indexed property and by near-search.
func CheckCol(c *document.Client, m *MCol, maybe []*MDoc) error {
	for _, d := range m.Docs {
		if d.Bulk {
			continue
		}
		if err := CheckGet(c, m.Name, d); err != nil {
			return err
		}
		for p, t := range m.Indexes {
			if t == collection.StringIndex || t == collection.NumberIndex {
				if err := CheckLookup(c, m.Name, m.Docs, p, fmt.Sprint(d.Props[p]), maybe...); err != nil {
					return err
				}
			}
		}
	}
	return CheckNear(c, m.Name, Want{Must: m.Docs, Maybe: maybe}, Near{Vec: Alphabet[6], Dist: 2.5})
}

// SeedLevels makes the global random source deterministic.
func SeedLevels(seed int64) { rand.Seed(seed) } //nolint

// Names lists the collections.
func Names(c *document.Client) ([]string, error) {
	l, err := c.GetCollections()
	if err != nil {
		return nil, err
	}
	out := []string{}
	for _, x := range l {
		out = append(out, x.Name)
	}
	sort.Strings(out)
	return out, nil
}
