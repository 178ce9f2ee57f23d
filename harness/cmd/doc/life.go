package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

// lifeCase: a sequence of operations on several collections of one pod.
type lifeCase struct {
	Ops  []int `json:"ops"`
	Seed int64 `json:"s"`
	// Names: two collections of these names are created, filled, and the one
	// with the index Drop is deleted (and created again); the tables of
	// another application are in the pod
	Names []string `json:"names,omitempty"`
	Drop  int      `json:"drop,omitempty"`
}

type life struct {
	st   *fenv.Store
	cl   *document.Client
	cols map[string]*dsim.MCol // existing ones, of the current pod
	pods map[string]map[string]*dsim.MCol
	pod  string
	rev  int
}

var lifeIndexes = map[string]map[string]collection.IndexType{
	"alpha": {"title": collection.StringIndex, "n": collection.NumberIndex},
	"beta":  {"title": collection.StringIndex, "tags": collection.ListIndex, "attr": collection.MapIndex},
	"other": {"n": collection.NumberIndex},
}

var lifeOps = []string{"create alpha", "create beta", "delete alpha", "delete beta", "add to alpha", "add to beta", "restart",
	"create alpha again with other indexes", "search alpha and beta", "add to gamma, which does not exist", "replace the first document of alpha", "go to the other pod and back"}

func (l *life) create(name, ix string) error {
	m := &dsim.MCol{Name: name, Indexes: map[string]collection.IndexType{}}
	for k, v := range lifeIndexes[ix] {
		m.Indexes[k] = v
	}
	err := l.cl.CreateCollection(m.Real())
	if l.cols[name] != nil {
		// creating it again may be refused or be without effect
		return nil
	}
	if err != nil {
		return fmt.Errorf("creating %s failed: %v", name, err)
	}
	l.cols[name] = m
	return nil
}

func (l *life) remove(name string) error {
	err := l.cl.DeleteCollection(name)
	if l.cols[name] == nil {
		return nil // refused or without effect
	}
	if err != nil {
		return fmt.Errorf("deleting %s failed: %v", name, err)
	}
	delete(l.cols, name)
	return nil
}

func (l *life) mkdoc(name, id string, kind int) *dsim.MDoc {
	l.rev++
	vi := (l.rev*2 + kind) % len(dsim.Alphabet)
	var d *dsim.MDoc
	switch kind % 3 {
	case 0:
		d = dsim.D(id, l.rev, dsim.Alphabet[vi])
	case 1:
		d = dsim.DT(id, l.rev, vi)
	default:
		d = dsim.DN(id, l.rev)
	}
	d.Props["title"] = fmt.Sprintf("%s-%s-%d", name, id, l.rev)
	d.Props["tags"] = []interface{}{fmt.Sprintf("tag-%d", l.rev), name}
	d.Props["attr"] = map[string]interface{}{"k": fmt.Sprintf("val-%d", l.rev)}
	return d
}

func (l *life) add(name string, ds ...*dsim.MDoc) error {
	err := dsim.Add(l.cl, name, ds...)
	m := l.cols[name]
	if m == nil {
		if err == nil {
			return fmt.Errorf("adding to %s, which does not exist, was acknowledged", name)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("adding to %s failed: %v", name, err)
	}
	m.Put(ds...)
	return nil
}

func (l *life) step(op int) error {
	switch op {
	case 0:
		return l.create("alpha", "alpha")
	case 1:
		return l.create("beta", "beta")
	case 2:
		return l.remove("alpha")
	case 3:
		return l.remove("beta")
	case 4:
		return l.add("alpha", l.mkdoc("alpha", fmt.Sprintf("a%d", l.rev), 0), l.mkdoc("alpha", "txt", 1))
	case 5:
		return l.add("beta", l.mkdoc("beta", fmt.Sprintf("b%d", l.rev), 0), l.mkdoc("beta", "plain", 2))
	case 6:
		l.cl = dsim.Open(l.st)
	case 7:
		return l.create("alpha", "other")
	case 8:
		for _, n := range []string{"alpha", "beta"} {
			if err := l.near(n, dsim.Near{Vec: dsim.Alphabet[3], Dist: 2.5, Limit: 2}); err != nil {
				return err
			}
		}
	case 9:
		return l.add("gamma", l.mkdoc("gamma", "g", 0))
	case 10:
		m := l.cols["alpha"]
		if m == nil || len(m.Docs) == 0 {
			return nil
		}
		return l.add("alpha", l.mkdoc("alpha", m.Docs[0].ID, 0))
	case 11:
		if err := l.otherPod(); err != nil {
			return err
		}
	}
	return nil
}

// otherPod opens a second pod, uses collections of the same names there, and
// comes back.
func (l *life) otherPod() error {
	if err := l.cl.OpenPod("pod2"); err != nil {
		return fmt.Errorf("opening the other pod failed: %v", err)
	}
	mine := l.cols
	if l.pods["pod2"] == nil {
		l.pods["pod2"] = map[string]*dsim.MCol{}
	}
	l.cols, l.pod = l.pods["pod2"], "pod2"
	err := l.create("alpha", "alpha")
	if err == nil {
		err = l.add("alpha", l.mkdoc("alpha", fmt.Sprintf("p%d", l.rev), 0))
	}
	if err == nil {
		err = l.checkAll()
	}
	if err != nil {
		return fmt.Errorf("in the other pod: %v", err)
	}
	l.cols, l.pod = mine, fenv.Pod
	if err := l.cl.OpenPod(fenv.Pod); err != nil {
		return fmt.Errorf("opening the first pod again failed: %v", err)
	}
	return nil
}

func (l *life) near(name string, q dsim.Near) error {
	docs, dists, err := q.Do(l.cl, name)
	m := l.cols[name]
	if m == nil {
		if err == nil {
			return fmt.Errorf("%v on %s, which does not exist, succeeded with %d documents", q, name, len(docs))
		}
		return nil
	}
	if e := dsim.JudgeNear(dsim.Want{Must: m.Docs}, q, docs, dists, err); e != nil {
		return fmt.Errorf("collection %s: %v", name, e)
	}
	return nil
}

func (l *life) names() []string {
	want := []string{}
	for n := range l.cols {
		want = append(want, n)
	}
	sort.Strings(want)
	return want
}

func (l *life) checkAll() error { return l.checkNamed("alpha", "beta", "gamma") }

func (l *life) checkNamed(all ...string) error {
	got, err := l.cl.GetCollections()
	if err != nil {
		return fmt.Errorf("listing failed: %v", err)
	}
	var names []string
	for _, c := range got {
		names = append(names, c.Name)
		m := l.cols[c.Name]
		if m == nil {
			continue
		}
		for f, t := range m.Indexes {
			if c.Indexes[f] != t {
				return fmt.Errorf("collection %s is listed with index %s of type %v, created with %v", c.Name, f, c.Indexes[f], t)
			}
		}
		for f := range c.Indexes {
			if _, ok := m.Indexes[f]; !ok && f != "id" && f != "hnswId" {
				return fmt.Errorf("collection %s is listed with foreign index %s", c.Name, f)
			}
		}
	}
	want := l.names()
	sort.Strings(names)
	if fmt.Sprint(names) != fmt.Sprint(want) {
		return fmt.Errorf("collections listed as %v, existing are %v", names, want)
	}
	for _, n := range all {
		m := l.cols[n]
		if m == nil {
			for _, id := range []string{"a0", "txt", "b0", "plain", "g"} {
				if raw, err := l.cl.GetDocument(n, "id", id); err == nil {
					return fmt.Errorf("get id=%s from %s, which does not exist, returned %s", id, n, raw)
				}
			}
			if err := l.near(n, dsim.Near{Vec: dsim.Alphabet[0], Dist: 2.5}); err != nil {
				return err
			}
			continue
		}
		if err := dsim.CheckCol(l.cl, m, nil); err != nil {
			return fmt.Errorf("collection %s: %v", n, err)
		}
		if err := l.near(n, dsim.Near{Text: "v4", Dist: 2.5, Limit: 1}); err != nil {
			return err
		}
		for _, id := range []string{"a0", "a2", "txt", "b0", "plain", "g"} {
			if m.Get(id) == nil {
				if raw, err := l.cl.GetDocument(n, "id", id); err == nil {
					return fmt.Errorf("get id=%s from %s returned %s, which is not in it", id, n, raw)
				}
			}
		}
	}
	return nil
}

func lifeNames(ops []int) []string {
	var s []string
	for _, o := range ops {
		s = append(s, lifeOps[o])
	}
	return s
}

func runLife(c kit.Case, r *kit.Result) {
	var lc lifeCase
	if err := json.Unmarshal(c.Data, &lc); err != nil {
		panic(err)
	}
	if lc.Names != nil {
		runNames(lc, r)
		return
	}
	dsim.SeedLevels(lc.Seed)
	l := &life{st: dsim.World.Fresh(), cols: map[string]*dsim.MCol{}, pods: map[string]map[string]*dsim.MCol{}, pod: fenv.Pod}
	l.cl = dsim.Open(l.st)
	for i, op := range lc.Ops {
		if err := l.step(op); err != nil {
			r.Fail("lifecycle", "%v at step %d of %q", err, i, lifeNames(lc.Ops))
			return
		}
		r.Transitions++
	}
	if err := l.checkAll(); err != nil {
		r.Fail("lifecycle", "%v after %q", err, lifeNames(lc.Ops))
		return
	}
	l.cl = dsim.Open(l.st)
	if err := l.checkAll(); err != nil {
		r.Fail("lifecycle-restart", "%v after %q and a restart", err, lifeNames(lc.Ops))
		return
	}
	r.Executions++
	key := ""
	for _, n := range []string{"alpha", "beta"} {
		if m := l.cols[n]; m != nil {
			key += fmt.Sprint(n, len(m.Indexes), len(m.Docs), ";")
		}
	}
	r.State(key, lc.Ops)
	r.Outcome(key)
	r.Sample("%q: collections and documents as expected", lifeNames(lc.Ops))
}

// nameAlphabet: names that contain each other, the prefix that the tables of
// the collections get, or characters of paths, urls and other scripts.
var nameAlphabet = []string{"a", "A", "aa", "fave_", "fave_a", "a_fave_", "a_fave_a", "fave_fave_a", "fave", "favea", "_a", "a_", " a", "a ", "a b",
	"a.b", "a/b", "a:b", "é", "日本", "0", "-1", "null", "id", "hnswId", "a%2Fb", "a?b", "a#b", "col", "col_1", "..", "\"a\""}

var foreignNames = []string{"other", "my_fave_a", "fave", "Fave_a", "xfave_"}

func runNames(lc lifeCase, r *kit.Result) {
	dsim.SeedLevels(lc.Seed)
	st := dsim.World.Fresh()
	desc := fmt.Sprintf("collections %q next to the tables %q of another application, collection %d deleted", lc.Names, foreignNames, lc.Drop)
	for _, n := range foreignNames {
		if err := dsim.World.Foreign(st, n, `{"id":"1","f":"of `+n+`"}`, `{"id":"a0","f":"other"}`); err != nil {
			panic(err)
		}
	}
	l := &life{st: st, cols: map[string]*dsim.MCol{}, pods: map[string]map[string]*dsim.MCol{}, pod: fenv.Pod}
	l.cl = dsim.Open(l.st)
	ixs := []string{"alpha", "beta"}
	check := func(when string) bool {
		if err := l.checkNamed(append([]string{"nothere"}, lc.Names...)...); err != nil {
			r.Fail("names", "%s: %v: %s", when, err, desc)
			return false
		}
		r.Transitions++
		return true
	}
	for i, n := range lc.Names {
		err := l.create(n, ixs[i])
		if err == nil {
			err = l.add(n, l.mkdoc(n, fmt.Sprintf("d%d", i), 0), l.mkdoc(n, "same", 1), l.mkdoc(n, "plain", 2))
		}
		if err != nil {
			r.Fail("names", "%v: %s", err, desc)
			return
		}
	}
	if !check("after adding") {
		return
	}
	// names that cannot be kept in the table list are refused without effect
	for _, n := range []string{"a,b", "a,", ",", "a\nb", "a\n", lc.Names[0] + ",1", lc.Names[1] + "\n", lc.Names[0] + "\nx"} {
		if err := l.cl.CreateCollection((&dsim.MCol{Name: n, Indexes: lifeIndexes["beta"]}).Real()); err == nil {
			// a way to keep them is as good
			l.cols[n] = &dsim.MCol{Name: n, Indexes: lifeIndexes["beta"]}
		}
	}
	if !check("after creating collections with a comma or line break in the name") {
		return
	}
	if lc.Drop >= 0 {
		n := lc.Names[lc.Drop]
		if err := l.remove(n); err != nil {
			r.Fail("names", "%v: %s", err, desc)
			return
		}
		if !check("after deleting") {
			return
		}
		if lc.Seed%2 == 1 {
			l.cl = dsim.Open(l.st)
		}
		err := l.create(n, ixs[1-lc.Drop])
		if err == nil {
			err = l.add(n, l.mkdoc(n, "new", 0))
		}
		if err != nil {
			r.Fail("names", "%v: %s", err, desc)
			return
		}
	}
	if !check("in the end") {
		return
	}
	l.cl = dsim.Open(l.st)
	if !check("after a restart") {
		return
	}
	for _, n := range foreignNames {
		names, doc, err := dsim.World.ForeignTables(st, n, "1")
		var m map[string]interface{}
		if err == nil {
			err = json.Unmarshal([]byte(doc), &m)
		}
		if err != nil || m["f"] != "of "+n {
			r.Fail("foreign", "the document of the table %s of another application is %s, %v (tables %q): %s", n, doc, err, names, desc)
			return
		}
	}
	r.Executions++
	r.State("names", desc)
	r.Outcome(fmt.Sprintf("names %d", len(lc.Names)))
	r.Sample("%s: as expected", desc)
}

func lifeCases(tier string) []kit.Case {
	var cs []kit.Case
	useless := func(ops []int) bool {
		for i := range ops {
			if i > 0 && ops[i] == ops[i-1] && (ops[i] == 6 || ops[i] == 8) {
				return true
			}
		}
		l := ops[len(ops)-1]
		return l == 6 || l == 8
	}
	depth, deep := 3, 5
	if tier == "thorough" {
		depth, deep = 4, 7
	}
	sequences(len(lifeOps), depth, func(ops []int) {
		if !useless(ops) {
			cs = append(cs, kit.MkCase(fmt.Sprintf("depth%d", len(ops)), lifeCase{Ops: ops, Seed: int64(len(cs) % 5)}))
		}
	})
	// one collection created, filled, deleted, recreated, next to another one
	sub := []int{0, 2, 4, 6}
	sequences(len(sub), deep, func(ix []int) {
		if len(ix) < 4 {
			return
		}
		ops := []int{1, 5}
		for _, x := range ix {
			ops = append(ops, sub[x])
		}
		if !useless(ops) && ops[2] != 2 {
			cs = append(cs, kit.MkCase("deep", lifeCase{Ops: ops, Seed: int64(len(cs) % 5)}))
		}
	})
	for i, a := range nameAlphabet {
		for j, b := range nameAlphabet {
			if i == j {
				continue
			}
			if tier == "thorough" || i < 9 && j < 9 || (i+2*j)%7 == 0 {
				cs = append(cs, kit.MkCase("names", lifeCase{Seed: int64(i + j), Names: []string{a, b}, Drop: (i+j)%3 - 1}))
			}
		}
	}
	return cs
}
