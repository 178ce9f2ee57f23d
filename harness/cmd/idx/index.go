package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wdist "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

// searcher is what the exploration uses of the index.
type searcher interface {
	hnsw.VectorIndex
	SearchByVector(vector []float32, k int, allowList helpers.AllowList) ([]uint64, []float32, error)
}

// provider adapts FaVe's distance providers to the index.
type provider struct{ distancer.Provider }

func (p provider) New(a []float32) wdist.Distancer { return p.Provider.New(a) }

type config struct {
	Metric string `json:"metric"`
	M      int    `json:"m"`
	EFC    int    `json:"efc"`
	EF     int    `json:"ef,omitempty"`
	Cutoff int    `json:"cutoff,omitempty"`
	Dyn    [3]int `json:"dyn,omitempty"` // minimum, maximum, factor of the dynamic ef
}

func (c config) provider() wdist.Provider {
	switch c.Metric {
	case "cosine":
		return distancer.NewCosineDistanceProvider()
	case "dot":
		return provider{distancer.NewDotProductProvider()}
	case "l2":
		return provider{distancer.NewL2SquaredProvider()}
	case "manhattan":
		return provider{distancer.NewManhattanProvider()}
	case "hamming":
		return provider{distancer.NewHammingProvider()}
	}
	panic(c.Metric)
}

// ref is the distance by definition, in float64.
func (c config) ref(a, b []float32) float64 {
	var s, na, nb float64
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		switch c.Metric {
		case "cosine", "dot":
			s += x * y
			na += x * x
			nb += y * y
		case "l2":
			s += (x - y) * (x - y)
		case "manhattan":
			s += math.Abs(x - y)
		case "hamming":
			if x != y {
				s++
			}
		}
	}
	switch c.Metric {
	case "cosine":
		if na == 0 || nb == 0 {
			return 1
		}
		return 1 - s/math.Sqrt(na*nb)
	case "dot":
		return -s
	}
	return s
}

// world is an index in a process, over a store that outlives it, and the
// vectors it has to hold.
type world struct {
	cfg    config
	st     *fenv.Store
	kv     *collection.KeyValue
	commit func() error
	idx    searcher
	now    map[uint64][]float32 // in the running process
	kept   map[uint64][]float32 // after a restart
	count  uint64
	flush  bool // something was flushed
	log    func() (hnsw.CommitLogger, error)
	thunk  func() // called when a vector is not in the cache
}

const table = "t"

func newWorld(cfg config, seed int64) (*world, error) { return newWorldLog(cfg, seed, nil) }

func newWorldLog(cfg config, seed int64, log func() (hnsw.CommitLogger, error)) (*world, error) {
	rand.Seed(seed) //nolint
	w := &world{cfg: cfg, st: dsim.World.Fresh(), now: map[uint64][]float32{}, kept: map[uint64][]float32{}, log: log}
	kv, pw, commit, err := dsim.World.KV(w.st)
	if err != nil {
		return nil, err
	}
	if err := kv.CreateKVTable(table, pw, collection.StringIndex); err != nil {
		return nil, err
	}
	if err := commit(); err != nil {
		return nil, err
	}
	return w, w.open()
}

func (w *world) open() error {
	kv, pw, commit, err := dsim.World.KV(w.st)
	if err != nil {
		return err
	}
	if err := kv.OpenKVTable(table, pw); err != nil {
		return err
	}
	w.kv, w.commit = kv, commit
	log := w.log
	if log == nil {
		log = hnsw.MakeNoopCommitLogger
	}
	idx, err := hnsw.New(hnsw.Config{RootPath: "-", ID: "-", MakeCommitLoggerThunk: log,
		DistanceProvider: w.cfg.provider(), ClassName: table,
		VectorForIDThunk: func(context.Context, uint64) ([]float32, error) {
			if w.thunk != nil {
				w.thunk()
			}
			return nil, fmt.Errorf("not in memory")
		},
	}, hnsw.UserConfig{MaxConnections: w.cfg.M, EFConstruction: w.cfg.EFC, EF: w.cfg.EF, FlatSearchCutoff: w.cfg.Cutoff,
		DynamicEFMin: w.cfg.Dyn[0], DynamicEFMax: w.cfg.Dyn[1], DynamicEFFactor: w.cfg.Dyn[2]}, kv)
	if err != nil {
		return err
	}
	w.idx = idx
	if err := idx.LoadEntrypoint(); err != nil {
		return err
	}
	w.now = map[uint64][]float32{}
	for k, v := range w.kept {
		w.now[k] = v
	}
	return nil
}

func (w *world) add(id uint64, v []float32) error {
	c := append([]float32{}, v...)
	if err := w.idx.Add(id, c); err != nil {
		return err
	}
	for i := range v {
		if c[i] != v[i] {
			return fmt.Errorf("Add changed the caller's vector")
		}
	}
	w.now[id] = v
	return nil
}

func (w *world) save(count uint64) error {
	if err := w.idx.Flush(count); err != nil {
		return err
	}
	if err := w.commit(); err != nil {
		return err
	}
	w.count, w.flush = count, true
	w.kept = map[uint64][]float32{}
	for k, v := range w.now {
		w.kept[k] = v
	}
	return nil
}

// hit is one entry of the reference answer.
type hit struct {
	id uint64
	d  float64
}

func (w *world) all(q []float32, allow map[uint64]bool) []hit {
	var l []hit
	for id, v := range w.now {
		if allow == nil || allow[id] {
			l = append(l, hit{id, w.cfg.ref(v, q)})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].d < l[j].d || l[i].d == l[j].d && l[i].id < l[j].id })
	return l
}

func tol(d float64) float64 { return 2e-5 * (1 + math.Abs(d)) }

// judge compares an answer with the reference: it has to be a sorted list of
// distinct right ids with their distance, of want entries (-1: all within max),
// none of which is farther than one that is missing.
func (w *world) judge(ids []uint64, dists []float32, q []float32, allow map[uint64]bool, want int, max float64) error {
	ref := w.all(q, allow)
	if len(ids) != len(dists) {
		return fmt.Errorf("%d ids with %d distances", len(ids), len(dists))
	}
	by := map[uint64]float64{}
	for _, h := range ref {
		by[h.id] = h.d
	}
	got := map[uint64]bool{}
	worst := math.Inf(-1)
	for i, id := range ids {
		d, ok := by[id]
		if !ok {
			return fmt.Errorf("returned id %d, which is not a candidate (got %v, want %v)", id, ids, ref)
		}
		if got[id] {
			return fmt.Errorf("returned id %d twice (got %v)", id, ids)
		}
		got[id] = true
		if math.Abs(float64(dists[i])-d) > tol(d) {
			return fmt.Errorf("distance of id %d is %v, want %v", id, dists[i], d)
		}
		if i > 0 && dists[i] < dists[i-1] {
			return fmt.Errorf("distances are not in order: %v", dists)
		}
		if d > max+tol(max) {
			return fmt.Errorf("id %d has distance %v, above %v", id, d, max)
		}
		worst = math.Max(worst, d)
	}
	must, may := 0, 0
	for _, h := range ref {
		if h.d <= max-tol(max) {
			must++
		}
		if h.d <= max+tol(max) {
			may++
		}
	}
	if want >= 0 && want < must {
		must = want
	}
	if want >= 0 && want < may {
		may = want
	}
	if len(ids) < must || len(ids) > may {
		return fmt.Errorf("%d results %v, want %d of %v within %v", len(ids), ids, must, ref, max)
	}
	for _, h := range ref {
		if !got[h.id] && h.d <= max-tol(max) && h.d < worst-tol(worst) {
			return fmt.Errorf("id %d at %v is missing, but one at %v is there (got %v, want %v)", h.id, h.d, worst, ids, ref)
		}
	}
	return nil
}

func allowList(ids map[uint64]bool) helpers.AllowList {
	if ids == nil {
		return nil
	}
	var l []uint64
	for id := range ids {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return helpers.NewAllowList(l...)
}

// thresholds lists the distances worth asking for: around and between those
// that occur.
func thresholds(ref []hit) []float32 {
	if len(ref) == 0 {
		return []float32{1}
	}
	t := []float32{float32(ref[0].d - 0.5), float32(ref[len(ref)-1].d + 1)}
	for i := 1; i < len(ref); i++ {
		if ref[i].d-ref[i-1].d > 1e-3 {
			t = append(t, float32((ref[i].d+ref[i-1].d)/2))
		}
	}
	return t
}

// battery asks everything about one query and allow list.
func (w *world) battery(r *kit.Result, q []float32, allow map[uint64]bool, desc func() string) {
	n := len(w.now)
	al := allowList(allow)
	ref := w.all(q, allow)
	qc := append([]float32{}, q...)
	for _, k := range []int{1, 2, n, n + 5} {
		if k == 0 {
			continue
		}
		ids, ds, err := w.idx.SearchByVector(qc, k, al)
		r.Transitions++
		if err == nil {
			err = w.judge(ids, ds, q, allow, k, math.MaxFloat32)
		}
		if err != nil {
			r.Fail("knn", "SearchByVector(%v, k=%d, allow=%v): %v: %s", q, k, allow, err, desc())
		}
	}
	for _, t := range thresholds(ref) {
		ids, ds, err := w.idx.SearchByVectorDistance(qc, t, -1, al)
		r.Transitions++
		if err == nil {
			err = w.judge(ids, ds, q, allow, -1, float64(t))
		}
		if err != nil {
			r.Fail("distance", "SearchByVectorDistance(%v, %v, allow=%v): %v: %s", q, t, allow, err, desc())
		}
		for _, ef := range []int{0, 1, 2, n, n + 5} {
			ids, ds, err := w.idx.KnnSearchByVectorMaxDist(qc, t, ef, al)
			r.Transitions++
			if err == nil {
				want := ef
				if ef == 0 {
					want = -1
				}
				err = w.judge(ids, ds, q, allow, want, float64(t))
			}
			if err != nil {
				r.Fail("maxdist", "KnnSearchByVectorMaxDist(%v, %v, ef=%d, allow=%v): %v: %s", q, t, ef, allow, err, desc())
			}
		}
	}
	// the distance itself is included
	if _, ds, err := w.idx.KnnSearchByVectorMaxDist(qc, math.MaxFloat32, 0, al); err == nil {
		for _, d := range ds {
			_, ds2, err := w.idx.KnnSearchByVectorMaxDist(qc, d, 0, al)
			if err != nil || len(ds2) == 0 || ds2[len(ds2)-1] != d {
				r.Fail("boundary", "KnnSearchByVectorMaxDist(%v, %v, allow=%v) does not return the vector at exactly that distance (%v, %v): %s", q, d, allow, ds2, err, desc())
			}
			_, ds2, err = w.idx.SearchByVectorDistance(qc, d, -1, al)
			if err != nil || len(ds2) == 0 || float64(ds2[len(ds2)-1]) < float64(d)-tol(float64(d)) {
				r.Fail("boundary", "SearchByVectorDistance(%v, %v, allow=%v) does not return the vector at exactly that distance (%v, %v): %s", q, d, allow, ds2, err, desc())
			}
		}
	}
	for i := range q {
		if qc[i] != q[i] {
			r.Fail("query-changed", "a search changed the caller's vector: %s", desc())
		}
	}
}

func (w *world) checkCount(r *kit.Result, desc func() string) {
	n, err := w.idx.GetDocCount()
	if !w.flush {
		if err == nil && n != 0 {
			r.Fail("count", "GetDocCount = %d before anything was flushed: %s", n, desc())
		}
		return
	}
	if err != nil || n != w.count {
		r.Fail("count", "GetDocCount = %d, %v, want %d: %s", n, err, w.count, desc())
	}
}

func (w *world) ids() (l []uint64) {
	for id := range w.now {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
