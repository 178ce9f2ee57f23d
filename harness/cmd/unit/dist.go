package main

import (
	"encoding/json"
	"fmt"
	"math"
	"unsafe"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

type distCase struct {
	Kind string `json:"k"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
}

type metric struct {
	name   string
	single func(a, b []float32) (float32, bool, error)
	dist   func(a, b []float32) (float32, bool, error)
	step   func(a, b []float32) float32 // nil: none
	wrap   func(x float32) float32
	ref    func(a, b []float32) (want, scale float64)
	pure   func(a, b []float32) float32
}

func dotRef(a, b []float32) (s, abs float64) {
	for i := range a {
		p := float64(a[i]) * float64(b[i])
		s += p
		abs += math.Abs(p)
	}
	return
}

func metrics() []metric {
	cos, dot, l2, man, ham := distancer.NewCosineDistanceProvider(), distancer.NewDotProductProvider(), distancer.NewL2SquaredProvider(), distancer.NewManhattanProvider(), distancer.NewHammingProvider()
	return []metric{
		{"cosine", cos.SingleDist, func(a, b []float32) (float32, bool, error) { return cos.New(a).Distance(b) }, cos.Step, cos.Wrap,
			func(a, b []float32) (float64, float64) { s, x := dotRef(a, b); return 1 - s, 1 + x }, nil},
		{"dot", dot.SingleDist, func(a, b []float32) (float32, bool, error) { return dot.New(a).Distance(b) }, dot.Step, dot.Wrap,
			func(a, b []float32) (float64, float64) { s, x := dotRef(a, b); return -s, x }, distancer.DotProductGo},
		{"l2", l2.SingleDist, func(a, b []float32) (float32, bool, error) { return l2.New(a).Distance(b) }, l2.Step, l2.Wrap,
			func(a, b []float32) (s, x float64) {
				for i := range a {
					d := float64(a[i] - b[i])
					s += d * d
				}
				return s, s
			}, nil},
		{"manhattan", man.SingleDist, func(a, b []float32) (float32, bool, error) { return man.New(a).Distance(b) }, man.Step, man.Wrap,
			func(a, b []float32) (s, x float64) {
				for i := range a {
					s += math.Abs(float64(a[i] - b[i]))
				}
				return s, s
			}, nil},
		{"hamming", ham.SingleDist, func(a, b []float32) (float32, bool, error) { return ham.New(a).Distance(b) }, ham.Step, ham.Wrap,
			func(a, b []float32) (s, x float64) {
				for i := range a {
					if a[i] != b[i] {
						s++
					}
				}
				return s, s
			}, nil},
	}
}

// values gives the pattern'th pair of values at position i.
func values(p, i int) (float32, float32) {
	h := uint32(i*2654435761) ^ uint32(p*40503)
	h ^= h >> 13
	h *= 2246822519
	h ^= h >> 16
	x := float32(int(h%2001)-1000) / 250
	y := float32(int((h>>11)%2001)-1000) / 250
	switch p {
	case 0:
		return 1, 1
	case 1:
		return 1, -1
	case 2:
		return 0, float32(i + 1)
	case 3:
		return float32(i % 7), float32(i % 5)
	case 4:
		return x, x // identical
	case 5:
		return x, -x
	case 6:
		return float32(int(1) << (i % 12)), float32(i%3) - 1
	case 7:
		return 1e-3 * x, 1e3 * y
	case 8: // alternating presence
		if i%2 == 0 {
			return 0, y
		}
		return x, 0
	case 9:
		return float32(math.Copysign(0, -1)), 0
	}
	return x, y
}

const patterns = 16

func (m metric) check(a, b []float32, r *kit.Result) error {
	want, scale := m.ref(a, b)
	tol := 1e-6*scale*math.Sqrt(float64(len(a)+1)) + 1e-7*math.Abs(want)
	near := func(how string, got float32) error {
		if math.IsNaN(float64(got)) || math.Abs(float64(got)-want) > tol {
			return fmt.Errorf("%s %s = %v, want %v (±%g)", m.name, how, got, want, tol)
		}
		return nil
	}
	r.Transitions++
	for _, x := range []struct {
		how string
		f   func(a, b []float32) (float32, bool, error)
		a   []float32
		b   []float32
	}{{"of a pair", m.single, a, b}, {"from a vector", m.dist, a, b}, {"of the swapped pair", m.single, b, a}, {"from the other vector", m.dist, b, a}} {
		got, ok, err := x.f(x.a, x.b)
		if err != nil || !ok {
			return fmt.Errorf("%s %s: ok=%v err=%v", m.name, x.how, ok, err)
		}
		if err := near(x.how, got); err != nil {
			return err
		}
	}
	if err := near("by steps", m.wrap(m.step(a, b))); err != nil {
		return err
	}
	if m.pure != nil {
		return near("in Go", m.pure(a, b))
	}
	return nil
}

// aligned returns n floats that start off floats behind a 64 byte boundary,
// with NaNs around them.
func aligned(n, off int) []float32 {
	buf := make([]float32, n+96)
	for i := range buf {
		buf[i] = float32(math.NaN())
	}
	s := 0
	for uintptr(unsafe.Pointer(&buf[s]))%64 != 0 {
		s++
	}
	v := buf[s+off : s+off+n : s+off+n]
	return v
}

func runDist(c kit.Case, r *kit.Result) {
	var dc distCase
	if err := json.Unmarshal(c.Data, &dc); err != nil {
		panic(err)
	}
	if dc.Kind == "race-dist" {
		distRace(r)
		return
	}
	if dc.Kind == "geo" {
		runGeo(r)
		return
	}
	if dc.Kind == "normalize" {
		runNormalize(dc, r)
		return
	}
	for _, m := range metrics() {
		if m.name != dc.Kind {
			continue
		}
		for n := dc.Lo; n < dc.Hi; n++ {
			// every position counts, exactly once
			a, b := aligned(n, n%8), aligned(n, (n/8)%8)
			for i := range a {
				a[i], b[i] = 0, 0
			}
			for i := 0; i < n; i++ {
				a[i], b[i] = 3, 2
				if err := m.check(a, b, r); err != nil {
					r.Fail("value", "length %d, only position %d set: %v", n, i, err)
				}
				a[i], b[i] = 0, 0
			}
			r.Executions += n
			// every alignment and pattern
			for offA := 0; offA < 8; offA++ {
				offB := (offA*3 + n) % 8
				a, b := aligned(n, offA), aligned(n, offB)
				for p := 0; p < patterns; p++ {
					for i := 0; i < n; i++ {
						a[i], b[i] = values(p, i)
					}
					ca, cb := append([]float32{}, a...), append([]float32{}, b...)
					if err := m.check(a, b, r); err != nil {
						r.Fail("value", "length %d, pattern %d, offsets %d and %d: %v", n, p, offA, offB, err)
					}
					for i := range a {
						if a[i] != ca[i] || b[i] != cb[i] {
							r.Fail("changed", "%s changes its arguments (length %d)", m.name, n)
							break
						}
					}
					r.Executions++
				}
			}
			// vectors of different lengths have no distance
			for _, k := range []int{0, 1, n - 1, n + 1, 2 * n} {
				if k < 0 || k == n {
					continue
				}
				o := aligned(k, 0)
				for _, f := range []func(a, b []float32) (float32, bool, error){m.single, m.dist} {
					if _, _, err := f(a, o); err == nil {
						r.Fail("lengths", "%s of %d and %d dimensions is not an error", m.name, n, k)
					}
				}
			}
			r.State(m.name, n)
			r.Outcome(fmt.Sprintf("%s agrees", m.name))
		}
	}
}

var scales = []float32{1, 1e-9, 1e-4, 1e5, 1e11}

func runNormalize(dc distCase, r *kit.Result) {
	for n := dc.Lo; n < dc.Hi; n++ {
		for p := 0; p < patterns*len(scales); p++ {
			v := make([]float32, n)
			var norm float64
			for i := range v {
				_, v[i] = values(p%patterns, i)
				v[i] *= scales[p/patterns]
				if p%2 == 1 && i == n/2 {
					v[i] *= 30000 // one component outweighs the others
				}
				norm += float64(v[i]) * float64(v[i])
			}
			norm = math.Sqrt(norm)
			keep := append([]float32{}, v...)
			got := distancer.Normalize(v)
			r.Executions++
			r.Transitions++
			if len(got) != n {
				r.Fail("length", "normalizing %d dimensions gives %d", n, len(got))
				continue
			}
			for i := range v {
				want := 0.0
				if norm > 0 {
					want = float64(keep[i]) / norm
				}
				if v[i] != keep[i] {
					r.Fail("changed", "Normalize changes its argument (length %d)", n)
					break
				}
				if math.Abs(float64(got[i])-want) > 1e-4*math.Abs(want)+1e-30 || math.IsNaN(float64(got[i])) {
					r.Fail("value", "length %d pattern %d: component %d is %v, want %v", n, p, i, got[i], want)
					break
				}
			}
			// and normalizing again changes nothing but rounding
			again := distancer.Normalize(got)
			for i := range got {
				if math.Abs(float64(again[i]-got[i])) > 1e-4*math.Abs(float64(got[i]))+1e-30 {
					r.Fail("again", "length %d pattern %d: normalizing twice differs", n, p)
					break
				}
			}
		}
		r.State("normalize", n)
		r.Outcome("normalize agrees")
	}
}

func runGeo(r *kit.Result) {
	g := distancer.NewGeoProvider()
	lats := []float32{-90, -89.5, -45, -0.001, 0, 0.001, 12.34, 45, 52.366, 89.999, 90}
	lons := []float32{-180, -179.99, -90, -4.9, 0, 0.0001, 4.9, 77.7, 90, 179.99, 180}
	haversine := func(a, b []float32) float64 {
		// reference by the chord of unit vectors
		xyz := func(p []float32) (x, y, z float64) {
			la, lo := float64(p[0])*math.Pi/180, float64(p[1])*math.Pi/180
			return math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)
		}
		x, y, z := xyz(a)
		u, v, w := xyz(b)
		cx, cy, cz := y*w-z*v, z*u-x*w, x*v-y*u
		return 6371e3 * math.Atan2(math.Sqrt(cx*cx+cy*cy+cz*cz), x*u+y*v+z*w)
	}
	for _, la := range lats {
		for _, lo := range lons {
			for _, lb := range lats {
				for _, lp := range lons {
					a, b := []float32{la, lo}, []float32{lb, lp}
					want := haversine(a, b)
					for _, f := range []func() (float32, bool, error){func() (float32, bool, error) { return g.SingleDist(a, b) }, func() (float32, bool, error) { return g.New(a).Distance(b) }} {
						got, ok, err := f()
						r.Executions++
						r.Transitions++
						// near the antipode the haversine formula is ill-conditioned:
						// there sin^2 of half the angle is compared
						sin2 := func(d float64) float64 { s := math.Sin(d / 6371e3 / 2); return s * s }
						far := want > 19.5e6 && float64(got) < 20.02e6 && math.Abs(sin2(float64(got))-sin2(want)) < 1e-6
						if err != nil || !ok || math.IsNaN(float64(got)) || math.Abs(float64(got)-want) > 5+want*2e-5 && !far {
							r.Fail("geo", "distance of %v and %v is %v (%v), want %v", a, b, got, err, want)
						}
					}
				}
			}
			r.State("geo", la, lo)
		}
	}
	for n := 0; n < 6; n++ {
		for m := 0; m < 6; m++ {
			if n == 2 && m == 2 {
				continue
			}
			if _, _, err := g.SingleDist(make([]float32, n), make([]float32, m)); err == nil {
				r.Fail("lengths", "geo distance of %d and %d numbers is not an error", n, m)
			}
		}
	}
	r.Outcome("geo agrees")
}

func distCases(tier string) []kit.Case {
	max := 1100
	if tier == "thorough" {
		max = 2200
	}
	cs := []kit.Case{kit.MkCase("race-dist", distCase{Kind: "race-dist"})}
	for _, m := range metrics() {
		for lo := 0; lo < max; lo += 20 {
			cs = append(cs, kit.MkCase(m.name, distCase{m.name, lo, lo + 20}))
		}
	}
	for lo := 0; lo < max; lo += 80 {
		cs = append(cs, kit.MkCase("normalize", distCase{"normalize", lo, lo + 80}))
	}
	return append(cs, kit.MkCase("geo", distCase{Kind: "geo"}))
}
