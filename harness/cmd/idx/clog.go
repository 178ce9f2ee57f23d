package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vos"
	"github.com/fairDataSociety/FaVe/vmc/vtime"
	"github.com/sirupsen/logrus"
	"github.com/weaviate/weaviate/entities/cyclemanager"
)

// ---- the reference: what a sequence of records says

type mnode struct {
	level int
	links map[int][]uint64
}

type mstate struct {
	nodes   map[uint64]*mnode
	ep      uint64
	epLevel int
	tomb    map[uint64]bool
}

func newState() *mstate { return &mstate{nodes: map[uint64]*mnode{}, tomb: map[uint64]bool{}} }

func (s *mstate) node(id uint64) *mnode {
	if s.nodes[id] == nil {
		s.nodes[id] = &mnode{links: map[int][]uint64{}}
	}
	return s.nodes[id]
}

type rec struct {
	T  string   `json:"t"`
	ID uint64   `json:"id,omitempty"`
	L  int      `json:"l,omitempty"`
	To []uint64 `json:"to,omitempty"`
}

func (r rec) String() string { return fmt.Sprintf("%s(%d,%d,%v)", r.T, r.ID, r.L, r.To) }

// size is the length of the record in the log.
func (r rec) size() int {
	switch r.T {
	case "node", "ep", "clearlevel":
		return 11
	case "link":
		return 19
	case "replace":
		return 13 + 8*len(r.To)
	case "reset":
		return 1
	}
	return 9
}

func (s *mstate) apply(r rec) {
	switch r.T {
	case "node":
		s.node(r.ID).level = r.L
	case "ep":
		s.ep, s.epLevel = r.ID, r.L
	case "link":
		n := s.node(r.ID)
		n.links[r.L] = append(n.links[r.L], r.To...)
	case "replace":
		s.node(r.ID).links[r.L] = append([]uint64{}, r.To...)
	case "tomb":
		s.tomb[r.ID] = true
	case "untomb":
		delete(s.tomb, r.ID)
	case "clear":
		if n := s.nodes[r.ID]; n != nil {
			n.links = map[int][]uint64{}
		}
	case "clearlevel":
		if n := s.nodes[r.ID]; n != nil {
			delete(n.links, r.L)
		}
	case "delete":
		delete(s.nodes, r.ID)
	case "reset":
		s.nodes, s.ep, s.epLevel = map[uint64]*mnode{}, 0, 0
	default:
		panic(r.T)
	}
}

func stateOf(rs []rec) *mstate {
	s := newState()
	for _, r := range rs {
		s.apply(r)
	}
	return s
}

// String is the state as such: the order of links does not matter, and neither
// does a level without links. With set, neither does how often a link is there.
func (s *mstate) render(set bool) string {
	var b strings.Builder
	var ids []uint64
	for id := range s.nodes {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		n := s.nodes[id]
		fmt.Fprintf(&b, "%d/%d", id, n.level)
		var ls []int
		for l := range n.links {
			ls = append(ls, l)
		}
		sort.Ints(ls)
		for _, l := range ls {
			to := append([]uint64{}, n.links[l]...)
			sort.Slice(to, func(i, j int) bool { return to[i] < to[j] })
			if set {
				k := 0
				for i, t := range to {
					if i == 0 || to[k-1] != t {
						to[k] = t
						k++
					}
				}
				to = to[:k]
			}
			if len(to) > 0 {
				fmt.Fprintf(&b, " %d:%v", l, to)
			}
		}
		b.WriteString("; ")
	}
	fmt.Fprintf(&b, "entry %d/%d", s.ep, s.epLevel)
	ids = nil
	for id := range s.tomb {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if len(ids) > 0 {
		fmt.Fprintf(&b, " tombstones %v", ids)
	}
	return b.String()
}

func (s *mstate) String() string { return s.render(false) }

// ---- the commit log

var quiet = func() *logrus.Logger { l := logrus.New(); l.SetOutput(io.Discard); return l }()

// observed is the state a reader of the log is given.
func observed(res *hnsw.DeserializationResult) *mstate {
	s := newState()
	if res == nil {
		return s
	}
	for id, n := range res.Nodes {
		if n == nil {
			continue
		}
		m := s.node(uint64(id))
		m.level = n.Level
		if n.Id != uint64(id) {
			m.level = -1
		}
		if len(n.Connections) < n.Level+1 {
			m.level = -2 // a layer without a list of links cannot be searched
		}
		for l, to := range n.Connections {
			if len(to) > 0 {
				m.links[l] = append([]uint64{}, to...)
			}
		}
	}
	s.ep, s.epLevel = res.Entrypoint, int(res.Level)
	for id := range res.Tombstones {
		s.tomb[id] = true
	}
	return s
}

// hand is a ticker that runs a cycle when told to.
type hand struct {
	c    chan time.Time
	done chan bool
}

func (h *hand) Start()              {}
func (h *hand) Stop()               {}
func (h *hand) C() <-chan time.Time { return h.c }
func (h *hand) CycleExecuted(b bool) {
	h.done <- b
}

func (h *hand) tick() bool {
	h.c <- time.Time{}
	return <-h.done
}

// clog is a commit log in a scratch directory.
type clog struct {
	root    string
	sw, cc  *hand // switch and condense cycle
	log     hnsw.CommitLogger
	limit   int64 // size beyond which the switch cycle switches
	combine int64
	frozen  bool // the clock stands still

	all     []rec // everything recorded
	flushed int   // of which surely on disk
}

var clock int64

func newClog(limit, combine int64, frozen bool) (*clog, error) {
	root, err := os.MkdirTemp("", "vmc-clog")
	if err != nil {
		return nil, err
	}
	clock = 1600000000
	l := &clog{root: root, limit: limit, combine: combine, frozen: frozen}
	vtime.Clock = func() vtime.Time {
		if !l.frozen {
			clock++
		}
		return time.Unix(clock, 0)
	}
	return l, nil
}

func (l *clog) open() (hnsw.CommitLogger, error) {
	var made []*hand
	lg, err := hnsw.NewCommitLogger(l.root, "i", quiet, hnsw.WithCommitlogThreshold(l.limit), hnsw.WithCommitlogThresholdForCombining(l.combine),
		hnsw.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker {
			h := &hand{c: make(chan time.Time), done: make(chan bool)}
			made = append(made, h)
			return h
		}))
	if err != nil {
		return nil, err
	}
	if len(made) != 2 {
		return nil, fmt.Errorf("%d cycles instead of two", len(made))
	}
	l.sw, l.cc, l.log = made[0], made[1], lg
	if swapped {
		l.sw, l.cc = l.cc, l.sw
	}
	return lg, nil
}

// swapped: the cycle that switches files is the second one that is made.
var swapped bool

// probe finds that out.
func probe() error {
	swapped = false
	l, err := newClog(1, 0, false)
	if err != nil {
		return err
	}
	defer l.remove()
	if _, err := l.open(); err != nil {
		return err
	}
	if err := l.write(rec{T: "tomb", ID: 1}); err != nil {
		return err
	}
	if err := l.flush(); err != nil {
		return err
	}
	l.cc.tick()
	swapped = len(readDir(l.dir())) > 1
	return l.stop()
}

var probed bool

func (l *clog) stop() error {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return l.log.Shutdown(ctx)
}

func (l *clog) remove() {
	vos.Hook = nil
	vtime.Clock = nil
	if l.log != nil {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		_ = l.log.Drop(ctx)
	}
	if strings.Contains(l.root, "vmc-clog") {
		_ = os.RemoveAll(l.root)
	}
}

func (l *clog) dir() string { return filepath.Join(l.root, "i.hnsw.commitlog.d") }

var protoRes = map[[2]uint64]*hnsw.DeserializationResult{}

func (l *clog) write(r rec) error {
	var err error
	lv := r.L
	switch r.T {
	case "node":
		k := [2]uint64{r.ID, uint64(r.L)}
		if protoRes[k] == nil {
			// the only way to a node outside of the package
			b := make([]byte, 11)
			binary.LittleEndian.PutUint64(b[1:], r.ID)
			binary.LittleEndian.PutUint16(b[9:], uint16(r.L))
			res, _, err := hnsw.NewDeserializer(quiet).Do(bufio.NewReader(bytes.NewReader(b)), nil, false)
			if err != nil {
				return err
			}
			protoRes[k] = res
		}
		err = l.log.AddNode(protoRes[k].Nodes[r.ID])
	case "ep":
		err = l.log.SetEntryPointWithMaxLayer(r.ID, lv)
	case "link":
		err = l.log.AddLinkAtLevel(r.ID, lv, r.To[0])
	case "replace":
		err = l.log.ReplaceLinksAtLevel(r.ID, lv, r.To)
	case "tomb":
		err = l.log.AddTombstone(r.ID)
	case "untomb":
		err = l.log.RemoveTombstone(r.ID)
	case "clear":
		err = l.log.ClearLinks(r.ID)
	case "clearlevel":
		err = l.log.ClearLinksAtLevel(r.ID, uint16(lv))
	case "delete":
		err = l.log.DeleteNode(r.ID)
	case "reset":
		err = l.log.Reset()
	default:
		panic(r.T)
	}
	if err == nil {
		l.all = append(l.all, r)
	}
	return err
}

func (l *clog) flush() error {
	if err := l.log.Flush(); err != nil {
		return err
	}
	l.flushed = len(l.all)
	return nil
}

func stamp(name string) (int64, error) {
	return strconv.ParseInt(strings.TrimSuffix(name, ".condensed"), 10, 64)
}

// restore reads a log directory as an index does when it starts (startup.go):
// unfinished files are removed, the rest is read from old to new, and a file
// that ends in the middle of a record is cut after the last complete one.
func restore(dir string) (*mstate, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, e := range es {
		switch {
		case strings.HasSuffix(e.Name(), ".scratch.tmp"):
		case strings.HasSuffix(e.Name(), ".combined.tmp"):
			if err := os.Remove(filepath.Join(dir, e.Name())); err != nil {
				return nil, err
			}
		default:
			if _, err := stamp(e.Name()); err != nil {
				return nil, err
			}
			names = append(names, e.Name())
		}
	}
	sort.Slice(names, func(i, j int) bool {
		a, _ := stamp(names[i])
		b, _ := stamp(names[j])
		return a < b || a == b && names[i] < names[j]
	})
	for i := range names {
		names[i] = filepath.Join(dir, names[i])
	}
	names, err = hnsw.NewCorruptedCommitLogFixer(quiet).Do(names)
	if err != nil {
		return nil, err
	}
	var res *hnsw.DeserializationResult
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		var valid int
		res, valid, err = hnsw.NewDeserializer(quiet).Do(bufio.NewReader(bytes.NewReader(b)), res, false)
		if err != nil {
			if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
				return nil, err
			}
			if err := os.Truncate(n, int64(valid)); err != nil {
				return nil, err
			}
		}
	}
	return observed(res), nil
}

func copyDir(from, to string) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// look reads a copy of the directory, so that looking changes nothing.
func (l *clog) look() (*mstate, error) {
	to := filepath.Join(l.root, "copy")
	defer os.RemoveAll(to)
	if err := copyDir(l.dir(), to); err != nil {
		return nil, err
	}
	return restore(to)
}

// ---- the cases

type clogCase struct {
	Kind   string `json:"kind"`
	Ops    []rec  `json:"ops,omitempty"`
	Same   bool   `json:"same,omitempty"`   // the clock stands still
	Apart  bool   `json:"apart,omitempty"`  // condensed files are never combined
	Append bool   `json:"append,omitempty"` // go on after every cut

	// kind graph
	Size   int    `json:"size,omitempty"`
	M      int    `json:"m,omitempty"`
	Seed   int64  `json:"seed,omitempty"`
	Every  int    `json:"every,omitempty"`
	Family string `json:"family,omitempty"`
}

func runClog(c kit.Case, r *kit.Result) {
	var cc clogCase
	if err := json.Unmarshal(c.Data, &cc); err != nil {
		r.Fail("harness", "%v", err)
		return
	}
	if !probed {
		probed = true
		if err := probe(); err != nil {
			r.Fail("maint", "a log with one record: %v", err)
			return
		}
	}
	switch cc.Kind {
	case "replay":
		runReplayLog(cc, r)
	case "race-log":
		raceLog(cc, r)
	case "large":
		runLarge(cc, r)
	case "graph", "backup":
		runGraph(cc, r)
	default:
		runMaint(cc, r)
	}
}

// runReplayLog records a sequence, and reads it back, whole and cut at every byte.
func runReplayLog(cc clogCase, r *kit.Result) {
	l, err := newClog(1<<40, 1<<40, cc.Same)
	if err != nil {
		r.Fail("harness", "%v", err)
		return
	}
	defer l.remove()
	if _, err := l.open(); err != nil {
		r.Fail("replay", "new log: %v", err)
		return
	}
	for _, op := range cc.Ops {
		if err := l.write(op); err != nil {
			r.Fail("replay", "recording %v of %v: %v", op, cc.Ops, err)
			return
		}
	}
	if err := l.flush(); err != nil {
		r.Fail("replay", "flush after %v: %v", cc.Ops, err)
		return
	}
	fs, _ := os.ReadDir(l.dir())
	if len(fs) != 1 {
		r.Fail("replay", "%d files after %v", len(fs), cc.Ops)
		return
	}
	name := filepath.Join(l.dir(), fs[0].Name())
	whole, err := os.ReadFile(name)
	if err != nil {
		r.Fail("harness", "%v", err)
		return
	}
	// ends[i] is the length of the first i records
	ends := []int{0}
	for _, op := range cc.Ops {
		ends = append(ends, ends[len(ends)-1]+op.size())
	}
	if ends[len(ends)-1] != len(whole) {
		// the format is not what the harness knows: cuts cannot be judged
		ends = nil
	}
	r.Executions++
	res, valid, err := hnsw.NewDeserializer(quiet).Do(bufio.NewReader(bytes.NewReader(whole)), nil, false)
	want := stateOf(cc.Ops)
	if got := observed(res); err != nil || got.String() != want.String() {
		r.Fail("replay", "%v read back as {%v} (%v), want {%v}", cc.Ops, got, err, want)
		return
	}
	if valid != len(whole) {
		r.Fail("replay", "%v: valid length %d of %d", cc.Ops, valid, len(whole))
	}
	r.State("clog", want.String())
	r.Outcome(fmt.Sprintf("records=%d nodes=%d", len(cc.Ops), len(want.nodes)))
	if ends == nil {
		return
	}
	more := rec{T: "replace", ID: 1, L: 1, To: []uint64{5}}
	for cut := 0; cut < len(whole); cut++ {
		k := 0
		for ends[k+1] <= cut {
			k++
		}
		r.Executions++
		r.Transitions++
		res, valid, err := hnsw.NewDeserializer(quiet).Do(bufio.NewReader(bytes.NewReader(whole[:cut])), nil, false)
		want := stateOf(cc.Ops[:k])
		if cut > ends[k] && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) || cut == ends[k] && err != nil {
			r.Fail("torn", "%v cut after %d bytes of %d: error %v", cc.Ops, cut, len(whole), err)
			return
		}
		if got := observed(res); got.String() != want.String() {
			r.Fail("torn", "%v cut after %d bytes of %d: read as {%v}, want {%v}", cc.Ops, cut, len(whole), got, want)
			return
		}
		if valid != ends[k] {
			r.Fail("torn", "%v cut after %d bytes of %d: valid length %d, want %d", cc.Ops, cut, len(whole), valid, ends[k])
			return
		}
		if !cc.Append {
			continue
		}
		// a new process goes on from there
		if err := l.stop(); err != nil {
			r.Fail("torn", "shutdown: %v", err)
			return
		}
		if err := os.WriteFile(name, whole[:cut], 0o644); err != nil {
			r.Fail("harness", "%v", err)
			return
		}
		if _, err := restore(l.dir()); err != nil {
			r.Fail("torn", "%v cut after %d bytes: %v", cc.Ops, cut, err)
			return
		}
		if _, err := l.open(); err != nil {
			r.Fail("torn", "%v cut after %d bytes: new log: %v", cc.Ops, cut, err)
			return
		}
		if err := l.write(more); err != nil {
			r.Fail("torn", "%v cut after %d bytes: a further record: %v", cc.Ops, cut, err)
			return
		}
		if err := l.flush(); err != nil {
			r.Fail("torn", "%v cut after %d bytes: a further flush: %v", cc.Ops, cut, err)
			return
		}
		want.apply(more)
		if got, err := restore(l.dir()); err != nil || got.String() != want.String() {
			r.Fail("torn", "%v cut after %d bytes of %d, then %v: read as {%v} (%v), want {%v}", cc.Ops, cut, len(whole), more, got, err, want)
			return
		}
	}
}

// image is a directory as a process death would leave it.
type image struct {
	what  string
	files map[string][]byte
	lo    int  // records that are surely there
	hi    int  // records that may be there
	comb  bool // a combined file is in place, its sources are being removed
}

func readDir(dir string) map[string][]byte {
	m := map[string][]byte{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err == nil {
			m[e.Name()] = b
		}
	}
	return m
}

// renamed: a file with these contents went away.
func renamed(last, now map[string][]byte, b []byte) bool {
	for n, x := range last {
		if _, ok := now[n]; !ok && bytes.Equal(x, b) {
			return true
		}
	}
	return false
}

// runMaint performs records and maintenance; the log has to read as what was
// recorded all the time, and (kind crash) a process death at any point has to
// leave at least what was flushed.
func runMaint(cc clogCase, r *kit.Result) {
	combine := int64(1 << 40)
	if cc.Apart {
		combine = 0
	}
	l, err := newClog(40, combine, cc.Same)
	if err != nil {
		r.Fail("harness", "%v", err)
		return
	}
	defer l.remove()
	if _, err := l.open(); err != nil {
		r.Fail("maint", "new log: %v", err)
		return
	}
	crash := cc.Kind == "crash"
	sig := cc.Kind
	if sig == "forget" {
		sig = "condense-forgets"
	}
	var images []image
	last, sure := map[string][]byte{}, 0
	sources := 0 // of a combined file, still to be removed
	snap := func(what string) {
		now := readDir(l.dir())
		// every state of the files on the way from the last picture to this
		// one: files that were written grew byte by byte
		for n, b := range now {
			if _, old := last[n]; !old && renamed(last, now, b) {
				continue
			}
			if len(b) > len(last[n]) && bytes.HasPrefix(b, last[n]) {
				for k := len(last[n]); k < len(b); k++ {
					f := map[string][]byte{}
					for m, x := range now {
						f[m] = x
					}
					f[n] = b[:k]
					images = append(images, image{fmt.Sprintf("%s, %d of %d bytes of %s written", what, k, len(b), n), f, sure, len(l.all), sources > 0})
				}
			}
		}
		images = append(images, image{"before " + what, now, l.flushed, len(l.all), sources > 0})
		last, sure = now, l.flushed
	}
	if crash {
		vos.Hook = func(op, path string) {
			snap(op + " " + filepath.Base(path))
			if op == "rename" && strings.HasSuffix(path, ".combined.tmp") {
				sources = 2
			} else if op == "remove" && sources > 0 {
				sources--
			}
		}
	}
	check := func(what string) bool {
		r.Executions++
		h := vos.Hook
		vos.Hook = nil
		defer func() { vos.Hook = h }()
		got, err := l.look()
		want := stateOf(l.all[:l.flushed])
		if err != nil || got.String() != want.String() {
			r.Fail(sig, "%v: %s the log reads {%v} (%v), want {%v}", cc.Ops, what, got, err, want)
			return false
		}
		return true
	}
	for i, op := range cc.Ops {
		r.Transitions++
		switch op.T {
		case "flush":
			err = l.flush()
		case "switch":
			n := len(l.all)
			err = l.log.SwitchCommitLogs(true)
			l.flushed = n
		case "autoswitch":
			if l.sw.tick() {
				l.flushed = len(l.all)
			}
		case "tick":
			l.cc.tick()
		case "restart":
			if err = l.flush(); err == nil {
				err = l.stop()
			}
			if err == nil {
				_, err = restore(l.dir())
			}
			if err == nil {
				_, err = l.open()
			}
		default:
			err = l.write(op)
		}
		if err != nil {
			r.Fail(sig, "%v: %v: %v", cc.Ops, op, err)
			return
		}
		if op.T != "flush" && !crash && !check(fmt.Sprintf("after %v (%d)", op, i)) {
			return
		}
		if crash {
			snap(fmt.Sprintf("the step after %v (%d)", op, i))
		}
	}
	if err := l.flush(); err != nil {
		r.Fail(sig, "%v: flush: %v", cc.Ops, err)
		return
	}
	if crash {
		snap("the end")
	}
	if err := l.log.SwitchCommitLogs(true); err != nil {
		r.Fail(sig, "%v: switch: %v", cc.Ops, err)
		return
	}
	for i := 0; i < 10; i++ {
		if !check(fmt.Sprintf("after %d runs of the condense cycle at the end", i)) {
			return
		}
		if !l.cc.tick() {
			break
		}
		if i == 9 {
			r.Fail(sig, "%v: the condense cycle finds work for ever", cc.Ops)
			return
		}
	}
	if crash {
		snap("idle")
	}
	vos.Hook = nil
	if err := l.stop(); err != nil {
		r.Fail(sig, "%v: shutdown: %v", cc.Ops, err)
		return
	}
	r.State("clog", stateOf(l.all).String(), len(cc.Ops))
	r.Outcome(fmt.Sprintf("%s files=%d images=%d", cc.Kind, len(readDir(l.dir())), len(images)))
	if len(images) > 0 {
		l.crashes(cc, images, r)
	}
}

func (l *clog) crashes(cc clogCase, images []image, r *kit.Result) {
	all := l.all
	states := make([]string, len(all)+1)
	sets := make([]string, len(all)+1)
	for k := range states {
		s := stateOf(all[:k])
		states[k], sets[k] = s.String(), s.render(true)
	}
	more := rec{T: "tomb", ID: 77}
	seen := map[string]bool{}
	for _, im := range images {
		key := fmt.Sprint(im.lo, im.hi)
		var names []string
		for n := range im.files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			key += "|" + n + "=" + string(im.files[n])
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		r.Executions++
		r.Transitions++
		_ = os.RemoveAll(l.dir())
		_ = os.MkdirAll(l.dir(), 0o755)
		for n, b := range im.files {
			if err := os.WriteFile(filepath.Join(l.dir(), n), b, 0o644); err != nil {
				r.Fail("harness", "%v", err)
				return
			}
		}
		got, err := restore(l.dir())
		if err != nil {
			r.Fail("crash", "%v: process death %s: %v", cc.Ops, im.what, err)
			return
		}
		k, dup := -1, false
		for i := im.lo; i <= im.hi; i++ {
			if got.String() == states[i] {
				k = i
			}
		}
		if k < 0 {
			for i := im.lo; i <= im.hi; i++ {
				if got.render(true) == sets[i] {
					k, dup = i, true
				}
			}
		}
		if k < 0 {
			r.Fail("crash", "%v: process death %s: the log reads {%v}, want {%v} or more", cc.Ops, im.what, got, states[im.lo])
			return
		}
		if dup {
			// links are there twice, but nothing is lost and nothing is there
			// that should not be
			if im.comb {
				r.Fail("combine-interrupted", "%v: process death %s: the log reads {%v}, want {%v}", cc.Ops, im.what, got, states[k])
			} else {
				r.Fail("crash", "%v: process death %s: the log reads {%v}, want {%v}", cc.Ops, im.what, got, states[k])
			}
			continue
		}
		// and the log can be used
		l.all, l.flushed = append([]rec{}, all[:k]...), k
		if _, err := l.open(); err != nil {
			r.Fail("crash", "%v: process death %s: new log: %v", cc.Ops, im.what, err)
			return
		}
		if err := l.write(more); err != nil {
			r.Fail("crash", "%v: process death %s: a further record: %v", cc.Ops, im.what, err)
			return
		}
		if err := l.flush(); err != nil {
			r.Fail("crash", "%v: process death %s: flush: %v", cc.Ops, im.what, err)
			return
		}
		for l.cc.tick() {
		}
		got, err = l.look()
		if want := stateOf(l.all); err != nil || got.String() != want.String() {
			r.Fail("crash", "%v: process death %s, then %v: the log reads {%v} (%v), want {%v}", cc.Ops, im.what, more, got, err, want)
			return
		}
		if err := l.stop(); err != nil {
			r.Fail("crash", "%v: shutdown: %v", cc.Ops, err)
			return
		}
	}
	l.all = all
}

// runLarge: files that are longer than every buffer, with records at every
// kind of place across the ends of the buffers (Seed bytes of shorter records
// are in front, Every is the longest list of links).
func runLarge(cc clogCase, r *kit.Result) {
	l, err := newClog(1<<40, 1<<40, false)
	if err != nil {
		r.Fail("harness", "%v", err)
		return
	}
	defer l.remove()
	if _, err := l.open(); err != nil {
		r.Fail("large", "new log: %v", err)
		return
	}
	desc := fmt.Sprintf("three files of %d kB, lists of up to %d links, shifted by %d", cc.Size, cc.Every, cc.Seed)
	check := func(what string) bool {
		r.Executions++
		got, err := l.look()
		if err != nil {
			r.Fail("large", "%s: %s: %v", desc, what, err)
			return false
		}
		want := stateOf(l.all[:l.flushed])
		if g, w := got.String(), want.String(); g != w {
			r.Fail("large", "%s: %s the log reads {... %s ...}, want {... %s ...}", desc, what, cutTo(g, w), cutTo(w, g))
			return false
		}
		return true
	}
	put := func(x rec) bool {
		r.Transitions++
		if err := l.write(x); err != nil {
			r.Fail("large", "%s: %v: %v", desc, x, err)
			return false
		}
		return true
	}
	for file := 0; file < 3; file++ {
		for i := int64(0); i < cc.Seed; i++ {
			if !put(rec{T: "tomb", ID: uint64(i)}) {
				return
			}
		}
		bytes := 0
		for i := 0; bytes < cc.Size*1024; i++ {
			id := uint64(i*7+file) % 9001
			var to []uint64
			for k := 0; k < (i*13+file)%(cc.Every+1); k++ {
				to = append(to, uint64(i+k*k))
			}
			x := rec{T: "replace", ID: id, L: i % 2, To: to}
			if i%5 == 0 {
				x = rec{T: "link", ID: id, L: i % 3, To: []uint64{uint64(i)}}
			}
			if i%11 == 0 && file == 0 {
				x = rec{T: "node", ID: id, L: i % 4}
			}
			bytes += x.size()
			if !put(x) {
				return
			}
		}
		n := len(l.all)
		if err := l.log.SwitchCommitLogs(true); err != nil {
			r.Fail("large", "%s: switch: %v", desc, err)
			return
		}
		l.flushed = n
		if !check(fmt.Sprintf("after file %d", file)) {
			return
		}
	}
	for i := 0; l.cc.tick(); i++ {
		if !check(fmt.Sprintf("after %d runs of the condense cycle", i+1)) {
			return
		}
		if i > 20 {
			r.Fail("large", "%s: the condense cycle finds work for ever", desc)
			return
		}
	}
	if err := l.stop(); err != nil {
		r.Fail("large", "%s: shutdown: %v", desc, err)
		return
	}
	if _, err := l.open(); err != nil {
		r.Fail("large", "%s: new log: %v", desc, err)
		return
	}
	if !put(rec{T: "ep", ID: 4, L: 2}) {
		return
	}
	if err := l.flush(); err != nil {
		r.Fail("large", "%s: flush: %v", desc, err)
		return
	}
	if !check("after a restart and a further record") {
		return
	}
	if err := l.stop(); err != nil {
		r.Fail("large", "%s: shutdown: %v", desc, err)
		return
	}
	r.State("large", cc.Size, cc.Every, cc.Seed)
	r.Outcome("large")
	r.Sample("%s: read back unchanged", desc)
}

// runGraph lets an index keep a commit log: it has to read as the graph that
// the index has stored.
func runGraph(cc clogCase, r *kit.Result) {
	l, err := newClog(400, 1<<40, cc.Same)
	if err != nil {
		r.Fail("harness", "%v", err)
		return
	}
	defer l.remove()
	w, err := newWorldLog(config{Metric: "cosine", M: cc.M, EFC: 64}, cc.Seed, l.open)
	if err != nil {
		r.Fail("graph", "new index: %v", err)
		return
	}
	desc := func(i int) string {
		return fmt.Sprintf("index with a commit log, %d of %d vectors (%s, M=%d, seed %d), flush and restart after every %d", i, cc.Size, cc.Family, cc.M, cc.Seed, cc.Every)
	}
	compare := func(got *mstate, n int, what string) bool {
		r.Executions++
		links := 0
		want := newState()
		for i := 0; i < n; i++ {
			_, b, err := w.kv.KVGet(table, strconv.Itoa(i))
			var v struct {
				ID          uint64     `json:"_id"`
				Level       int        `json:"level"`
				Connections [][]uint64 `json:"connections"`
			}
			if err != nil || json.Unmarshal(b, &v) != nil || v.ID != uint64(i) {
				r.Outcome("stored form not understood")
				return true
			}
			m := want.node(v.ID)
			m.level = v.Level
			for lv, to := range v.Connections {
				links += len(to)
				m.links[lv] = to
			}
		}
		want.ep = got.ep
		if e, ok := w.idx.(interface{ Entrypoint() uint64 }); ok {
			want.ep = e.Entrypoint()
		}
		want.epLevel = got.epLevel
		if m := want.nodes[want.ep]; m != nil {
			want.epLevel = m.level
		}
		r.Outcome(fmt.Sprintf("graph n=%d", n))
		r.State("graph", want.String())
		if got.String() != want.String() {
			r.Fail(cc.Kind, "%s: %s the log reads {%s}, the index has {%s}", desc(n), what, cutTo(got.String(), want.String()), cutTo(want.String(), got.String()))
			return false
		}
		return true
	}
	for i := 0; i < cc.Size; i++ {
		if err := w.add(uint64(i), family(cc.Family, cc.Size, i)); err != nil {
			r.Fail(cc.Kind, "%s: %v", desc(i), err)
			return
		}
		r.Transitions++
		if (i+1)%cc.Every != 0 && i+1 != cc.Size {
			continue
		}
		if err := w.save(uint64(i + 1)); err != nil {
			r.Fail(cc.Kind, "%s: flush: %v", desc(i+1), err)
			return
		}
		got, err := l.look()
		if err != nil {
			r.Fail(cc.Kind, "%s: %v", desc(i+1), err)
			return
		}
		if !compare(got, i+1, "after a flush") {
			return
		}
		if cc.Kind == "backup" {
			if !l.backup(w, r, func(got *mstate) bool { return compare(got, i+1, "restored from a backup") }, desc(i+1)) {
				return
			}
		}
		l.sw.tick()
		l.cc.tick()
		if got, err = l.look(); err != nil {
			r.Fail(cc.Kind, "%s: %v", desc(i+1), err)
			return
		}
		if !compare(got, i+1, "after maintenance") {
			return
		}
		if i%2 == 1 {
			if err := l.stop(); err != nil {
				r.Fail(cc.Kind, "%s: shutdown: %v", desc(i+1), err)
				return
			}
			if err := w.open(); err != nil {
				r.Fail(cc.Kind, "%s: reopening: %v", desc(i+1), err)
				return
			}
		}
	}
}

// backup takes a backup as the methods of the index are meant for: pause,
// switch, copy the listed files, resume.
func (l *clog) backup(w *world, r *kit.Result, compare func(*mstate) bool, desc string) bool {
	b, ok := w.idx.(interface {
		PauseMaintenance(ctx context.Context) error
		SwitchCommitLogs(ctx context.Context) error
		ListFiles(ctx context.Context) ([]string, error)
		ResumeMaintenance(ctx context.Context) error
	})
	if !ok {
		return true
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if err := b.PauseMaintenance(ctx); err != nil {
		r.Fail("backup", "%s: pause: %v", desc, err)
		return false
	}
	if err := b.SwitchCommitLogs(ctx); err != nil {
		r.Fail("backup", "%s: switch: %v", desc, err)
		return false
	}
	files, err := b.ListFiles(ctx)
	if err != nil {
		r.Fail("backup", "%s: list: %v", desc, err)
		return false
	}
	to := filepath.Join(l.root, "backup")
	defer os.RemoveAll(to)
	_ = os.MkdirAll(to, 0o755)
	for _, f := range files {
		x, err := os.ReadFile(filepath.Join(l.root, f))
		if err != nil {
			r.Fail("backup", "%s: listed file: %v", desc, err)
			return false
		}
		if err := os.WriteFile(filepath.Join(to, filepath.Base(f)), x, 0o644); err != nil {
			r.Fail("harness", "%v", err)
			return false
		}
	}
	if err := b.ResumeMaintenance(ctx); err != nil {
		r.Fail("backup", "%s: resume: %v", desc, err)
		return false
	}
	got, err := restore(to)
	if err != nil {
		r.Fail("backup", "%s: %v", desc, err)
		return false
	}
	return compare(got)
}

// cutTo is the part of a around its first difference from b.
func cutTo(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-150, i+150
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return a[lo:hi]
}

func nine() (l []uint64) {
	for i := uint64(100); i < 109; i++ {
		l = append(l, i)
	}
	return l
}

// far is just beyond the table a log reader begins with, farther just beyond
// the one that replaces it
const far, farther = 25000, 50000

var replayRecs = []rec{
	{T: "node", ID: 0, L: 1}, {T: "node", ID: 1}, {T: "node", ID: far, L: 2},
	{T: "ep", ID: 1}, {T: "ep", ID: far, L: 2},
	{T: "link", ID: 0, To: []uint64{1}}, {T: "link", ID: 0, L: 1, To: []uint64{far}}, {T: "link", ID: farther, L: 2, To: []uint64{0}},
	{T: "replace", ID: 0, To: []uint64{1, far}}, {T: "replace", ID: 1}, {T: "replace", ID: 0, L: 1, To: nine()},
	{T: "tomb", ID: 0}, {T: "untomb", ID: 0}, {T: "tomb", ID: far},
	{T: "clear", ID: 0}, {T: "clearlevel", ID: 0, L: 1}, {T: "clearlevel", ID: far, L: 2},
	{T: "delete", ID: 0}, {T: "reset"},
}

var maintPrefix = []rec{{T: "node", ID: 0, L: 1}, {T: "node", ID: 1}, {T: "link", ID: 0, To: []uint64{1}}, {T: "ep", ID: 0, L: 1}}

var maintOps = []rec{
	{T: "switch"}, {T: "tick"}, {T: "restart"}, {T: "autoswitch"},
	{T: "node", ID: far, L: 1}, {T: "link", ID: 1, To: []uint64{0}}, {T: "link", ID: far, To: []uint64{1}},
	{T: "replace", ID: 0, To: []uint64{far}}, {T: "clearlevel", ID: 0}, {T: "clearlevel", ID: far},
	{T: "ep", ID: 1}, {T: "tomb", ID: 1},
	{T: "delete", ID: far}, {T: "untomb", ID: 1}, {T: "clear", ID: far},
}

// sensible: nodes are added before they are linked and once, and a record that
// takes something away is in the same file as all there is of it (condensing
// forgets the others, a known finding with cases of its own).
func sensible(ops []rec, same bool) bool {
	file, node, tomb := 0, -1, -1
	for _, o := range ops {
		switch {
		case o.T == "switch" && !same:
			file++
		case o.T == "autoswitch" && !same:
			file++ // possibly
		case o.T == "node" && o.ID == far:
			if node >= 0 {
				return false
			}
			node = file
		case o.T == "delete" || o.T == "clear":
			if node != file {
				return false
			}
			if o.T == "delete" {
				node = -1
			}
		case o.ID == far && node < 0:
			return false
		case o.T == "tomb":
			if tomb < 0 {
				tomb = file
			}
		case o.T == "untomb":
			if tomb != file {
				return false
			}
			tomb = -1
		}
	}
	return true
}

func clogCases(tier string) (cs []kit.Case) {
	thorough := tier == "thorough"
	add := func(c clogCase) { cs = append(cs, kit.MkCase(c.Kind, c)) }
	pick := func(from []rec, t []int) (l []rec) {
		for _, i := range t {
			l = append(l, from[i])
		}
		return l
	}
	for a := 0; a < 15; a++ {
		for ticks := 0; ticks <= 3; ticks++ {
			add(clogCase{Kind: "race-log", Size: a, Every: ticks})
		}
	}
	depth := 3
	if thorough {
		depth = 4
	}
	for d := 0; d <= depth; d++ {
		for _, t := range tuples(len(replayRecs), d) {
			add(clogCase{Kind: "replay", Ops: pick(replayRecs, t), Append: d < 3})
		}
	}
	n := 0
	for d := 1; d <= depth+1; d++ {
		for _, t := range tuples(len(maintOps), d) {
			ops := pick(maintOps, t)
			sw := 0
			for _, o := range ops {
				if o.T == "switch" || o.T == "autoswitch" {
					sw++
				}
			}
			if sw == 0 || ops[0].T == "tick" || !sensible(ops, false) {
				continue
			}
			n++
			add(clogCase{Kind: "maint", Ops: append(append([]rec{}, maintPrefix...), ops...), Apart: n%5 == 0})
			if d <= 3 {
				add(clogCase{Kind: "maint", Ops: append(append([]rec{}, maintPrefix...), ops...), Same: true})
			}
		}
	}
	recs := maintOps[4:12]
	cr := func(x, y, z rec, apart bool) {
		ops := append([]rec{}, maintPrefix...)
		ops = append(ops, rec{T: "flush"}, rec{T: "node", ID: far, L: 1}, x, rec{T: "switch"}, y, rec{T: "flush"}, rec{T: "tick"}, rec{T: "switch"},
			z, rec{T: "tick"}, rec{T: "flush"}, rec{T: "tick"}, rec{T: "tick"})
		add(clogCase{Kind: "crash", Ops: ops, Apart: apart})
	}
	for i, x := range recs[1:] {
		for j, y := range recs[1:] {
			for k, z := range recs[1:] {
				if !thorough && k != (i+j)%7 {
					continue
				}
				cr(x, y, z, k%3 == 2)
			}
		}
	}
	for _, f := range []rec{{T: "delete", ID: 0}, {T: "untomb", ID: 1}, {T: "clear", ID: 0}, {T: "reset"}} {
		add(clogCase{Kind: "forget", Ops: append(append([]rec{}, maintPrefix...), rec{T: "tomb", ID: 1}, rec{T: "switch"}, f, rec{T: "switch"}, rec{T: "tick"}, rec{T: "tick"})})
	}
	shifts := []int64{0, 1, 2, 3, 5, 8, 13}
	if thorough {
		for i := int64(20); i < 60; i++ {
			shifts = append(shifts, i)
		}
	}
	for _, shift := range shifts {
		for _, links := range []int{3, 70, 600} {
			add(clogCase{Kind: "large", Size: 1400, Every: links, Seed: shift})
		}
	}
	sizes := []int{1, 2, 3, 9, 34, 75}
	if thorough {
		sizes = append(sizes, 150, 300)
	}
	for si, size := range sizes {
		for fi, f := range []string{"clusters", "helix", "axes"} {
			for mi, m := range []int{4, 16, 60} {
				for ei, every := range []int{1, 4, 13} {
					if size > 40 && every == 1 || size > 20 && !thorough && (si+fi+mi+ei)%2 == 1 {
						continue
					}
					kind := "graph"
					if (fi+mi+ei)%3 == 0 {
						kind = "backup"
					}
					add(clogCase{Kind: kind, Size: size, Family: f, M: m, Every: every, Seed: int64(1 + fi + 3*mi + 9*ei), Same: kind == "backup" && (si+ei)%2 == 0})
				}
			}
		}
	}
	return cs
}
