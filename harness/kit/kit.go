// Package kit is the exhaustive-exploration runner shared by all checks.
//
// A check enumerates a finite list of cases. Every case is executed by a
// worker subprocess on the real code (a crash or hang of the code under test
// therefore kills one worker, never the explorer), and the case itself may
// stand for a whole subtree of executions. The parent merges coverage,
// re-executes every reported violation in fresh processes before believing
// it, writes the evidence file and decides the exit code.
package kit

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fairDataSociety/FaVe/vmc/vrace"
)

// Case is one unit of exploration; Data is interpreted by its group.
type Case struct {
	Group string          `json:"group"`
	Data  json.RawMessage `json:"data"`
}

// MkCase builds a case from any JSON-able value.
func MkCase(group string, v interface{}) Case {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return Case{Group: group, Data: b}
}

// Violation is a broken property on one concrete execution.
type Violation struct {
	Signature string `json:"signature"` // stable name of the failing behaviour
	Detail    string `json:"detail"`    // the failing input / history / schedule
}

// Result is what exploring one case covered and found.
type Result struct {
	Executions  int             `json:"e"`           // complete executions of the real code compared with the oracle
	Transitions int             `json:"t"`           // operations / steps executed
	States      []uint64        `json:"s,omitempty"` // canonical states (hashes) seen
	Outcomes    map[string]int  `json:"o,omitempty"` // distinct observable outcomes
	Samples     []string        `json:"m,omitempty"`
	Violations  []Violation     `json:"v,omitempty"`
	Capped      bool            `json:"c,omitempty"`
	Seen        map[uint64]bool `json:"-"`
}

// State records a canonical state.
func (r *Result) State(parts ...interface{}) bool {
	h := Hash(parts...)
	if r.Seen == nil {
		r.Seen = map[uint64]bool{}
	}
	if r.Seen[h] {
		return false
	}
	r.Seen[h] = true
	return true
}

// Outcome counts an observable outcome class.
func (r *Result) Outcome(s string) {
	if r.Outcomes == nil {
		r.Outcomes = map[string]int{}
	}
	r.Outcomes[s]++
}

// Fail records a violation.
func (r *Result) Fail(sig, format string, a ...interface{}) {
	same := 0
	for _, v := range r.Violations {
		if v.Signature == sig {
			same++
		}
	}
	if same < 2 && len(r.Violations) < 32 {
		r.Violations = append(r.Violations, Violation{Signature: sig, Detail: fmt.Sprintf(format, a...)})
	}
}

// Sample keeps up to n example executions.
func (r *Result) Sample(format string, a ...interface{}) {
	if len(r.Samples) < 1 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// Hash is a stable 64 bit hash of the printed parts.
func Hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return h.Sum64()
}

// Check is one property's exhaustive check.
type Check struct {
	Property    string
	Level       string
	Rule        string   // how cases are made, what is non-trivial
	Bounds      string   // the bound statement
	Assumptions []string // what is trusted
	// Cases lists the whole space for a tier.
	Cases func(tier string) []Case
	// Init runs once in every worker.
	Init func() error
	// Again: of these groups, so many cases, evenly spread over the group, are
	// executed once more with the race detector: a request that works on
	// several goroutines must not leave it to chance what it does.
	Again map[string]int
	// Run explores one case on the real code.
	Run func(c Case, r *Result)
	// CaseTimeout is the no-progress limit for one case (default 240 s).
	CaseTimeout time.Duration
	// HangIsViolation: a case that hangs reproducibly breaks the property.
	HangIsViolation bool
	// CrashIsViolation: a case that kills the process reproducibly breaks it.
	CrashIsViolation bool
	// Workers limits parallel workers (default NumCPU).
	Workers int
}

type reply struct {
	Idx    int    `json:"i"`
	Result Result `json:"r"`
	Last   bool   `json:"l,omitempty"` // the worker ends after this case
}

type finding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	Status    string `json:"status"` // "known" or "fixed"
	What      string `json:"what"`
}

// Main runs the registered checks' command line.
func Main(checks ...*Check) {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "recorded only: the exploration has no random choice")
	verif := flag.String("verif", "/verif", "framework root")
	worker := flag.Bool("worker", false, "internal")
	replay := flag.String("replay", "", "re-execute one recorded case")
	maxWall := flag.Duration("max-wall", 0, "stop enumerating after this long (reported as not exhaustive)")
	group := flag.String("group", "", "only cases of this group (debugging)")
	list := flag.Bool("list", false, "print the number of cases per group")
	flag.Parse()
	var ck *Check
	for _, c := range checks {
		if c.Property == *prop {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check for %q in this binary\n", *prop)
		os.Exit(3)
	}
	if *worker {
		runWorker(ck)
		return
	}
	if *replay != "" {
		os.Exit(runReplay(ck, *replay))
	}
	if *list {
		n := map[string]int{}
		for _, c := range ck.allCases(*tier) {
			n[c.Group]++
		}
		fmt.Println(n)
		return
	}
	if *maxWall == 0 {
		*maxWall = 660 * time.Second
		if *tier == "thorough" {
			*maxWall = 3 * time.Hour
		}
	}
	os.Exit(runParent(ck, *tier, *seed, *verif, *maxWall, *group))
}

// guarded runs one case and turns a panic on the worker goroutine into a violation.
func guarded(ck *Check, c Case) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			res.Fail("panic", "%v\ncase %s %s\n%s", p, c.Group, c.Data, trimStack(debug.Stack()))
		}
		for h := range res.Seen {
			res.States = append(res.States, h)
		}
		res.Seen = nil
	}()
	g, again := strings.CutPrefix(c.Group, againPrefix)
	ck.Run(Case{Group: g, Data: c.Data}, &res)
	if again {
		for _, rep := range vrace.New() {
			res.Fail("race", "%s %s: unsynchronised accesses: %s", g, c.Data, rep)
		}
		res.Outcome("race: " + g)
	}
	return
}

const againPrefix = "race:"

// allCases is the space of the check, including what is executed once more
// with the race detector.
func (ck *Check) allCases(tier string) []Case {
	cases := ck.Cases(tier)
	if len(ck.Again) == 0 || os.Getenv(raceExe) == "" {
		return cases
	}
	groups := map[string][]Case{}
	var order []string
	for _, c := range cases {
		if groups[c.Group] == nil {
			order = append(order, c.Group)
		}
		groups[c.Group] = append(groups[c.Group], c)
	}
	var again []Case
	for _, g := range order {
		n, all := ck.Again[g], groups[g]
		if tier == "thorough" {
			n *= 5
		}
		n = min(n, len(all))
		for i := 0; i < n; i++ {
			again = append(again, Case{Group: againPrefix + g, Data: all[i*len(all)/n].Data})
		}
	}
	return append(again, cases...)
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func runWorker(ck *Check) {
	// the code under test prints to stdout: keep the protocol on fd 3
	out := os.NewFile(3, "results")
	if ck.Init != nil {
		if err := ck.Init(); err != nil {
			fmt.Fprintln(os.Stderr, "init:", err)
			os.Exit(4)
		}
	}
	enc := json.NewEncoder(out)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	for in.Scan() {
		var req struct {
			Idx  int  `json:"i"`
			Case Case `json:"c"`
		}
		if err := json.Unmarshal(in.Bytes(), &req); err != nil {
			os.Exit(5)
		}
		res := guarded(ck, req.Case)
		// hnsw.New starts a cache goroutine that is never stopped: recycle
		// the worker process when the leaked memory adds up.
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		recycle := ms.HeapAlloc > 900<<20 || runtime.NumGoroutine() > 3000
		if err := enc.Encode(reply{req.Idx, res, recycle}); err != nil {
			os.Exit(6)
		}
		if recycle {
			os.Exit(0)
		}
	}
}

func runReplay(ck *Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rec struct {
		Case Case `json:"case"`
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if isRace(rec.Case) {
		p, err := startWorker(ck, true)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		res, status := p.exec1(0, rec.Case, 10*time.Minute)
		p.kill()
		for _, v := range res.Violations {
			fmt.Printf("REPRODUCED %s: %s\n", v.Signature, v.Detail)
		}
		if len(res.Violations) > 0 || status != "" {
			return 1
		}
		fmt.Println("not reproduced,", res.Executions, "executions")
		return 0
	}
	if ck.Init != nil {
		if err := ck.Init(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if f := os.Getenv("VMC_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil && pprof.StartCPUProfile(w) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	res := guarded(ck, rec.Case)
	for _, v := range res.Violations {
		fmt.Printf("REPRODUCED %s: %s\n", v.Signature, v.Detail)
	}
	if len(res.Violations) > 0 {
		return 1
	}
	fmt.Println("not reproduced,", res.Executions, "executions")
	return 0
}

type wproc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tailBuf
	dead bool
	race bool
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
	// dump: what follows is a goroutine dump
	dump bool
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 12000 || t.dump && len(t.b) < 16<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

// hang makes room for a goroutine dump.
func (t *tailBuf) hang() { t.mu.Lock(); defer t.mu.Unlock(); t.b, t.dump = nil, true }

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !t.dump {
		return string(t.b)
	}
	out := ""
	for _, g := range strings.Split(string(t.b), "\n\n") {
		if strings.Contains(g, "main.") && len(out) < 8000 {
			out += g + "\n\n"
		}
	}
	return out
}

// raceExe names the variable with the path of the binary with the race
// detector, which executes the cases of groups whose name begins with "race".
const raceExe = "VMC_RACE_EXE"

func isRace(c Case) bool { return strings.HasPrefix(c.Group, "race") }

func startWorker(ck *Check, race bool) (*wproc, error) {
	exe, err := os.Executable()
	if race {
		if exe = os.Getenv(raceExe); exe == "" {
			err = fmt.Errorf("%s is not set", raceExe)
		}
	}
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "-worker", "-property", ck.Property)
	cmd.ExtraFiles = []*os.File{w}
	eb := &tailBuf{}
	cmd.Stderr = eb
	cmd.Stdout = nil
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+envOr("VMC_GOMAXPROCS", "2"), "GOGC="+envOr("GOGC", "300"), "GOTRACEBACK=all")
	if race {
		logs := exe + ".log"
		cmd.Env = append(cmd.Env, "GORACE=history_size=4 halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+logs, vrace.EnvLog+"="+logs)
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	_ = w.Close()
	return &wproc{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), errb: eb, race: race}, nil
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func (p *wproc) kill() {
	if p == nil || p.dead {
		return
	}
	p.dead = true
	_ = p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

// exec1 runs one case in the worker; status is "", "crash" or "hang".
func (p *wproc) exec1(idx int, c Case, limit time.Duration) (Result, string) {
	b, _ := json.Marshal(struct {
		Idx  int  `json:"i"`
		Case Case `json:"c"`
	}{idx, c})
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.kill()
		return Result{}, "crash"
	}
	type rr struct {
		line []byte
		err  error
	}
	ch := make(chan rr, 1)
	go func() {
		l, err := p.out.ReadBytes('\n')
		ch <- rr{l, err}
	}()
	select {
	case x := <-ch:
		var rep reply
		if x.err != nil || json.Unmarshal(x.line, &rep) != nil {
			_ = p.cmd.Wait()
			p.dead = true
			return Result{}, "crash"
		}
		if rep.Last {
			_ = p.in.Close()
			_ = p.cmd.Wait()
			p.dead = true
		}
		return rep.Result, ""
	case <-time.After(limit):
		// the goroutine dump goes to stderr, the tail of which is reported
		p.errb.hang()
		_ = p.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-ch:
		case <-time.After(5 * time.Second):
		}
		p.kill()
		return Result{}, "hang"
	}
}

func runParent(ck *Check, tier string, seed int, verif string, maxWall time.Duration, group string) int {
	start := time.Now()
	known := loadFindings(filepath.Join(verif, "known_findings.txt"), ck.Property)
	cases := ck.allCases(tier)
	if group != "" {
		var f []Case
		for _, c := range cases {
			if c.Group == group {
				f = append(f, c)
			}
		}
		cases = f
	}
	enough := 12
	if os.Getenv("VMC_SURVEY") != "" { // for debugging: all violations by signature
		enough = 1 << 30
	}
	limit := ck.CaseTimeout
	if limit == 0 {
		limit = 240 * time.Second
	}
	nw := ck.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > len(cases) {
		nw = len(cases)
	}
	var (
		mu       sync.Mutex
		next     int
		states   = map[uint64]struct{}{}
		outcomes = map[string]int{}
		samples  []string
		execs    int
		trans    int
		done     int
		perGroup = map[string]int{}
		capped   bool
		infra    []string
		pend     []pending
		stop     bool
	)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *wproc
			defer func() { p.kill() }()
			for {
				mu.Lock()
				if stop || next >= len(cases) {
					mu.Unlock()
					return
				}
				if time.Since(start) > maxWall {
					capped, stop = true, true
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				if p == nil || p.dead || p.race != isRace(cases[i]) {
					var err error
					p.kill()
					if p, err = startWorker(ck, isRace(cases[i])); err != nil {
						mu.Lock()
						infra = append(infra, err.Error())
						stop = true
						mu.Unlock()
						return
					}
				}
				res, status := p.exec1(i, cases[i], limit)
				mu.Lock()
				if status != "" {
					pend = append(pend, pending{cases[i], Violation{Signature: status, Detail: tail(p.errb.String())}, status})
				}
				for _, v := range res.Violations {
					pend = append(pend, pending{cases[i], v, ""})
				}
				for _, s := range res.States {
					if len(states) < 4_000_000 {
						states[s] = struct{}{}
					}
				}
				for k, n := range res.Outcomes {
					outcomes[k] += n
				}
				if len(samples) < 6 && len(res.Samples) > 0 && (done < 3 || done%97 == 0) {
					samples = append(samples, res.Samples[0])
				}
				if res.Capped {
					capped = true
				}
				execs += res.Executions
				trans += res.Transitions
				perGroup[cases[i].Group]++
				done++
				// enough evidence of new behaviour: stop early
				unknown := 0
				for _, q := range pend {
					if _, ok := known[q.v.Signature]; !ok {
						unknown++
					}
				}
				if unknown >= enough {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	if enough > 12 {
		by := map[string][]string{}
		for _, q := range pend {
			by[q.v.Signature] = append(by[q.v.Signature], q.v.Detail)
		}
		for sig, l := range by {
			fmt.Printf("survey: %s: %d\n", sig, len(l))
			for i := 0; i < len(l) && i < 12; i++ {
				fmt.Println("   ", firstLines(l[i*len(l)/12%len(l)], 3))
			}
		}
	}

	// Re-execute before believing.
	confirmed := map[string]pending{}
	order := []string{}
	flaky := 0
	for _, q := range pend {
		if _, dup := confirmed[q.v.Signature]; dup {
			continue
		}
		if q.status == "hang" && !ck.HangIsViolation || q.status == "crash" && !ck.CrashIsViolation {
			infra = append(infra, q.status+": "+string(q.c.Data)+" "+q.v.Detail)
			continue
		}
		if tier == "quick" && time.Since(start) > 800*time.Second {
			flaky++ // no time to find out
			continue
		}
		ok := false
		tries := 5
		if q.status == "hang" {
			tries = 2
		}
		for t := 0; t < tries && !ok; t++ {
			p, err := startWorker(ck, isRace(q.c))
			if err != nil {
				break
			}
			res, status := p.exec1(0, q.c, limit)
			if q.status != "" && status == q.status {
				ok = true
				q.v.Detail = tail(p.errb.String())
			}
			for _, v := range res.Violations {
				if v.Signature == q.v.Signature {
					ok = true
					q.v = v
				}
			}
			p.kill()
		}
		if ok {
			confirmed[q.v.Signature] = q
			order = append(order, q.v.Signature)
		} else {
			flaky++
			fmt.Printf("not reproduced in %d re-executions (not believed): %s: %s\n", tries, q.v.Signature, firstLines(q.v.Detail, 6))
		}
	}
	sort.Strings(order)

	exit := 0
	nviol := 0
	repDir := filepath.Join(verif, "evidence", "replays")
	_ = os.MkdirAll(repDir, 0o755)
	for _, sig := range order {
		q := confirmed[sig]
		if f, ok := known[sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.Property, f.What)
			continue
		}
		nviol++
		path := filepath.Join(repDir, fmt.Sprintf("%s-%02d.json", ck.Property, nviol))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.Property, "case": q.c, "violation": q.v,
			"how": "bash /verif/run.sh " + ck.Property + " replay " + path}, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("violated: %s: %s\n", sig, firstLines(q.v.Detail, 14))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Property, path)
		exit = 1
	}
	if len(infra) > 0 && exit == 0 {
		fmt.Printf("harness trouble (not a verdict): %d; first: %s\n", len(infra), firstLines(infra[0], 20))
		capped = true
		if execs == 0 {
			exit = 3
		}
	}
	oc := []string{}
	for k, n := range outcomes {
		oc = append(oc, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(oc)
	if len(oc) > 60 {
		oc = append(oc[:60], "...")
	}
	if len(samples) == 0 && len(cases) > 0 {
		samples = append(samples, cases[0].Group+" "+string(cases[0].Data))
	}
	ev := map[string]interface{}{
		"property": ck.Property, "tier": tier, "seed": seed, "level": ck.Level,
		"wall_s": time.Since(start).Seconds(), "violations": nviol, "assumptions": ck.Assumptions,
		"coverage": map[string]interface{}{
			"evaluations": done, "distinct_nontrivial": len(outcomes), "states": len(states), "transitions": trans,
			"traces_validated_against_impl": execs, "samples": samples, "rule": ck.Rule, "bounds": ck.Bounds,
			"exhaustive": !capped && done == len(cases), "cases_total": len(cases), "cases_done": done,
			"cases_per_group": perGroup, "outcomes": oc, "unreproducible_reports": flaky,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.Property+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		if exit == 0 {
			exit = 3
		}
	}
	fmt.Printf("%s %s: cases %d/%d executions %d transitions %d states %d outcomes %d exhaustive=%v flaky=%d in %.1fs\n",
		ck.Property, tier, done, len(cases), execs, trans, len(states), len(outcomes), !capped && done == len(cases), flaky, time.Since(start).Seconds())
	return exit
}

type pending struct {
	c      Case
	v      Violation
	status string
}

func tail(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func loadFindings(path, prop string) map[string]finding {
	out := map[string]finding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Property == prop && f.Status == "known" {
			out[f.Signature] = f
		}
	}
	return out
}
