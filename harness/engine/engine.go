// Package engine runs generated checks: rapid draws and shrinks the cases, or a
// finite domain is enumerated; worker processes share the work; the parent
// merges what they covered, writes the evidence file and the replay file.
package engine

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Outcome of one case.
type Outcome struct {
	Class      string // region of the input space, for the distribution
	Nontrivial bool
	Err        string // not empty: the property is violated
	Known      string // not empty: violated in the way this known finding lists
}

// Sub is one generated check of a property. T is a JSON-able case.
type Sub[T any] struct {
	Name  string
	Quick int // cases over all workers, quick tier, in tens
	Thor  int // thorough tier, in tens
	Gen   func(*rapid.T) T
	Run   func(T) Outcome
	// Enumeration instead of Gen.
	EnumN  uint64
	EnumAt func(uint64) T
	// Every process runs the whole enumeration too, each in another order.
	Again bool
	// Thorough-only enumerations set this.
	ThoroughOnly bool
	// No32 leaves it out of the builds that run a share of the cases.
	No32 bool
	// RaceOnly and PlainOnly leave it out of builds without and with the race
	// detector.
	RaceOnly, PlainOnly bool
}

type Runner interface {
	name() string
	shard(w *worker)
	replay([]byte) (Outcome, error)
	thoroughOnly() bool
	no32() bool
	wants(race bool) bool
}

// Prop is one property with its generated checks.
type Prop struct {
	ID   string
	Rule string
	Subs []Runner
	// Extra names other binaries (role -> path) this property needs.
	Assumptions []string
}

type violation struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
	Msg  string          `json:"msg"`
	// The failing case before it was shrunk, and the cases that ran before it.
	First  json.RawMessage   `json:"first,omitempty"`
	Before []json.RawMessage `json:"before,omitempty"`
}

type shardOut struct {
	Evals      uint64            `json:"evals"`
	NonTrivial uint64            `json:"nontrivial"`
	Classes    map[string]uint64 `json:"classes"`
	Samples    []sample          `json:"samples"`
	Known      map[string]knownHit
	Violation  *violation
	HashFile   string
	EnumNT     uint64
	Enumerated uint64
	Subs       map[string]uint64
	Error      string
	Truncated  bool
}

type sample struct {
	Sub   string          `json:"sub"`
	Class string          `json:"class"`
	Case  json.RawMessage `json:"case"`
}

type knownHit struct {
	Count  uint64
	Sample json.RawMessage
	Msg    string
	Sub    string
}

type worker struct {
	prop   *Prop
	tier   string
	seed   uint64
	idx    int
	of     int
	scale  float64
	out    shardOut
	hashes map[uint64]struct{}
	trace  string
	// No new case starts after soft.
	soft time.Time
	mu   sync.Mutex
	// The cases of this check that ran last.
	ring [1000]any
	nth  int
	// The case that is running, and how many started before it.
	cur   func() *violation
	curNo uint64
}

func (w *worker) over() bool {
	if !w.out.Truncated && time.Now().After(w.soft) {
		w.out.Truncated = true
	}
	return w.out.Truncated
}

// remember keeps c among the last cases.
func (w *worker) remember(c any) {
	w.ring[w.nth%len(w.ring)] = c
	w.nth++
}

// before is the cases that ran before the last one.
func (w *worker) before() (cs []json.RawMessage) {
	for i := max(w.nth-len(w.ring), 0); i < w.nth-1; i++ {
		cs = append(cs, mustJSON(w.ring[i%len(w.ring)]))
	}
	return cs
}

func (w *worker) begin(sub string, c any) {
	w.mu.Lock()
	w.cur = func() *violation { return &violation{Sub: sub, Case: mustJSON(c)} }
	w.curNo++
	w.mu.Unlock()
}

// end marks that no case is running (drawing or shrinking is not watched).
func (w *worker) end() {
	w.mu.Lock()
	w.cur = nil
	w.mu.Unlock()
}

// watch reports the running case when it does not end, or eats the memory.
func (w *worker) watch(flush func()) {
	var no, ticks uint64
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(time.Second)
		metrics.Read(m)
		w.mu.Lock()
		if w.cur == nil || w.curNo != no {
			no, ticks = w.curNo, 0
		} else {
			ticks++
		}
		msg := ""
		switch {
		case w.cur == nil:
		case ticks >= 90:
			msg = "the call does not return (stopped after 90 s)"
		case ticks >= 1 && m[0].Value.Uint64() > memLimit:
			msg = fmt.Sprintf("the call uses %d MB of memory and has not returned", m[0].Value.Uint64()>>20)
		}
		if msg != "" {
			v := w.cur()
			v.Msg = msg
			w.out.Violation = v
			flush()
			os.Exit(0)
		}
		w.mu.Unlock()
	}
}

// memLimit is what one call, with everything the worker keeps, may use.
const memLimit = 3 << 30

func (s *Sub[T]) name() string       { return s.Name }
func (s *Sub[T]) thoroughOnly() bool { return s.ThoroughOnly }
func (s *Sub[T]) no32() bool         { return s.No32 }
func (s *Sub[T]) wants(race bool) bool {
	return !(race && s.PlainOnly || !race && s.RaceOnly)
}

func (s *Sub[T]) replay(b []byte) (Outcome, error) {
	var c T
	if err := json.Unmarshal(b, &c); err != nil {
		return Outcome{}, err
	}
	return s.guarded(c), nil
}

// guarded runs the case; a panic of the code under test is a violation.
func (s *Sub[T]) guarded(c T) (o Outcome) {
	defer func() {
		if p := recover(); p != nil {
			if strings.HasPrefix(fmt.Sprint(p), "oracle:") || strings.HasPrefix(fmt.Sprint(p), "harness:") {
				panic(p)
			}
			o.Err = fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	o = s.Run(c)
	if m := lookBack(3); m != "" && o.Err == "" {
		o.Err = m
	}
	return o
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) == 4 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func fnv(b []byte, h uint64) uint64 {
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return h
}

// maxHashes bounds the distinct cases a worker remembers; the count reported is
// then a lower bound.
const maxHashes = 3 << 20

// Keyer gives a cheap identity for counting distinct cases.
type Keyer interface{ Key() uint64 }

func (w *worker) record(sub string, c any, o Outcome, enum bool) {
	w.out.Evals++
	w.out.Subs[sub]++
	cl := sub + "/" + o.Class
	n := w.out.Classes[cl]
	w.out.Classes[cl] = n + 1
	if o.Nontrivial {
		w.out.NonTrivial++
		if enum {
			w.out.EnumNT++
		} else {
			var h uint64
			if k, ok := c.(Keyer); ok {
				h = k.Key()
			} else {
				b, _ := json.Marshal(c)
				h = fnv(b, 0xcbf29ce484222325)
			}
			if len(w.hashes) < maxHashes {
				w.hashes[fnv([]byte(sub), h)] = struct{}{}
			}
		}
	}
	if n == 0 && w.idx == 0 && len(w.out.Samples) < 60 {
		if b, _ := json.Marshal(c); len(b) < 1500 {
			w.out.Samples = append(w.out.Samples, sample{sub, o.Class, b})
		}
	}
	if o.Known != "" {
		k := w.out.Known[o.Known]
		if k.Count == 0 {
			k.Sample, _ = json.Marshal(c)
			k.Msg = o.Err
			k.Sub = sub
		}
		k.Count++
		w.out.Known[o.Known] = k
	}
}

func (s *Sub[T]) shard(w *worker) {
	if s.EnumAt != nil {
		w.nth = 0
		step := uint64(1)
		if w.scale < 1 {
			step = uint64(1 / w.scale)
		}
		var ran []uint64
		one := func(i uint64, again bool) bool {
			if w.out.Evals&255 == 0 && w.over() {
				return false
			}
			c := s.EnumAt(i)
			w.begin(s.Name, c)
			if w.trace != "" {
				w.note()
			}
			w.remember(c)
			o := s.guarded(c)
			w.end()
			if s.Again {
				ran = append(ran, i)
			}
			if again {
				// The same cases as above: they do not count twice.
				w.out.Evals++
				w.out.Subs[s.Name+"-in-another-order"]++
			} else {
				w.out.Enumerated++
				w.record(s.Name, c, o, true)
			}
			if o.Err != "" && o.Known == "" {
				w.fail(s.Name, c, o)
				if s.Again {
					cs := make([]json.RawMessage, len(ran)-1)
					for k := range cs {
						cs[k] = mustJSON(s.EnumAt(ran[k]))
					}
					w.out.Violation.Before = cs
				}
				return false
			}
			return true
		}
		for i := uint64(w.idx) * step; i < s.EnumN; i += uint64(w.of) * step {
			if !one(i, false) {
				return
			}
		}
		if !s.Again || w.scale < 1 {
			return
		}
		// All cases in one process, each worker in an order of its own: what
		// one call leaves behind meets every other.
		mul := mix(w.seed*1000003+uint64(w.idx)) % s.EnumN
		for mul = mul | 1; gcd(mul, s.EnumN) != 1; mul += 2 {
		}
		if w.idx == 0 {
			mul = 1
		}
		for i := uint64(0); i < s.EnumN; i++ {
			if !one(i*mul%s.EnumN, true) {
				return
			}
		}
		return
	}
	n := s.Quick
	if w.tier == "thorough" {
		n = s.Thor
	}
	n = int(10 * float64(n) * w.scale / float64(w.of))
	if n < 1 {
		n = 1
	}
	w.nth = 0
	var last *violation
	var first json.RawMessage
	var before []json.RawMessage
	failed := false
	tb := &fakeTB{}
	seed := mix(w.seed*1000003 + uint64(w.idx)*7919 + fnv([]byte(w.prop.ID+s.Name), 0xcbf29ce484222325))
	set("rapid.seed", strconv.FormatUint(seed|1, 10))
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "15s")
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			if !failed && w.over() {
				return
			}
			c := s.Gen(t)
			w.begin(s.Name, c)
			if w.trace != "" {
				w.note()
			}
			if !failed {
				w.remember(c)
			}
			o := s.guarded(c)
			w.end()
			if !failed {
				w.record(s.Name, c, o, false)
			}
			if o.Err != "" && o.Known == "" {
				b := mustJSON(c)
				if !failed {
					failed = true
					first, before = b, w.before()
				}
				last = &violation{s.Name, b, o.Err, first, before}
				t.Fatalf("violation")
			}
		})
	}()
	<-done
	if last != nil {
		w.out.Violation = last
		return
	}
	if tb.failed {
		w.out.Error = "rapid: " + tb.log.String()
	}
}

// note leaves the running case where a crash of the process can be traced to it.
func (w *worker) note() {
	b, _ := json.Marshal(w.cur())
	os.WriteFile(w.trace, b, 0o644)
}

func mustJSON(c any) json.RawMessage { b, _ := json.Marshal(c); return b }

func (w *worker) fail(sub string, c any, o Outcome) {
	b := mustJSON(c)
	w.out.Violation = &violation{sub, b, o.Err, b, w.before()}
}

func set(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic("harness: " + err.Error())
	}
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Mix is a fixed 64-bit mixer for expanding a drawn word.
func Mix(x uint64) uint64 { return mix(x) }

type fakeTB struct {
	failed bool
	log    bytes.Buffer
}

func (*fakeTB) Helper()                     {}
func (*fakeTB) Name() string                { return "check" }
func (f *fakeTB) Logf(s string, a ...any)   {}
func (f *fakeTB) Log(a ...any)              {}
func (*fakeTB) Skipf(s string, a ...any)    { runtime.Goexit() }
func (*fakeTB) Skip(a ...any)               { runtime.Goexit() }
func (*fakeTB) SkipNow()                    { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// Build is one build of a check binary that runs a share of the cases.
type Build struct {
	Label string
	Exe   string
	Scale float64 // share of the tier's case counts
	Race  bool
	Dict  string   // dictionary of constants for the generators
	IDs   []string // properties whose checks this build runs (default: the one asked for)
}

var die = func(code int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

// Main is the entry point of a check binary.
//
//	check ID        decide a property with this and the other builds in BUILDS
//	shard ...       (internal) one worker
//	replay FILE     run one saved case
//	list
func Main(props []*Prop) {
	testing.Init()
	args := os.Args[1:]
	flag.CommandLine.Parse(nil)
	byID := map[string]*Prop{}
	for _, p := range props {
		byID[p.ID] = p
	}
	if len(args) == 0 {
		die(2, "usage: check ID | replay FILE | list")
	}
	switch args[0] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "shard":
		runShard(byID, args[1:])
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			die(2, "%v", err)
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			die(2, "%v", err)
		}
		id := r.Property
		if r.Suite != "" {
			id = r.Suite
		}
		p := byID[id]
		if p == nil {
			die(2, "property %s is not in this binary", id)
		}
		for _, s := range p.Subs {
			if s.name() == r.Sub {
				time.AfterFunc(90*time.Second, func() {
					die(1, "replay: VIOLATED %s/%s: the call does not return", r.Property, r.Sub)
				})
				for _, c := range r.Before {
					if _, err := s.replay(c); err != nil {
						die(2, "%v", err)
					}
				}
				o, err := s.replay(r.Case)
				if err != nil {
					die(2, "%v", err)
				}
				if m := KeptAll(); o.Err == "" {
					o.Err = m
				}
				if o.Err == "" {
					fmt.Println("replay: passes")
					return
				}
				die(1, "replay: VIOLATED %s/%s: %s", r.Property, r.Sub, o.Err)
			}
		}
		die(2, "no check %s", r.Sub)
	case "check":
		var builds []Build
		if s := os.Getenv("PBT_BUILDS"); s != "" {
			if err := json.Unmarshal([]byte(s), &builds); err != nil {
				die(2, "PBT_BUILDS: %v", err)
			}
		} else {
			exe, _ := os.Executable()
			builds = []Build{{Label: "amd64", Exe: exe, Scale: 1}}
		}
		id := args[1]
		var rule string
		var assume []string
		if p := byID[id]; p != nil {
			rule, assume = p.Rule, p.Assumptions
		}
		Check(id, rule, assume, builds)
	default:
		die(2, "unknown command %s", args[0])
	}
}

func runShard(byID map[string]*Prop, args []string) {
	// shard ID tier seed idx of scale outfile hashfile trace soft-deadline
	p := byID[args[0]]
	if p == nil {
		die(2, "no property %s", args[0])
	}
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	idx, _ := strconv.Atoi(args[3])
	of, _ := strconv.Atoi(args[4])
	scale, _ := strconv.ParseFloat(args[5], 64)
	w := &worker{prop: p, tier: args[1], seed: seed, idx: idx, of: of, scale: scale,
		hashes: map[uint64]struct{}{}, trace: args[8]}
	if w.trace == "-" {
		w.trace = ""
	}
	soft, _ := strconv.ParseInt(args[9], 10, 64)
	w.soft = time.Unix(soft, 0)
	flush := func() {
		b, err := json.Marshal(w.out)
		if err != nil {
			die(2, "%v", err)
		}
		if err := os.WriteFile(args[6], b, 0o644); err != nil {
			die(2, "%v", err)
		}
	}
	w.out.Classes = map[string]uint64{}
	w.out.Known = map[string]knownHit{}
	w.out.Subs = map[string]uint64{}
	go w.watch(flush)
	for _, s := range p.Subs {
		if s.thoroughOnly() && (w.tier != "thorough" || scale < 1) {
			continue
		}
		if s.no32() && scale < 1 || !s.wants(raceBuild) {
			continue
		}
		s.shard(w)
		if w.out.Violation != nil || w.out.Error != "" {
			break
		}
	}
	hf, err := os.Create(args[7])
	if err != nil {
		die(2, "%v", err)
	}
	buf := make([]byte, 0, 8*len(w.hashes))
	for h := range w.hashes {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	hf.Write(buf)
	hf.Close()
	flush()
}

type replayFile struct {
	Property string `json:"property"`
	Suite    string `json:"suite,omitempty"`
	Build    string `json:"build"`
	Sub      string `json:"sub"`
	// Cases to run first, when the failure depends on what ran before.
	Before []json.RawMessage `json:"before,omitempty"`
	Case   json.RawMessage   `json:"case"`
	Msg    string            `json:"msg"`
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

type job struct {
	build Build
	id    string
	idx   int
	of    int
	out   string
	hash  string
	trace string
	err   error
	log   string
	res   shardOut
	code  int
	died  bool
}

func readKnown(verif string) map[string]knownFinding {
	m := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			die(2, "known_findings.jsonl: %v", err)
		}
		if k.Status == "known" {
			m[k.ID] = k
		}
	}
	return m
}

// Check runs the property's cases in every build and reports.
func Check(id, rule string, assume []string, builds []Build) {
	start := time.Now()
	verif := os.Getenv("PBT_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	workers := 8
	limit, soft := 700*time.Second, 400*time.Second
	if tier == "thorough" {
		limit, soft = 5400*time.Second, 4000*time.Second
	}
	scratch, err := os.MkdirTemp("", "pbt-")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(scratch)
	exit := func(code int, f string, a ...any) {
		os.RemoveAll(scratch)
		die(code, f, a...)
	}
	var jobs []*job
	for _, b := range builds {
		ids := b.IDs
		if len(ids) == 0 {
			ids = []string{id}
		}
		of := workers
		if len(ids) > 1 {
			of = 2
		}
		for _, pid := range ids {
			for i := 0; i < of; i++ {
				base := filepath.Join(scratch, fmt.Sprintf("%s-%s-%d", b.Label, pid, i))
				j := &job{build: b, id: pid, idx: i, of: of, out: base + ".json", hash: base + ".hash", trace: "-"}
				if b.Race {
					j.trace = base + ".trace"
				}
				jobs = append(jobs, j)
			}
		}
	}
	deadline := time.Now().Add(limit)
	softAt := time.Now().Add(soft)
	sem := make(chan struct{}, workers)
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sigs
		procs.killAll()
		exit(143, "interrupted")
	}()
	var wg sync.WaitGroup
	// Once a violation is known, workers that wait are not started and those
	// that run get a little time to end.
	var once sync.Once
	found := make(chan struct{})
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			select {
			case <-found:
				j.err = errSkipped
				return
			default:
			}
			defer func() {
				if j.err == nil && j.res.Violation != nil || j.err != nil && j.deathViolation() != nil {
					once.Do(func() {
						close(found)
						time.AfterFunc(20*time.Second, procs.killAll)
					})
				}
			}()
			j.run(tier, seed, softAt, deadline)
			if j.err != nil && j.code == 2 && j.trace == "-" && !strings.Contains(j.log, "harness:") && !strings.Contains(j.log, "oracle:") {
				// The process died under a case: find it.
				j.trace = filepath.Join(scratch, fmt.Sprintf("%s-%s-%d.trace", j.build.Label, j.id, j.idx))
				j.run(tier, seed, softAt, deadline)
				j.died = j.err != nil && j.code == 2
			}
		}(j)
	}
	wg.Wait()

	// Merge.
	known := readKnown(verif)
	total := shardOut{Classes: map[string]uint64{}, Subs: map[string]uint64{}, Known: map[string]knownHit{}}
	perBuild := map[string]uint64{}
	distinct := map[uint64]struct{}{}
	var viol *violation
	var vjob *job
	var errs []string
	for _, j := range jobs {
		if j.err != nil {
			if v := j.deathViolation(); v != nil {
				if viol == nil {
					viol, vjob = v, j
				}
				continue
			}
			if j.err == errSkipped {
				continue
			}
			errs = append(errs, fmt.Sprintf("worker %s/%s/%d: %v: %s", j.build.Label, j.id, j.idx, j.err, tail(j.log)))
			continue
		}
		r := &j.res
		if r.Error != "" {
			errs = append(errs, r.Error)
		}
		if r.Violation != nil && viol == nil {
			viol, vjob = r.Violation, j
		}
		perBuild[j.build.Label] += r.Evals
		total.Evals += r.Evals
		total.EnumNT += r.EnumNT
		total.Truncated = total.Truncated || r.Truncated
		total.Enumerated += r.Enumerated
		for k, v := range r.Classes {
			total.Classes[k] += v
		}
		for k, v := range r.Subs {
			total.Subs[k] += v
		}
		total.Samples = append(total.Samples, r.Samples...)
		for k, v := range r.Known {
			t := total.Known[k]
			if t.Count == 0 {
				t = v
			} else {
				t.Count += v.Count
			}
			total.Known[k] = t
		}
		if b, err := os.ReadFile(j.hash); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
	}
	// A hit of a known finding the file does not list is a violation.
	var kids []string
	for k := range total.Known {
		kids = append(kids, k)
	}
	sort.Strings(kids)
	for _, k := range kids {
		h := total.Known[k]
		if kf, ok := known[k]; !ok || kf.Property != id && !strings.Contains(kf.Property, id) {
			if viol == nil && id != "C26" {
				viol = &violation{Sub: h.Sub, Case: h.Sample, Msg: h.Msg}
				vjob = jobs[0]
			}
		}
	}
	violations := 0
	if viol != nil {
		violations = 1
	}
	if len(total.Samples) > 40 {
		total.Samples = total.Samples[:40]
	}
	cov := map[string]any{
		"evaluations":         total.Evals,
		"distinct_nontrivial": uint64(len(distinct)) + total.EnumNT,
		"rule":                rule,
		"samples":             total.Samples,
		"enumerated":          total.Enumerated,
		"per_check":           total.Subs,
		"per_build":           perBuild,
		"classes":             total.Classes,
	}
	if total.Truncated {
		cov["truncated"] = "the time limit was reached before all cases were drawn"
	}
	for _, k := range kids {
		cov["known_finding_hits_"+k] = total.Known[k].Count
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": append([]string{}, assume...),
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		exit(2, "%v", err)
	}
	if viol != nil {
		rf := replayFile{Property: id, Build: vjob.build.Label, Sub: viol.Sub, Case: viol.Case, Msg: viol.Msg}
		if vjob.id != id {
			rf.Suite = vjob.id
		}
		if vjob.build.Race || vjob.err != nil || len(viol.First) == 0 {
			// Not a plain failure of one case.
		} else if !minimize(&rf, viol, vjob, scratch) {
			fmt.Println("note: the saved case fails in the worker only; run the check with the same seed to see it again")
		}
		rb, _ := json.MarshalIndent(rf, "", " ")
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, viol.Sub, fnv(viol.Case, 0xcbf29ce484222325)))
		if err := os.WriteFile(path, append(rb, '\n'), 0o644); err != nil {
			exit(2, "%v", err)
		}
		fmt.Printf("%s/%s (%s build)\ncase: %s\n%s\n", id, viol.Sub, vjob.build.Label, viol.Case, viol.Msg)
		exit(1, "VIOLATION property=%s replay=%s", id, path)
	}
	if len(errs) > 0 {
		exit(3, "ERROR property=%s: %s", id, strings.Join(errs, "\n"))
	}
	if id != "C26" {
		var ks []string
		for k, kf := range known {
			if strings.Contains(kf.Property, id) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if total.Known[k].Count > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d cases; e.g. %s)\n", id, k, known[k].What, total.Known[k].Count, total.Known[k].Sample)
			}
		}
	}
	exit(0, "OK property=%s tier=%s seed=%d cases=%d nontrivial-distinct=%d wall=%.1fs", id, tier, seed, total.Evals,
		uint64(len(distinct))+total.EnumNT, time.Since(start).Seconds())
}

// minimize makes rf fail in a process of its own. The shrunk case alone does,
// unless the failure depends on earlier cases; then the shortest list of those
// found in a few attempts goes with it.
func minimize(rf *replayFile, v *violation, j *job, scratch string) bool {
	tmp := filepath.Join(scratch, "minimize.json")
	stop := time.Now().Add(60 * time.Second)
	fails := func(before []json.RawMessage, c json.RawMessage) bool {
		if time.Now().After(stop) {
			return false
		}
		r := *rf
		r.Before, r.Case = before, c
		b, _ := json.Marshal(r)
		if os.WriteFile(tmp, b, 0o644) != nil {
			return false
		}
		ctx, cancel := context.WithDeadline(context.Background(), stop.Add(10*time.Second))
		defer cancel()
		cmd := exec.CommandContext(ctx, j.build.Exe, "replay", tmp)
		cmd.WaitDelay = time.Second
		err := cmd.Run()
		ee, ok := err.(*exec.ExitError)
		return ok && ee.ExitCode() == 1
	}
	if fails(nil, v.Case) {
		return true
	}
	if fails(nil, v.First) {
		rf.Case = v.First
		return true
	}
	b := v.Before
	for n := 1; ; n *= 4 {
		n = min(n, len(b))
		if cs := b[len(b)-n:]; fails(cs, v.First) {
			rf.Before, rf.Case = cs, v.First
			break
		}
		if n == len(b) {
			return false
		}
	}
	if fails(rf.Before, v.Case) {
		rf.Case = v.Case
	}
	for k := len(rf.Before) / 2; k > 0; k /= 2 {
		for i := 0; i+k <= len(rf.Before); {
			cs := append(append([]json.RawMessage{}, rf.Before[:i]...), rf.Before[i+k:]...)
			if fails(cs, rf.Case) {
				rf.Before = cs
			} else {
				i += k
			}
		}
	}
	return true
}

func tail(s string) string {
	if len(s) > 2000 {
		s = s[len(s)-2000:]
	}
	return s
}

var errSkipped = errors.New("not run")

// procs are the running workers.
var procs = procSet{m: map[int]bool{}}

type procSet struct {
	sync.Mutex
	m map[int]bool
}

func (s *procSet) start(cmd *exec.Cmd) error {
	s.Lock()
	defer s.Unlock()
	if err := cmd.Start(); err != nil {
		return err
	}
	s.m[cmd.Process.Pid] = true
	return nil
}

func (s *procSet) end(cmd *exec.Cmd) {
	s.Lock()
	defer s.Unlock()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	delete(s.m, cmd.Process.Pid)
}

func (s *procSet) killAll() {
	s.Lock()
	defer s.Unlock()
	for pid := range s.m {
		syscall.Kill(-pid, syscall.SIGKILL)
	}
}

func (j *job) run(tier string, seed uint64, soft, deadline time.Time) {
	j.err, j.code = nil, 0
	cmd := exec.Command(j.build.Exe, "shard", j.id, tier, strconv.FormatUint(seed, 10), strconv.Itoa(j.idx),
		strconv.Itoa(j.of), strconv.FormatFloat(j.build.Scale, 'g', -1, 64), j.out, j.hash, j.trace,
		strconv.FormatInt(soft.Unix(), 10))
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = io.Discard, &log
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if j.build.Dict != "" {
		cmd.Env = append(cmd.Env, "PBT_DICT="+j.build.Dict)
	}
	if !j.build.Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2", "GOGC=400")
	}
	// A group of its own, to end what the worker leaves behind.
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 5 * time.Second
	if err := procs.start(cmd); err != nil {
		j.err = err
		return
	}
	t := time.AfterFunc(time.Until(deadline), func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	procs.end(cmd)
	if err == exec.ErrWaitDelay {
		err = nil
	}
	j.log = log.String()
	if err != nil {
		j.err = err
		if ee, ok := err.(*exec.ExitError); ok {
			j.code = ee.ExitCode()
		}
		return
	}
	b, err := os.ReadFile(j.out)
	if err == nil {
		err = json.Unmarshal(b, &j.res)
	}
	j.err = err
}

// deathViolation turns a race report, or a fatal error of the process under a
// case, into a violation with the case that was running.
func (j *job) deathViolation() *violation {
	what := "the process dies: "
	switch {
	case j.build.Race && (j.code == 66 || strings.Contains(j.log, "fatal error: concurrent")):
		what = "data race reported by the race detector: "
	case !j.died:
		return nil
	}
	b, err := os.ReadFile(j.trace)
	if err != nil {
		return nil
	}
	var v violation
	if json.Unmarshal(b, &v) != nil {
		return nil
	}
	msg := j.log
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	v.Msg = what + msg
	return &v
}
