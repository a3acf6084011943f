package main

// Monitor runtime: deterministic case lists, event counters, guards, verdicts.

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Stream is one workload of a property: n cases, each a function of its own PRNG.
type Stream struct {
	Name    string
	Quick   int  // number of cases, quick tier
	Thor    int  // number of cases, thorough tier
	Workers int  // 0: all cores
	Fixed   bool // an enumeration: the count is never scaled
	Run     func(c *Ctx)
}

// Property is one monitored property.
type Property struct {
	ID       string
	Rule     string   // how cases are made and what makes one non-trivial
	Require  []string // event/feature classes that must have been observed
	Race     bool     // build with -race
	Streams  []Stream
	Boost    int // percent applied to the quick counts, 0: 100
	Setup    func(m *Monitor) error
	Finish   func(m *Monitor) // after all streams (quiescent point)
	Assume   []string
	Explored func(m *Monitor) map[string]any
}

type Violation struct {
	Property string   `json:"property"`
	Stream   string   `json:"stream"`
	Index    int      `json:"index"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Stack    string   `json:"stack,omitempty"`
}

type Monitor struct {
	prop    *Property
	tier    string
	seed    uint64
	scratch string

	mu         sync.Mutex
	violations []Violation
	events     map[string]int64
	feats      map[string]int64
	distinct   map[uint64]struct{}
	samples    []any
	cases      int64
	perStream  map[string]int64
	nviol      atomic.Int64
	cur        []curCase
}

type curCase struct {
	start  atomic.Int64
	stream atomic.Value
	idx    atomic.Int64
	gen    atomic.Int64
}

type Ctx struct {
	m        *Monitor
	Stream   string
	Idx      int
	N        int
	R        *rand.Rand
	trace    []string
	events   map[string]int64
	feats    map[string]int64
	distinct map[uint64]struct{}
	Worker   int
	samples  []any
}

type caseAbort struct{}

func mix(parts ...any) (uint64, uint64) {
	h := fnv.New128a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	s := h.Sum(nil)
	return binary.BigEndian.Uint64(s[:8]), binary.BigEndian.Uint64(s[8:])
}

// Ev counts an observed event of the given kind.
func (c *Ctx) Ev(kind string) { c.events[kind]++ }

// Feat counts a coverage class reached by the workload.
func (c *Ctx) Feat(name string) { c.feats[name]++ }

// Case registers the fingerprint of a non-trivial case.
func (c *Ctx) Case(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xfe})
	}
	c.distinct[h.Sum64()] = struct{}{}
}

// Log appends to the replay trace of the current case.
func (c *Ctx) Log(f string, a ...any) {
	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// Sample keeps a case written out for the evidence file.
func (c *Ctx) Sample(v any) {
	if len(c.samples) < 2 {
		c.samples = append(c.samples, v)
	}
}

// Fail records a violation and aborts the case. key classifies it.
func (c *Ctx) Fail(key, f string, a ...any) {
	c.m.report(Violation{Stream: c.Stream, Index: c.Idx, Key: key, Message: fmt.Sprintf(f, a...), Trace: append([]string{}, c.trace...)})
	panic(caseAbort{})
}

func (c *Ctx) Failif(cond bool, key, f string, a ...any) {
	if cond {
		c.Fail(key, f, a...)
	}
}

func (m *Monitor) report(v Violation) {
	v.Property, v.Seed, v.Tier = m.prop.ID, m.seed, m.tier
	m.mu.Lock()
	defer m.mu.Unlock()
	m.nviol.Add(1)
	if len(m.violations) < 20 {
		m.violations = append(m.violations, v)
	}
}

// Guard runs f and returns the recovered panic value (nil if none). caseAbort passes through.
func Guard(f func()) (pv any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			pv, stack = r, string(debug.Stack())
		}
	}()
	f()
	return
}

func (m *Monitor) runCase(w int, s *Stream, idx, n int, acc *Ctx) {
	a, b := mix(m.seed, m.prop.ID, s.Name, idx)
	c := &Ctx{m: m, Stream: s.Name, Idx: idx, N: n, R: rand.New(rand.NewPCG(a, b)),
		events: acc.events, feats: acc.feats, distinct: acc.distinct, Worker: w}
	cc := &m.cur[w]
	cc.stream.Store(s.Name)
	cc.idx.Store(int64(idx))
	cc.gen.Add(1)
	cc.start.Store(time.Now().UnixNano())
	defer cc.start.Store(0)
	defer func() {
		acc.samples = append(acc.samples, c.samples...)
		if len(acc.samples) > 4 {
			acc.samples = acc.samples[:4]
		}
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				return
			}
			st := string(debug.Stack())
			m.report(Violation{Stream: s.Name, Index: idx, Key: "panic", Message: fmt.Sprintf("panic: %v", r), Trace: c.trace, Stack: trimStack(st)})
		}
	}()
	s.Run(c)
}

func trimStack(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

const hangLimit = 170 * time.Second
const heapLimit = 8 << 30

func (m *Monitor) watchdog(stop chan struct{}, onHang func()) {
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
		}
		now := time.Now().UnixNano()
		for i := range m.cur {
			st := m.cur[i].start.Load()
			if st != 0 && time.Duration(now-st) > hangLimit {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				m.report(Violation{Stream: m.cur[i].stream.Load().(string), Index: int(m.cur[i].idx.Load()), Key: "hang",
					Message: fmt.Sprintf("a case did not finish within %s", hangLimit), Stack: trimStack(string(buf))})
				onHang()
				return
			}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			v := Violation{Key: "memory", Message: "heap above 8 GiB: an operation allocates without bound"}
			for i := range m.cur {
				if m.cur[i].start.Load() != 0 {
					v.Stream, v.Index = m.cur[i].stream.Load().(string), int(m.cur[i].idx.Load())
					v.Trace = append(v.Trace, fmt.Sprintf("running: %s %d", v.Stream, v.Index))
				}
			}
			m.report(v)
			onHang()
			return
		}
	}
}

func newMonitor(p *Property, tier string, seed uint64, scratch string) *Monitor {
	return &Monitor{prop: p, tier: tier, seed: seed, scratch: scratch, events: map[string]int64{}, feats: map[string]int64{},
		distinct: map[uint64]struct{}{}, perStream: map[string]int64{}, cur: make([]curCase, 64)}
}

func (m *Monitor) newAcc() *Ctx {
	return &Ctx{events: map[string]int64{}, feats: map[string]int64{}, distinct: map[uint64]struct{}{}}
}

func (m *Monitor) merge(acc *Ctx) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, v := range acc.events {
		m.events[k] += v
	}
	for k, v := range acc.feats {
		m.feats[k] += v
	}
	for k := range acc.distinct {
		m.distinct[k] = struct{}{}
	}
	m.samples = append(m.samples, acc.samples...)
}

func (m *Monitor) count(s *Stream) int {
	n := s.Quick
	if m.prop.Boost > 0 && !s.Fixed {
		n = n * m.prop.Boost / 100
	}
	if m.tier == "thorough" && s.Thor > 0 {
		n = s.Thor
	}
	if k, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && k > 0 && !s.Fixed { // percent, for development only
		n = max(1, n*k/100)
	}
	return n
}

func (m *Monitor) runStream(s *Stream, journal *os.File) {
	n := m.count(s)
	w := s.Workers
	if w == 0 {
		w = runtime.NumCPU()
	}
	if w > n {
		w = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			acc := m.newAcc()
			defer m.merge(acc)
			for {
				if m.nviol.Load() >= 5 {
					return
				}
				k := int(next.Add(1)) - 1
				if k >= n {
					return
				}
				if journal != nil {
					rec := fmt.Sprintf("%-40s %12d\n", s.Name, k)
					journal.WriteAt([]byte(rec), int64(i*len(rec)))
				}
				m.runCase(i, s, k, n, acc)
				m.mu.Lock()
				m.cases++
				m.perStream[s.Name]++
				m.mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
}

// Result is what the child hands to the parent.
type Result struct {
	Violations []Violation      `json:"violations"`
	Cases      int64            `json:"cases"`
	Distinct   int64            `json:"distinct"`
	Events     map[string]int64 `json:"events"`
	Feats      map[string]int64 `json:"features"`
	PerStream  map[string]int64 `json:"per_stream"`
	Samples    []any            `json:"samples"`
	Missing    []string         `json:"missing"`
	Extra      map[string]any   `json:"extra,omitempty"`
	Done       bool             `json:"done"`
}

func (m *Monitor) result(done bool) *Result {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := &Result{Violations: m.violations, Cases: m.cases, Distinct: int64(len(m.distinct)), Events: m.events, Feats: m.feats,
		PerStream: m.perStream, Samples: m.samples, Done: done}
	sort.Slice(r.Violations, func(i, j int) bool {
		a, b := r.Violations[i], r.Violations[j]
		if a.Stream != b.Stream {
			return a.Stream < b.Stream
		}
		return a.Index < b.Index
	})
	if len(r.Samples) > 6 {
		r.Samples = r.Samples[:6]
	}
	for _, q := range m.prop.Require {
		if m.events[q] == 0 && m.feats[q] == 0 {
			r.Missing = append(r.Missing, q)
		}
	}
	return r
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func hx(b []byte) string {
	if len(b) > 400 {
		return hex.EncodeToString(b[:400]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func joinErr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return strings.ReplaceAll(short(err.Error(), 200), "\n", " ")
}
