package main

// Crowd for C17: the single-threaded cases of the other monitors run on all workers at once under the race
// detector, so that every path they drive (error paths, long messages, wide transactions, odd metadata) is
// executed concurrently with every other. A case whose oracle fails here is run again by itself afterwards and
// counts only if it then passes, since the property is about concurrent use, not about the values.

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
)

type crowdPick struct {
	p *Property
	s *Stream
}

var crowd struct {
	sync.Once
	picks  []crowdPick
	mu     sync.Mutex
	failed []crowdFail
}

type crowdFail struct {
	crowdPick
	outer, idx int
	a, b       uint64
	v          Violation
}

// not run: the environments of the node backends and the leak searches are global to the process
var crowdOut = map[string]bool{"C17": true, "C18": true, "C19": true, "C22": true, "C23": true, "C24": true, "C26": true, "C27": true}

func crowdInit() {
	crowd.Do(func() {
		for _, p := range props {
			if crowdOut[p.ID] {
				continue
			}
			for i := range p.Streams {
				if p.Streams[i].Workers == 0 {
					crowd.picks = append(crowd.picks, crowdPick{p, &p.Streams[i]})
				}
			}
		}
		sort.Slice(crowd.picks, func(i, j int) bool {
			return crowd.picks[i].p.ID+crowd.picks[i].s.Name < crowd.picks[j].p.ID+crowd.picks[j].s.Name
		})
	})
}

// runCrowd runs one case of another monitor and returns what its oracle objects to.
func runCrowd(scratch string, worker int, k crowdPick, idx int, a, b uint64) []Violation {
	m := newMonitor(k.p, "quick", 1, scratch)
	acc := m.newAcc()
	c := &Ctx{m: m, Stream: k.s.Name, Idx: idx, N: k.s.Quick, R: rand.New(rand.NewPCG(a, b)), events: acc.events, feats: acc.feats, distinct: acc.distinct, Worker: worker}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(caseAbort); !ok {
					m.report(Violation{Stream: k.s.Name, Index: idx, Key: "panic", Message: fmt.Sprintf("panic: %v", r), Trace: c.trace})
				}
			}
		}()
		k.s.Run(c)
	}()
	return m.violations
}

func crowdCase(c *Ctx) {
	for n := 0; n < 8; n++ {
		k := crowd.picks[(c.Idx*8+n)%len(crowd.picks)]
		if c.R.IntN(2) == 0 {
			k = crowd.picks[c.R.IntN(len(crowd.picks))]
		}
		idx, a, b := c.R.IntN(max(1, k.s.Quick)), c.R.Uint64(), c.R.Uint64()
		for _, v := range runCrowd(c.m.scratch, c.Worker, k, idx, a, b) {
			crowd.mu.Lock()
			if len(crowd.failed) < 40 {
				crowd.failed = append(crowd.failed, crowdFail{k, c.Idx, idx, a, b, v})
			}
			crowd.mu.Unlock()
		}
		c.Ev("crowd:" + k.p.ID)
		c.Case("crowd", k.p.ID, k.s.Name, fmt.Sprint(a))
	}
}

// crowdFinish runs failed cases again, one at a time.
func crowdFinish(m *Monitor) {
	for _, f := range crowd.failed {
		if len(runCrowd(m.scratch, 0, f.crowdPick, f.idx, f.a, f.b)) > 0 {
			m.events["crowd-fails-alone-too"]++
			continue
		}
		m.report(Violation{Stream: "crowd", Index: f.outer, Key: "concurrent-result:" + f.p.ID, Trace: f.v.Trace, Stack: f.v.Stack,
			Message: fmt.Sprintf("a case of %s/%s fails among concurrent calls and passes alone: %s", f.p.ID, f.s.Name, f.v.Message)})
	}
	runtime.GC()
}
