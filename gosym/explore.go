package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ReplayInput is one recorded choice.
type ReplayInput struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

// Violation is a counterexample found on some path.
type Violation struct {
	ID     string
	Inputs []ReplayInput
	Where  string
	Msg    string
}

// Sample is one complete path (for native cross-validation).
type Sample struct {
	Inputs []ReplayInput
	Reach  []string
	N      int
}

// Explorer shares the work queue between workers.
type Explorer struct {
	p            *Prog
	entry        *fnInfo
	maxDecisions int
	maxEnum      int
	maxPaths     int64
	stepLimit    int64
	deadline     time.Time
	hang         bool
	mux          int
	keepGoing    func(id string) bool // known finding: do not stop

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []workItem
	active int
	stop   bool
	trunc  string

	paths    int64
	ends     map[string]int
	branches int64
	steps    int64
	reach    map[string]int
	asserts  map[string][2]int64 // total, symbolic
	unknown  map[string]int
	limits   map[string]int
	viol     []*Violation
	violN    map[string]int
	entered  map[*fnInfo]bool
	samples  []Sample
	maxDepth int
	rng      *rand.Rand
	qpeak    int
}

func newExplorer(p *Prog, entry *fnInfo, seed int64) *Explorer {
	e := &Explorer{p: p, entry: entry, maxDecisions: 20000, maxEnum: 70000, mux: muxLimit, maxPaths: 1 << 40, stepLimit: 20_000_000,
		ends: map[string]int{}, reach: map[string]int{}, asserts: map[string][2]int64{}, unknown: map[string]int{}, limits: map[string]int{}, violN: map[string]int{},
		entered: map[*fnInfo]bool{}, rng: rand.New(rand.NewSource(seed))}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(w workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	if len(e.queue) > e.qpeak {
		e.qpeak = len(e.queue)
	}
	e.branches++
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop(fifo bool) (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			if len(e.queue) > 0 && !e.stop {
				e.trunc = "time limit"
			}
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		if e.paths >= e.maxPaths {
			e.trunc = "path limit"
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(e.queue); n > 0 {
			i := n - 1
			if fifo {
				i = e.rng.Intn(n)
			}
			w := e.queue[i]
			e.queue[i] = e.queue[n-1]
			e.queue[n-1] = workItem{}
			e.queue = e.queue[:n-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) noteUnknown(s string) {
	e.mu.Lock()
	e.unknown[s]++
	e.mu.Unlock()
}

func (e *Explorer) noteAssert(id string, sym bool) {
	e.mu.Lock()
	a := e.asserts[id]
	a[0]++
	if sym {
		a[1]++
	}
	e.asserts[id] = a
	e.mu.Unlock()
}

func (e *Explorer) noteReach(id string) {
	e.mu.Lock()
	e.reach[id]++
	e.mu.Unlock()
}

func (e *Explorer) report(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.violN[v.ID]++
	if e.violN[v.ID] <= 3 {
		e.viol = append(e.viol, v)
	}
	if v.ID == "hang" && e.violN[v.ID] < 200 {
		return // only a candidate: a native run decides
	}
	if e.keepGoing == nil || !e.keepGoing(v.ID) {
		e.stop = true
		e.cond.Broadcast()
	}
}

func (e *Explorer) uncaught(m *M, p *goPanic) {
	m.ex.noteAssert("panic", false)
	m.violationAt("panic", m.model, p.msg+" at "+p.where)
}

func (e *Explorer) deadlock(m *M) {
	if m.g != nil && m.g.id == -1 {
		m.fail("unsupported", "initialiser blocks")
	}
	m.violationAt("deadlock", m.model, "all goroutines blocked at "+m.where())
}

func (e *Explorer) run(workers int) {
	e.queue = []workItem{{nil, map[string]uint64{}}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := &M{p: e.p, ts: newTerms(), ex: e, inited: nil, sticky: map[*ssaPackage]bool{}, entered: map[*fnInfo]bool{}}
			m.inited = map[*ssaPackage]bool{}
			m.limit = e.stepLimit
			m.sol = newSolver()
			m.sol.deadline = e.deadline
			defer m.sol.stop()
			for {
				w, ok := e.pop(i%3 == 2)
				if !ok {
					break
				}
				m.runPath(w)
				e.done()
			}
			e.mu.Lock()
			for f := range m.entered {
				e.entered[f] = true
			}
			e.mu.Unlock()
		}(i)
	}
	wg.Wait()
}

func (m *M) runPath(w workItem) {
	e := m.ex
	m.resetPath()
	if m.ts.size() > 3_000_000 {
		m.ts = newTerms()
		m.globals = nil
		m.inited = map[*ssaPackage]bool{}
		m.sticky = map[*ssaPackage]bool{}
	}
	m.prefix = w.prefix
	m.setModel(w.model)
	m.sol.beginPath()
	end := pathEnd{kind: "ok"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case specAbort:
					end = pathEnd{"unsupported", "speculation escaped"}
				case pathPanic:
					end = pathEnd{"unsupported", "panic escaped: " + x.p.msg}
				default:
					if debugEngine {
						panic(r)
					}
					end = pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", r, m.whereSafe())}
				}
			}
		}()
		main := m.newG(&Closure{fn: e.entry}, nil)
		m.g = main
		m.fr = main.top
		m.initPkg(e.entry.fn.Pkg)
		m.run()
	}()
	atomic.AddInt64(&e.steps, m.steps)
	e.mu.Lock()
	e.paths++
	e.ends[end.kind]++
	if end.kind == "limit" || end.kind == "unsupported" || end.kind == "unknown" {
		e.limits[end.kind+": "+end.msg]++
	}
	if len(m.trace) > e.maxDepth {
		e.maxDepth = len(m.trace)
	}
	takeSample := end.kind == "ok" && (len(e.samples) < 12 || e.rng.Intn(int(e.paths)) < 12)
	e.mu.Unlock()
	if takeSample {
		s := Sample{Inputs: m.inputVals(m.model), N: m.assertN()}
		for r := range m.reached {
			s.Reach = append(s.Reach, r)
		}
		sort.Strings(s.Reach)
		e.mu.Lock()
		if len(e.samples) < 12 {
			e.samples = append(e.samples, s)
		} else {
			e.samples[e.rng.Intn(12)] = s
		}
		e.mu.Unlock()
	}
}

func (m *M) assertN() int { return m.asserts }

func (m *M) whereSafe() (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return m.where()
}

func (m *M) inputVals(model map[string]uint64) []ReplayInput {
	ev := newEval(model)
	vals := []ReplayInput{}
	for _, in := range m.inputs {
		r := ReplayInput{Name: in.Name, W: int(in.W)}
		if in.T != nil {
			r.Val = ev.eval(in.T)
		} else {
			r.Val = in.Conc
		}
		vals = append(vals, r)
	}
	return vals
}

// violation reports a counterexample and ends the path.
func (m *M) violation(id string, model map[string]uint64) {
	m.violationAt(id, model, "")
}

func (m *M) violationAt(id string, model map[string]uint64, msg string) {
	m.ex.report(&Violation{ID: id, Inputs: m.inputVals(model), Where: m.where(), Msg: msg})
	m.fail("violation", id)
}

func (e *Explorer) exhaustive() bool {
	return e.trunc == "" && !e.stop && e.ends["limit"] == 0 && e.ends["unsupported"] == 0 && e.ends["unknown"] == 0 && len(e.unknown) == 0
}

func (e *Explorer) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "paths=%d branches=%d depth=%d steps=%d ends=%v", e.paths, e.branches, e.maxDepth, e.steps, e.ends)
	if e.trunc != "" {
		fmt.Fprintf(&sb, " truncated=%s queue=%d", e.trunc, len(e.queue))
	}
	return sb.String()
}
