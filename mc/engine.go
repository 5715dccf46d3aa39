package main

// Bounded exhaustive exploration: a case is a sequence of choices, and the explorer enumerates every sequence whose
// number of deviations from the default (choice 0) is within a bound. Every case is identified by its choice path and
// can be replayed from it alone.

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type choicePoint struct {
	n    uint16
	free bool
}

// Chooser makes the choices of one case: those of its prefix first, the default afterwards.
type Chooser struct {
	prefix []uint16
	vals   []uint16
	trace  []choicePoint

	mute int // choices are the default and not recorded

	Desc  string // human-readable input of the case
	Evals int    // evaluations made in this case (0 counts as 1)
	Triv  bool   // the case is trivial: not counted as non-trivial
	Skip  bool   // the case is outside the space (not evaluated)
	Hash  string // what identifies the case for counting distinct ones (default Desc)
}

func (c *Chooser) choose(n int, free bool) int {
	if n <= 0 {
		panic("choose: no alternatives")
	}
	if c.mute > 0 {
		return 0
	}
	i := len(c.vals)
	v := uint16(0)
	if i < len(c.prefix) {
		v = c.prefix[i]
	}
	if int(v) >= n {
		panic(fmt.Sprintf("choose: replayed choice %d of %d at %d", v, n, i))
	}
	c.vals = append(c.vals, v)
	c.trace = append(c.trace, choicePoint{uint16(n), free})
	return int(v)
}

// Pick chooses among n alternatives; any but the first costs one deviation.
func (c *Chooser) Pick(n int) int { return c.choose(n, false) }

// Free chooses among n alternatives at no cost: all of them are always explored.
func (c *Chooser) Free(n int) int { return c.choose(n, true) }

// Flag is Pick(2).
func (c *Chooser) Flag() bool { return c.choose(2, false) == 1 }

func (c *Chooser) reset(prefix []uint16) {
	c.prefix = prefix
	c.vals = c.vals[:0]
	c.trace = c.trace[:0]
	c.Desc, c.Hash = "", ""
	c.Evals, c.mute = 0, 0
	c.Triv, c.Skip = false, false
}

// Fail describes a broken case. Key identifies what fails, for known findings.
type Fail struct {
	Key string
	Msg string
}

func failf(format string, a ...interface{}) *Fail { return &Fail{Msg: fmt.Sprintf(format, a...)} }

// Space is one bounded space of cases of a property.
type Space struct {
	Name     string
	Bound    int // deviations, in the quick tier
	Thorough int // deviations, in the thorough tier
	Run      func(c *Chooser) *Fail
	Serial   bool // cases must not run in parallel
	Shards   int  // a serial space is divided among this many processes by the first choice
	Prepare  func()
	Rule     string
}

type violation struct {
	space string
	path  []uint16
	desc  string
	fail  *Fail
}

type spaceStat struct {
	Name       string  `json:"name"`
	Bound      int     `json:"bound"`
	Completed  int     `json:"completed_bound"`
	Cases      int64   `json:"cases"`
	Evals      int64   `json:"evaluations"`
	Exhaustive bool    `json:"exhaustive"`
	PerLevel   []int64 `json:"cases_per_level"`
	Wall       float64 `json:"wall_s"`
	What       string  `json:"what,omitempty"`
}

type hashSet struct {
	mu   [64]sync.Mutex
	m    [64]map[uint64]struct{}
	n    atomic.Int64
	full atomic.Bool
}

var hseed = maphash.MakeSeed()

func (h *hashSet) add(s string) {
	if h.n.Load() > 40_000_000 {
		h.full.Store(true)
		return
	}
	v := maphash.String(hseed, s)
	k := v & 63
	h.mu[k].Lock()
	if h.m[k] == nil {
		h.m[k] = map[uint64]struct{}{}
	}
	if _, ok := h.m[k][v]; !ok {
		h.m[k][v] = struct{}{}
		h.n.Add(1)
	}
	h.mu[k].Unlock()
}

type task struct {
	path []uint16
	cost int
}

type slot struct {
	start atomic.Int64 // unix nano, 0 if idle
	space string
	path  []uint16
}

type explorer struct {
	workers  int
	deadline time.Time
	seen     *hashSet
	samples  []string
	smu      sync.Mutex
	viol     []*violation
	known    map[string]int // key -> occurrences
	unrepro  []string
	stop     atomic.Bool
	isKnown  func(key string) bool
	slots    []*slot
	maxViol  int
	shard    int // of shards, this one (shards 0: not divided)
	shards   int
}

func runSafe(f func(c *Chooser) *Fail, c *Chooser) (fail *Fail) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skipped); ok {
				return
			}
			fail = failf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return f(c)
}

func (e *explorer) exec(sp *Space, c *Chooser, path []uint16, sl *slot) *Fail {
	c.reset(path)
	sl.space, sl.path = sp.Name, path
	sl.start.Store(time.Now().UnixNano())
	f := runSafe(sp.Run, c)
	sl.start.Store(0)
	return f
}

func pathOf(c *Chooser) []uint16 {
	p := append([]uint16(nil), c.vals...)
	for len(p) > 0 && p[len(p)-1] == 0 {
		p = p[:len(p)-1]
	}
	return p
}

// explore runs every case of the space within the bound, level by level.
func (e *explorer) explore(sp *Space, bound int) spaceStat {
	st := spaceStat{Name: sp.Name, Bound: bound, Completed: -1, What: sp.Rule}
	t0 := time.Now()
	if sp.Prepare != nil {
		sp.Prepare()
	}
	for level := 0; level <= bound; level++ {
		var cases, evals atomic.Int64
		ok := e.level(sp, level, &cases, &evals)
		st.PerLevel = append(st.PerLevel, cases.Load())
		st.Cases += cases.Load()
		st.Evals += evals.Load()
		if !ok {
			break
		}
		st.Completed = level
	}
	st.Exhaustive = st.Completed == bound
	st.Wall = time.Since(t0).Seconds()
	return st
}

func (e *explorer) level(sp *Space, level int, cases, evals *atomic.Int64) bool {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []task{{nil, 0}}
	active := 0
	workers := e.workers
	if sp.Serial {
		workers = 1
	}
	var wg sync.WaitGroup
	incomplete := atomic.Bool{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		sl := e.slots[w]
		go func() {
			defer wg.Done()
			c := &Chooser{}
			var local []task
			tick := 0
			for {
				var t task
				if len(local) > 0 {
					t = local[len(local)-1]
					local = local[:len(local)-1]
				} else {
					mu.Lock()
					for len(queue) == 0 && active > 0 {
						cond.Wait()
					}
					if len(queue) == 0 {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					t = queue[len(queue)-1]
					queue = queue[:len(queue)-1]
					active++
					mu.Unlock()
				}
				if e.stop.Load() || time.Now().After(e.deadline) {
					incomplete.Store(true)
					local = nil
					mu.Lock()
					queue = nil
					active--
					mu.Unlock()
					cond.Broadcast()
					return
				}
				fail := e.exec(sp, c, t.path, sl)
				if t.cost == level && !c.Skip && e.mine(c) {
					cases.Add(1)
					n := c.Evals
					if n == 0 {
						n = 1
					}
					evals.Add(int64(n))
					e.note(c)
					if fail != nil {
						e.failed(sp, c, fail, sl)
					}
				}
				// children
				for i := len(t.path); i < len(c.trace); i++ {
					cp := c.trace[i]
					if i > 0 && !e.mine(c) {
						break
					}
					cost := t.cost + 1
					if cp.free {
						cost = t.cost
					}
					if cost > level {
						continue
					}
					for a := uint16(1); a < cp.n; a++ {
						if i == 0 && e.shards > 0 && int(a)%e.shards != e.shard {
							continue
						}
						p := make([]uint16, i+1)
						copy(p, c.vals[:i])
						p[i] = a
						local = append(local, task{p, cost})
					}
				}
				if tick++; tick&31 != 0 && len(local) > 0 {
					continue
				}
				mu.Lock()
				if len(queue) < 4*workers && len(local) > 1 {
					k := len(local) / 2
					queue = append(queue, local[:k]...)
					local = append(local[:0], local[k:]...)
					cond.Broadcast()
				}
				if len(local) == 0 {
					active--
					if active == 0 && len(queue) == 0 {
						cond.Broadcast()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return !incomplete.Load()
}

// mine says whether a case belongs to this shard.
func (e *explorer) mine(c *Chooser) bool {
	return e.shards == 0 || len(c.vals) == 0 || int(c.vals[0])%e.shards == e.shard
}

func (e *explorer) note(c *Chooser) {
	if c.Triv {
		return
	}
	h := c.Hash
	if h == "" {
		h = c.Desc
	}
	e.seen.add(h)
	if c.Desc != "" && len(e.samples) < 40 {
		e.smu.Lock()
		if n := e.seen.n.Load(); len(e.samples) < 4 || n%997 == 0 {
			e.samples = append(e.samples, c.Desc)
		}
		e.smu.Unlock()
	}
}

func (e *explorer) failed(sp *Space, c *Chooser, fail *Fail, sl *slot) {
	if fail.Key != "" && e.isKnown(fail.Key) {
		e.smu.Lock()
		e.known[fail.Key]++
		e.smu.Unlock()
		return
	}
	path := pathOf(c)
	desc := c.Desc
	// confirm by replaying the case
	confirmed := false
	for i := 0; i < 20 && !confirmed; i++ {
		c2 := &Chooser{}
		if f := e.exec(sp, c2, path, sl); f != nil {
			confirmed = true
		}
	}
	e.smu.Lock()
	defer e.smu.Unlock()
	if !confirmed {
		if len(e.unrepro) < 10 {
			e.unrepro = append(e.unrepro, sp.Name+": "+desc+": "+fail.Msg)
		}
		return
	}
	for _, v := range e.viol {
		if v.desc == desc {
			return
		}
	}
	e.viol = append(e.viol, &violation{sp.Name, path, desc, fail})
	if len(e.viol) >= e.maxViol {
		e.stop.Store(true)
	}
}

// watch reports a case that does not end: it runs tiny inputs, which take micro- to milliseconds.
func (e *explorer) watch(limit time.Duration, heap uint64, report func(space string, path []uint16, why string)) {
	for {
		time.Sleep(250 * time.Millisecond)
		var ms runtime.MemStats
		big := false
		now := time.Now().UnixNano()
		for _, sl := range e.slots {
			s := sl.start.Load()
			if s == 0 {
				continue
			}
			d := time.Duration(now - s)
			if d > 2*time.Second && !big {
				runtime.ReadMemStats(&ms)
				big = ms.HeapAlloc > heap
			}
			if d > limit || (big && d > 2*time.Second) {
				why := "did not end within " + limit.String()
				if big {
					why = fmt.Sprintf("did not end and used more than %d MB", heap>>20)
				}
				report(sl.space, append([]uint16(nil), sl.path...), why)
			}
		}
	}
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}
