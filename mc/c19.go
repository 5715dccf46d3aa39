package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// concurrent use

// switchAt ends a turn: the thread whose turn it is goes on to its n-th further point (n < 0: to its end).
type turn struct {
	thread int
	points int
}

// controller runs threads one at a time; a thread hands over at the points its turns end at.
type controller struct {
	class  int // points above this class do not count
	turns  []turn
	at     int
	left   int
	cur    int
	wake   []chan struct{}
	done   []bool
	free   atomic.Bool // gave up controlling: everyone runs
	ticks  atomic.Int64
	counts []int // points seen per thread
	all    sync.WaitGroup
	mu     sync.Mutex // only for the ends of threads when free
}

func (s *controller) hook(class int) {
	if s.free.Load() {
		return
	}
	s.ticks.Add(1)
	if class > s.class {
		return
	}
	me := s.cur
	if me < 0 {
		return
	}
	s.counts[me]++
	if s.left--; s.left == 0 {
		s.next()
		if to := s.cur; to != me && to >= 0 {
			s.wake[to] <- struct{}{}
			<-s.wake[me]
		}
	}
}

// next chooses the thread of the next turn; its turn begins.
func (s *controller) next() {
	for s.at+1 < len(s.turns) {
		s.at++
		if t := s.turns[s.at]; !s.done[t.thread] {
			s.cur, s.left = t.thread, t.points
			return
		}
	}
	s.left = -1
	for i := range s.done {
		if !s.done[i] {
			s.cur = i
			return
		}
	}
	s.cur = -1
}

// run executes the threads under the turns; afterwards the rest runs thread by thread. controlled is false if a
// thread waited for another one and the control was given up.
func (s *controller) run(fs []func()) (controlled bool, panics []interface{}) {
	n := len(fs)
	s.wake = make([]chan struct{}, n)
	s.done = make([]bool, n)
	s.counts = make([]int, n)
	panics = make([]interface{}, n)
	end := make(chan struct{})
	var finished atomic.Int64
	for i := range fs {
		s.wake[i] = make(chan struct{}, 4)
		i := i
		go func() {
			<-s.wake[i]
			func() {
				defer func() { panics[i] = recover() }()
				fs[i]()
			}()
			s.mu.Lock()
			s.done[i] = true
			s.ticks.Add(1)
			if !s.free.Load() {
				s.next()
				if to := s.cur; to >= 0 {
					s.wake[to] <- struct{}{}
				}
			}
			s.mu.Unlock()
			if finished.Add(1) == int64(n) {
				close(end)
			}
		}()
	}
	s.at = -1
	s.next()
	setHook(s.hook)
	s.wake[s.cur] <- struct{}{}
	last, same := int64(-1), 0
	t := time.NewTimer(100 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-end:
			setHook(nil)
			return !s.free.Load(), panics
		case <-t.C:
			// no point for a while: the thread waits for one that is not running (or the machine is slow); let all run
			if k := s.ticks.Load(); k == last {
				if same++; same >= 2 && !s.free.Load() {
					s.free.Store(true)
					for i := range s.wake {
						select {
						case s.wake[i] <- struct{}{}:
						default:
						}
					}
				}
			} else {
				last, same = k, 0
			}
			t.Reset(100 * time.Millisecond)
		}
	}
}

// concOp is an operation on data of its own: setup prepares it, the function given does it and returns the results.
type concOp struct {
	name  string
	setup func() func() []interface{}
}

type concInput struct {
	src string
	d   dialect.Dialect
}

var concInputs = []concInput{
	{"SELECT a, \"B\", sum(c) OVER (ROWS 12 PRECEDING) FROM t AS u -- c\nWHERE a = 'x' AND b IN (1, 2)", generic},
	{"CREATE TABLE t (id int PRIMARY KEY, n varchar(10) DEFAULT 'a' NOT NULL) ENGINE=InnoDB", mysql},
	{"/* c */ INSERT INTO t (a, b, c) VALUES (1, N'ab', 'c'); /* d */ DELETE FROM t WHERE b IS NULL", postgres},
}

// concTwins are inputs of the same forms with other names and values.
var concTwins = []concInput{
	{"SELECT dd, \"EE\", max(ff) OVER (ROWS 345 PRECEDING) FROM vv AS ww -- kk\nWHERE dd = 'yyy' AND ee IN (33, 44)", generic},
	{"CREATE TABLE vv (no int PRIMARY KEY, kk varchar(678) DEFAULT 'zzz' NOT NULL) ENGINE=MyISAM", mysql},
	{"/* kkk */ INSERT INTO vv (dd, ee, ff) VALUES (55, N'uvw', 'zzz'); /* lll */ DELETE FROM vv WHERE ee IS NULL", postgres},
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func commentMapDump(f *sqlast.File, m sqlast.CommentMap) string {
	var b strings.Builder
	for _, n := range refNodes(f) {
		if len(m[n]) > 0 {
			fmt.Fprintf(&b, "%s: ", nodeName(n))
			dump(&b, reflect.ValueOf(m[n]))
		}
	}
	return b.String()
}

// ownOps are the operations on the inputs, then the same on their twins.
func ownOps() []concOp {
	var out []concOp
	for i, in := range append(append([]concInput{}, concInputs...), concTwins...) {
		in := in
		add := func(name string, setup func() func() []interface{}) {
			which := "input " + itoa(i)
			if n := len(concInputs); i >= n {
				which = "twin " + itoa(i-n)
			}
			out = append(out, concOp{name + " " + which, setup})
		}
		parsed := func() []sqlast.Stmt {
			ss, _ := parseSQL(in.src, in.d)
			return ss
		}
		add("tokenize", func() func() []interface{} {
			return func() []interface{} {
				ts, err := realTokens(in.src, in.d)
				return []interface{}{ts, errText(err)}
			}
		})
		add("parse", func() func() []interface{} {
			return func() []interface{} {
				ss, err := parseSQL(in.src, in.d)
				return []interface{}{ss, errText(err)}
			}
		})
		add("parse and map the comments of", func() func() []interface{} {
			return func() []interface{} {
				f, err := parseFile(in.src, in.d, true)
				if err != nil {
					return []interface{}{errText(err)}
				}
				m := sqlast.NewCommentMap(f)
				return []interface{}{f, commentMapDump(f, m)}
			}
		})
		add("print", func() func() []interface{} {
			ss := parsed()
			return func() []interface{} {
				var b bytes.Buffer
				s := ""
				for _, x := range ss {
					s += x.ToSQLString()
					x.WriteTo(plainWriter{&b})
				}
				return []interface{}{s, b.String()}
			}
		})
		add("walk", func() func() []interface{} {
			ss := parsed()
			return func() []interface{} {
				var names []string
				for _, x := range ss {
					sqlast.Inspect(x, func(n sqlast.Node) bool {
						if n == nil {
							names = append(names, "end")
						} else {
							p := n.Pos()
							names = append(names, nodeName(n)+itoa(p.Line)+":"+itoa(p.Col))
						}
						return true
					})
				}
				return []interface{}{names}
			}
		})
		add("rewrite", func() func() []interface{} {
			ss := parsed()
			return func() []interface{} {
				k := 0
				var res []interface{}
				for _, x := range ss {
					r := sqlastutil.Apply(x, func(c *sqlastutil.Cursor) bool {
						if id, ok := c.Node().(*sqlast.Ident); ok {
							c.Replace(&sqlast.Ident{Value: id.Value + "_" + itoa(i)})
						}
						return true
					}, func(c *sqlastutil.Cursor) bool {
						k++
						return k < 20 // an end in the middle
					})
					res = append(res, r, r.ToSQLString())
				}
				return res
			}
		})
		add("parse, cut off,", func() func() []interface{} {
			src := in.src[:len(in.src)*2/3]
			return func() []interface{} {
				ss, err := parseSQL(src, in.d)
				ts, err2 := realTokens(src+"'", in.d)
				return []interface{}{ss, errText(err), ts, errText(err2)}
			}
		})
		add("compare", func() func() []interface{} {
			a, b := parsed(), parsed()
			return func() []interface{} {
				return []interface{}{xsqlparser.CompareWithoutMarker(a, b) == "", xsqlparser.CompareWithoutMarker(a, b[:len(b)/2]) == ""}
			}
		})
	}
	return out
}

// readOps are operations that only read a tree.
var readOps = []struct {
	name string
	do   func(f *sqlast.File) []interface{}
}{
	{"print", func(f *sqlast.File) []interface{} {
		s := ""
		for _, x := range f.Stmts {
			s += x.ToSQLString()
		}
		return []interface{}{s, f.ToSQLString()}
	}},
	{"write", func(f *sqlast.File) []interface{} {
		var b bytes.Buffer
		k, err := f.WriteTo(plainWriter{&b})
		return []interface{}{b.String(), k, errText(err)}
	}},
	{"walk", func(f *sqlast.File) []interface{} {
		var names []string
		sqlast.Walk(&nameVisitor{&names}, f)
		return []interface{}{names}
	}},
	{"inspect", func(f *sqlast.File) []interface{} {
		k := 0
		sqlast.Inspect(f, func(n sqlast.Node) bool { k++; return k%7 != 0 })
		return []interface{}{k}
	}},
	{"positions", func(f *sqlast.File) []interface{} {
		var ps []sqltoken.Pos
		for _, n := range refNodes(f) {
			ps = append(ps, n.Pos(), n.End())
		}
		return []interface{}{ps}
	}},
	{"map the comments of", func(f *sqlast.File) []interface{} {
		return []interface{}{commentMapDump(f, sqlast.NewCommentMap(f))}
	}},
	{"compare", func(f *sqlast.File) []interface{} {
		return []interface{}{xsqlparser.CompareWithoutMarker(f, f)}
	}},
	{"print the parts of", func(f *sqlast.File) []interface{} {
		var s []string
		for _, n := range refNodes(f) {
			if _, ok := n.(*sqlast.File); !ok {
				s = append(s, n.ToSQLString())
			}
		}
		return []interface{}{s}
	}},
}

type nameVisitor struct{ names *[]string }

func (v *nameVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	if n == nil {
		*v.names = append(*v.names, "end")
		return nil
	}
	*v.names = append(*v.names, nodeName(n))
	return v
}

func concFile(i int) *sqlast.File {
	f, err := parseFile(concInputs[i].src, concInputs[i].d, true)
	if err != nil {
		return &sqlast.File{}
	}
	return f
}

// concGold are the results of the operations alone, and how many points of each class they pass.
type concGold struct {
	ops    []concOp
	res    []string
	points [][3]int
}

func soloRun(f func() []interface{}) (res string, points [3]int) {
	if instrumented {
		setHook(func(class int) { points[class]++ })
	}
	r := f()
	if instrumented {
		setHook(nil)
	}
	return dumpOf(r...), points
}

func goldOf(ops []concOp) *concGold {
	g := &concGold{ops: ops}
	for _, op := range ops {
		var most [3]int
		first := ""
		for i := 0; i < 3; i++ {
			r, p := soloRun(op.setup())
			if i == 0 {
				first = r
			}
			for k := range p {
				if p[k] > most[k] {
					most[k] = p[k]
				}
			}
		}
		g.res = append(g.res, first)
		g.points = append(g.points, most)
	}
	return g
}

func (g *concGold) upTo(op, class int) int {
	n := 0
	for k := 0; k <= class; k++ {
		n += g.points[op][k]
	}
	if n > 60000 {
		n = 60000
	}
	return n
}

var ownGold = sync.OnceValue(func() *concGold { return goldOf(ownOps()) })

// sharedOps are the reading operations on one file.
func sharedOps(i int, share func() *sqlast.File) []concOp {
	var out []concOp
	for _, op := range readOps {
		op := op
		out = append(out, concOp{fmt.Sprintf("%s file %d", op.name, i), func() func() []interface{} {
			f := share()
			return func() []interface{} { return op.do(f) }
		}})
	}
	return out
}

var sharedGold = sync.OnceValue(func() []*concGold {
	var out []*concGold
	for i := range concInputs {
		i := i
		out = append(out, goldOf(sharedOps(i, func() *sqlast.File { return concFile(i) })))
	}
	return out
})

// schedule runs operations under turns and compares their results with those they have alone.
func schedule(c *Chooser, g *concGold, ops []concOp, which []int, class int, turns []turn, after func() *Fail) *Fail {
	s := &controller{class: class, turns: turns}
	res := make([][]interface{}, len(which))
	var fs []func()
	for i, k := range which {
		i := i
		f := ops[k].setup()
		fs = append(fs, func() { res[i] = f() })
	}
	_, panics := s.run(fs)
	for i, k := range which {
		if panics[i] != nil {
			return failf("%s panics: %v", ops[k].name, panics[i])
		}
		if got := dumpOf(res[i]...); got != g.res[k] {
			return failf("%s gives\n%s\nalone it gives\n%s", ops[k].name, clip(diffText(got, g.res[k])), clip(diffText(g.res[k], got)))
		}
	}
	if after != nil {
		return after()
	}
	return nil
}

// diffText is the part of a from where it differs from b.
func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 40 {
		return "... " + a[i-40:]
	}
	return a
}

func describeTurns(ops []concOp, which []int, turns []turn) string {
	var s []string
	for _, k := range which {
		s = append(s, ops[k].name)
	}
	var t []string
	for _, x := range turns {
		t = append(t, fmt.Sprintf("%d for %d", x.thread, x.points))
	}
	return strings.Join(s, " || ") + ": " + strings.Join(t, ", ")
}

// concSpaces are the spaces of schedules.
func concSpaces(tier string) []*Space {
	class := 1
	if tier == "thorough" {
		class = 2
	}
	shards := runtime.NumCPU()
	out := []*Space{
		{Name: "one preemption", Serial: true, Shards: shards, Prepare: func() { ownGold() }, Rule: "every two operations on data of their own (the second on a twin: an input of the same form with other names and values), every point where the first one can be preempted by the second", Run: func(c *Chooser) *Fail {
			g := ownGold()
			n := len(g.ops) / 2
			k := c.Free(n * n)
			a, b := k%n, n+k/n
			p := c.Free(g.upTo(a, class) + 1)
			turns := []turn{{0, p}, {1, -1}}
			if p == 0 {
				turns = turns[1:]
			}
			c.Desc = describeTurns(g.ops, []int{a, b}, turns)
			return schedule(c, g, g.ops, []int{a, b}, class, turns, nil)
		}},
		{Name: "readers of one tree", Serial: true, Shards: shards, Prepare: func() { sharedGold() }, Rule: "every two reading operations on one tree, every point where the first one can be preempted by the second", Run: func(c *Chooser) *Fail {
			k := c.Free(len(concInputs) * len(readOps) * len(readOps))
			i := k % len(concInputs)
			k /= len(concInputs)
			g := sharedGold()[i]
			f := concFile(i)
			was := dumpOf(f)
			which := []int{k % len(readOps), k / len(readOps)}
			p := c.Free(g.upTo(which[0], class) + 1)
			turns := []turn{{0, p}, {1, -1}}
			if p == 0 {
				turns = turns[1:]
			}
			ops := sharedOps(i, func() *sqlast.File { return f })
			c.Desc = describeTurns(ops, which, turns)
			return schedule(c, g, ops, which, class, turns, func() *Fail {
				if dumpOf(f) != was {
					return failf("the tree that was only read changed")
				}
				return nil
			})
		}},
		{Name: "two preemptions", Serial: true, Shards: shards, Prepare: func() { ownGold() }, Rule: "every two operations, preempted and preempted back around every two statements that mention package variables", Run: func(c *Chooser) *Fail {
			g := ownGold()
			n := len(g.ops) / 2
			of := n
			if tier != "thorough" {
				of = n / len(concInputs) // one input only
			}
			k := c.Free(of * of)
			if tier != "thorough" && k%of > k/of {
				c.Skip = true
				return nil
			}
			a, b := k%of, n+k/of
			na, nb := g.upTo(a, 0), g.upTo(b, 0)
			if na == 0 || nb == 0 {
				c.Skip = true
				return nil
			}
			turns := []turn{{0, 1 + c.Free(na)}, {1, 1 + c.Free(nb)}, {0, -1}}
			c.Desc = describeTurns(g.ops, []int{a, b}, turns)
			return schedule(c, g, g.ops, []int{a, b}, 0, turns, nil)
		}},
		{Name: "three threads", Serial: true, Shards: shards, Prepare: func() { ownGold() }, Rule: "every three operations on the first input, each preempted at statements that mention package variables", Run: func(c *Chooser) *Fail {
			g := ownGold()
			twin := len(g.ops) / 2
			n := twin / len(concInputs)
			k := c.Free(n * n * n)
			which := []int{k % n, twin + k/n%n, k / n / n}
			limit := func(op int) int {
				m := g.upTo(op, 0)
				if tier != "thorough" && m > 8 {
					m = 8
				}
				return m
			}
			na, nb := limit(which[0]), limit(which[1])
			if na == 0 || nb == 0 {
				c.Skip = true
				return nil
			}
			turns := []turn{{0, 1 + c.Free(na)}, {1, 1 + c.Free(nb)}, {2, -1}, {1, -1}}
			c.Desc = describeTurns(g.ops, which, turns)
			return schedule(c, g, g.ops, which, 0, turns, nil)
		}},
		{Name: "cold start", Rule: "two operations are the first in a new process, the first one preempted at every point", Run: c19Cold(tier)},
	}
	return out
}

// c19Cold runs a schedule in a process of its own.
func c19Cold(tier string) func(c *Chooser) *Fail {
	pairs := [][2]int{{1, 1}, {0, 1}, {2, 1}, {9, 1}, {17, 9}}
	if tier == "thorough" {
		pairs = append(pairs, [][2]int{{0, 0}, {1, 0}, {2, 2}, {6, 1}, {1, 6}, {10, 18}, {2, 10}, {3, 11}, {5, 5}}...)
	}
	return func(c *Chooser) *Fail {
		g := ownGold()
		p := pairs[c.Free(len(pairs))]
		p[1] += len(g.ops) / 2
		n := g.upTo(p[0], 1)
		step := 1
		if tier != "thorough" {
			step = 1 + n/2000
		}
		at := 1 + c.Free(n/step)*step
		turns := []turn{{0, at}, {1, -1}}
		c.Desc = "in a new process: " + describeTurns(g.ops, p[:], turns)
		cmd := exec.Command(self(), "cold", itoa(p[0]), itoa(p[1]), itoa(at))
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		var res []string
		if err != nil || json.Unmarshal(o.Bytes(), &res) != nil || len(res) != 2 {
			return failf("the process failed: %v\n%s", err, clip(e.String()))
		}
		for i, k := range p {
			if res[i] != g.res[k] {
				return failf("%s gives\n%s\nalone it gives\n%s", g.ops[k].name, clip(diffText(res[i], g.res[k])), clip(diffText(g.res[k], res[i])))
			}
		}
		return nil
	}
}

// coldRun is the process of a cold start: operations A and B, A preempted at a point.
func coldRun(args []string) {
	silence()
	var k [3]int
	for i := range k {
		k[i], _ = strconv.Atoi(args[i])
	}
	ops := ownOps()
	s := &controller{class: 1, turns: []turn{{0, k[2]}, {1, -1}}}
	var res [2][]interface{}
	var fs []func()
	for i := range res {
		i := i
		f := ops[k[i]].setup()
		fs = append(fs, func() { res[i] = f() })
	}
	_, panics := s.run(fs)
	for _, p := range panics {
		if p != nil {
			fatal("panic: %v", p)
		}
	}
	b, _ := json.Marshal([]string{dumpOf(res[0]...), dumpOf(res[1]...)})
	realStdout.Write(b)
}

// raceRun is the process of the free-running pass under the race detector: all operations at once.
func raceRun(args []string) {
	silenceStdout()
	round, _ := strconv.Atoi(args[0])
	var fs []func() []interface{}
	var names []string
	rot := func(ops []concOp) {
		for i := range ops {
			op := ops[(i+round)%len(ops)]
			names = append(names, op.name)
			fs = append(fs, op.setup())
		}
	}
	var cold []concOp
	for _, op := range ownOps() {
		// what needs no prepared tree is first in the process
		if strings.HasPrefix(op.name, "tokenize") || strings.HasPrefix(op.name, "parse") {
			cold = append(cold, op)
		}
	}
	run := func() {
		res := make([]string, len(fs))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range fs {
			wg.Add(1)
			i := i
			go func() {
				defer wg.Done()
				<-start
				res[i] = dumpOf(fs[i]()...)
			}()
		}
		close(start)
		wg.Wait()
		for i := range fs {
			fmt.Fprintf(realStdout, "%s\x00%s\x01", names[i], res[i])
		}
		fs, names = nil, nil
	}
	rot(cold)
	run()
	for k := 0; k < 3; k++ {
		rot(ownOps())
		rot(ownOps())
		run()
		for i := range concInputs {
			f := concFile(i)
			ops := sharedOps(i, func() *sqlast.File { return f })
			rot(ops)
			rot(ops)
			run()
		}
	}
}

// racePass runs all operations at once, repeatedly and freely, under the race detector.
func racePass(r *Runner) {
	exe := buildVariant("race")
	rounds := 6
	if r.tier == "thorough" {
		rounds = 60
	}
	gold := map[string]string{}
	for i, op := range ownGold().ops {
		gold[op.name] = ownGold().res[i]
	}
	for _, g := range sharedGold() {
		for i, op := range g.ops {
			gold[op.name] = g.res[i]
		}
	}
	once := func(k int) string {
		cmd := exec.Command(exe, "race", itoa(k))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Run(); err != nil {
			return fmt.Sprintf("%v\n%s", err, clipTo(e.String(), 3000))
		}
		for _, l := range strings.Split(strings.TrimSuffix(o.String(), "\x01"), "\x01") {
			name, res, _ := strings.Cut(l, "\x00")
			if want, ok := gold[name]; !ok || want != res {
				return fmt.Sprintf("%s gives\n%s\nalone it gives\n%s", name, clip(diffText(res, want)), clip(diffText(want, res)))
			}
		}
		return ""
	}
	var mu sync.Mutex
	bad, badRound, ran := "", 0, 0
	sem := make(chan struct{}, 3)
	var wg sync.WaitGroup
	for k := 0; k < rounds; k++ {
		wg.Add(1)
		k := k
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			stop := bad != ""
			mu.Unlock()
			if stop {
				return
			}
			msg := once(k)
			mu.Lock()
			ran++
			if msg != "" {
				bad, badRound = msg, k
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	r.cover["race_pass"] = map[string]interface{}{"processes": ran, "what": "free-running, under the race detector: all operations at once on data of their own, then all readers at once on one tree"}
	if bad != "" {
		// say it only if it comes again
		for i := 0; i < 10; i++ {
			if msg := once(badRound + i); msg != "" {
				r.violation(replayFile{Space: "race", Input: "all operations at once, freely, under the race detector", Message: msg, How: "/verif/check.sh C19"})
				return
			}
		}
		r.cover["unreproduced_race"] = bad
	}
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func init() {
	subcommands["cold"] = coldRun
	subcommands["race"] = raceRun
	register(&Check{
		ID:      "C19",
		Level:   "exploration",
		Rule:    "one case per schedule of calls of the real library, run under a controlled scheduler; distinct schedules counted",
		Variant: "sched",
		Assumptions: []string{
			"a thread can be preempted between any two statements of the library (thorough) or at function entries, loop bodies and around statements that mention package variables (quick); finer preemptions within a statement are left to the free-running pass under the race detector",
			"calls of the standard library are atomic to the scheduler",
		},
		Spaces: concSpaces,
		Extra:  racePass,
	})
}
