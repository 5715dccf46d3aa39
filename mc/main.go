package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string
	Assumptions []string
	Spaces      func(tier string) []*Space
	// Extra runs after the spaces (may be nil): further evidence and violations.
	Extra func(r *Runner)
	// Variant names the instrumented build that runs the check ("" for the plain one).
	Variant string
}

// exeFor gives the binary that runs a check.
func exeFor(id string) string {
	if v := checks[id].Variant; v != "" && !instrumented {
		return buildVariant(v)
	}
	return self()
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

var realStdout, realStderr = os.Stdout, os.Stderr

type replayFile struct {
	Property string   `json:"property"`
	Space    string   `json:"space"`
	Tier     string   `json:"tier"`
	Path     []uint16 `json:"path"`
	Input    string   `json:"input"`
	Message  string   `json:"message"`
	How      string   `json:"how"`
}

type Runner struct {
	check  *Check
	tier   string
	seed   int
	outDir string // for replays
	ev     map[string]interface{}
	cover  map[string]interface{}
	stats  []spaceStat
	exp    *explorer
	nviol  int
	known  []knownFinding
	t0     time.Time
	mu     sync.Mutex
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(id string) []knownFinding {
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fatal("known_findings.json: %v", err)
	}
	var out []knownFinding
	for _, k := range doc.Findings {
		if k.Property == id {
			out = append(out, k)
		}
	}
	return out
}

func silence() {
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout = null
	os.Stderr = null
	log.SetOutput(io.Discard)
}

// silenceStdout keeps stderr (for the race detector).
func silenceStdout() {
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout = null
	log.SetOutput(io.Discard)
}

func replayDir() string {
	if d := os.Getenv("MC_REPLAYS"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "evidence", "replays")
}

// violation writes a replay file and prints the VIOLATION line.
func (r *Runner) violation(rep replayFile) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nviol++
	rep.Property, rep.Tier = r.check.ID, r.tier
	os.MkdirAll(replayDir(), 0o777)
	p := filepath.Join(replayDir(), fmt.Sprintf("%s-%d.json", r.check.ID, r.nviol))
	if rep.How == "" {
		rep.How = "/verif/check.sh replay " + p
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0o666); err != nil {
		fatal("%v", err)
	}
	fmt.Fprintf(realStdout, "VIOLATION property=%s replay=%s\n", r.check.ID, p)
	msg := rep.Message
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	fmt.Fprintf(realStdout, "  input: %q\n  %s\n", rep.Input, strings.ReplaceAll(msg, "\n", "\n  "))
}

func (r *Runner) quickDeadline() time.Duration {
	if v, err := strconv.Atoi(os.Getenv("MC_DEADLINE")); err == nil {
		return time.Duration(v) * time.Second
	}
	if r.tier == "thorough" {
		return 780 * time.Second
	}
	return 240 * time.Second
}

func (r *Runner) writeEvidence() {
	id := r.check.ID
	ev := map[string]interface{}{
		"property":    id,
		"tier":        r.tier,
		"seed":        r.seed,
		"level":       r.check.Level,
		"coverage":    r.cover,
		"assumptions": r.check.Assumptions,
		"wall_s":      time.Since(r.t0).Seconds(),
		"violations":  r.nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o777)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o666); err != nil {
		fatal("%v", err)
	}
}

func (r *Runner) newExplorer() *explorer {
	e := &explorer{
		workers:  runtime.NumCPU(),
		deadline: r.t0.Add(r.quickDeadline()),
		seen:     &hashSet{},
		known:    map[string]int{},
		maxViol:  3,
	}
	if v, err := strconv.Atoi(os.Getenv("MC_MAXV")); err == nil {
		e.maxViol = v
	}
	r.exp = e
	r.known = loadKnown(r.check.ID)
	keys := map[string]bool{}
	for _, k := range r.known {
		keys[k.Key] = true
	}
	e.isKnown = func(k string) bool { return keys[k] }
	for i := 0; i < e.workers; i++ {
		e.slots = append(e.slots, &slot{})
	}
	return e
}

func (r *Runner) watch(e *explorer) {
	go e.watch(hangLimit, hangHeap, func(space string, path []uint16, why string) {
		// the parent confirms it by replaying this one case in a process of its own
		b, _ := json.Marshal(replayFile{Property: r.check.ID, Space: space, Tier: r.tier, Path: path, Message: why})
		os.WriteFile(os.Getenv("MC_SUSPECT"), b, 0o666)
		os.Exit(42)
	})
}

func (r *Runner) run() int {
	r.t0 = time.Now()
	e := r.newExplorer()
	r.cover = map[string]interface{}{}
	r.watch(e)
	var evals int64
	exhaustive := true
	only := os.Getenv("MC_SPACE")
	for _, sp := range r.check.Spaces(r.tier) {
		if only != "" && sp.Name != only {
			continue
		}
		bound := sp.Bound
		if r.tier == "thorough" {
			bound = sp.Thorough
		}
		if v, err := strconv.Atoi(os.Getenv("MC_BOUND")); err == nil {
			bound = v
		}
		var st spaceStat
		if sp.Shards > 1 {
			st = r.exploreSharded(e, sp, bound)
		} else {
			st = e.explore(sp, bound)
		}
		r.stats = append(r.stats, st)
		evals += st.Evals
		exhaustive = exhaustive && st.Exhaustive
		if os.Getenv("MC_V") != "" {
			fmt.Fprintf(realStdout, "# %s bound %d: completed %d cases %d %v evals %d wall %.1fs\n", st.Name, st.Bound, st.Completed, st.Cases, st.PerLevel, st.Evals, st.Wall)
		}
		if e.stop.Load() {
			break
		}
	}
	for _, v := range e.viol {
		r.violation(replayFile{Space: v.space, Path: v.path, Input: v.desc, Message: v.fail.Msg})
	}
	sort.Strings(e.samples)
	r.cover["evaluations"] = evals
	r.cover["distinct_nontrivial"] = e.seen.n.Load()
	r.cover["rule"] = r.check.Rule
	r.cover["samples"] = e.samples
	r.cover["exhaustive"] = exhaustive
	r.cover["spaces"] = r.stats
	if len(e.unrepro) > 0 {
		r.cover["unreproduced"] = e.unrepro
	}
	if len(e.known) > 0 {
		r.cover["known_findings_seen"] = e.known
	}
	if r.check.Extra != nil && only == "" {
		r.check.Extra(r)
	}
	r.writeEvidence()
	for _, k := range r.known {
		fmt.Fprintf(realStdout, "KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
	}
	if r.nviol > 0 {
		return 1
	}
	fmt.Fprintf(realStdout, "OK property=%s tier=%s evaluations=%d distinct=%d exhaustive=%v wall=%.1fs\n", r.check.ID, r.tier, evals, e.seen.n.Load(), exhaustive, time.Since(r.t0).Seconds())
	return 0
}

const hangLimit = 25 * time.Second
const hangHeap = 8 << 30

func findSpace(id, tier, name string) *Space {
	c := checks[id]
	if c == nil {
		fatal("no check %s", id)
	}
	for _, sp := range c.Spaces(tier) {
		if sp.Name == name {
			return sp
		}
	}
	fatal("no space %s in %s", name, id)
	return nil
}

// one runs a single case; exit 0 passed, 1 failed (message on stdout).
func one(path string, limit time.Duration) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rep replayFile
	if err := json.Unmarshal(b, &rep); err != nil {
		fatal("%v", err)
	}
	sp := findSpace(rep.Property, rep.Tier, rep.Space)
	done := make(chan int, 1)
	c := &Chooser{}
	c.reset(rep.Path)
	go func() {
		if sp.Prepare != nil {
			sp.Prepare()
		}
		f := runSafe(sp.Run, c)
		if f != nil {
			fmt.Fprintf(realStdout, "FAILED property=%s\n  input: %q\n  %s\n", rep.Property, c.Desc, f.Msg)
			done <- 1
			return
		}
		fmt.Fprintf(realStdout, "passed property=%s\n  input: %q\n", rep.Property, c.Desc)
		done <- 0
	}()
	t := time.After(limit)
	for {
		select {
		case rc := <-done:
			return rc
		case <-t:
			fmt.Fprintf(realStdout, "FAILED property=%s\n  input: %q\n  did not end within %v\n", rep.Property, c.Desc, limit)
			return 3
		case <-time.After(200 * time.Millisecond):
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 4<<30 {
				fmt.Fprintf(realStdout, "FAILED property=%s\n  input: %q\n  did not end and used more than 4 GB\n", rep.Property, c.Desc)
				return 3
			}
		}
	}
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

// parent runs the check in a child, so that a crash or hang of the code under test is seen and confirmed.
func parent(id, tier string, seed int) int {
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	suspect := filepath.Join(tmp, "suspect.json")
	start := time.Now()
	var lastErr string
	exe := exeFor(id)
	for attempt := 0; attempt < 2; attempt++ {
		os.Remove(suspect)
		cmd := exec.Command(exe, "child", id, tier, strconv.Itoa(seed))
		cmd.Env = append(os.Environ(), "MC_SUSPECT="+suspect)
		cmd.Stdout = os.Stdout
		var errb tailBuffer
		cmd.Stderr = &errb
		err := cmd.Run()
		if err == nil {
			return 0
		}
		code := cmd.ProcessState.ExitCode()
		if code == 1 {
			return 1
		}
		if code == 2 && !errb.crashed() {
			fmt.Fprint(os.Stderr, errb.String())
			return 2
		}
		lastErr = errb.String()
		if code == 42 {
			// a case that did not end: confirm it alone
			b, _ := os.ReadFile(suspect)
			var rep replayFile
			json.Unmarshal(b, &rep)
			c2 := exec.Command(exe, "one", suspect)
			out, err := c2.CombinedOutput()
			if err != nil {
				r := &Runner{check: checks[id], tier: tier, seed: seed, t0: start, cover: map[string]interface{}{}}
				rep.Message += "\n" + string(out)
				rep.Input = extractInput(string(out))
				r.violation(rep)
				r.cover["evaluations"] = 1
				r.cover["distinct_nontrivial"] = 1
				r.cover["rule"] = checks[id].Rule
				r.cover["samples"] = []string{rep.Input}
				r.cover["exhaustive"] = false
				r.writeEvidence()
				return 1
			}
			continue // machine hiccup: run again
		}
	}
	// crashed (or hung) twice
	if os.Getenv("MC_NOCRASHVIOL") != "" {
		fmt.Fprint(os.Stderr, lastErr)
		return 2
	}
	r := &Runner{check: checks[id], tier: tier, seed: seed, t0: start, cover: map[string]interface{}{}}
	r.violation(replayFile{Space: "", Message: "the process running the code under test crashed twice:\n" + lastErr, How: "/verif/check.sh " + id})
	r.cover["evaluations"] = 1
	r.cover["distinct_nontrivial"] = 1
	r.cover["rule"] = checks[id].Rule
	r.cover["samples"] = []string{lastErr}
	r.cover["exhaustive"] = false
	r.writeEvidence()
	return 1
}

func extractInput(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "  input: ") {
			if u, err := strconv.Unquote(strings.TrimPrefix(l, "  input: ")); err == nil {
				return u
			}
		}
	}
	return ""
}

// tailBuffer keeps the head and tail of what is written to it.
type tailBuffer struct {
	head, tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	n := len(p)
	if room := 4000 - len(t.head); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		t.head = append(t.head, p[:room]...)
		p = p[room:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 8000 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-4000:]...)
	}
	return n, nil
}

func (t *tailBuffer) String() string { return string(t.head) + string(t.tail) }

func (t *tailBuffer) crashed() bool {
	s := t.String()
	return strings.Contains(s, "goroutine ") || strings.Contains(s, "fatal error")
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: mc run ID [tier [seed]] | one FILE | list")
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "run":
		id := os.Args[2]
		if checks[id] == nil {
			fatal("no check %s", id)
		}
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(parent(id, tier, seed))
	case "child":
		id := os.Args[2]
		tier = os.Args[3]
		seed, _ = strconv.Atoi(os.Args[4])
		debug.SetGCPercent(400)
		debug.SetMaxStack(512 << 20)
		silence()
		r := &Runner{check: checks[id], tier: tier, seed: seed}
		os.Exit(r.run())
	case "one":
		if b, err := os.ReadFile(os.Args[2]); err == nil && !instrumented {
			var rep replayFile
			if json.Unmarshal(b, &rep) == nil && checks[rep.Property] != nil && checks[rep.Property].Variant != "" {
				cmd := exec.Command(exeFor(rep.Property), os.Args[1:]...)
				cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
				cmd.Run()
				os.Exit(cmd.ProcessState.ExitCode())
			}
		}
		silence()
		os.Exit(one(os.Args[2], hangLimit))
	default:
		if sub := subcommands[os.Args[1]]; sub != nil {
			sub(os.Args[2:])
			return
		}
		fatal("unknown command %s", os.Args[1])
	}
}

var subcommands = map[string]func(args []string){}
