package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

// Serial spaces are divided among processes: each explores the cases whose first choice falls to it.

type shardViolation struct {
	Path []uint16
	Desc string
	Key  string
	Msg  string
}

type shardResult struct {
	Stat     spaceStat
	Viol     []shardViolation
	Known    map[string]int
	Samples  []string
	Unrepro  []string
	Distinct int64
}

func (r *Runner) exploreSharded(e *explorer, sp *Space, bound int) spaceStat {
	total := spaceStat{Name: sp.Name, Bound: bound, Completed: bound, What: sp.Rule, Exhaustive: true, PerLevel: make([]int64, bound+1)}
	t0 := time.Now()
	left := int(time.Until(e.deadline).Seconds())
	if left < 1 {
		left = 1
	}
	res := make([]shardResult, sp.Shards)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			cmd := exec.Command(self(), "shard", r.check.ID, r.tier, sp.Name, itoa(bound), itoa(i), itoa(sp.Shards))
			cmd.Env = append(os.Environ(), "MC_DEADLINE="+itoa(left))
			var o bytes.Buffer
			var eb tailBuffer
			cmd.Stdout, cmd.Stderr = &o, &eb
			err := cmd.Run()
			if err == nil {
				err = json.Unmarshal(o.Bytes(), &res[i])
			}
			if err != nil {
				// as if it had happened here
				fmt.Fprintf(realStderr, "%s\n%v\n", eb.String(), err)
				os.Exit(cmd.ProcessState.ExitCode())
			}
		}()
	}
	wg.Wait()
	for _, s := range res {
		for k, n := range s.Stat.PerLevel {
			total.PerLevel[k] += n
		}
		total.Cases += s.Stat.Cases
		total.Evals += s.Stat.Evals
		if s.Stat.Completed < total.Completed {
			total.Completed = s.Stat.Completed
		}
		total.Exhaustive = total.Exhaustive && s.Stat.Exhaustive
		e.seen.n.Add(s.Distinct)
		if len(e.samples) < 40 && len(s.Samples) > 0 {
			e.samples = append(e.samples, s.Samples[0])
		}
		e.unrepro = append(e.unrepro, s.Unrepro...)
		for k, n := range s.Known {
			e.known[k] += n
		}
		for _, v := range s.Viol {
			if len(e.viol) < e.maxViol {
				e.viol = append(e.viol, &violation{sp.Name, v.Path, v.Desc, &Fail{v.Key, v.Msg}})
			}
		}
	}
	if len(e.viol) >= e.maxViol {
		e.stop.Store(true)
	}
	total.Wall = time.Since(t0).Seconds()
	return total
}

func shardRun(args []string) {
	id, tier, name := args[0], args[1], args[2]
	bound, _ := strconv.Atoi(args[3])
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	silence()
	r := &Runner{check: checks[id], tier: tier, t0: time.Now()}
	e := r.newExplorer()
	e.workers = 1
	e.shard, _ = strconv.Atoi(args[4])
	e.shards, _ = strconv.Atoi(args[5])
	r.watch(e)
	st := e.explore(findSpace(id, tier, name), bound)
	out := shardResult{Stat: st, Known: e.known, Samples: e.samples, Unrepro: e.unrepro, Distinct: e.seen.n.Load()}
	for _, v := range e.viol {
		out.Viol = append(out.Viol, shardViolation{v.path, v.desc, v.fail.Key, v.fail.Msg})
	}
	b, err := json.Marshal(out)
	if err != nil {
		fatal("%v", err)
	}
	realStdout.Write(b)
}

func init() { subcommands["shard"] = shardRun }
