package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"mcverif/vs"
)

// Job is one unit of exploration: a suite, its arguments and a bound.
type Job struct {
	Suite string
	Name  string
	Args  json.RawMessage
	Bound int  // deviations (preemptions) explored
	Race  bool // run in the race-detector build
	BFS   int  // >0: breadth-first over environment choices to this depth, merging equal states
}

func job(suite, name string, bound int, args interface{}) Job {
	b, err := json.Marshal(eachString(reflect.ValueOf(args), armour).Interface())
	if err != nil {
		panic(err)
	}
	return Job{Suite: suite, Name: name, Args: b, Bound: bound}
}

// Violation is a replayable failure.
type Violation struct {
	Property string
	Job      Job
	Choices  []int
	Depth    int // BFS depth
	Msgs     []string
	Trace    []string
	Crash    string `json:",omitempty"` // the process died or hung
}

// Result is what one job covered.
type Result struct {
	Execs, Trans, Points int64
	States               []uint64
	Outcomes             map[string]int64
	Samples              []string
	Truncated            bool
	MaxDev               int
	Viol                 *Violation
}

// Exec is the context of one execution.
type Exec struct {
	depth  int // BFS: number of choices to take
	taken  int
	bfs    bool
	fails  []string
	trace  []string
	states map[uint64]bool
	outs   map[string]int64
	trans  int64
	opts   int    // BFS: options in the final state
	key    string // BFS: final state
	after  []func()
	cut    bool // the body gave up before its end
	quiet  bool // expected leftover background threads are not checked
}

func (x *Exec) fail(format string, a ...interface{}) {
	if len(x.fails) < 8 {
		x.fails = append(x.fails, fmt.Sprintf(format, a...))
	}
}
func (x *Exec) failed() bool { return len(x.fails) > 0 }
func (x *Exec) logf(format string, a ...interface{}) {
	if len(x.trace) < 400 {
		x.trace = append(x.trace, fmt.Sprintf(format, a...))
	}
}
func (x *Exec) state(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	x.states[h.Sum64()] = true
}
func (x *Exec) outcome(s string) {
	if len(x.outs) < 2000 {
		x.outs[s]++
	} else {
		x.outs["(other)"]++
	}
}

// choose asks for a free environment choice.
func (x *Exec) choose(n int) int {
	x.taken++
	return vs.Choose(n, 0)
}

// Suite makes the body of one execution from the job's arguments.
type Suite func(args json.RawMessage) func(x *Exec)

var suites = map[string]Suite{}

func decode(raw json.RawMessage, into interface{}) {
	if err := json.Unmarshal(raw, into); err != nil {
		panic(fmt.Sprintf("mcverif: bad job arguments: %v", err))
	}
	v := reflect.ValueOf(into).Elem()
	v.Set(eachString(v, disarmour))
}

// progress is told the choices of the execution about to start.
var progress func(choices []int, depth int)

// beat is bumped once per execution.
var beat int64

func oneExec(body func(*Exec), e *vs.Explorer, x *Exec) {
	if progress != nil {
		progress(e.Choices(), x.depth)
	}
	e.Begin()
	resetUUID()
	s := vs.Run(e, func() { body(x) })
	beat++
	if s.Overrun {
		x.fail("the execution does not end: more than %d scheduling points", vs.Horizon)
	}
	if s.Deadlock != "" {
		x.fail("deadlock: %s", s.Deadlock)
	}
	for _, p := range s.Panics {
		x.fail("panic in %s: %s", p.Thread, p.Value)
		x.logf("%s", p.Stack)
	}
	x.trans += int64(s.Points)
	afterExec()
}

func newExec(j *Job, res *Result, states map[uint64]bool) *Exec {
	return &Exec{states: states, outs: res.Outcomes}
}

// runJob explores the job completely (or until the deadline).
func runJob(j *Job, deadline time.Time) *Result {
	mk, ok := suites[j.Suite]
	if !ok {
		panic("mcverif: unknown suite " + j.Suite)
	}
	res := &Result{Outcomes: map[string]int64{}}
	states := map[uint64]bool{}
	body := mk(j.Args)
	finish := func(x *Exec, e *vs.Explorer) bool {
		res.Execs++
		res.Trans += x.trans
		res.Truncated = res.Truncated || x.cut
		if d := e.Deviations(); d > res.MaxDev {
			res.MaxDev = d
		}
		if len(res.Samples) < 2 && (res.Execs == 1 || res.Execs == 50) {
			res.Samples = append(res.Samples, j.Name+": "+strings.Join(x.trace, " | "))
		}
		if e.Diverged != "" {
			x.fails = append([]string{"UNSTABLE " + e.Diverged}, x.fails...)
		}
		if x.failed() {
			res.Viol = &Violation{Job: *j, Choices: e.Choices(), Depth: x.depth, Msgs: x.fails, Trace: x.trace}
			return false
		}
		return true
	}
	if j.BFS > 0 {
		runBFS(j, body, res, states, finish, deadline)
	} else {
		e := &vs.Explorer{Bound: j.Bound}
		for {
			x := newExec(j, res, states)
			oneExec(body, e, x)
			if !finish(x, e) {
				break
			}
			if !e.Next() {
				break
			}
			if time.Now().After(deadline) {
				res.Truncated = true
				break
			}
		}
	}
	for h := range states {
		res.States = append(res.States, h)
	}
	sort.Slice(res.States, func(a, b int) bool { return res.States[a] < res.States[b] })
	return res
}

func runBFS(j *Job, body func(*Exec), res *Result, states map[uint64]bool, finish func(*Exec, *vs.Explorer) bool, deadline time.Time) {
	type item struct {
		path []int
		n    int
	}
	seen := map[string]bool{}
	visit := func(path []int) (it item, fresh, ok bool) {
		x := newExec(j, res, states)
		x.depth = len(path)
		x.bfs = true
		e := vs.NewReplay(path)
		oneExec(body, e, x)
		if !finish(x, e) {
			return item{}, false, false
		}
		fresh = !seen[x.key]
		seen[x.key] = true
		return item{path, x.opts}, fresh, true
	}
	root, _, ok := visit(nil)
	if !ok {
		return
	}
	frontier := []item{root}
	for d := 0; d < j.BFS && len(frontier) > 0; d++ {
		var next []item
		for _, it := range frontier {
			for k := 0; k < it.n; k++ {
				if time.Now().After(deadline) {
					res.Truncated = true
					return
				}
				p := append(append([]int{}, it.path...), k)
				ni, fresh, ok := visit(p)
				if !ok {
					return
				}
				if fresh {
					next = append(next, ni)
				}
			}
		}
		frontier = next
	}
	res.Outcomes["bfs distinct states"] += int64(len(seen))
}

// replay runs one recorded execution and returns its failures.
func replay(v *Violation) *Exec {
	mk := suites[v.Job.Suite]
	body := mk(v.Job.Args)
	res := &Result{Outcomes: map[string]int64{}}
	x := newExec(&v.Job, res, map[uint64]bool{})
	x.depth = v.Depth
	x.bfs = v.Job.BFS > 0
	e := vs.NewReplay(v.Choices)
	oneExec(body, e, x)
	if e.Diverged != "" {
		x.fails = append([]string{"UNSTABLE " + e.Diverged}, x.fails...)
	}
	return x
}

// afterExec removes what an execution may have left behind.
func afterExec() {
	for _, f := range cleanups {
		f()
	}
	cleanups = cleanups[:0]
}

var cleanups []func()

// cleanup registers a function to run after the execution, however it ends.
func cleanup(f func()) { cleanups = append(cleanups, f) }

func errorf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
}
