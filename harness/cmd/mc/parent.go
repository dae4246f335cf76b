package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Prop is a property as the checker knows it.
type Prop struct {
	ID      string
	Jobs    func(thorough bool) []Job
	Bounds  string // what is enumerated
	Assume  []string
	Budget  int // seconds, quick (0: default)
	BudgetT int // seconds, thorough
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// proc is one worker process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
	prog   string
}

// tail keeps the beginning and the end of a stream.
type tail struct {
	mu         sync.Mutex
	head, last []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 1<<15 {
		t.head = append(t.head, b...)
	} else {
		t.last = append(t.last, b...)
		if len(t.last) > 1<<15 {
			t.last = t.last[len(t.last)-1<<15:]
		}
	}
	return len(b), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.last)
}

func startProc(bin, dir string, n int) (*proc, error) {
	p := &proc{stderr: &tail{}, prog: filepath.Join(dir, fmt.Sprintf("progress%d", n))}
	p.cmd = exec.Command(bin, "-worker", "-progress", p.prog)
	p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=4", "GOTRACEBACK=all", "MCVERIF_SCRATCH="+dir)
	p.cmd.Stderr = p.stderr
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, p.cmd.Start()
}

func (p *proc) do(j *Job, deadline time.Time) (*Result, *Violation) {
	m := struct {
		Job      *Job
		Deadline int64
	}{j, deadline.UnixNano()}
	b, _ := json.Marshal(m)
	p.in.Write(append(b, '\n'))
	line, err := p.out.ReadBytes('\n')
	if err == nil {
		var r Result
		if err = json.Unmarshal(line, &r); err == nil {
			return &r, nil
		}
	}
	// the process died
	p.in.Close()
	p.cmd.Wait()
	ch, depth := readProgress(p.prog)
	text := p.stderr.String()
	msg := "the process died: " + p.cmd.ProcessState.String()
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		msg = "data race"
	case strings.Contains(text, "HANG:"):
		msg = "an operation never returns (no scheduling point is reached any more)"
	case strings.Contains(text, "fatal error:"):
		i := strings.Index(text, "fatal error:")
		msg = firstLine(text[i:])
	case strings.Contains(text, "panic:"):
		i := strings.Index(text, "panic:")
		msg = firstLine(text[i:])
	}
	return nil, &Violation{Job: *j, Choices: ch, Depth: depth, Msgs: []string{msg}, Trace: strings.Split(strings.TrimSpace(text), "\n"), Crash: msg}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (p *proc) stop() {
	p.in.Close()
	done := make(chan bool)
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
}

type known struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(path string) []known {
	var f struct {
		Findings []known `json:"findings"`
	}
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, &f)
	}
	return f.Findings
}

func matchKnown(ks []known, v *Violation) *known {
	text := v.Job.Name + " | " + strings.Join(v.Msgs, " | ")
	for i, k := range ks {
		if k.Property != v.Property || k.Status != "open" || k.Match == "" {
			continue
		}
		if ok, _ := regexp.MatchString(k.Match, text); ok {
			return &ks[i]
		}
	}
	return nil
}

func parent() int {
	t0 := time.Now()
	p := props[*fProp]
	if p == nil {
		errorf("unknown property %s", *fProp)
		return 2
	}
	thorough := *fTier == "thorough"
	jobs := p.Jobs(thorough)
	if *fJobs != "" {
		var sel []Job
		for _, j := range jobs {
			if strings.Contains(j.Name, *fJobs) {
				sel = append(sel, j)
			}
		}
		jobs = sel
	}
	if *fList {
		for _, j := range jobs {
			fmt.Println(j.Suite, j.Name, string(j.Args))
		}
		return 0
	}
	// shallow first: what one preemption shows need not wait for what more of
	// them show
	var shallow []Job
	for _, j := range jobs {
		if j.Bound >= 2 {
			j.Bound = 1
			j.Name += " (one preemption)"
			shallow = append(shallow, j)
		}
	}
	jobs = append(shallow, jobs...)
	budget := p.Budget
	if budget == 0 {
		budget = 500
	}
	if thorough {
		budget = p.BudgetT
		if budget == 0 {
			budget = 700
		}
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	dir := scratchDir()
	defer cleanScratch()
	self, _ := os.Executable()
	os.RemoveAll(filepath.Join(*fVerif, "evidence", "replays", *fProp))

	nw := *fW
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}
	var (
		mu        sync.Mutex
		next      int
		total     = Result{Outcomes: map[string]int64{}}
		states    = map[uint64]bool{}
		done      int
		truncated bool
		confirmed *Violation
		unstable  []string
		findings  = map[string]bool{}
		slowest   time.Duration
		slowName  string
	)
	ks := loadKnown(filepath.Join(*fVerif, "known_findings.json"))
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			procs := map[bool]*proc{}
			defer func() {
				for _, pr := range procs {
					pr.stop()
				}
			}()
			for {
				mu.Lock()
				if next >= len(jobs) || confirmed != nil {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					truncated = true
					mu.Unlock()
					return
				}
				j := &jobs[next]
				next++
				mu.Unlock()
				pr := procs[j.Race]
				if pr == nil {
					bin := self
					n := w
					if j.Race {
						bin = *fRaceB
						n += 1000
					}
					var err error
					if pr, err = startProc(bin, dir, n); err != nil {
						errorf("cannot start a worker: %v", err)
						mu.Lock()
						truncated = true
						mu.Unlock()
						return
					}
					procs[j.Race] = pr
				}
				tj := time.Now()
				res, v := pr.do(j, deadline)
				if v != nil {
					delete(procs, j.Race)
				}
				if *fTimes && res != nil {
					fmt.Printf("TIME %.2f %d %s\n", time.Since(tj).Seconds(), res.Execs, j.Name)
				}
				mu.Lock()
				if d := time.Since(tj); d > slowest {
					slowest, slowName = d, j.Name
				}
				done++
				if res != nil {
					total.Execs += res.Execs
					total.Trans += res.Trans
					if res.MaxDev > total.MaxDev {
						total.MaxDev = res.MaxDev
					}
					for _, h := range res.States {
						states[h] = true
					}
					for k, n := range res.Outcomes {
						total.Outcomes[k] += n
					}
					if len(total.Samples) < 6 {
						total.Samples = append(total.Samples, res.Samples...)
					}
					truncated = truncated || res.Truncated
					v = res.Viol
				}
				mu.Unlock()
				if v == nil {
					continue
				}
				v.Property = *fProp
				ok, why := confirm(v, dir, self)
				mu.Lock()
				switch {
				case !ok:
					unstable = append(unstable, v.Job.Name+": "+strings.Join(v.Msgs, "; ")+" ("+why+")")
					truncated = true
				default:
					if k := matchKnown(ks, v); k != nil {
						if !findings[k.What] {
							findings[k.What] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.What)
						}
					} else if confirmed == nil {
						confirmed = v
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	if next < len(jobs) && confirmed == nil {
		truncated = true
	}
	wall := time.Since(t0).Seconds()
	nviol := 0
	if confirmed != nil {
		nviol = 1
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	for i, s := range total.Samples {
		if len(s) > 1500 {
			total.Samples[i] = s[:1500] + "..."
		}
	}
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   total.Trans,
		"traces_validated_against_impl": total.Execs,
		"samples":                       total.Samples,
		"exhaustive":                    !truncated && confirmed == nil,
		"jobs_total":                    len(jobs),
		"jobs_completed":                done,
		"max_deviations_reached":        total.MaxDev,
		"distinct_outcomes":             len(total.Outcomes),
		"outcomes":                      topOutcomes(total.Outcomes, 40),
		"bounds":                        p.Bounds,
		"slowest_job":                   fmt.Sprintf("%s (%.1f s)", slowName, slowest.Seconds()),
		"how_validated":                 "every explored trace is an execution of the repository's own code (rebuilt from /repo's working tree, synchronisation, clock and file or network effects routed through the explorer) and each of its results is compared with the reference model",
	}
	if len(unstable) > 0 {
		cov["not_reproducible"] = unstable
		for _, u := range unstable {
			errorf("not reproducible, not reported: %s", u)
		}
	}
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": seed(), "level": "model_checking",
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall, "violations": nviol,
	}
	writeJSON(filepath.Join(*fVerif, "evidence", *fProp+".json"), ev)
	fmt.Printf("%s %s: jobs %d/%d, executions %d, transitions %d, states %d, outcomes %d, exhaustive %v, %.1f s\n", *fProp, *fTier, done, len(jobs), total.Execs, total.Trans, len(states), len(total.Outcomes), !truncated && confirmed == nil, wall)
	if confirmed != nil {
		path := filepath.Join(*fVerif, "evidence", "replays", *fProp, "violation.json")
		writeJSON(path, confirmed)
		fmt.Printf("job: %s\nchoices: %v\n", confirmed.Job.Name, confirmed.Choices)
		for i, l := range confirmed.Trace {
			if i > 120 {
				break
			}
			fmt.Println("  " + strings.ReplaceAll(l, "\n", "\n    "))
		}
		for _, m := range confirmed.Msgs {
			fmt.Println("FAIL " + m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		return 1
	}
	return 0
}

// confirm replays the violation in fresh processes: it has to fail every time.
func confirm(v *Violation, dir, self string) (bool, string) {
	bin := self
	if v.Job.Race {
		bin = *fRaceB
	}
	f, err := os.CreateTemp(dir, "viol*.json")
	if err != nil {
		return false, err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(v)
	f.Write(b)
	f.Close()
	times := 5
	if strings.Contains(v.Crash, "never returns") {
		times = 1
	}
	// what fails must fail again; something outside of the scheduler's control
	// (the race detector's limited history, say) may hide it now and then
	need, again, why := 3, 0, ""
	switch {
	case times == 1:
		need = 1
	case v.Job.Race:
		need = 2
	case v.Crash != "":
		need = times
	}
	for i := 0; i < times; i++ {
		cmd := exec.Command(bin, "-replay", f.Name())
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=4", "MCVERIF_SCRATCH="+dir)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		text := out.String()
		switch {
		case err == nil:
			why = fmt.Sprintf("replay %d of %d does not fail", i+1, times)
		case strings.Contains(text, "FAIL UNSTABLE"):
			why = fmt.Sprintf("replay %d of %d diverges", i+1, times)
		case v.Crash == "" && !strings.Contains(text, "FAIL ") && !strings.Contains(text, "fatal error"):
			why = fmt.Sprintf("replay %d of %d fails differently: %s", i+1, times, firstLine(text))
		default:
			again++
		}
	}
	if again < need {
		return false, why
	}
	for _, m := range v.Msgs {
		if strings.HasPrefix(m, "UNSTABLE") {
			return false, "diverged while exploring"
		}
	}
	return true, ""
}

func topOutcomes(m map[string]int64, n int) map[string]int64 {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool {
		if m[keys[a]] != m[keys[b]] {
			return m[keys[a]] > m[keys[b]]
		}
		return keys[a] < keys[b]
	})
	out := map[string]int64{}
	for i, k := range keys {
		if i >= n {
			break
		}
		if len(k) > 200 {
			k = k[:200]
		}
		out[k] = m[keys[i]]
	}
	return out
}
