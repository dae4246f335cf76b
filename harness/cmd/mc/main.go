// Command mc is the model checker for sessionid: it explores bounded spaces of
// behaviours of the real (instrumented) code exhaustively and compares every
// execution with a reference model.
//
//	mc -prop C05 -tier quick -verif /verif     explore and write the evidence
//	mc -worker                                 serve jobs on stdin/stdout
//	mc -replay FILE                            replay one recorded violation
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

var (
	fProp   = flag.String("prop", "", "property to decide")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fVerif  = flag.String("verif", "/verif", "the framework's directory")
	fWorker = flag.Bool("worker", false, "serve jobs")
	fReplay = flag.String("replay", "", "replay a recorded violation")
	fRaceB  = flag.String("racebin", "", "the race-detector build of this program")
	fProg   = flag.String("progress", "", "worker: progress file")
	fBudget = flag.Int("budget", 0, "seconds of exploration")
	fJobs   = flag.String("only", "", "only jobs whose name contains this")
	fList   = flag.Bool("list", false, "list the jobs")
	fTimes  = flag.Bool("times", false, "print how long each job took")
	fW      = flag.Int("workers", 0, "worker processes")
)

func main() {
	flag.Parse()
	switch {
	case *fWorker:
		runtime.GOMAXPROCS(1)
		worker()
	case *fReplay != "":
		runtime.GOMAXPROCS(1)
		os.Exit(replayFile(*fReplay))
	case *fProp != "":
		os.Exit(parent())
	default:
		flag.Usage()
		os.Exit(2)
	}
}

const progSize = 1 << 16

// worker reads one job per line and answers with one result per line.
func worker() {
	defer cleanScratch()
	if *fProg != "" {
		f, err := os.OpenFile(*fProg, os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			panic(err)
		}
		f.Truncate(progSize)
		mem, err := syscall.Mmap(int(f.Fd()), 0, progSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
		w := (*[progSize / 4]int32)(unsafe.Pointer(&mem[0]))
		progress = func(ch []int, depth int) {
			if len(ch) > len(w)-2 {
				ch = ch[:len(w)-2]
			}
			w[0], w[1] = int32(len(ch)), int32(depth)
			for i, c := range ch {
				w[i+2] = int32(c)
			}
		}
	}
	go watchdog()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var m struct {
			Job      Job
			Deadline int64
		}
		if err := json.Unmarshal(line, &m); err != nil {
			panic(err)
		}
		busy = true
		res := runJob(&m.Job, time.Unix(0, m.Deadline))
		busy = false
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

var busy bool

const hangSeconds = 90

// watchdog ends the process when one execution does not come to an end.
func watchdog() {
	last, since := int64(-1), 0
	for {
		time.Sleep(time.Second)
		if b := beat; !busy || b != last {
			last, since = b, 0
			continue
		}
		since++
		if since >= hangSeconds {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: one execution has been running for %d s\n%s\n", since, buf[:n])
			cleanScratch()
			os.Exit(67)
		}
	}
}

func readProgress(path string) ([]int, int) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil, 0
	}
	w := (*[progSize / 4]int32)(unsafe.Pointer(&b[0]))
	n := int(w[0])
	if n < 0 || n > len(b)/4-2 {
		return nil, 0
	}
	out := make([]int, n)
	for i := range out {
		out[i] = int(w[i+2])
	}
	return out, int(w[1])
}

// replayFile replays a recorded violation: exit 1 if it still fails.
func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		errorf("%v", err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		errorf("%v", err)
		return 2
	}
	busy = true
	go watchdog()
	x := replay(&v)
	cleanScratch()
	fmt.Printf("property %s, suite %s: %s\n", v.Property, v.Job.Suite, v.Job.Name)
	fmt.Printf("choices %v\n", v.Choices)
	for _, l := range x.trace {
		fmt.Println("  " + strings.ReplaceAll(l, "\n", "\n    "))
	}
	for _, l := range x.fails {
		fmt.Println("FAIL " + l)
	}
	if len(x.fails) == 0 {
		fmt.Println("no failure")
		return 0
	}
	return 1
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		errorf("%v", err)
	}
}
