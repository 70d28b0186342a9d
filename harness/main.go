package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(infra); ok {
				fmt.Fprintf(os.Stderr, "INFRA: %s\n", i.msg)
				os.Exit(3)
			}
			panic(r)
		}
	}()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	subName := fs.String("sub", "", "sub-check")
	seed := fs.Int64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "quick or thorough")
	shard := fs.Int("shard", 0, "shard")
	checks := fs.Int("checks", 0, "number of cases")
	bin := fs.String("bin", "", "executables under test")
	scratch := fs.String("scratch", "", "scratch directory")
	out := fs.String("out", "", "result file")
	budget := fs.Duration("budget", 10*time.Minute, "time budget of a worker")
	scale := fs.Float64("scale", 1, "scale the number of cases")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		for _, p := range props {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
	case "worker":
		p, s := findSub(*prop, *subName)
		if s == nil {
			infraf("unknown %s/%s", *prop, *subName)
		}
		runWorker(p, s, *seed, *shard, *checks, *bin, *scratch, *budget, *out)
	case "replay":
		os.Exit(replayFile(fs.Arg(0), *bin, *scratch))
	case "check":
		os.Exit(runProperty(*prop, *subName, *tier, *seed, *scale, *bin, *scratch))
	case "helper":
		helperMain(fs.Args())
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

type job struct {
	s      *Sub
	shard  int
	checks int
	out    string
}

func runProperty(id, only, tier string, seed int64, scale float64, bin, scratch string) int {
	start := time.Now()
	var p *Prop
	for _, q := range props {
		if q.ID == id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	self, err := os.Executable()
	infraIf(err)
	findings := loadFindings()
	// Known findings are replayed first: those that still fail are announced.
	for _, f := range findings {
		if f.Property != id || f.Replay == "" {
			continue
		}
		code, msg := replayProc(self, filepath.Join(verifDir(), f.Replay), bin, scratch)
		switch code {
		case 1:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		case 0:
			fmt.Printf("note: the known finding %q of %s no longer fails\n", f.What, id)
		default:
			fmt.Fprintf(os.Stderr, "replaying known finding: %s\n", msg)
			return 2
		}
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 1500 * time.Second
	}
	var jobs []job
	for i := range p.Subs {
		s := &p.Subs[i]
		if only != "" && s.Name != only {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * scale)
		per := (n + s.Shards - 1) / s.Shards
		for k := 0; k < s.Shards; k++ {
			jobs = append(jobs, job{s, k, per, filepath.Join(scratch, fmt.Sprintf("out-%s-%d.json", s.Name, k))})
		}
	}
	// interleave shards so that no sub-check is starved when time runs out
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].shard < jobs[j].shard })
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var results []workerOut
	var resSub []*Sub
	var failures []string
	stop := false
	for _, j := range jobs {
		sem <- struct{}{}
		mu.Lock()
		st := stop
		mu.Unlock()
		if st {
			<-sem
			continue
		}
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			left := budget - time.Since(start)
			if left < 5*time.Second {
				left = 5 * time.Second
			}
			cmd := exec.Command(self, "worker", "-prop", id, "-sub", j.s.Name, "-seed", strconv.FormatInt(seed, 10),
				"-shard", strconv.Itoa(j.shard), "-checks", strconv.Itoa(j.checks), "-bin", bin, "-scratch", scratch,
				"-budget", left.String(), "-out", j.out)
			var eb bytes.Buffer
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				failures = append(failures, fmt.Sprintf("%s/%d: %v\n%s", j.s.Name, j.shard, err, tail(eb.String(), 3000)))
				return
			}
			b, err := os.ReadFile(j.out)
			if err != nil {
				failures = append(failures, err.Error())
				return
			}
			var w workerOut
			if err := json.Unmarshal(b, &w); err != nil {
				failures = append(failures, err.Error())
				return
			}
			results = append(results, w)
			resSub = append(resSub, j.s)
			if w.Violation != nil {
				stop = true
			}
		}(j)
	}
	wg.Wait()
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: p.Level, Assumptions: p.Assumptions}
	ev.Coverage.Rule = p.Rule
	ev.Coverage.Labels = map[string]int{}
	ev.Coverage.Per = map[string]int{}
	hashes := map[string]bool{}
	samplesOf := map[string]int{}
	var viols []*violation
	for i, w := range results {
		ev.Coverage.Evaluations += w.Evaluations
		ev.Coverage.Per[resSub[i].Name] += w.Evaluations
		for l, n := range w.Labels {
			ev.Coverage.Labels[resSub[i].Name+"/"+l] += n
		}
		for _, h := range w.NonTrivial {
			hashes[resSub[i].Name+h] = true
		}
		for _, s := range w.Samples {
			if samplesOf[resSub[i].Name] < 2 {
				samplesOf[resSub[i].Name]++
				ev.Coverage.Samples = append(ev.Coverage.Samples, map[string]any{"sub": resSub[i].Name, "case": s})
			}
		}
		if w.Violation != nil {
			viols = append(viols, w.Violation)
		}
	}
	ev.Coverage.Distinct = len(hashes)
	sort.Slice(viols, func(i, j int) bool { return len(viols[i].Case) < len(viols[j].Case) })
	exit := 0
	for _, v := range viols {
		fn := replayPath(v.Property, v.Sub)
		infraIf(os.MkdirAll(filepath.Dir(fn), 0o755))
		b, _ := json.MarshalIndent(v, "", " ")
		infraIf(os.WriteFile(fn, b, 0o644))
		// confirm in a fresh process before alarming
		code, msg := 0, ""
		for try := 0; try < 3 && code == 0; try++ {
			code, msg = replayProc(self, fn, bin, scratch)
		}
		if code == 1 {
			ev.Violations++
			fmt.Printf("sub-check %s: %s\n", v.Sub, tail(msg, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
			exit = 1
			break
		}
		failures = append(failures, fmt.Sprintf("case of %s failed once but not on replay (%s): %s\n%s", v.Sub, fn, v.Message, msg))
	}
	ev.Wall = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(&ev, "", " ")
	infraIf(os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755))
	infraIf(os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644))
	if exit == 1 {
		return 1
	}
	if len(failures) > 3 {
		failures = failures[:3]
	}
	if len(failures) > 0 {
		fmt.Fprintf(os.Stderr, "ERROR: %s\n", strings.Join(failures, "\n"))
		return 2
	}
	if ev.Coverage.Distinct == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no non-trivial case was evaluated")
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, held, %.1fs\n", id, tier, seed, ev.Coverage.Evaluations, ev.Coverage.Distinct, ev.Wall)
	return 0
}

func replayProc(self, fn, bin, scratch string) (int, string) {
	cmd := exec.Command(self, "replay", "-bin", bin, "-scratch", scratch, fn)
	out, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(out)
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		return 1, string(out)
	}
	return 2, string(out) + err.Error()
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type evidence struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Level    string `json:"level"`
	Coverage struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Rule        string         `json:"rule"`
		Samples     []any          `json:"samples"`
		Per         map[string]int `json:"evaluations_per_subcheck"`
		Labels      map[string]int `json:"labels"`
	} `json:"coverage"`
	Assumptions []string `json:"assumptions,omitempty"`
	Wall        float64  `json:"wall_s"`
	Violations  int      `json:"violations"`
}

type finding struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Replay   string `json:"replay"`
}

// loadFindings reads known-findings.txt. Lines: "finding: property=ID replay=FILE what fails" (still open)
// or "fixed: property=ID COMMIT what failed" (suppresses nothing).
func loadFindings() (fs []finding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(parts) != 3 {
			infraf("malformed known finding: %s", l)
		}
		fs = append(fs, finding{
			Property: strings.TrimPrefix(parts[0], "property="),
			Replay:   strings.TrimPrefix(parts[1], "replay="),
			What:     parts[2],
		})
	}
	return fs
}
