// Command vmain runs the checks: "check" decides one property by running each of its configurations in a
// worker process, "run" is such a worker, "replay" re-executes a recorded violation, "list" names the
// configurations.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/suites"
)

func find(prop, name string) *suites.Config {
	for i := range suites.All {
		if suites.All[i].Prop == prop && suites.All[i].Name == name {
			return &suites.All[i]
		}
	}
	return nil
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vmain check PROP TIER VERIFDIR | run PROP CONFIG TIER SECONDS | replay FILE | list [PROP]")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(3500 << 20)
	switch a := os.Args[1:]; a[0] {
	case "list":
		for _, c := range suites.All {
			if len(a) < 2 || strings.HasPrefix(c.Prop, a[1]) {
				fmt.Println(c.Prop, c.Name, c.Thorough)
			}
		}
	case "run":
		if len(a) != 5 {
			usage()
		}
		worker(a[1], a[2], a[3], a[4])
	case "try": // for development: run configurations by prefix, print one line each
		tier, sec := "quick", 60
		if len(a) > 2 {
			tier = a[2]
		}
		if len(a) > 3 {
			sec, _ = strconv.Atoi(a[3])
		}
		try(a[1], tier, sec)
	case "replay":
		if len(a) != 2 {
			usage()
		}
		b, err := os.ReadFile(a[1])
		if err != nil {
			fatal(err)
		}
		var v drive.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal(err)
		}
		c := find(v.Property, v.Config)
		if c == nil {
			fatal(fmt.Errorf("no configuration %s %s", v.Property, v.Config))
		}
		why, log := c.Replay(&v)
		for _, l := range log {
			fmt.Println(" ", l)
		}
		if why == "" {
			fmt.Println("not reproduced")
			return
		}
		fmt.Println("REPRODUCED:", why)
		os.Exit(1)
	case "check":
		if len(a) != 4 {
			usage()
		}
		os.Exit(check(a[1], a[2], a[3]))
	default:
		usage()
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}

func prof() func() {
	if p := os.Getenv("VPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		return pprof.StopCPUProfile
	}
	return func() {}
}

func try(prefix, tier string, sec int) {
	defer prof()()
	for _, c := range suites.All {
		if !strings.HasPrefix(c.Prop+"/"+c.Name, prefix) || c.Thorough && tier != "thorough" {
			continue
		}
		r := c.Run(tier, time.Now().Add(time.Duration(sec)*time.Second))
		fmt.Printf("%s %s states=%d trans=%d runs=%d depth=%d ex=%v %.1fs %s %s\n", c.Prop, c.Name, r.States, r.Transitions, r.Runs, r.Depth, r.Exhaustive, r.Seconds, r.Note, r.EngineError)
		if r.Violation != nil {
			b, _ := json.Marshal(r.Violation)
			fmt.Printf("  V=%s\n", clip(string(b), 3000))
			why, log := c.Replay(r.Violation)
			fmt.Println("  REPLAY:", clip(why, 2000))
			for i, l := range log {
				if i >= len(log)-40 {
					fmt.Println("   ", clip(l, 300))
				}
			}
		}
	}
}

func worker(prop, name, tier, secs string) {
	sec, err := strconv.Atoi(secs)
	if err != nil {
		fatal(err)
	}
	c := find(prop, name)
	if c == nil {
		fatal(fmt.Errorf("no configuration %s %s", prop, name))
	}
	start := time.Now()
	r := c.Run(tier, start.Add(time.Duration(sec)*time.Second))
	r.Config = name
	r.Seconds = time.Since(start).Seconds()
	if r.Violation != nil {
		r.Violation.Property, r.Violation.Config, r.Violation.Suite = prop, name, r.Suite
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

type result struct {
	cfg *suites.Config
	rep drive.Report
	err string
	out string
}

func runWorker(self string, c *suites.Config, tier string, sec int) (res result) {
	res.cfg = c
	cmd := exec.Command(self, "run", c.Prop, c.Name, tier, strconv.Itoa(sec))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	var out, errb strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		res.err = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Duration(sec+90) * time.Second):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("worker did not end in time")
	}
	if err != nil {
		res.err = fmt.Sprintf("%v: %s", err, tail(errb.String(), 2500))
		return
	}
	if err := json.Unmarshal([]byte(lastLine(out.String())), &res.rep); err != nil {
		res.err = fmt.Sprintf("%v: %s", err, clip(out.String(), 500))
	}
	return
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	return s[strings.LastIndexByte(s, '\n')+1:]
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type knownFinding struct {
	re   *regexp.Regexp
	text string
}

// known reads the lines "known: property=ID match=REGEXP text=..." of the known-findings file.
func known(dir, prop string) (out []knownFinding) {
	b, _ := os.ReadFile(filepath.Join(dir, "known_findings"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" match=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" match=")
		p := strings.SplitN(rest, " text=", 2)
		out = append(out, knownFinding{regexp.MustCompile(p[0]), p[1]})
	}
	return
}

func check(prop, tier, dir string) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	var cfgs []*suites.Config
	for i := range suites.All {
		c := &suites.All[i]
		if c.Prop == prop && (!c.Thorough || tier == "thorough") {
			cfgs = append(cfgs, c)
		}
	}
	if len(cfgs) == 0 {
		fatal(fmt.Errorf("no configuration for %s", prop))
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	budget := 300
	if tier == "thorough" {
		budget = 3000
		if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && s > 0 {
			budget = s
		}
	}
	rounds := (len(cfgs) + par - 1) / par
	sec := budget / rounds
	sem := make(chan bool, par)
	results := make([]result, len(cfgs))
	var wg sync.WaitGroup
	for i, c := range cfgs {
		i, c := i, c
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i] = runWorker(self, c, tier, sec)
			if v := results[i].rep.Violation; v != nil && results[i].err == "" {
				confirm(self, dir, &results[i], tier, sec)
			}
		}()
	}
	wg.Wait()

	exit := 0
	violations := 0
	var states, trans, runs, steps uint64
	var samples []any
	exhaustive := true
	var configs []any
	kf := known(dir, prop)
	for _, r := range results {
		if r.err != "" || r.rep.EngineError != "" {
			fmt.Printf("ERROR property=%s config=%s: %s%s\n", prop, r.cfg.Name, r.err, r.rep.EngineError)
			if exit == 0 {
				exit = 2
			}
			exhaustive = false
			continue
		}
		states += r.rep.States
		trans += r.rep.Transitions
		runs += r.rep.Runs
		steps += r.rep.Steps
		if !r.rep.Exhaustive {
			exhaustive = false
		}
		for i, s := range r.rep.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, r.cfg.Name+": "+clip(s, 600))
			}
		}
		configs = append(configs, map[string]any{"config": r.cfg.Name, "suite": r.rep.Suite, "bound": r.rep.Bound, "states": r.rep.States, "transitions": r.rep.Transitions, "executions": r.rep.Runs, "depth": r.rep.Depth, "exhaustive": r.rep.Exhaustive, "note": r.rep.Note, "seconds": r.rep.Seconds})
		v := r.rep.Violation
		if v == nil {
			continue
		}
		if k := matches(kf, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		violations++
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, r.out)
		fmt.Printf("  %s %s: %s\n", prop, v.Config, clip(v.Why, 1500))
		for _, l := range v.Log {
			fmt.Println("   ", clip(l, 300))
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": runs, "scheduler_steps": steps,
			"samples": samples, "exhaustive": exhaustive, "configurations": configs,
			"explanation": "Every state and transition is of the instrumented implementation itself (rebuilt from the working tree); traces_validated_against_impl counts complete executions of the implementation judged against the reference model.",
		},
		"assumptions": suites.Assumptions(prop),
		"wall_s":      time.Since(start).Seconds(), "violations": violations,
	}
	if samples == nil {
		ev["coverage"].(map[string]any)["samples"] = []any{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%s %s: %d configurations, %d states, %d transitions, %d executions, exhaustive=%v, %.1fs\n", prop, tier, len(cfgs), states, trans, runs, exhaustive, time.Since(start).Seconds())
	return exit
}

func matches(kf []knownFinding, v *drive.Violation) string {
	for _, k := range kf {
		if k.re.MatchString(v.Config + ": " + v.Why) {
			return k.text
		}
	}
	return ""
}

var slug = regexp.MustCompile(`[^A-Za-z0-9]+`)

// confirm writes the replay file and re-executes the violation in fresh processes.
func confirm(self, dir string, r *result, tier string, sec int) {
	v := r.rep.Violation
	d := filepath.Join(dir, "evidence", "replays")
	os.MkdirAll(d, 0o755)
	r.out = filepath.Join(d, v.Property+"-"+slug.ReplaceAllString(v.Config, "-")+".json")
	write := func() {
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(r.out, append(b, '\n'), 0o644)
	}
	write()
	for i := 0; i < 3; i++ {
		cmd := exec.Command(self, "replay", r.out)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		b, err := cmd.Output()
		if err != nil && strings.Contains(string(b), "REPRODUCED:") {
			l := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
			if len(l) > 60 {
				l = l[len(l)-60:]
			}
			v.Log = l
			write()
			return
		}
	}
	r2 := runWorker(self, r.cfg, tier, sec)
	if r2.rep.Violation == nil {
		r.err = "a violation was seen once but neither its replay nor a second exploration shows it: " + clip(v.Why, 500)
	}
}
