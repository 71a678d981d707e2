// Package run is the common main program of the checks.
package run

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifmc/ex"
)

// Prop is one registered property.
type Prop struct {
	ID          string
	Spaces      func(thorough bool) []*ex.Space
	Assumptions []string
}

var registry = map[string]*Prop{}

func Register(p *Prop) { registry[p.ID] = p }

var (
	root     = env("VERIF_ROOT", "/verif")
	tier     = env("VERIF_TIER", "quick")
	reportFd = 3
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs a check (or a replay). Notes are added to the evidence.
func Main(notes ...string) {
	prop := flag.String("prop", "", "property id")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("space", "", "explore only this space")
	flag.Parse()
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(parent(*prop, *replay))
	}
	os.Exit(child(*prop, *replay, *only, notes))
}

// parent supervises: the code under test prints to stdout/stderr and may crash the process.
func parent(prop, replay string) int {
	dir, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	r, w, err := os.Pipe()
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	crash := filepath.Join(dir, "crash.txt")
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_CRASH="+crash, "MC_SCRATCH="+dir, "TMPDIR="+dir)
	cmd.Stdout, cmd.Stderr = null, null
	if os.Getenv("MC_DEBUG") != "" {
		cmd.Stderr = os.Stderr
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	w.Close()
	violated := false
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "VIOLATION ") {
			violated = true
		}
		fmt.Println(l)
	}
	err = cmd.Wait()
	if violated {
		return 1
	}
	code := cmd.ProcessState.ExitCode()
	if err == nil && code == 0 {
		return 0
	}
	b, _ := os.ReadFile(crash)
	txt := string(b)
	if i := strings.Index(txt, "\n\ngoroutine "); i >= 0 {
		// keep the crashing goroutine
		if j := strings.Index(txt[i+2:], "\n\n"); j >= 0 {
			txt = txt[:i+2+j]
		}
	}
	if strings.Contains(txt, "github.com/lkmio/avformat") && prop != "" {
		p := filepath.Join(root, "out", prop+"-crash.txt")
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, b, 0o644)
		fmt.Printf("fatal crash inside the code under test:\n%s\n", head(txt, 30))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		writeEvidence(prop, nil, time.Now(), 1, []string{"the run ended in a fatal crash of the code under test"}, nil)
		return 1
	}
	fmt.Printf("error: check process ended abnormally (%v)\n%s\n", err, head(string(b), 60))
	return 2
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func loadKnown(prop string) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN-FINDING: property=C13 key=xyz text
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "KNOWN-FINDING:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			ex.KnownKeys[f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
}

func child(prop, replay, only string, notes []string) int {
	report := os.NewFile(uintptr(reportFd), "report")
	syscall.CloseOnExec(reportFd)
	if f, err := os.Create(os.Getenv("MC_CRASH")); err == nil {
		debug.SetCrashOutput(f, debug.CrashOptions{})
		f.Close()
	}
	lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetGCPercent(400)
	if os.Getenv("MC_DEBUG") == "" {
		os.Stdout = nil // the code under test prints
	}
	t0 := time.Now()
	if replay != "" {
		return doReplay(report, replay)
	}
	p := registry[prop]
	if p == nil {
		fmt.Fprintf(report, "error: unknown property %q\n", prop)
		return 2
	}
	loadKnown(prop)
	thorough := tier == "thorough"
	budget := 200 * time.Second
	if thorough {
		budget = 800 * time.Second
	}
	ex.Deadline = t0.Add(budget)
	var results []*ex.Result
	nviol := 0
	known := map[string]int64{}
	emit := func(f *ex.Found) {
		nviol++
		path := ex.WriteReplay(filepath.Join(root, "out"), f)
		fmt.Fprintf(report, "violated in space %s: %s\n", f.Space, oneLine(f.Msg))
		for i, l := range f.Trace {
			if i >= 40 {
				fmt.Fprintf(report, "   ... %d more steps\n", len(f.Trace)-40)
				break
			}
			fmt.Fprintf(report, "   %s\n", oneLine(l))
		}
		fmt.Fprintf(report, "VIOLATION property=%s replay=%s\n", prop, path)
	}
	if f := os.Getenv("MC_SHARD"); f != "" {
		return shard(report, prop, p.Spaces(thorough), f)
	}
	ex.RunShards = func(space string, parts [][][]int, q time.Duration) []*ex.Result {
		return runShards(prop, space, parts, q)
	}
	spaces := p.Spaces(thorough)
	for _, sp := range spaces {
		if only != "" && sp.Name != only {
			continue
		}
		res := ex.Explore(prop, sp, func(f *ex.Found) {
			emit(f)
			writeEvidence(prop, results, t0, nviol, p.Assumptions, append(notes, "stopped in space "+sp.Name+": "+f.Msg))
			os.Exit(1)
		})
		results = append(results, res)
		if res.Diverged > 0 {
			fmt.Fprintf(report, "%s: %d executions did not repeat deterministically\n", sp.Name, res.Diverged)
			notes = append(notes, fmt.Sprintf("%s: %d executions did not repeat deterministically", sp.Name, res.Diverged))
		}
		for k, n := range res.Known {
			known[k] += n
		}
		fmt.Fprintf(report, "%s %-28s executions=%d states=%d nodes=%d transitions=%d outside=%d outcomes=%d exhaustive=%v %.2fs\n", prop, sp.Name, res.Executions, res.States, res.Nodes, res.Transitions, res.Skipped, res.NOutcomes, res.Exhaustive, res.Wall)
		if res.V != nil {
			emit(res.V)
			if nviol >= 3 {
				break
			}
		}
	}
	for k, text := range ex.KnownKeys {
		if known[k] > 0 {
			fmt.Fprintf(report, "KNOWN-FINDING: property=%s %s (%d executions)\n", prop, text, known[k])
		} else {
			notes = append(notes, "listed finding "+k+" did not occur in this run")
		}
	}
	writeEvidence(prop, results, t0, nviol, p.Assumptions, notes)
	if nviol > 0 {
		return 1
	}
	fmt.Fprintf(report, "%s held on everything explored (%.1fs)\n", prop, time.Since(t0).Seconds())
	return 0
}

// ---- shards: one process explores part of a serial space ----

type shardJob struct {
	Space    string
	Jobs     [][]int
	Deadline time.Time
	Quantum  time.Duration
}

type shardResult struct {
	R        *ex.Result
	V        *ex.Found
	Outcomes map[string]int64
	Samples  []string
	Rest     [][]int
}

func shard(report *os.File, prop string, spaces []*ex.Space, file string) int {
	var j shardJob
	b, err := os.ReadFile(file)
	if err != nil || json.Unmarshal(b, &j) != nil {
		return 2
	}
	ex.Deadline, ex.ShardJobs, ex.ShardQuantum = j.Deadline, j.Jobs, j.Quantum
	for _, sp := range spaces {
		if sp.Name != j.Space {
			continue
		}
		out := func(r *ex.Result, v *ex.Found) {
			b, _ := json.Marshal(shardResult{R: r, V: v, Outcomes: r.Outcomes, Samples: r.Samples, Rest: r.Rest})
			report.Write(b)
		}
		res := ex.Explore(prop, sp, func(f *ex.Found) {
			out(&ex.Result{}, f)
			os.Exit(0)
		})
		out(res, res.V)
		return 0
	}
	return 2
}

func runShards(prop, space string, parts [][][]int, quantum time.Duration) []*ex.Result {
	dir, err := os.MkdirTemp("", "shards")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	out := make([]*ex.Result, len(parts))
	crash := make([]string, len(parts))
	var wg sync.WaitGroup
	for i := range parts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			job := filepath.Join(dir, fmt.Sprintf("job%d.json", i))
			crash[i] = filepath.Join(dir, fmt.Sprintf("crash%d.txt", i))
			b, _ := json.Marshal(shardJob{Space: space, Jobs: parts[i], Deadline: ex.Deadline, Quantum: quantum})
			if os.WriteFile(job, b, 0o600) != nil {
				return
			}
			r, w, err := os.Pipe()
			if err != nil {
				return
			}
			cmd := exec.Command(os.Args[0], "-prop", prop)
			cmd.Env = append(os.Environ(), "MC_SHARD="+job, "MC_CRASH="+crash[i], "GOMAXPROCS=2")
			cmd.ExtraFiles = []*os.File{w}
			err = cmd.Start()
			w.Close()
			if err != nil {
				return
			}
			b, _ = io.ReadAll(r)
			err = cmd.Wait()
			var s shardResult
			if err == nil && json.Unmarshal(b, &s) == nil && s.R != nil {
				s.R.V, s.R.Outcomes, s.R.Samples, s.R.Rest = s.V, s.Outcomes, s.Samples, s.Rest
				out[i] = s.R
			}
		}()
	}
	wg.Wait()
	for i, r := range out {
		if r == nil { // the process died: so does this one, with the same report
			b, _ := os.ReadFile(crash[i])
			os.WriteFile(os.Getenv("MC_CRASH"), b, 0o600)
			os.Exit(2)
		}
	}
	return out
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " ") }

func writeEvidence(prop string, results []*ex.Result, t0 time.Time, nviol int, assumptions, notes []string) {
	var states, nodes, trans, execs int64
	exh := len(results) > 0
	samples := []string{}
	for _, r := range results {
		states += r.States
		nodes += r.Nodes
		trans += r.Transitions
		execs += r.Executions
		exh = exh && r.Exhaustive
		for _, s := range r.Samples {
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			samples = append(samples, s)
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]any{
		"states":                        states + nodes,
		"distinct_canonical_states":     states,
		"choice_tree_nodes":             nodes,
		"transitions":                   trans,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"exhaustive":                    exh,
		"spaces":                        results,
		"explanation":                   "Every execution drives the real code of /repo and is compared step by step with an independent reference model; states = distinct canonical states plus nodes of the choice tree (histories), transitions = operations executed on the real code, traces_validated_against_impl = complete executions whose every step was compared.",
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]any{
		"property":    prop,
		"tier":        tier,
		"seed":        seed(),
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": append([]string{}, assumptions...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func doReplay(report io.Writer, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(report, "error:", err)
		return 2
	}
	var f ex.Found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(report, "error:", err)
		return 2
	}
	p := registry[f.Property]
	if p == nil {
		fmt.Fprintln(report, "error: unknown property", f.Property)
		return 2
	}
	loadKnown(f.Property)
	for _, th := range []bool{tier == "thorough", tier != "thorough"} {
		for _, sp := range p.Spaces(th) {
			if sp.Name != f.Space {
				continue
			}
			msg, trace := "", []string(nil)
			if f.Kind == "post" {
				if r := ex.Explore(f.Property, sp, func(*ex.Found) {}); r.V != nil {
					msg = r.V.Msg
				}
			} else {
				msg, trace = ex.Replay(sp, &f)
			}
			for _, l := range trace {
				fmt.Fprintln(report, "  ", oneLine(l))
			}
			if msg != "" {
				fmt.Fprintf(report, "violated: %s\nVIOLATION property=%s replay=%s\n", oneLine(msg), f.Property, file)
				return 1
			}
			fmt.Fprintln(report, "the property holds on this replay")
			return 0
		}
	}
	fmt.Fprintln(report, "error: no space", f.Space)
	return 2
}
