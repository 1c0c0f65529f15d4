package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"trcsim/rt"
)

// Modes:
//
//	check   -id C01 -tier quick -seed 1 -verif /verif   parent: spawns workers, shrinks, reports
//	worker  ...                                          child: runs a slice of the seeds
//	shrink  -in FILE -out FILE                           child: minimises a failing run
//	replay  -in FILE                                     re-executes a replay file
//	run     -id C01 -seed N                              one run, with its log
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|shrink|replay|run ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "base seed (VERIF_SEED)")
	verif := fs.String("verif", "/verif", "verification directory")
	in := fs.String("in", "", "input file")
	out := fs.String("out", "", "output file")
	from := fs.Int("from", 0, "first run")
	count := fs.Int("count", 1, "number of runs")
	stride := fs.Int("stride", 1, "distance between runs")
	budget := fs.Duration("budget", time.Minute, "wall time budget")
	workers := fs.Int("workers", 8, "worker processes")
	raw := fs.Bool("raw", false, "run: the seed is the run's own seed")
	verbose := fs.Bool("v", false, "print the log")
	fs.Parse(os.Args[2:])

	switch mode {
	case "check":
		os.Exit(check(*id, *tier, *seed, *verif, *workers, *count, *budget, flagSet(fs, "count"), flagSet(fs, "budget")))
	case "worker":
		runtime.GOMAXPROCS(1)
		os.Exit(worker(*id, *seed, *from, *count, *stride, *budget, *in != ""))
	case "shrink":
		runtime.GOMAXPROCS(1)
		os.Exit(shrinkMain(*in, *out, *budget))
	case "replay":
		runtime.GOMAXPROCS(1)
		os.Exit(replayMain(*in, *verbose))
	case "run":
		runtime.GOMAXPROCS(1)
		sc := scenarios[*id]
		s := *seed
		if !*raw {
			s = mixSeed(*seed, uint64(*from))
		}
		p, c := genRun(sc, s)
		r := execute(sc, p, c, false, nil, true)
		fmt.Println(p)
		fmt.Printf("%+v\n", c)
		for _, l := range r.Log {
			fmt.Println(l)
		}
		if *verbose {
			r2 := execute(sc, p, c, true, r.Choices, true)
			for i := 0; i < len(r.Log) && i < len(r2.Log); i++ {
				if r.Log[i] != r2.Log[i] {
					fmt.Printf("replay differs at line %d: %s\n", i, r2.Log[i])
					break
				}
			}
			fmt.Printf("replayed hash %x\n", r2.Hash)
		}
		fmt.Printf("hash %x steps %d switches %d simtime %v stats %v\n", r.Hash, r.Steps, r.Switches, time.Duration(r.SimTime), r.Stats)
		if r.Fail != nil {
			fmt.Printf("FAIL %s: %s\n%s\n", r.Fail.Class, r.Fail.Msg, r.Fail.Stack)
			os.Exit(1)
		}
	default:
		os.Exit(2)
	}
}

func flagSet(fs *flag.FlagSet, name string) bool {
	set := false
	fs.Visit(func(f *flag.Flag) {
		if f.Name == name {
			set = true
		}
	})
	return set
}

// workerResult is what a worker reports on its standard output.
type workerResult struct {
	Runs     int              `json:"runs"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	SimTime  float64          `json:"sim_time"`
	Stats    map[string]int64 `json:"stats"`
	Sigs     []uint64         `json:"sigs"` // of non-trivial runs
	Hashes   []uint64         `json:"hashes"`
	Rerun    int              `json:"rerun"`  // runs executed twice
	Differ   int              `json:"differ"` // of those, with different fingerprints
	Trivial  int              `json:"trivial"`
	Samples  []string         `json:"samples"`
	Fail     *failInfo        `json:"fail"`
	Capped   bool             `json:"capped"`
}

type failInfo struct {
	Index   int    `json:"index"`
	Seed    uint64 `json:"seed"`
	Class   string `json:"class"`
	Msg     string `json:"msg"`
	Stack   string `json:"stack"`
	Choices []ch   `json:"choices"`
	Prog    *Prog  `json:"prog"`
	Cfg     RunCfg `json:"cfg"`
}

type ch [5]uint32

func packChoices(m map[rt.Key]uint32) []ch {
	r := make([]ch, 0, len(m))
	for k, v := range m {
		r = append(r, ch{k.Task, k.Op, k.Tag, k.K, v})
	}
	sort.Slice(r, func(i, j int) bool {
		for x := 0; x < 4; x++ {
			if r[i][x] != r[j][x] {
				return r[i][x] < r[j][x]
			}
		}
		return false
	})
	return r
}

func unpackChoices(cs []ch) map[rt.Key]uint32 {
	m := make(map[rt.Key]uint32, len(cs))
	for _, c := range cs {
		m[rt.Key{Task: c[0], Op: c[1], Tag: c[2], K: c[3]}] = c[4]
	}
	return m
}

// watchdog kills the process when one run takes unreasonably long in real time
// (a real deadlock in code outside of the simulation, say).
func watchdog(what func() string) (tick func(), stop func()) {
	var mtx sync.Mutex
	last := time.Now()
	done := false
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			mtx.Lock()
			d, l := done, last
			mtx.Unlock()
			if d {
				return
			}
			if time.Since(l) > 120*time.Second {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "stuck in %s\n%s\n", what(), buf[:n])
				os.Exit(3)
			}
		}
	}()
	return func() { mtx.Lock(); last = time.Now(); mtx.Unlock() }, func() { mtx.Lock(); done = true; mtx.Unlock() }
}

func worker(id string, seed uint64, from, count, stride int, budget time.Duration, rehash bool) int {
	sc := scenarios[id]
	res := &workerResult{Stats: map[string]int64{}}
	begin := time.Now()
	cur := 0
	tick, stop := watchdog(func() string { return fmt.Sprintf("%s run %d", id, cur) })
	defer stop()
	sigs := map[uint64]bool{}
	progress, _ := os.OpenFile(os.Getenv("VERIF_PROGRESS"), os.O_WRONLY|os.O_CREATE, 0o644)
	for i := from; i < from+count*stride; i += stride {
		if time.Since(begin) > budget {
			res.Capped = true
			break
		}
		tick()
		cur = i
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		}
		rs := mixSeed(seed, uint64(i))
		p, c := genRun(sc, rs)
		r := execute(sc, p, c, false, nil, false)
		res.Runs++
		res.Steps += r.Steps
		res.Switches += r.Switches
		res.SimTime += float64(r.SimTime) / 1e9
		nontrivial := false
		for k, v := range r.Stats {
			res.Stats[k] += v
			if v > 0 && (k == "sched.preemptions" || strings.HasPrefix(k, "fault.")) {
				nontrivial = true
			}
		}
		if nontrivial {
			sigs[r.Sig] = true
		} else {
			res.Trivial++
		}
		if len(res.Samples) < 1 && nontrivial {
			res.Samples = append(res.Samples, fmt.Sprintf("run %d seed %d strategy %+v tick %dns pool %d: %s -> %d steps, %d switches, fingerprint %x", i, rs, c.Strategy, c.Tick, c.PoolMode, clip(p.String(), 1500), r.Steps, r.Switches, r.Hash))
		}
		if r.Fail != nil && r.Fail.Class == "race" {
			// a race has to occur again in the same schedule
			again := false
			for k := 0; k < 3 && !again; k++ {
				r2 := execute(sc, p, c, true, r.Choices, false)
				again = r2.Fail != nil
			}
			if !again {
				res.Stats["race.unconfirmed"]++
				continue
			}
		}
		if r.Fail != nil {
			res.Fail = &failInfo{Index: i, Seed: rs, Class: r.Fail.Class, Msg: r.Fail.Msg, Stack: r.Fail.Stack, Choices: packChoices(r.Choices), Prog: p, Cfg: c}
			break
		}
		if rehash || i%stride == from%stride && (i-from)/stride%50 == 0 {
			res.Rerun++
			r2 := execute(sc, p, c, true, r.Choices, false)
			if r2.Hash != r.Hash || r2.Fail != nil {
				res.Differ++
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "run %d (seed %d): fingerprint %x, replayed %x fail %v\n", i, rs, r.Hash, r2.Hash, r2.Fail)
				}
			}
		}
		if rehash {
			res.Hashes = append(res.Hashes, r.Hash)
		}
	}
	for s := range sigs {
		res.Sigs = append(res.Sigs, s)
	}
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(res)
	w.Flush()
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// replayFile is what VIOLATION lines point to.
type replayFile struct {
	Property     string   `json:"property"`
	Class        string   `json:"class"`
	Message      string   `json:"message"`
	Stack        string   `json:"stack,omitempty"`
	Seed         uint64   `json:"seed"`
	RunIndex     int      `json:"run_index"`
	BaseSeed     uint64   `json:"base_seed"`
	Config       RunCfg   `json:"config"`
	Program      *Prog    `json:"program"`
	Choices      []ch     `json:"choices"` // [task, op, tag, k, value]: every non-default decision
	Fingerprint  string   `json:"fingerprint"`
	Reproducible bool     `json:"reproducible"`
	OrigOps      int      `json:"original_ops"`
	OrigChoices  int      `json:"original_choices"`
	HowToReplay  string   `json:"how_to_replay"`
	Log          []string `json:"log"`
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// replayMain re-executes a replay file. Exit 1: it fails as recorded; 0: it
// does not fail; 3: it fails differently.
func replayMain(path string, verbose bool) int {
	var f replayFile
	if err := readJSON(path, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := scenarios[f.Property]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	tick, stop := watchdog(func() string { return path })
	tick()
	defer stop()
	r := execute(sc, f.Program, f.Config, f.Class != "fatal", unpackChoices(f.Choices), true)
	if verbose {
		fmt.Println(f.Program)
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if r.Fail == nil {
		fmt.Printf("no violation (fingerprint %x)\n", r.Hash)
		return 0
	}
	fmt.Printf("%s: %s (fingerprint %x)\n", r.Fail.Class, r.Fail.Msg, r.Hash)
	if verbose {
		fmt.Println(r.Fail.Stack)
	}
	if r.Fail.Class != f.Class {
		return 3
	}
	return 1
}

type finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // substring of the violation's message
	What     string `json:"what"`
}

func knownFindings(verif, id string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if strings.HasPrefix(l, "known: ") && json.Unmarshal([]byte(strings.TrimPrefix(l, "known: ")), &f) == nil && f.Property == id {
			r = append(r, f)
		}
	}
	return r
}

func spawn(args ...string) (*exec.Cmd, io.ReadCloser, error) {
	return spawnEnv(nil, os.Stderr, args...)
}

// raceBuild is set when the property needs the race detector.
var (
	raceBuild bool
	raceDir   string // for the detector's reports
	raceProcs atomic.Int64
)

func spawnEnv(env []string, stderr io.Writer, args ...string) (*exec.Cmd, io.ReadCloser, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, nil, err
	}
	if raceBuild {
		exe = filepath.Join(filepath.Dir(exe), "simrace")
		env = append(env, raceEnv(filepath.Join(raceDir, fmt.Sprintf("race%d", raceProcs.Add(1)))))
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "TRC_ASSETS_DIR=", "TZ=UTC")
	cmd.Env = append(cmd.Env, env...)
	cmd.Stderr = stderr
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, nil, err
	}
	return cmd, o, cmd.Start()
}

// tail keeps the beginning of what a process wrote.
type tail struct {
	b []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if n := 64<<10 - len(t.b); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	return len(p), nil
}

// died looks into the death of a worker: when the run it was in kills another
// process in the same way, the code under test did it (a fatal error of the Go
// runtime, say, or unbounded memory), and that is a failure like any other.
func died(id string, seed uint64, progress string) *failInfo {
	b, err := os.ReadFile(progress)
	if err != nil {
		return nil
	}
	i, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return nil
	}
	var t tail
	cmd, o, err := spawnEnv(nil, &t, "worker", "-id", id, "-seed", fmt.Sprint(seed), "-from", strconv.Itoa(i), "-count", "1", "-budget", "100s")
	if err != nil {
		return nil
	}
	io.Copy(io.Discard, o)
	if cmd.Wait() == nil {
		return nil
	}
	rs := mixSeed(seed, uint64(i))
	p, c := genRun(scenarios[id], rs)
	return &failInfo{Index: i, Seed: rs, Class: "fatal", Msg: "the process dies: " + clip(string(t.b), 2000), Prog: p, Cfg: c}
}

func check(id, tier string, seed uint64, verif string, nw, count int, budget time.Duration, countSet, budgetSet bool) int {
	sc := scenarios[id]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no scenario for", id)
		return 2
	}
	begin := time.Now()
	if !countSet {
		count = sc.Quick * 2
		if tier == "thorough" {
			count = sc.Quick * 1000
		}
	}
	if !budgetSet {
		budget = 75 * time.Second
		if tier == "thorough" {
			budget = 20 * time.Minute
		}
	}
	fmt.Printf("%s: %s tier, VERIF_SEED=%d, up to %d simulated runs on %d workers, budget %v\n", id, tier, seed, count, nw, budget)
	per := (count + nw - 1) / nw
	raceBuild = sc.Race
	tmp, err := os.MkdirTemp("", "trcverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	raceDir = tmp
	results := make([]*workerResult, nw)
	var wg sync.WaitGroup
	trouble := make([]error, nw)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			progress := filepath.Join(tmp, fmt.Sprint(w))
			var errs tail
			cmd, o, err := spawnEnv([]string{"VERIF_PROGRESS=" + progress}, &errs, "worker", "-id", id, "-seed", fmt.Sprint(seed), "-from", strconv.Itoa(w), "-count", strconv.Itoa(per), "-stride", strconv.Itoa(nw), "-budget", budget.String())
			if err != nil {
				trouble[w] = err
				return
			}
			var r workerResult
			err = json.NewDecoder(o).Decode(&r)
			io.Copy(io.Discard, o)
			if werr := cmd.Wait(); werr != nil {
				if f := died(id, seed, progress); f != nil {
					results[w] = &workerResult{Runs: (f.Index - w) / nw, Fail: f}
					return
				}
				trouble[w] = fmt.Errorf("worker %d: %v\n%s", w, werr, clip(string(errs.b), 4000))
				return
			}
			if err != nil {
				trouble[w] = fmt.Errorf("worker %d: no result: %v", w, err)
				return
			}
			results[w] = &r
		}(w)
	}
	wg.Wait()
	searchWall := time.Since(begin)

	agg := &workerResult{Stats: map[string]int64{}}
	sigs := map[uint64]bool{}
	capped := false
	for w, r := range results {
		if trouble[w] != nil {
			fmt.Fprintln(os.Stderr, "check could not be completed:", trouble[w])
			continue
		}
		agg.Runs += r.Runs
		agg.Steps += r.Steps
		agg.Switches += r.Switches
		agg.SimTime += r.SimTime
		agg.Rerun += r.Rerun
		agg.Differ += r.Differ
		agg.Trivial += r.Trivial
		capped = capped || r.Capped
		for k, v := range r.Stats {
			agg.Stats[k] += v
		}
		for _, s := range r.Sigs {
			sigs[s] = true
		}
		if len(agg.Samples) < 4 {
			agg.Samples = append(agg.Samples, r.Samples...)
		}
		if r.Fail != nil && (agg.Fail == nil || r.Fail.Index < agg.Fail.Index) {
			agg.Fail = r.Fail
		}
	}

	// Determinism: a few seeds again, in a fresh process.
	det := map[string]any{"runs_replayed_from_recorded_decisions": agg.Rerun, "different_fingerprint": agg.Differ}
	if agg.Fail == nil {
		n := 24
		var h [2][]uint64
		for k := 0; k < 2; k++ {
			cmd, o, err := spawn("worker", "-id", id, "-seed", fmt.Sprint(seed), "-from", "0", "-count", strconv.Itoa(n), "-stride", "7", "-in", "rehash", "-budget", "20s")
			if err == nil {
				var r workerResult
				if json.NewDecoder(o).Decode(&r) == nil {
					h[k] = r.Hashes
				}
				cmd.Wait()
			}
		}
		m := len(h[0])
		if len(h[1]) < m {
			m = len(h[1])
		}
		diff := 0
		for i := 0; i < m; i++ {
			if h[0][i] != h[1][i] {
				diff++
			}
		}
		det["runs_repeated_in_other_process"] = m
		det["different_in_other_process"] = diff
		if diff > 0 || agg.Differ > 0 {
			fmt.Printf("note: %d of %d replays and %d of %d repetitions differed from the original run\n", agg.Differ, agg.Rerun, diff, m)
		}
	}

	exit := 0
	violations := 0
	known := knownFindings(verif, id)
	for _, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
	}
	if agg.Fail != nil {
		violations = 1
		path := report(id, seed, verif, agg.Fail)
		fmt.Printf("violation of %s in run %d: %s: %s\n", id, agg.Fail.Index, agg.Fail.Class, clip(agg.Fail.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		exit = 1
	} else {
		for _, e := range trouble {
			if e != nil {
				exit = 2
			}
		}
	}

	faults := map[string]int64{}
	probes := map[string]int64{}
	other := map[string]int64{}
	for k, v := range agg.Stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[strings.TrimPrefix(k, "fault.")] = v
		case strings.HasPrefix(k, "probe."):
			probes[strings.TrimPrefix(k, "probe.")] = v
		default:
			other[k] = v
		}
	}
	wall := searchWall.Seconds()
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(begin).Seconds(), "violations": violations,
		"coverage": map[string]any{
			"evaluations":         agg.Runs,
			"distinct_nontrivial": len(sigs),
			"rule":                "one evaluation is one simulated run: workload, configuration, schedule and faults all derived from mix(VERIF_SEED, run index). Non-trivial: at least one preemption of a running task or one injected fault. Distinct: different fingerprint of the sequence of context switches (from task, yield point, to task).",
			"samples":             agg.Samples,
			"runs_per_hour":       int64(float64(agg.Runs) / wall * 3600), // one seed each
			"simulated_time_s":    agg.SimTime,
			"steps":               agg.Steps,
			"context_switches":    agg.Switches,
			"faults_injected":     faults,
			"conditions_reached":  probes,
			"other_counts":        other,
			"determinism":         det,
			"stopped_by_budget":   capped,
			"components":          sc.Notes,
		},
		"assumptions": []string{
			"yield points lie between statements of the instrumented packages and at every synchronization operation, so interleavings inside a single statement (other than split read-modify-write assignments) are not explored",
			"search is sampling, a quiet run is evidence and not a proof",
		},
	}
	if err := writeJSON(filepath.Join(verif, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial interleavings, %.1f s simulated, %d steps, %.1f s\n", id, agg.Runs, len(sigs), agg.SimTime, agg.Steps, time.Since(begin).Seconds())
	return exit
}

// report writes a replay file, minimised when possible.
func report(id string, seed uint64, verif string, f *failInfo) string {
	dir := filepath.Join(verif, ".build", "replays")
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, seed, f.Index))
	rf := &replayFile{Property: id, Class: f.Class, Message: f.Msg, Stack: f.Stack, Seed: f.Seed, RunIndex: f.Index, BaseSeed: seed, Config: f.Cfg, Program: f.Prog, Choices: f.Choices,
		OrigOps: f.Prog.size(), OrigChoices: len(f.Choices), HowToReplay: "/verif/replay " + path}
	if f.Class == "fatal" {
		rf.Reproducible = true
		writeJSON(path, rf)
		return path
	}
	writeJSON(path, rf)
	tmp := path + ".min"
	if cmd, o, err := spawn("shrink", "-in", path, "-out", tmp, "-budget", "60s"); err == nil {
		io.Copy(os.Stdout, o)
		cmd.Wait()
		var m replayFile
		if readJSON(tmp, &m) == nil {
			// it has to fail the same way in a fresh process
			if cmd, o, err := spawn("replay", "-in", tmp); err == nil {
				io.Copy(io.Discard, o)
				cmd.Wait()
				if cmd.ProcessState.ExitCode() == 1 {
					m.Reproducible = true
					writeJSON(path, &m)
					f.Class, f.Msg = m.Class, m.Message
				}
			}
		}
		os.Remove(tmp)
	}
	return path
}
