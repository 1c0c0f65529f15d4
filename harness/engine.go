package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"trcsim/rt"
)

// Op is one operation of a simulated client, or a fault. Its meaning depends on
// the scenario. IDs stay fixed when other operations are removed.
type Op struct {
	ID int    `json:"id"`
	K  string `json:"k"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	C  int    `json:"c,omitempty"`
	D  int    `json:"d,omitempty"`
	S  string `json:"s,omitempty"`
}

func (o Op) String() string {
	return fmt.Sprintf("%d:%s(%d,%d,%d,%d,%q)", o.ID, o.K, o.A, o.B, o.C, o.D, o.S)
}

// Prog is a generated workload: configuration and one list of operations per task.
type Prog struct {
	Cfg   map[string]int `json:"cfg"`
	Tasks [][]Op         `json:"tasks"`
	nid   int
}

func newProg() *Prog { return &Prog{Cfg: map[string]int{}} }

func (p *Prog) add(task int, o Op) {
	for len(p.Tasks) <= task {
		p.Tasks = append(p.Tasks, nil)
	}
	p.nid++
	o.ID = p.nid
	p.Tasks[task] = append(p.Tasks[task], o)
}

func (p *Prog) size() int {
	n := 0
	for _, t := range p.Tasks {
		n += len(t)
	}
	return n
}

func (p *Prog) clone() *Prog {
	b, _ := json.Marshal(p)
	var q Prog
	json.Unmarshal(b, &q)
	return &q
}

func (p *Prog) String() string {
	var b strings.Builder
	keys := make([]string, 0, len(p.Cfg))
	for k := range p.Cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&b, "%s=%d ", k, p.Cfg[k])
	}
	for i, t := range p.Tasks {
		fmt.Fprintf(&b, "| task%d:", i)
		for _, o := range t {
			fmt.Fprintf(&b, " %v", o)
		}
	}
	return b.String()
}

// G generates.
type G struct{ rt.Rand }

func (g *G) n(n int) int           { return g.Intn(n) }
func (g *G) rng(lo, hi int) int    { return lo + g.Intn(hi-lo+1) }
func (g *G) chance(p float64) bool { return g.Float64() < p }
func (g *G) pick(xs ...int) int    { return xs[g.Intn(len(xs))] }
func (g *G) picks(xs ...string) string {
	return xs[g.Intn(len(xs))]
}

// weighted picks an index according to weights.
func (g *G) weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := g.Intn(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// Scenario decides one property.
type Scenario struct {
	ID    string
	Gen   func(g *G) *Prog
	Run   func(p *Prog) // body of the root task
	Steps int64         // step bound, default 400k
	Quick int           // runs in the quick tier
	Race  bool          // needs the race-detector build
	Notes []string      // components: what is real, what is a stand-in
	Tune  func(g *G, c *rt.Config)
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) {
	if s.Steps == 0 {
		s.Steps = 400_000
	}
	scenarios[s.ID] = s
}

// RunCfg is everything besides the program that determines a run.
type RunCfg struct {
	Seed     uint64      `json:"seed"`
	Strategy rt.Strategy `json:"strategy"`
	Tick     int64       `json:"tick"`
	PoolMode int         `json:"pool_mode"`
}

func mixSeed(a, b uint64) uint64 {
	var r rt.Rand
	r.Seed(a*0x9e3779b97f4a7c15 + b)
	r.Uint64()
	return r.Uint64()
}

// genRun derives program and configuration from a seed.
func genRun(sc *Scenario, seed uint64) (*Prog, RunCfg) {
	g := &G{}
	g.Seed(seed)
	g.Uint64()
	p := sc.Gen(g)
	c := RunCfg{Seed: seed, Strategy: genStrategy(g)}
	c.Tick = int64(g.pick(0, 1, 1000, 1000, 100_000, 3_000_000))
	c.PoolMode = g.pick(0, 0, 0, 1, 2, 2, 3)
	if sc.Tune != nil {
		rc := rt.Config{Strategy: c.Strategy, Tick: c.Tick, PoolMode: c.PoolMode}
		sc.Tune(g, &rc)
		c.Strategy, c.Tick, c.PoolMode = rc.Strategy, rc.Tick, rc.PoolMode
	}
	return p, c
}

func genStrategy(g *G) rt.Strategy {
	st := rt.Strategy{}
	switch g.weighted(30, 25, 35, 10) {
	case 0:
		st.Kind = 0
		st.P = []float64{0.003, 0.01, 0.03, 0.1, 0.3}[g.n(5)]
	case 1: // random walk over synchronization points
		st.Kind = 3
		st.P = []float64{0.03, 0.1, 0.25, 0.5}[g.n(4)]
	case 2:
		st.Kind = 1
		st.Depth = g.rng(1, 5)
		st.Horizon = g.pick(300, 1000, 3000, 10000, 30000)
	default:
		st.Kind = 2
	}
	if g.chance(0.3) {
		st.TimeRace = []float64{0.02, 0.1, 0.3}[g.n(3)]
	}
	return st
}

// Result of one run.
type Result struct {
	Fail     *rt.Failure
	Choices  map[rt.Key]uint32
	Hash     uint64
	Sig      uint64
	Steps    int64
	Switches int64
	SimTime  int64
	Stats    map[string]int64
	Log      []string
}

func execute(sc *Scenario, p *Prog, c RunCfg, replay bool, choices map[rt.Key]uint32, keepLog bool) *Result {
	cfg := rt.Config{
		Seed: c.Seed, Strategy: c.Strategy, MaxSteps: sc.Steps, Tick: c.Tick, PoolMode: c.PoolMode,
		Replay: replay, Choices: choices, KeepLog: keepLog,
	}
	s := rt.Run(cfg, func() { sc.Run(p) })
	if r := raceReport(); r != "" {
		s.SetFailure("race", r)
	}
	return &Result{Fail: s.Failure(), Choices: s.Choices(), Hash: s.Hash(), Sig: s.SchedSig(), Steps: s.Steps,
		Switches: s.Switches, SimTime: s.SimTime(), Stats: s.Stats, Log: s.Log}
}
