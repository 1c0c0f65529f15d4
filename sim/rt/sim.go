// Package rt is the deterministic simulation runtime: it owns task scheduling,
// the simulated clock, channel operations and every random decision.
//
// Exactly one task runs at any time. Tasks are real goroutines, but each is
// parked on a private channel unless the scheduler has handed it the baton; who
// gets the baton is decided only by the run's Decider.
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Used lets instrumented files reference the package unconditionally.
const Used = 0

// Key identifies a decision point: the K-th decision of kind Tag made by a
// task during one of its operations. Keys stay meaningful when other
// operations are removed by the shrinker.
type Key struct {
	Task, Op, Tag, K uint32
}

// Tags of decisions.
const (
	TagSched uint32 = iota // context switch at a yield point: 1+index of the chosen candidate
	TagBlock               // forced switch because the current task blocked or ended
	TagSelect
	TagMap
	TagPool
	TagFault // first of the tags free for use by environments
)

// FirstSite is the first number of yield points other than synchronization points.
const FirstSite = 1000

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked
	stDead
)

// Task is one simulated thread of control.
type Task struct {
	ID     int
	Name   string
	Daemon bool // environment task: does not keep the run alive, is no leak
	Sys    bool // created by a go statement (or timer) in the code under test
	op     uint32
	counts []uint32 // per tag, since the start of the current op
	state  taskState
	ready  func() bool
	why    string
	wake   chan struct{}
	prio   int
	kill   bool
	noPre  int
	end    byte // race annotation: what the task did
}

type timerEntry struct {
	when int64
	seq  uint64
	f    func()
	idx  int
}

type timerHeap []*timerEntry

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx, h[j].idx = i, j }
func (h *timerHeap) Push(x any)   { e := x.(*timerEntry); e.idx = len(*h); *h = append(*h, e) }
func (h *timerHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	e.idx = -1
	*h = o[:len(o)-1]
	return e
}

// Failure is a violation or an internal problem of a run.
type Failure struct {
	Class string // stable: used to decide whether a shrunk run fails the same way
	Msg   string
	Stack string
}

// Strategy selects how the scheduler picks interleavings when generating.
type Strategy struct {
	Kind     int     // 0 random walk, 1 PCT (priorities with change points), 2 no preemption at all, 3 random walk over synchronization points
	P        float64 // random walk: preemption probability per yield
	Depth    int     // PCT: number of priority change points
	Horizon  int     // PCT: steps over which the change points are spread
	TimeRace float64 // probability, per preemption, of letting the next timer fire first
}

// Config of one run.
type Config struct {
	Seed     uint64
	Strategy Strategy
	MaxSteps int64
	Tick     int64 // ns by which the clock advances on every reading
	PoolMode int   // 0 LIFO reuse, 1 FIFO reuse, 2 random drops (GC), 3 never reuses
	Replay   bool
	Choices  map[Key]uint32 // replay only
	KeepLog  bool
}

// Sim is one simulated run.
type Sim struct {
	cfg    Config
	rng    Rand
	srng   Rand // scheduling
	tasks  []*Task
	nextID int
	cur    *Task
	done   chan struct{}
	ended  bool
	dying  bool

	mono    int64 // ns since start of run
	wallOff int64 // wall = base + mono + wallOff
	timers  timerHeap
	seq     uint64

	Steps    int64
	Switches int64
	countdn  int64
	nextChg  []int64
	lowPrio  int
	recheck  bool

	chosen   tab[Key, uint32]
	stats    tab[string, int64]
	hash     uint64
	schedSig uint64
	Log      []string
	fail     *Failure
	root     *Task
	Stats    map[string]int64

	chans  tab[uintptr, *chanState]
	ptrs   tab[uintptr, ptrEntry]
	chanID int
	EvSeq  int64 // global event sequence for histories

	cand        []*Task
	exited      chan struct{}
	inTimer     int
	calm        bool
	TimersFired int64
	raceEnd     byte
	idle        int
	purge       []func()
}

// S is the current run, nil outside of runs.
var S *Sim

// RunCount numbers runs within the process, so lazily reset state (pools) can
// notice a new run.
var RunCount uint64

type resetFn struct {
	name string
	f    func()
}

var resets []resetFn

// RegisterReset registers a function re-initialising package state between runs.
func RegisterReset(name string, f func()) { resets = append(resets, resetFn{name, f}) }

// Zero resets a variable to its zero value.
//
//go:norace
func Zero[T any](p *T) {
	var z T
	*p = z
}

// wallBase is the simulated epoch: 2024-01-02 03:04:05 UTC.
const wallBase = 1704164645 * int64(1e9)

// Run executes root as the first task of a new run, and returns when the root
// task and all non-daemon tasks it chose to wait for are done, or on failure.
func Run(cfg Config, root func()) *Sim {
	s := &Sim{
		cfg:      cfg,
		done:     make(chan struct{}, 1),
		exited:   make(chan struct{}, 1),
		Stats:    map[string]int64{},
		hash:     1469598103934665603,
		schedSig: 1469598103934665603,
	}
	s.chosen.hash, s.stats.hash, s.chans.hash, s.ptrs.hash = hashKey, hashStr, hashPtr, hashPtr
	s.rng.Seed(cfg.Seed*2 + 1)
	s.srng.Seed(cfg.Seed*2 + 0x9e3779b97f4a7c15)
	RunCount++
	S = nil
	resetSeed = cfg.Seed
	for _, r := range resets {
		r.f()
	}
	s.initStrategy()
	S = s
	t := s.newTask("root", false)
	s.root = t
	s.cur = t
	go s.taskMain(t, root)
	raceDisable()
	t.wake <- struct{}{}
	<-s.done
	raceEnable()
	// Tear down whatever is still parked.
	s.dying = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stDead {
			continue
		}
		t.kill = true
		s.cur = t
		raceDisable()
		t.wake <- struct{}{}
		<-s.exited
		raceEnable()
	}
	RaceAcquire(unsafe.Pointer(&s.raceEnd))
	for i, u := range s.stats.used {
		if u {
			s.Stats[s.stats.keys[i]] = s.stats.vals[i]
		}
	}
	S = nil
	return s
}

func (s *Sim) initStrategy() {
	st := s.cfg.Strategy
	s.countdn = 1 << 62
	if s.cfg.Replay {
		return
	}
	switch st.Kind {
	case 0, 3:
		s.countdn = s.geom(st.P)
	case 1:
		h := int64(st.Horizon)
		if h <= 0 {
			h = 1000
		}
		for i := 0; i < st.Depth; i++ {
			s.nextChg = append(s.nextChg, 1+int64(s.srng.Intn(int(h))))
		}
		sort.Slice(s.nextChg, func(i, j int) bool { return s.nextChg[i] < s.nextChg[j] })
	}
}

func (s *Sim) geom(p float64) int64 {
	if p <= 0 {
		return 1 << 62
	}
	if p >= 1 {
		return 1
	}
	n := int64(1)
	// inverse transform on a coarse float
	u := s.srng.Float64()
	q := 1.0
	for {
		q *= 1 - p
		if u > q || n > 1<<20 {
			return n
		}
		n++
	}
}

func (s *Sim) newTask(name string, daemon bool) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Daemon: daemon, wake: make(chan struct{}, 1), state: stRunnable, counts: make([]uint32, 16)}
	if s.cfg.Strategy.Kind == 1 && !s.cfg.Replay {
		t.prio = 1 + s.srng.Intn(1<<20)
	}
	s.tasks = append(s.tasks, t)
	s.recheck = true
	return t
}

func (s *Sim) taskMain(t *Task, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer func() {
		t.state = stDead
		RaceRelease(unsafe.Pointer(&t.end))
		RaceReleaseMerge(unsafe.Pointer(&s.raceEnd))
		if s.dying {
			if !normal {
				recover()
			}
			raceDisable()
			s.exited <- struct{}{}
			raceEnable()
			return
		}
		if !normal {
			if x := recover(); x != nil {
				s.setFail("panic", fmt.Sprintf("panic in task %q: %v", t.Name, x), string(debug.Stack()))
				s.finish()
				return
			}
			// runtime.Goexit from failing code
			if s.ended {
				return
			}
		}
		if t == s.root {
			s.finish()
			return
		}
		s.switchAway(t)
	}()
	if t.kill {
		runtime.Goexit()
	}
	f()
	normal = true
}

func (s *Sim) finish() {
	if s.ended {
		return
	}
	s.ended = true
	raceDisable()
	s.done <- struct{}{}
	raceEnable()
}

func (s *Sim) setFail(class, msg, stack string) {
	if s.fail == nil {
		s.fail = &Failure{Class: class, Msg: msg, Stack: stack}
	}
}

// Fail records a violation and ends the run. It does not return.
func Fail(class, format string, args ...any) {
	s := S
	if s == nil {
		panic("rt.Fail outside of a run: " + fmt.Sprintf(format, args...))
	}
	if s.dying {
		runtime.Goexit()
	}
	s.setFail(class, fmt.Sprintf(format, args...), "")
	s.abort()
}

// abort ends the run from the current task.
func (s *Sim) abort() {
	t := s.cur
	s.ended = true
	raceDisable()
	s.done <- struct{}{}
	<-t.wake // killed by Run
	raceEnable()
	runtime.Goexit()
}

// Failure returns the run's failure, if any.
func (s *Sim) Failure() *Failure { return s.fail }

// SetFailure lets a post-run check report a violation.
func (s *Sim) SetFailure(class, msg string) { s.setFail(class, msg, "") }

// Choices returns the non-default decisions of the run.
func (s *Sim) Choices() map[Key]uint32 {
	m := make(map[Key]uint32, s.chosen.n)
	for i, u := range s.chosen.used {
		if u {
			m[s.chosen.keys[i]] = s.chosen.vals[i]
		}
	}
	return m
}

// Hash fingerprints the execution (all decisions, switches and noted events).
func (s *Sim) Hash() uint64 { return s.hash }

// SchedSig fingerprints the interleaving alone.
func (s *Sim) SchedSig() uint64 { return s.schedSig }

func (s *Sim) mix(v uint64) { s.hash = (s.hash ^ v) * 1099511628211 }

// Note adds to the run's event log and fingerprint.
func Note(format string, args ...any) {
	s := S
	if s == nil || s.dying {
		return
	}
	str := fmt.Sprintf(format, args...)
	for i := 0; i < len(str); i++ {
		s.hash = (s.hash ^ uint64(str[i])) * 1099511628211
	}
	if s.cfg.KeepLog {
		s.Log = append(s.Log, fmt.Sprintf("[%d t=%v %s] %s", s.EvSeq, fmtDur(s.mono), s.curName(), str))
	}
}

// Logf adds to the run's event log only.
func Logf(format string, args ...any) {
	if s := S; s != nil && !s.dying && s.cfg.KeepLog {
		s.Log = append(s.Log, fmt.Sprintf("[%d t=%v %s] ", s.EvSeq, fmtDur(s.mono), s.curName())+fmt.Sprintf(format, args...))
	}
}

func fmtDur(ns int64) string { return fmt.Sprintf("%d.%06dms", ns/1e6, ns%1e6) }

func (s *Sim) curName() string {
	if s.cur == nil {
		return "-"
	}
	return s.cur.Name
}

// Count adds n to a named statistic of the run.
func Count(name string, n int64) {
	if s := S; s != nil && !s.dying {
		*s.stats.at(name) += n
	}
}

// Seq returns the next global event sequence number.
func Seq() int64 {
	s := S
	s.EvSeq++
	return s.EvSeq
}

// ---------------------------------------------------------------- decisions

func (s *Sim) key(t *Task, tag uint32) Key {
	for int(tag) >= len(t.counts) {
		t.counts = append(t.counts, 0)
	}
	k := Key{uint32(t.ID), t.op, tag, t.counts[tag]}
	t.counts[tag]++
	return k
}

// BeginOp marks the start of operation number op of the current task, for
// stable decision keys.
func BeginOp(op int) {
	s := S
	if s == nil || s.dying {
		return
	}
	t := s.cur
	t.op = uint32(op)
	for i := range t.counts {
		t.counts[i] = 0
	}
}

// Choose picks a number in [0,n). 0 is the default (benign) choice, used by
// replays when no other choice is on record.
func Choose(tag uint32, n int) int {
	s := S
	if s == nil || s.dying || n <= 1 {
		return 0
	}
	k := s.key(s.cur, tag)
	var v uint32
	if s.cfg.Replay {
		v = s.cfg.Choices[k]
		if int(v) >= n {
			v = uint32(n - 1)
		}
	} else {
		v = uint32(s.rng.Intn(n))
	}
	if v != 0 {
		*s.chosen.at(k) = v
	}
	s.mix(uint64(tag)<<32 | uint64(v))
	return int(v)
}

// Chance is true with probability p.
func Chance(tag uint32, p float64) bool {
	s := S
	if s == nil || s.dying || p <= 0 {
		return false
	}
	k := s.key(s.cur, tag)
	var v bool
	if s.cfg.Replay {
		v = s.cfg.Choices[k] != 0
	} else {
		v = s.rng.Float64() < p
	}
	if v {
		*s.chosen.at(k) = 1
		s.mix(uint64(tag)<<32 | 7)
	}
	return v
}

// ---------------------------------------------------------------- scheduling

// Y is a yield point at which the scheduler may preempt the current task.
func Y(site uint32) {
	s := S
	if s == nil || s.dying {
		return
	}
	s.yield(site)
}

func (s *Sim) yield(site uint32) {
	if s.inTimer > 0 {
		return
	}
	s.Steps++
	if s.Steps > s.cfg.MaxSteps {
		s.setFail("livelock", fmt.Sprintf("run exceeded %d steps; current task %q\n%s", s.cfg.MaxSteps, s.curName(), s.dump()), string(debug.Stack()))
		s.abort()
	}
	t := s.cur
	if t.noPre > 0 {
		return
	}
	if s.cfg.Replay {
		k := s.key(t, TagSched)
		v, ok := s.cfg.Choices[k]
		if !ok {
			return
		}
		*s.chosen.at(k) = v
		s.preempt(site, int(v)-1)
		return
	}
	switch s.cfg.Strategy.Kind {
	case 0, 3:
		// key counters must advance identically in generation and replay
		k := s.key(t, TagSched)
		if s.cfg.Strategy.Kind == 3 && site >= FirstSite {
			return
		}
		s.countdn--
		if s.countdn > 0 {
			return
		}
		s.countdn = s.geom(s.cfg.Strategy.P)
		if s.cfg.Strategy.TimeRace > 0 && !s.calm && len(s.timers) > 0 && s.srng.Float64() < s.cfg.Strategy.TimeRace {
			*s.chosen.at(k) = timeRaceChoice + 1
			s.preempt(site, timeRaceChoice)
			return
		}
		c := s.candidates(t)
		if len(c) == 0 {
			return
		}
		i := s.srng.Intn(len(c))
		*s.chosen.at(k) = uint32(i + 1)
		s.preempt(site, i)
	case 1:
		k := s.key(t, TagSched)
		if len(s.nextChg) > 0 && s.Steps >= s.nextChg[0] {
			s.nextChg = s.nextChg[1:]
			s.lowPrio--
			t.prio = s.lowPrio
			s.recheck = true
			if s.cfg.Strategy.TimeRace > 0 && !s.calm && len(s.timers) > 0 && s.srng.Float64() < s.cfg.Strategy.TimeRace {
				*s.chosen.at(k) = timeRaceChoice + 1
				s.preempt(site, timeRaceChoice)
				return
			}
		}
		if !s.recheck {
			return
		}
		s.recheck = false
		c := s.candidates(t)
		best := -1
		for i, x := range c {
			if x.prio > t.prio && (best < 0 || x.prio > c[best].prio) {
				best = i
			}
		}
		if best < 0 {
			return
		}
		*s.chosen.at(k) = uint32(best + 1)
		s.recheck = true
		s.preempt(site, best)
	default:
		s.key(t, TagSched)
	}
}

const timeRaceChoice = 1 << 20

// candidates lists the other tasks that could run now, in ID order.
func (s *Sim) candidates(self *Task) []*Task {
	c := s.cand[:0]
	live := s.tasks[:0]
	for _, t := range s.tasks {
		if t.state == stDead {
			continue
		}
		live = append(live, t)
		if t == self {
			continue
		}
		if t.state == stBlocked {
			if t.ready == nil || !t.ready() {
				continue
			}
		}
		c = append(c, t)
	}
	s.tasks = live
	s.cand = c
	return c
}

func (s *Sim) preempt(site uint32, i int) {
	t := s.cur
	if i >= timeRaceChoice {
		if len(s.timers) == 0 {
			return
		}
		s.mix(uint64(t.ID)<<40 | 0xfffff)
		*s.stats.at("sched.timer_first") += 1
		s.advanceToTimer()
		return
	}
	c := s.candidates(t)
	if len(c) == 0 {
		return
	}
	if i >= len(c) {
		i = len(c) - 1
	}
	n := c[i]
	s.mix(uint64(t.ID)<<40 | uint64(site)<<8 | uint64(n.ID))
	s.schedSig = (s.schedSig ^ (uint64(t.ID)<<40 | uint64(site)<<8 | uint64(n.ID))) * 1099511628211
	*s.stats.at("sched.preemptions") += 1
	s.handTo(n, t)
}

// handTo passes the baton from t to n and waits until t gets it back.
func (s *Sim) handTo(n, t *Task) {
	s.Switches++
	if n.state == stBlocked {
		n.state = stRunnable
	}
	s.cur = n
	raceDisable()
	n.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if t.kill {
		runtime.Goexit()
	}
}

// switchAway is called by a task that ended.
func (s *Sim) switchAway(t *Task) {
	n := s.pickNext(t)
	if n == nil {
		return
	}
	s.Switches++
	if n.state == stBlocked {
		n.state = stRunnable
	}
	s.cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// pickNext chooses the next task when the current one cannot continue,
// advancing time as needed. It returns nil when the run has ended (deadlock).
func (s *Sim) pickNext(t *Task) *Task {
	for {
		c := s.candidates(nil)
		if t.state == stDead || t.state == stBlocked {
			// t itself may be a candidate if it became ready
		}
		if len(c) == 0 {
			if len(s.timers) > 0 && s.idle < 100000 {
				s.idle++
				s.advanceToTimer()
				continue
			}
			s.setFail("deadlock", "no task can run, and no pending timer changes that\n"+s.dump(), "")
			s.finish()
			return nil
		}
		s.idle = 0
		k := s.key(t, TagBlock)
		i := 0
		if s.cfg.Replay {
			i = int(s.cfg.Choices[k])
			if i >= len(c) {
				i = len(c) - 1
			}
		} else {
			switch s.cfg.Strategy.Kind {
			case 1:
				for j, x := range c {
					if x.prio > c[i].prio {
						i = j
					}
				}
			case 2:
				i = 0
			default:
				i = s.srng.Intn(len(c))
			}
		}
		if i != 0 {
			*s.chosen.at(k) = uint32(i)
		}
		s.mix(uint64(t.ID)<<40 | 0xeeee<<8 | uint64(c[i].ID))
		s.schedSig = (s.schedSig ^ (uint64(t.ID)<<40 | 0xeeee<<8 | uint64(c[i].ID))) * 1099511628211
		return c[i]
	}
}

// Block parks the current task until ready returns true. ready is evaluated by
// the scheduler and must have no effects other than moving received values.
func Block(why string, ready func() bool) {
	s := S
	if s == nil {
		if !ready() {
			panic("simulated operation would block outside of a run: " + why)
		}
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	t := s.cur
	s.Steps++
	if s.Steps > s.cfg.MaxSteps {
		s.setFail("livelock", fmt.Sprintf("run exceeded %d steps; current task %q\n%s", s.cfg.MaxSteps, s.curName(), s.dump()), "")
		s.abort()
	}
	t.state = stBlocked
	t.ready = ready
	t.why = why
	s.recheck = true
	n := s.pickNext(t)
	if n == nil {
		raceDisable()
		<-t.wake
		raceEnable()
		runtime.Goexit()
	}
	if n == t {
		t.state = stRunnable
		t.ready = nil
		return
	}
	s.handTo(n, t)
	t.ready = nil
	t.state = stRunnable
}

// OnPurge registers a function which drops what a pool of the current run holds.
func OnPurge(f func()) {
	if s := S; s != nil && !s.dying {
		s.purge = append(s.purge, f)
	}
}

// Purge empties all pools, as a garbage collection may do.
func Purge() {
	s := S
	if s == nil || s.dying {
		return
	}
	for _, f := range s.purge {
		f()
	}
	s.purge = nil
	s.mix(0x9c)
}

// Forget drops what the simulator itself keeps about tasks which have ended.
func Forget() {
	s := S
	if s == nil || s.dying {
		return
	}
	s.candidates(nil)
	for i := len(s.tasks); i < cap(s.tasks); i++ {
		s.tasks[:cap(s.tasks)][i] = nil
	}
	for i := range s.cand[:cap(s.cand)] {
		s.cand[:cap(s.cand)][i] = nil
	}
}

// Dying reports that the run is being torn down: operations must not block.
func Dying() bool { return S != nil && S.dying }

// Active reports whether a run is in progress.
func Active() bool { return S != nil && !S.dying }

// SyncPoint is a yield at a synchronization operation.
func SyncPoint(site uint32) {
	s := S
	if s == nil || s.dying {
		return
	}
	s.recheck = true
	s.yield(site)
}

// AtomicPoint is SyncPoint for the simulated atomics, the only part of the
// simulator compiled with the race detector.
//
//go:noinline
func AtomicPoint(site uint32) { SyncPoint(site) }

// Wake tells the scheduler that blocked tasks may have become ready.
func Wake() {
	if s := S; s != nil {
		s.recheck = true
	}
}

// YV yields between the evaluation of v and its use.
//
//go:norace
func YV[T any](site uint32, v T) T {
	Y(site)
	return v
}

// NoPreempt runs f without preemption at yield points (it may still block).
func NoPreempt(f func()) {
	s := S
	if s == nil {
		f()
		return
	}
	t := s.cur
	t.noPre++
	defer func() { t.noPre-- }()
	f()
}

// Go starts a task for a go statement of the code under test.
func Go(f func()) {
	s := S
	if s == nil {
		panic("go statement outside of a run")
	}
	if s.dying {
		return
	}
	t := s.newTask(fmt.Sprintf("%s/g%d", s.cur.Name, s.nextID+1), s.cur.Daemon)
	t.Sys = true
	Count("tasks.sys", 1)
	go s.taskMain(t, f)
	SyncPoint(1)
}

// Spawn starts a harness task.
func Spawn(name string, daemon bool, f func()) *Task {
	s := S
	t := s.newTask(name, daemon)
	go s.taskMain(t, f)
	return t
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.state == stDead }

// Why describes what the task is blocked on.
func (t *Task) Why() string {
	if t.state == stBlocked {
		return t.why
	}
	return "runnable"
}

// Cur returns the current task.
func Cur() *Task { return S.cur }

// Join blocks until all given tasks have ended.
func Join(ts ...*Task) {
	Block("join", func() bool {
		for _, t := range ts {
			if t.state != stDead {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		RaceAcquire(unsafe.Pointer(&t.end))
	}
}

// SysTasks returns the live tasks that were created by the code under test.
func SysTasks() []*Task {
	var r []*Task
	for _, t := range S.tasks {
		if t.state != stDead && t.Sys {
			r = append(r, t)
		}
	}
	return r
}

// Quiesce blocks until no other task can run without time passing.
func Quiesce() {
	s := S
	self := s.cur
	Block("quiesce", func() bool {
		for _, t := range s.tasks {
			if t == self || t.state == stDead {
				continue
			}
			if t.state == stRunnable {
				return false
			}
			if t.ready != nil && t.why != "quiesce" && t.ready() {
				return false
			}
		}
		return true
	})
}

func (s *Sim) dump() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.state == stDead {
			continue
		}
		fmt.Fprintf(&b, "  task %d %q: %s\n", t.ID, t.Name, t.Why())
	}
	return b.String()
}

// Dump describes all live tasks.
func Dump() string { return S.dump() }

// ---------------------------------------------------------------- time

func (s *Sim) advanceToTimer() {
	e := heap.Pop(&s.timers).(*timerEntry)
	if e.when > s.mono {
		s.mono = e.when
	}
	s.fire(e)
}

// fire runs a timer's callback, which may use operations with yield points but
// is never preempted at them.
func (s *Sim) fire(e *timerEntry) {
	s.TimersFired++
	s.inTimer++
	RaceAcquire(unsafe.Pointer(&e.seq))
	e.f()
	s.inTimer--
	s.recheck = true
}

func (s *Sim) fireDue() {
	for len(s.timers) > 0 && s.timers[0].when <= s.mono {
		s.fire(heap.Pop(&s.timers).(*timerEntry))
	}
}

// Timer is a handle on a scheduled callback.
type Timer struct{ e *timerEntry }

// AddTimer schedules f (which must not block or yield) after d ns.
func AddTimer(d int64, f func()) *Timer {
	s := S
	if s == nil || s.dying {
		return &Timer{&timerEntry{idx: -1}}
	}
	if d < 0 {
		d = 0
	}
	s.seq++
	e := &timerEntry{when: s.mono + d, seq: s.seq, f: f}
	RaceRelease(unsafe.Pointer(&e.seq))
	if e.when < s.mono { // overflow
		e.when = 1<<63 - 1
	}
	heap.Push(&s.timers, e)
	return &Timer{e}
}

// Stop cancels the timer and reports whether it was still pending.
func (t *Timer) Stop() bool {
	s := S
	if s == nil || t.e.idx < 0 {
		return false
	}
	heap.Remove(&s.timers, t.e.idx)
	return true
}

// Mono returns the simulated monotonic clock without advancing it.
func Mono() int64 {
	if S == nil {
		return 0
	}
	return S.mono
}

// Wall returns the simulated wall clock (Unix ns) without advancing it.
func Wall() int64 {
	if S == nil {
		return wallBase
	}
	return wallBase + S.mono + S.wallOff
}

// ReadClock advances the clock by the configured tick and returns both clocks.
func ReadClock() (wall, mono int64) {
	s := S
	if s == nil {
		return wallBase, 1
	}
	if !s.dying {
		s.mono += s.cfg.Tick
		s.fireDue()
	}
	return wallBase + s.mono + s.wallOff, s.mono + 1
}

// Advance moves both clocks forward, firing due timers.
func Advance(ns int64) {
	s := S
	if s == nil || s.dying || ns <= 0 {
		return
	}
	s.mono += ns
	s.fireDue()
}

// StepWall steps the wall clock only.
func StepWall(ns int64) {
	s := S
	if s == nil || s.dying {
		return
	}
	s.wallOff += ns
	*s.stats.at("fault.clock_step") += 1
}

// Sleep blocks the current task for d ns of simulated time.
func Sleep(d int64) {
	s := S
	if s == nil || s.dying {
		return
	}
	fired := false
	AddTimer(d, func() { fired = true })
	Block("sleep", func() bool { return fired })
}

// PoolMode returns the pool policy of the run.
func PoolMode() int {
	if S == nil {
		return 3
	}
	return S.cfg.PoolMode
}

var resetSeed uint64

// RunSeed is the seed of the current (or starting) run.
func RunSeed() uint64 { return resetSeed }

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ x uint64 }

// Seed the generator.
func (r *Rand) Seed(s uint64) { r.x = s }

// Uint64 returns the next value.
func (r *Rand) Uint64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Float64 returns a value in [0,1).
func (r *Rand) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// SeqNow returns the current global event sequence number.
func SeqNow() int64 { return S.EvSeq }

// SimTime returns the simulated time of the run so far, in ns.
func (s *Sim) SimTime() int64 { return s.mono }

// Prompt reports that time never passes while a task can run, so that bounds on
// durations can be checked.
func Prompt() bool { return S != nil && S.cfg.Strategy.TimeRace == 0 }

// Calm turns timers firing before runnable tasks had their turn off, or on again.
func Calm(on bool) {
	if S != nil {
		S.calm = on
	}
}
