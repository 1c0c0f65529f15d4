package main

import (
	"fmt"
	"os"
	"time"

	"trcsim/rt"
)

type shrinker struct {
	sc    *Scenario
	class string
	end   time.Time
	tried int
}

func (s *shrinker) left() bool { return time.Now().Before(s.end) }

func (s *shrinker) fails(p *Prog, c RunCfg, ch map[rt.Key]uint32) *Result {
	s.tried++
	r := execute(s.sc, p, c, true, ch, false)
	if r.Fail != nil && r.Fail.Class == s.class {
		return r
	}
	return nil
}

// search tries other schedules for a smaller program.
func (s *shrinker) search(p *Prog, c RunCfg, n int) (RunCfg, *Result) {
	for i := 0; i < n && s.left(); i++ {
		s.tried++
		cc := c
		cc.Seed = mixSeed(c.Seed, uint64(i)+1000)
		g := &G{}
		g.Seed(cc.Seed)
		cc.Strategy = genStrategy(g)
		r := execute(s.sc, p, cc, false, nil, false)
		if r.Fail != nil && r.Fail.Class == s.class {
			return cc, r
		}
	}
	return c, nil
}

func without(p *Prog, drop map[int]bool) *Prog {
	q := &Prog{Cfg: p.Cfg}
	for _, t := range p.Tasks {
		var nt []Op
		for _, o := range t {
			if !drop[o.ID] {
				nt = append(nt, o)
			}
		}
		q.Tasks = append(q.Tasks, nt)
	}
	return q
}

func shrinkMain(in, out string, budget time.Duration) int {
	var f replayFile
	if err := readJSON(in, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := scenarios[f.Property]
	tick, stop := watchdog(func() string { return "shrinking " + in })
	defer stop()
	s := &shrinker{sc: sc, class: f.Class, end: time.Now().Add(budget)}
	p, c, dec := f.Program, f.Config, unpackChoices(f.Choices)
	best := s.fails(p, c, dec)
	if best == nil {
		fmt.Println("the recorded run does not fail again when replayed")
		return 1
	}
	dec = best.Choices
	// operations
	for changed := true; changed && s.left(); {
		changed = false
		for size := p.size() / 2; size >= 1 && s.left(); size /= 2 {
			var ids []int
			for _, t := range p.Tasks {
				for _, o := range t {
					ids = append(ids, o.ID)
				}
			}
			for i := 0; i < len(ids) && s.left(); i += size {
				tick()
				drop := map[int]bool{}
				for j := i; j < i+size && j < len(ids); j++ {
					drop[ids[j]] = true
				}
				q := without(p, drop)
				if q.size() == p.size() {
					continue
				}
				if r := s.fails(q, c, dec); r != nil {
					p, dec, best, changed = q, r.Choices, r, true
					continue
				}
				n := 12
				if size == 1 {
					n = 40
				}
				if cc, r := s.search(q, c, n); r != nil {
					p, c, dec, best, changed = q, cc, r.Choices, r, true
				}
			}
		}
	}
	// decisions
	keys := packChoices(dec)
	for size := len(keys) / 2; size >= 1 && s.left(); {
		removed := false
		for i := 0; i < len(keys) && s.left(); {
			tick()
			j := i + size
			if j > len(keys) {
				j = len(keys)
			}
			rest := append(append([]ch{}, keys[:i]...), keys[j:]...)
			if r := s.fails(p, c, unpackChoices(rest)); r != nil {
				keys = packChoices(r.Choices)
				if len(keys) > len(rest) {
					keys = rest
				}
				best, removed = r, true
			} else {
				i = j
			}
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	tick()
	r := execute(sc, p, c, true, unpackChoices(keys), true)
	if r.Fail == nil || r.Fail.Class != s.class {
		fmt.Println("minimised run did not fail again")
		return 1
	}
	f.Program, f.Config, f.Choices = p, c, packChoices(r.Choices)
	f.Class, f.Message, f.Stack, f.Log = r.Fail.Class, r.Fail.Msg, r.Fail.Stack, r.Log
	if len(f.Log) > 400 {
		f.Log = f.Log[len(f.Log)-400:]
	}
	f.Fingerprint = fmt.Sprintf("%x", r.Hash)
	fmt.Printf("minimised to %d operations and %d decisions (from %d and %d) in %d executions\n", p.size(), len(f.Choices), f.OrigOps, f.OrigChoices, s.tried)
	if err := writeJSON(out, &f); err != nil {
		return 2
	}
	return 0
}
