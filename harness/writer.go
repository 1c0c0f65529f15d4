package main

import (
	"errors"

	"trcsim/rt"
)

// simWriter is a log destination: it records every write, may yield in the
// middle of one, and may fail.
type simWriter struct {
	name    string
	writes  []wrRec
	mode    int // 0 fine, 1 fails sometimes, 2 short writes sometimes, 3 always fails, 4 slow sometimes, 5 stuck for a while
	noYield bool
	stall   bool // next writes block until released
	fails   int
}

type wrRec struct {
	win
	data string
	n    int
	err  bool
}

var errWriter = errors.New("simulated write error")

func (s *simWriter) Write(p []byte) (int, error) {
	r := wrRec{win: begin(), data: string(p)}
	if !s.noYield {
		rt.Y(901)
	}
	if s.mode == 4 && !s.noYield && rt.Chance(rt.TagFault, 0.3) {
		rt.Count("fault.slow_log", 1)
		rt.Sleep(50e6)
	}
	if s.stall && !s.noYield {
		rt.Count("fault.stuck_log", 1)
		rt.Block("stuck log", func() bool { return !s.stall })
	}
	n, err := len(p), error(nil)
	switch s.mode {
	case 1:
		if rt.Chance(rt.TagFault, 0.3) {
			n, err = 0, errWriter
			rt.Count("fault.log_write_error", 1)
		}
	case 2:
		if len(p) > 0 && rt.Chance(rt.TagFault, 0.3) {
			n, err = len(p)/2, errWriter
			rt.Count("fault.log_short_write", 1)
		}
	case 3:
		n, err = 0, errWriter
		rt.Count("fault.log_write_error", 1)
	}
	if !s.noYield {
		rt.Y(902)
	}
	r.end()
	r.n, r.err = n, err != nil
	s.writes = append(s.writes, r)
	return n, err
}
