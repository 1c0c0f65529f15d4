package main

import (
	"fmt"
	"strings"
)

// A small linearizability checker (Wing and Gong's search with memoization, as
// refined by Lowe). Histories are short by construction; when the search takes
// too long the answer is "unknown", which is never reported as a violation.

type linOp struct {
	inv, ret int64 // ret may be 1<<62 for calls that never returned
	desc     string
	// step applies the operation to the state and reports whether its result is
	// consistent with it.
	step func(s linState) (linState, bool)
}

type linState interface {
	key() string
}

type linResult int

const (
	linOK linResult = iota
	linBad
	linUnknown
)

func linearizable(init linState, ops []linOp, maxSteps int) linResult {
	n := len(ops)
	if n > 64 {
		return linUnknown
	}
	type memoKey struct {
		mask uint64
		st   string
	}
	seen := map[memoKey]bool{}
	steps := 0
	var rec func(mask uint64, s linState) linResult
	rec = func(mask uint64, s linState) linResult {
		if mask == uint64(1)<<uint(n)-1 {
			return linOK
		}
		steps++
		if steps > maxSteps {
			return linUnknown
		}
		k := memoKey{mask, s.key()}
		if seen[k] {
			return linBad
		}
		seen[k] = true
		// the earliest return among the pending operations bounds who may be next
		min := int64(1 << 62)
		for i := range ops {
			if mask&(1<<uint(i)) == 0 && ops[i].ret < min {
				min = ops[i].ret
			}
		}
		for i := range ops {
			if mask&(1<<uint(i)) != 0 || ops[i].inv > min {
				continue
			}
			ns, ok := ops[i].step(s)
			if !ok {
				continue
			}
			switch rec(mask|1<<uint(i), ns) {
			case linOK:
				return linOK
			case linUnknown:
				return linUnknown
			}
		}
		return linBad
	}
	if n == 64 {
		return linUnknown
	}
	return rec(0, init)
}

func describeOps(ops []linOp) string {
	var b strings.Builder
	for _, o := range ops {
		r := fmt.Sprint(o.ret)
		if o.ret >= 1<<62 {
			r = "-"
		}
		fmt.Fprintf(&b, "\n  [%d,%s] %s", o.inv, r, o.desc)
	}
	return b.String()
}
