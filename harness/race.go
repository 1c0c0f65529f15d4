package main

import (
	"os"
	"strings"

	"trcsim/rt"
)

// The race-detector build (simrace) runs the code under test with the Go race
// detector's happens-before tracking. The simulator hands the baton from task to
// task outside of the detector's view, so that the only edges it knows are those
// of the program's own synchronization, and a report means that two accesses are
// unordered, whichever happened first in this schedule.

// raceEnv makes the detector report everything, to a file this process can read.
func raceEnv(log string) string {
	return "GORACE=log_path=" + log + " suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5"
}

var raceSeen struct {
	errors int
	off    int64
}

// raceReport returns the first new report which is about the code under test.
func raceReport() string {
	if !rt.RaceEnabled {
		return ""
	}
	n := rt.RaceErrors()
	if n == raceSeen.errors {
		return ""
	}
	raceSeen.errors = n
	var path string
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			path = p
		}
	}
	f, err := os.Open(path + "." + itoa(os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		return ""
	}
	b := make([]byte, st.Size()-raceSeen.off)
	k, _ := f.ReadAt(b, raceSeen.off)
	raceSeen.off += int64(k)
	for _, rep := range strings.Split(string(b[:k]), "==================") {
		if raceCounts(rep) {
			return strings.TrimSpace(rep)
		}
		if strings.Contains(rep, "DATA RACE") && os.Getenv("VERIF_DEBUG") != "" {
			os.Stderr.WriteString("ignored: " + rep + "\n")
		}
	}
	return ""
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

const repoPath = "github.com/peterbourgon/trc"

// raceCounts decides whether a report is about the code under test: neither
// access is made by the simulator or the harness itself (which are not
// instrumented, but the Go runtime reports on their behalf), and at least one is
// made from within the code under test.
func raceCounts(rep string) bool {
	if !strings.Contains(rep, "DATA RACE") {
		return false
	}
	var stacks [][]string
	var cur []string
	in := false
	for _, l := range strings.Split(rep, "\n") {
		switch {
		case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous "):
			if cur != nil {
				stacks = append(stacks, cur)
			}
			cur, in = []string{}, true
		case strings.HasPrefix(l, "Goroutine "):
			in = false
		case in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      "):
			cur = append(cur, strings.TrimSpace(l))
		}
	}
	if cur != nil {
		stacks = append(stacks, cur)
	}
	if len(stacks) != 2 {
		return false
	}
	ours := 0
	for _, st := range stacks {
		i := 0
		for i < len(st) && (strings.HasPrefix(st[i], "runtime.") || strings.HasPrefix(st[i], "internal/runtime/")) {
			i++
		}
		if i == len(st) || strings.HasPrefix(st[i], "[failed") {
			return false
		}
		top := st[i]
		loop := strings.HasPrefix(top, "trcsim/rt.MapIter") || strings.HasPrefix(top, "trcsim/rt.(*Iter") // a range statement of the code under test
		if !loop && (strings.HasPrefix(top, "trcsim/") || strings.HasPrefix(top, "main.") || strings.HasPrefix(top, "trcharness")) {
			return false
		}
		for _, f := range st {
			if strings.HasPrefix(f, repoPath) {
				ours++
				break
			}
		}
	}
	return ours > 0
}
