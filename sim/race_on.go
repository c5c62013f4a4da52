//go:build race

package main

// The build with the race detector.  Simulated threads run one at a time, but the detector is told nothing about the
// simulator's passing the turn on: it sees only the ordering that the code under test itself establishes.  Two
// conflicting accesses without any are reported whatever the schedule was.

import (
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"unsafe"
)

const raceBuild = true

var raceSync int
var raceMain uintptr
var raceSeen int
var raceRead int

// What the simulator does on a simulated thread counts as done by the simulator's own goroutine.
func raceEnter() uintptr  { return runtime.SimRaceCtx(raceMain) }
func raceLeave(c uintptr) { runtime.SimRaceCtx(c) }

func raceEnd()  { runtime.RaceReleaseMerge(unsafe.Pointer(&raceSync)) }
func raceJoin() { runtime.RaceAcquire(unsafe.Pointer(&raceSync)) }
func raceStart() {
	raceMain = runtime.SimRaceCtx(0)
	raceJoin()
	raceSeen = runtime.RaceErrors()
	raceReports()
}

// raceReports returns what the detector has written since the last time.
func raceReports() string {
	dir := os.Getenv("VERIF_RACE_LOG")
	if dir == "" {
		return ""
	}
	l, _ := filepath.Glob(dir + "." + itoa(os.Getpid()))
	if len(l) == 0 {
		return ""
	}
	f, err := os.Open(l[0])
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, 1<<20)
	n, _ := f.ReadAt(b, int64(raceRead))
	raceRead += n
	return string(b[:n])
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

var raceFrame = regexp.MustCompile(`(?m)^  ([^\s(]\S*)\(\)\n      (\S+?)(?: \+0x[0-9a-f]+)?$`)

// raceVerdict makes a violation of the first report about two accesses of the code under test.
func raceVerdict(r *RunResult) {
	if r.Viol != nil || r.Herr != "" {
		return
	}
	r.Nontrivial = r.Stats["preemptions"] > 1
	n := runtime.RaceErrors()
	r.Stats["race_reports_looked_at"] += n - raceSeen
	if n == raceSeen {
		return
	}
	for _, rep := range strings.Split(raceReports(), "==================") {
		if msg := raceOf(rep); msg != "" {
			r.Viol = &Violation{Class: "race", Msg: msg}
			return
		}
	}
}

// raceOf returns what is wrong in one report, or "" if an access is the simulator's own.
func raceOf(rep string) string {
	i := strings.Index(rep, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	var at []string
	for _, part := range strings.Split(rep[i:], "\n\n") {
		part = strings.TrimPrefix(part, "WARNING: DATA RACE\n")
		head := strings.SplitN(part, "\n", 2)[0]
		low := strings.ToLower(head)
		if !strings.Contains(low, "read at ") && !strings.Contains(low, "write at ") {
			continue
		}
		who := ""
		for _, m := range raceFrame.FindAllStringSubmatch(part, -1) {
			if strings.HasPrefix(m[1], "main.") {
				return ""
			}
			if strings.Contains(m[1], "topolith/") {
				who = m[1]
				break
			}
		}
		if who == "" || strings.Contains(who, "verifReset") {
			return ""
		}
		kind := "read"
		if strings.Contains(low, "write at ") {
			kind = "write"
		}
		at = append(at, kind+" in "+who)
	}
	if len(at) != 2 {
		return ""
	}
	return "two goroutines use the same memory without synchronisation: " + at[0] + " and " + at[1]
}
