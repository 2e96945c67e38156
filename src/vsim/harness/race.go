package harness

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"testing"
	"testing/synctest"

	"vsim/simrt"
	"vsim/ssync"
)

// Data races of the driver, found by the race detector in the simulated
// schedule: two accesses of different tasks to the same memory, not ordered by
// the driver's own synchronisation. Only the driver's code reports its accesses.

var (
	raceLogAt    int64
	foreignRaces int // reports with a side that is not the driver's code
)

var (
	raceFrame = regexp.MustCompile(`(?m)^  (\S*golang-neo4j-bolt-driver\S*)\(`)
	raceSide  = regexp.MustCompile(`(?m)^(?:Previous )?(?i:(atomic write|atomic read|write|read)) at 0x`)
)

// raceText is what the detector wrote since the last call.
func raceText() string {
	path := os.Getenv("VSIM_RACELOG")
	if !simrt.Race || path == "" {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= raceLogAt {
		return ""
	}
	b := make([]byte, st.Size()-raceLogAt)
	n, _ := f.ReadAt(b, raceLogAt)
	raceLogAt += int64(n)
	return string(b[:n])
}

// raceSides names the two accesses of a report, nil if one is not the driver's.
func raceSides(txt string) []string {
	if i := strings.Index(txt, "\nGoroutine "); i > 0 {
		txt = txt[:i]
	}
	loc := raceSide.FindAllStringSubmatchIndex(txt, -1)
	if len(loc) != 2 {
		return nil
	}
	var sides []string
	for i, l := range loc {
		end := len(txt)
		if i == 0 {
			end = loc[1][0]
		}
		m := raceFrame.FindStringSubmatch(txt[l[1]:end])
		if m == nil {
			return nil
		}
		sides = append(sides, strings.ToLower(txt[l[2]:l[3]])+" in "+m[1][strings.LastIndex(m[1], "/")+1:])
	}
	sort.Strings(sides)
	return sides
}

func (r *Run) onRace() {
	for _, txt := range strings.Split(raceText(), "WARNING: DATA RACE")[1:] {
		sides := raceSides(txt)
		if sides == nil {
			foreignRaces++
		} else {
			r.violate("data-race", r.raceProps(), "two tasks use the same memory without synchronisation: %s", strings.Join(sides, ", "))
			return
		}
	}
}

func (r *Run) raceProps() []string {
	p := []string{"C17"}
	if r.Sc.Pool != nil {
		p = append(p, "C09", "C10", "C11")
	}
	return p
}

// raceTest makes sure that the detector reports a race and no more, with the
// one package of the driver that is certain to be there.
func raceTest(t *testing.T) {
	n := 0
	for i := 0; i < 2; i++ {
		var mu ssync.Mutex
		synctest.Test(t, func(t *testing.T) {
			S := simrt.New(simrt.Config{Seed: 1})
			var buf bytes.Buffer
			for j := 0; j < 2; j++ {
				S.Spawn("t", false, func() {
					if i == 0 {
						mu.Lock()
						defer mu.Unlock()
					}
					buf.WriteString("x")
				})
			}
			S.Run()
			n += S.Races
			if i == 0 && n > 0 {
				t.Fatal("a lock is not seen")
			}
		})
	}
	if n == 0 || !strings.Contains(raceText(), "WARNING: DATA RACE") {
		t.Fatal("a race is not seen")
	}
	fmt.Println("RACETEST ok")
}
