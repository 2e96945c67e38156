package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"vsim/simrt"
)

// Report of one worker.
type Report struct {
	Prop      string         `json:"prop"`
	Runs      int            `json:"runs"`
	DryRuns   int            `json:"dry_runs"`
	Calls     int            `json:"calls"`
	Received  int            `json:"statements_received"`
	Steps     uint64         `json:"steps"`
	Switches  uint64         `json:"switches"`
	SimSec    float64        `json:"sim_s"`
	WallSec   float64        `json:"wall_s"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Families  map[string]int `json:"families"`
	Inter     []uint64       `json:"interleavings"` // hashes
	Hist      []uint64       `json:"histories"`
	Rechecked int            `json:"rechecked"`
	Nondet    []uint64       `json:"nondeterministic"`
	Other     map[string]int `json:"other_violations"`
	Samples   []Sample       `json:"samples"`
	Found     *Found         `json:"found,omitempty"`
	Race      bool           `json:"race"`
	Foreign   int            `json:"foreign_races"`
}

type Sample struct {
	Seed   uint64   `json:"seed"`
	Family string   `json:"family"`
	Calls  int      `json:"calls"`
	Ops    []string `json:"ops"`
	Faults []string `json:"faults,omitempty"`
	Hash   string   `json:"hash"`
}

// Found is a violation with its replay.
type Found struct {
	Seed      uint64    `json:"seed"`
	Violation Violation `json:"violation"`
	Hash      string    `json:"hash"`
	ShrinkRun int       `json:"shrink_runs"`
	Original  *Scenario `json:"original,omitempty"`
	Scenario  *Scenario `json:"scenario"`
	Log       []string  `json:"log,omitempty"`
	// A violation that depends on what the process did before: the runs that
	// come first, and where in a worker's series they were found.
	Prefix []*Scenario `json:"prefix,omitempty"`
	From   int         `json:"from"`
	Index  int         `json:"index"`
	Worker int         `json:"worker"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	n, err := strconv.Atoi(env(k, strconv.Itoa(d)))
	if err != nil {
		panic(err)
	}
	return n
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	return (x ^ x>>31) >> 12
}

func setup(t *testing.T) {
	debug.SetMaxStack(256 << 20)
	dir := env("VSIM_CERTS", "")
	if dir == "" {
		dir = t.TempDir()
	}
	if err := InitCerts(dir); err != nil {
		t.Fatal(err)
	}
}

func TestWorker(t *testing.T) {
	switch env("VSIM_MODE", "") {
	case "search":
		setup(t)
		search(t)
	case "replay":
		setup(t)
		replay(t)
	case "series":
		setup(t)
		series(t)
	case "racetest":
		raceTest(t)
	case "known":
		setup(t)
		known(t)
	case "gen":
		setup(t)
		seed, _ := strconv.ParseUint(env("VSIM_SEED", "1"), 10, 64)
		sc := Generate(env("VSIM_PROP", "C01"), seed, func(s *Scenario) *Outcome {
			if env("VSIM_NODRY", "") != "" {
				return &Outcome{}
			}
			return Execute(t, s, false)
		})
		write(t, env("VSIM_OUT", "/dev/stdout"), &Found{Seed: seed, Scenario: sc, Violation: Violation{}})
	default:
		t.Skip("no mode")
	}
}

func write(t *testing.T, path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(path+".tmp", b, 0644); err != nil {
		if err := os.WriteFile(path, b, 0644); err != nil {
			t.Fatal(err)
		}
		return
	}
	os.Rename(path+".tmp", path)
}

func search(t *testing.T) {
	prop := env("VSIM_PROP", "C01")
	base := uint64(envInt("VSIM_SEED", 1))
	wi, wn := envInt("VSIM_WORKER", 0), envInt("VSIM_WORKERS", 1)
	maxRuns := envInt("VSIM_RUNS", 1<<30)
	start := time.Now()
	budget := time.Duration(envInt("VSIM_MS", 5000)) * time.Millisecond
	skip := envInt("VSIM_SKIP", 0)
	only := env("VSIM_CLASS", "")
	keepGoing := env("VSIM_KEEP", "") != ""
	out := env("VSIM_OUT", "/tmp/vsim-out.json")
	cur, err := os.OpenFile(out+".cur", os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0644)
	if err != nil {
		t.Fatal(err)
	}
	rep := &Report{Prop: prop, Race: simrt.Race, Faults: map[string]int{}, Probes: map[string]int{}, Families: map[string]int{}, Other: map[string]int{}}
	dry := func(sc *Scenario) *Outcome {
		rep.DryRuns++
		return Execute(t, sc, false)
	}
	finish := func() {
		rep.Foreign = foreignRaces
		rep.WallSec = time.Since(start).Seconds()
		write(t, out, rep)
	}
	inter := map[uint64]bool{}
	hist := map[uint64]bool{}
	for i := skip; i < maxRuns && time.Since(start) < budget; i++ {
		seed := mix(base, uint64(i*wn+wi))
		cur.WriteAt([]byte(fmt.Sprintf("%020d %d\n", seed, i)), 0)
		sc := Generate(prop, seed, dry)
		t0 := time.Now()
		o := Execute(t, sc, false)
		if d := time.Since(t0); d > time.Second && env("VSIM_SLOW", "") != "" {
			fmt.Printf("slow seed %d fam %s %v steps %d trace %v seg %d\n", seed, sc.Family, d, o.Steps, sc.Trace, sc.Net.Seg)
		}
		rep.Runs++
		rep.Calls += o.Calls
		rep.Received += o.Received
		rep.Steps += o.Steps
		rep.Switches += o.Switches
		rep.SimSec += o.SimTime.Seconds()
		rep.Families[sc.Family]++
		if len(inter) < 400000 {
			inter[o.Inter] = true
		}
		if len(hist) < 400000 {
			hist[o.LogHash] = true
		}
		for k, n := range o.Faults {
			rep.Faults[k] += n
		}
		for k, n := range o.Probes {
			rep.Probes[k] += n
		}
		if len(rep.Samples) < 3 && o.Calls > 3 {
			rep.Samples = append(rep.Samples, sample(seed, sc, o))
		}
		if rep.Runs%50 == 1 {
			rep.Rechecked++
			if o2 := Execute(t, sc, false); o2.LogHash != o.LogHash {
				rep.Nondet = append(rep.Nondet, seed)
			}
		}
		v := o.Match(prop, only)
		if v == nil {
			for _, x := range o.Viol {
				rep.Other[x.Class+fmt.Sprint(x.Props)]++
				if keepGoing {
					fmt.Printf("other %s seed %d fam %s %s %v: %s\n", prop, seed, sc.Family, x.Class, x.Props, x.Detail)
				}
			}
			continue
		}
		if keepGoing {
			rep.Other["FOUND "+v.Class+" "+fmt.Sprint(v.Props)]++
			if rep.Other["FOUND "+v.Class+" "+fmt.Sprint(v.Props)] == 1 {
				fmt.Printf("seed %d fam %s %s: %s\n", seed, sc.Family, v.Class, v.Detail)
			}
			continue
		}
		f := &Found{Seed: seed, Violation: *v, Scenario: sc, Original: sc, Hash: fmt.Sprintf("%016x", o.LogHash), From: skip, Index: i, Worker: wi}
		rep.Found = f
		finish() // in case minimising goes wrong
		small, n := Shrink(t, sc, prop, v.Class, time.Duration(envInt("VSIM_SHRINK_MS", 15000))*time.Millisecond)
		o2 := Execute(t, small, true)
		if v2 := o2.Match(prop, v.Class); v2 != nil {
			f.Scenario, f.Violation, f.ShrinkRun, f.Hash, f.Log = small, *v2, n, fmt.Sprintf("%016x", o2.LogHash), o2.Log
		}
		break
	}
	for h := range inter {
		rep.Inter = append(rep.Inter, h)
	}
	for h := range hist {
		rep.Hist = append(rep.Hist, h)
	}
	finish()
	cur.WriteAt([]byte("done                    \n"), 0)
}

// replay runs a replay file and reports whether it fails the same way.
func replay(t *testing.T) {
	b, err := os.ReadFile(env("VSIM_FILE", ""))
	if err != nil {
		t.Fatal(err)
	}
	f := &Found{}
	if err := json.Unmarshal(b, f); err != nil {
		t.Fatal(err)
	}
	prop := env("VSIM_PROP", f.Scenario.Prop)
	for _, sc := range f.Prefix {
		Execute(t, sc, false)
	}
	o := Execute(t, f.Scenario, true)
	if env("VSIM_QUIET", "") == "" {
		for _, l := range o.Log {
			fmt.Println(l)
		}
		if o.PanicText != "" {
			fmt.Println(o.PanicText)
		}
	}
	h := fmt.Sprintf("%016x", o.LogHash)
	v := o.Match(prop, f.Violation.Class)
	switch {
	case v == nil && len(o.Viol) > 0:
		fmt.Printf("REPLAY other %v\n", o.Viol)
	case v == nil:
		fmt.Printf("REPLAY none hash=%s\n", h)
	default:
		fmt.Printf("REPLAY violation class=%s hash=%s exact=%v detail=%s\n", v.Class, h, h == f.Hash, v.Detail)
	}
}

// series repeats the runs of a worker up to a violation and writes them out.
func series(t *testing.T) {
	prop := env("VSIM_PROP", "C01")
	base := uint64(envInt("VSIM_SEED", 1))
	wi, wn := envInt("VSIM_WORKER", 0), envInt("VSIM_WORKERS", 1)
	f := &Found{Worker: wi}
	dry := func(sc *Scenario) *Outcome {
		c := clone(sc)
		f.Prefix = append(f.Prefix, c)
		return Execute(t, c, false)
	}
	for i := envInt("VSIM_FROM", 0); i <= envInt("VSIM_INDEX", 0); i++ {
		seed := mix(base, uint64(i*wn+wi))
		sc := clone(Generate(prop, seed, dry))
		o := Execute(t, sc, false)
		if i == envInt("VSIM_INDEX", 0) {
			f.Seed, f.Index, f.Scenario, f.Hash = seed, i, sc, fmt.Sprintf("%016x", o.LogHash)
			if v := o.Match(prop, ""); v != nil {
				f.Violation = *v
			}
			break
		}
		f.Prefix = append(f.Prefix, sc)
	}
	write(t, env("VSIM_OUT", "/dev/stdout"), f)
}

// known runs the scenario of each known finding and says whether it still fails.
func known(t *testing.T) {
	sc := &Scenario{Prop: "C05", Family: "clean", Seed: 1, User: "neo4j", Pass: "secretpw", Timeout: 5, Srv: SrvCfg{CommitAt: "pull"},
		Execs:   []*ExecPlan{{ID: 1, Bad: true, BadUint: true, Cols: 1, Rows: 1, Class: ClInt, Seed: 7}, {ID: 2, Cols: 1, Rows: 1, Class: ClInt, Seed: 8}},
		Clients: []*Script{{Ops: []*Op{{Op: "open", ID: 1}, {Op: "exec", H: 1, X: []int{1}}, {Op: "exec", H: 1, X: []int{2}}, {Op: "close", H: 1}}}}}
	o := Execute(t, sc, true)
	for _, v := range o.Viol {
		fmt.Printf("KNOWN uint-overflow class=%s props=%v detail=%s\n", v.Class, v.Props, v.Detail)
	}
	if len(o.Viol) == 0 {
		fmt.Println("KNOWN none")
	}
}

// sample writes a run out.
func sample(seed uint64, sc *Scenario, o *Outcome) Sample {
	s := Sample{Seed: seed, Family: sc.Family, Calls: o.Calls, Hash: fmt.Sprintf("%016x", o.LogHash)}
	for i, c := range sc.Clients {
		for _, op := range c.Ops {
			s.Ops = append(s.Ops, fmt.Sprintf("c%d %s", i, op))
		}
	}
	if len(s.Ops) > 40 {
		s.Ops = append(s.Ops[:40], "...")
	}
	for _, f := range sc.Faults {
		s.Faults = append(s.Faults, fmt.Sprintf("%s dial=%d at=%d ms=%d", f.Kind, f.Conn, f.At, f.MS))
	}
	return s
}
