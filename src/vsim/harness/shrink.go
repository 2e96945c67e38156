package harness

import (
	"encoding/json"
	"testing"
	"time"

	"vsim/simrt"
	"vsim/snet"
)

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	out := &Scenario{}
	if err := json.Unmarshal(b, out); err != nil {
		panic(err)
	}
	return out
}

// Match finds the first violation of the property in an outcome (of the given
// class, if one is given).
func (o *Outcome) Match(prop, class string) *Violation {
	for i := range o.Viol {
		v := &o.Viol[i]
		if v.has(prop) && (class == "" || v.Class == class) {
			return v
		}
	}
	return nil
}

type shrinker struct {
	t     *testing.T
	prop  string
	class string
	end   time.Time
	runs  int
	best  *Scenario
}

func (s *shrinker) try(sc *Scenario) bool {
	if time.Now().After(s.end) {
		return false
	}
	s.runs++
	o := Execute(s.t, sc, false)
	if o.Match(s.prop, s.class) == nil {
		return false
	}
	s.best = sc
	return true
}

// list shrinks a list by removing ever smaller blocks.
func (s *shrinker) list(n func(*Scenario) int, drop func(sc *Scenario, from, to int)) {
	for size := n(s.best); size >= 1; {
		if size > n(s.best) {
			size = n(s.best)
			if size == 0 {
				return
			}
		}
		hit := false
		for from := n(s.best) - size; from >= 0; from -= size {
			if from+size > n(s.best) {
				continue
			}
			c := clone(s.best)
			drop(c, from, from+size)
			if s.try(c) {
				hit = true
			}
		}
		if !hit || size > 1 {
			if size == 1 {
				return
			}
			size = (size + 1) / 2
			if size == 0 {
				return
			}
		}
	}
}

// Shrink reduces a failing scenario; the result fails the same way.
func Shrink(t *testing.T, sc *Scenario, prop, class string, budget time.Duration) (*Scenario, int) {
	s := &shrinker{t: t, prop: prop, class: class, end: time.Now().Add(budget), best: sc}
	simple := []func(c *Scenario){
		func(c *Scenario) { c.Sched.MeanSlice, c.Sched.PBlock, c.Sched.PEarly = 0, 0, 0 },
		func(c *Scenario) { c.Net = NetCfg{Seed: c.Net.Seed} },
		func(c *Scenario) { c.Srv.ThinkUS = 0 },
		func(c *Scenario) { c.Srv.Chunk = 0 },
		func(c *Scenario) { c.Srv.Wide = false },
		func(c *Scenario) { c.Srv.TxFail = nil },
		func(c *Scenario) { c.Srv.Init = nil },
		func(c *Scenario) { c.Trace = false },
		func(c *Scenario) { c.URLVar, c.Host = 0, "" },
		func(c *Scenario) {
			for _, p := range c.Execs {
				p.GapMS = 0
			}
		},
		func(c *Scenario) {
			for _, p := range c.Execs {
				p.Fail, p.FailAt, p.Ack = "", 0, ""
			}
		},
		func(c *Scenario) {
			for _, p := range c.Execs {
				p.Undec, p.UndecAt = "", 0
			}
		},
		func(c *Scenario) {
			for _, p := range c.Execs {
				p.Rows = min(p.Rows, 2)
				p.FailAt = min(p.FailAt, p.Rows)
			}
		},
		func(c *Scenario) {
			for _, p := range c.Execs {
				p.NPar, p.Text = 0, 0
			}
		},
		func(c *Scenario) {
			for _, p := range c.Execs {
				p.Class, p.Cols = ClInt, 1
			}
		},
	}
	for pass := 0; pass < 2; pass++ {
		s.list(func(c *Scenario) int { return len(c.Clients) }, func(c *Scenario, a, b int) { c.Clients = append(c.Clients[:a:a], c.Clients[b:]...) })
		s.list(func(c *Scenario) int { return len(c.Faults) }, func(c *Scenario, a, b int) { c.Faults = append(c.Faults[:a:a], c.Faults[b:]...) })
		for i := 0; i < len(s.best.Clients); i++ {
			i := i
			s.list(func(c *Scenario) int { return len(c.Clients[i].Ops) }, func(c *Scenario, a, b int) {
				k := c.Clients[i]
				k.Ops = append(k.Ops[:a:a], k.Ops[b:]...)
			})
		}
		if pass == 0 {
			for _, f := range simple {
				c := clone(s.best)
				f(c)
				s.try(c)
			}
		}
	}
	for i := range s.best.Faults {
		if f := s.best.Faults[i]; f.Kind != snet.Crash && f.MS > 0 {
			c := clone(s.best)
			c.Faults[i].MS = 0
			s.try(c)
		}
	}
	// drop executions nothing refers to
	used := map[int]bool{}
	for _, k := range s.best.Clients {
		for _, o := range k.Ops {
			for _, x := range o.X {
				used[x] = true
			}
		}
	}
	c := clone(s.best)
	var keep []*ExecPlan
	for _, p := range c.Execs {
		if used[p.ID] {
			keep = append(keep, p)
		}
	}
	c.Execs = keep
	s.try(c)
	// fix the schedule: replay the recorded decisions, then drop those that do not matter
	o := Execute(s.t, s.best, false)
	if len(o.Recorded) > 0 {
		c := clone(s.best)
		c.Sched.Replay, c.Sched.Overrides = true, append([]simrt.Override(nil), o.Recorded...)
		if s.try(c) {
			s.list(func(c *Scenario) int { return len(c.Sched.Overrides) }, func(c *Scenario, a, b int) {
				c.Sched.Overrides = append(c.Sched.Overrides[:a:a], c.Sched.Overrides[b:]...)
			})
		}
	}
	return s.best, s.runs
}
