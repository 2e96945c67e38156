package harness

import (
	"fmt"
	"time"

	"vsim/simrt"
)

// probe checks, after the clients are done and the faults have stopped, that
// the pool still has its full capacity: as many borrowers as the maximum hold
// working connections at the same time, at the price of at most one failed use
// per stale connection.
func (r *Run) probe() {
	if r.poolClosing {
		return
	}
	r.N.Heal()
	simrt.Block("server up", func() bool { return !r.N.Down })
	simrt.Sleep(200 * time.Second)
	simrt.Block("server up", func() bool { return !r.N.Down })
	r.probing = true
	r.logf("probe starts")
	max := r.Sc.Pool.Max
	if r.busy != 0 {
		panic(fmt.Sprintf("harness: %d borrows outstanding before the probe", r.busy))
	}
	if true {
		r.Probes.Add("capacity-probe")
	}
	for i := 0; i < max; i++ {
		i := i
		k := newClient(r, 100+i, &Script{})
		task := r.S.Spawn(fmt.Sprintf("probe%d", i), false, func() { r.probeOne(k, i) })
		r.clients.Set(task.ID, k)
	}
}

func (r *Run) probeOne(k *client, i int) {
	max := r.Sc.Pool.Max
	for a := 0; ; a++ {
		if r.probeFails > max {
			r.violate("capacity-lost", []string{"C10"}, "after the faults stopped, %d uses failed in a pool of %d", r.probeFails, max)
			r.S.Stop()
			return
		}
		h := 1 + a
		k.step(&Op{Op: "popen", ID: h})
		m := k.conns[h]
		if m == nil {
			r.probeFails++
			continue
		}
		id := 900000 + i*100 + a
		p := &ExecPlan{ID: id, Cols: 2, Rows: 1, Class: ClInt, Seed: uint64(id), Write: true}
		r.Recs.Set(id, &ExecRec{Plan: p, Conn: -1})
		k.step(&Op{Op: "exec", H: h, X: []int{id}})
		if r.Recs.Get(id).Told == "ok" {
			r.probeHeld++
			simrt.Block(fmt.Sprintf("the other probes (%d of %d borrowers hold a connection)", r.probeHeld, max), func() bool { return r.probeHeld == max })
			k.step(&Op{Op: "close", H: h})
			return
		}
		r.probeFails++
		k.step(&Op{Op: "close", H: h})
	}
}
