package node

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// The real server process is killed while clients have requests in flight.

type burst struct {
	K string `json:"k"` // enq deq(ack) take(no ack) ack upd
	Q int    `json:"q"`
}

type procSeg struct {
	Ops    []Op    `json:"ops"`
	Burst  []burst `json:"burst"`
	KillUS int     `json:"kill_us"` // microseconds after the burst starts
}

type procHist struct {
	Types []string  `json:"types"`
	Segs  []procSeg `json:"segs"`
	Seed  int64     `json:"seed"`
}

type procCase struct {
	Hists []procHist `json:"hists"`
}

type procRun struct {
	doubtModel
	h   procHist
	srv *Server
}

func (r *procRun) run() error {
	r.srv = NewServer("--queue.acknowledgement_timeout", "3600")
	r.s, r.died = r.srv, r.srv.Died
	defer r.srv.Close()
	if err := r.srv.Start(); err != nil {
		return err
	}
	if err := r.srv.Ready(100 * time.Second); err != nil {
		return err
	}
	for i, typ := range r.h.Types {
		q := &pqueue{name: fmt.Sprintf("q%d", i), typ: typ, msgs: map[uint64]*pmsg{}, maybes: map[string]*pmsg{}, gone: map[uint64]string{}}
		if err := r.s.Create(typ, q.name); err != nil {
			return V("creating queue %q failed: %v", q.name, err)
		}
		r.qs = append(r.qs, q)
	}
	for _, seg := range r.h.Segs {
		r.killed = false
		for _, op := range seg.Ops {
			q := r.qs[op.Q%len(r.qs)]
			switch op.K {
			case "enq":
				r.enq(q, op.G, op.P)
			case "deq":
				r.deq(q, op.A, true)
			case "ack":
				if m := r.pick(q, op.I, func(m *pmsg) bool { return m.held }); m != nil {
					r.ack(q, m)
				}
			case "upd":
				if m := r.pick(q, op.I, func(m *pmsg) bool { return true }); m != nil && !m.maybe {
					r.upd(q, m, op.P)
				}
			}
			if r.err != nil {
				return r.err
			}
		}
		// clients work until the server is killed under them
		var wg sync.WaitGroup
		for i, b := range seg.Burst {
			q := r.qs[b.Q%len(r.qs)]
			rnd := rand.New(rand.NewSource(r.h.Seed + int64(i)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5000; k++ {
					ok := true
					switch b.K {
					case "enq":
						ok = r.enq(q, groups[rnd.Intn(4)], int64(rnd.Intn(4)))
					case "deq", "take":
						_, _, ok = r.deq(q, b.K == "deq", false)
					case "ack":
						id, got, an := r.deq(q, false, false)
						ok = an
						if got {
							r.mu.Lock()
							m := q.msgs[id]
							r.mu.Unlock()
							if m != nil {
								ok = r.ack(q, m)
							}
						}
					case "enqupd":
						if ok = r.enq(q, "default", int64(rnd.Intn(4))); ok {
							if m := r.pick(q, rnd.Intn(1000), func(m *pmsg) bool { return m.held }); m != nil && len(seg.Burst) == 1 {
								ok = r.upd(q, m, int64(rnd.Intn(9)))
							}
						}
					}
					r.mu.Lock()
					stop := !ok || r.killed || r.err != nil
					r.mu.Unlock()
					if stop {
						return
					}
				}
			}()
		}
		time.Sleep(time.Duration(seg.KillUS) * time.Microsecond)
		r.mu.Lock()
		r.killed = true
		r.mu.Unlock()
		r.srv.Kill()
		wg.Wait()
		if r.err != nil {
			return r.err
		}
		r.killed = false
		if err := r.srv.Start(); err != nil {
			return err
		}
		if err := r.srv.Ready(100 * time.Second); err != nil {
			return err
		}
		if err := r.settle(); err != nil {
			return V("after a crash: %v", err)
		}
	}
	return r.drain()
}

func TestC10Proc(t *testing.T) {
	Main(t, Check[procCase]{
		ID: "C10", Test: "C10Proc",
		Rule:  "a case is a group of histories, each on its own real server process (HTTP, raft over TCP, files) that is killed (SIGKILL) two or three times while up to four clients have requests in flight, restarted on the same directory, and finally drained; non-trivial: at least 20 enqueues acknowledged and at least one request in doubt",
		Quick: 1, Thorough: 60, QuickSecs: 60, ThoroughSecs: 900,
		Gen: func(t *rapid.T) procCase {
			var c procCase
			for i := 0; i < 5; i++ {
				h := procHist{Seed: int64(Uni(t, 1<<20))}
				for k := UniRange(t, 1, 2); k > 0; k-- {
					h.Types = append(h.Types, Pick(t, both))
				}
				for k := UniRange(t, 2, 3); k > 0; k-- {
					var s procSeg
					for j := UniRange(t, 3, 25); j > 0; j-- {
						op := Op{K: Pick(t, []string{"enq", "enq", "enq", "deq", "ack", "upd"}), Q: Uni(t, 2), P: int64(Uni(t, 5)), G: Pick(t, groups), A: Uni(t, 2) == 0, I: Uni(t, 31)}
						s.Ops = append(s.Ops, op)
					}
					for j := UniRange(t, 1, 4); j > 0; j-- {
						s.Burst = append(s.Burst, burst{K: Pick(t, []string{"enq", "enq", "deq", "take", "ack", "enqupd"}), Q: Uni(t, 2)})
					}
					s.KillUS = Pick(t, []int{300, 1000, 3000, 10000, 30000, 100000, 250000}) + Uni(t, 1000)
					h.Segs = append(h.Segs, s)
				}
				c.Hists = append(c.Hists, h)
			}
			return c
		},
		Minimize: func(c procCase, fails func(procCase) bool) procCase {
			for i := range c.Hists {
				if d := (procCase{Hists: c.Hists[i : i+1]}); fails(d) {
					return d
				}
			}
			return c
		},
		Run: func(c procCase, tr *Trace) error {
			runs := make([]*procRun, len(c.Hists))
			errs := make([]error, len(c.Hists))
			var wg sync.WaitGroup
			for i := range c.Hists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for try := 0; try < 3; try++ {
						runs[i] = &procRun{h: c.Hists[i]}
						errs[i] = runs[i].run()
						if !errors.Is(errs[i], ErrBusyPort) {
							break
						}
					}
				}()
			}
			wg.Wait()
			nt := false
			for i, r := range runs {
				if errors.Is(errs[i], ErrBusyPort) {
					tr.Discard = "port taken"
					continue
				}
				if errs[i] != nil {
					return errs[i]
				}
				nt = nt || (r.acked >= 20 && r.inDoubt > 0)
				tr.Count("acknowledged_enqueues", r.acked)
				tr.Count("requests_in_doubt", r.inDoubt)
				tr.Count("process_kills", len(r.h.Segs))
				tr.Count("process_histories", 1)
			}
			tr.Nontrivial = nt
			return nil
		},
	})
}
