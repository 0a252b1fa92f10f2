package node

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// Three real server processes that join one another over HTTP, replicate over TCP and
// forward over HTTP and gRPC; one is killed while clients have requests in flight.

type clusterSeg struct {
	Ops    []Op    `json:"ops"`
	Burst  []burst `json:"burst"`
	KillUS int     `json:"kill_us"` // microseconds after the burst starts
	Victim int     `json:"victim"`  // 0 the leader, 1 and 2 the others, 3 all nodes
	Down   []Op    `json:"down"`    // while the node is down
	Join   bool    `json:"join"`    // the node is started with a join address again
}

type clusterHist struct {
	Types []string     `json:"types"`
	Segs  []clusterSeg `json:"segs"`
	Seed  int64        `json:"seed"`
}

type clusterCase struct {
	Hists []clusterHist `json:"hists"`
}

type clusterRun struct {
	doubtModel
	h       clusterHist
	p       *Procs
	leaders map[int]bool
}

func (r *clusterRun) apply(ops []Op) error {
	for _, op := range ops {
		q := r.qs[op.Q%len(r.qs)]
		before := r.inDoubt
		switch op.K {
		case "enq":
			r.enqBig(q, op.G, op.P, op.B)
		case "deq":
			r.deq(q, op.A, true)
		case "ack":
			if m := r.pick(q, op.I, func(m *pmsg) bool { return m.held && !m.maybe }); m != nil {
				r.ack(q, m)
			}
		case "upd":
			if m := r.pick(q, op.I, func(m *pmsg) bool { return !m.maybe }); m != nil {
				r.upd(q, m, op.P)
			}
		}
		if r.err != nil {
			return r.err
		}
		if r.inDoubt != before { // the leader has changed
			if err := r.recover("after a request without answer"); err != nil {
				return err
			}
		}
	}
	return nil
}

// recover waits until all running nodes serve, checks what is there, and returns
// what is held.
func (r *clusterRun) recover(when string) error {
	if err := r.p.AllServe(); err != nil {
		return V("%s: %v", when, err)
	}
	if err := r.settle(); err != nil {
		return V("%s: %v", when, err)
	}
	// a return that was not answered is repeated
	for k := 0; ; k++ {
		left := int64(0)
		for _, q := range r.qs {
			i, err := r.s.Info(q.name)
			if err != nil {
				return V("%s: info of queue %q failed: %v", when, q.name, err)
			}
			if i.Unacked > 0 {
				left += i.Unacked
				for id := range q.msgs {
					_ = r.s.Nack(q.name, id)
				}
			}
		}
		if left == 0 || k == 3 { // (messages that nobody knows may be held)
			return nil
		}
	}
}

// agree waits until all nodes tell the same about the queues.
func (r *clusterRun) agree(when string) error {
	var why error
	for t0 := RealNow(); RealNow().Sub(t0) < 60*time.Second; time.Sleep(50 * time.Millisecond) {
		if o, dead := r.p.Died(); dead {
			return V("%s: a node ended by itself: %.3000s", when, o)
		}
		why = r.compare()
		if why == nil {
			return nil
		}
	}
	return V("%s: after 60 s without requests the nodes do not agree: %v", when, why)
}

func (r *clusterRun) compare() error {
	want := map[string]string{}
	for n, i := range r.p.Running() {
		l, err := r.p.Srv[i].List()
		if err != nil {
			return fmt.Errorf("node %d cannot list its queues: %v", i, err)
		}
		got := map[string]string{}
		for _, q := range l {
			if q.Name != "who-leads" {
				got[q.Name] = fmt.Sprintf("%s with %d ready, %d unacked, %d in total", q.Type, q.Ready, q.Unacked, q.Total)
			}
		}
		if n == 0 {
			want = got
		}
		if len(got) != len(r.qs) || fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("node %d tells %v, node %d tells %v", r.p.Running()[0], want, i, got)
		}
	}
	return nil
}

func (r *clusterRun) run() (err error) {
	if r.p, err = NewProcs(3, "--queue.acknowledgement_timeout", "3600"); r.p != nil {
		defer r.p.Close()
	}
	if err != nil {
		return err
	}
	r.s, r.died, r.lenient, r.patient = ProcSys{r.p}, r.p.Died, true, true
	r.leaders = map[int]bool{}
	for i, typ := range r.h.Types {
		q := &pqueue{name: fmt.Sprintf("q%d", i), typ: typ, msgs: map[uint64]*pmsg{}, maybes: map[string]*pmsg{}, gone: map[uint64]string{}}
		for t0 := RealNow(); ; time.Sleep(30 * time.Millisecond) {
			if err = r.s.Create(typ, q.name); err == nil {
				break
			}
			if in, ierr := r.s.Info(q.name); ierr == nil && in.Name == q.name {
				break // created, only the answer was lost
			}
			if RealNow().Sub(t0) > 100*time.Second {
				return V("creating queue %q fails for 100 s although all nodes run: %v", q.name, err)
			}
		}
		r.qs = append(r.qs, q)
	}
	for n, seg := range r.h.Segs {
		if err := r.apply(seg.Ops); err != nil {
			return err
		}
		lead, err := r.p.Leader()
		if err != nil {
			return err
		}
		r.leaders[lead] = true
		victims := []int{(lead + seg.Victim) % 3}
		if seg.Victim == 3 {
			victims = []int{0, 1, 2}
		}
		r.clients(seg, func() {
			for _, v := range victims {
				r.p.Kill(v)
			}
		})
		if r.err != nil {
			return r.err
		}
		if seg.Victim == 3 {
			// started at the same time: none can serve without the others
			errs := make([]error, 3)
			var wg sync.WaitGroup
			for v := range errs {
				wg.Add(1)
				go func() { defer wg.Done(); errs[v] = r.p.Start(v, -1) }()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			if err := r.recover(fmt.Sprintf("segment %d, after a crash of all nodes", n)); err != nil {
				return err
			}
		} else {
			v := victims[0]
			what := fmt.Sprintf("segment %d, after a crash of node %d (the leader was node %d)", n, v, lead)
			if err := r.recover(what); err != nil {
				return err
			}
			if err := r.agree(what); err != nil {
				return err
			}
			if err := r.apply(seg.Down); err != nil {
				return err
			}
			join := -1
			if seg.Join && v != 0 {
				join = 0
			}
			if err := r.p.Start(v, join); err != nil {
				return V("%s, when it starts again: %v", what, err)
			}
			if err := r.recover(fmt.Sprintf("segment %d, after the return of node %d", n, v)); err != nil {
				return err
			}
		}
		if err := r.agree(fmt.Sprintf("segment %d, after the end of the failure", n)); err != nil {
			return err
		}
	}
	if err := r.drain(); err != nil {
		return err
	}
	return r.agree("after the final drain")
}

// clients work; fail is called while they do.
func (r *clusterRun) clients(seg clusterSeg, fail func()) {
	var wg sync.WaitGroup
	for i, b := range seg.Burst {
		q := r.qs[b.Q%len(r.qs)]
		rnd := rand.New(rand.NewSource(r.h.Seed + int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			after := 0
			for k := 0; k < 600; k++ {
				ok := true
				switch b.K {
				case "enq", "enqupd":
					ok = r.enq(q, groups[rnd.Intn(4)], int64(rnd.Intn(4)))
				case "deq", "take":
					_, _, ok = r.deq(q, b.K == "deq", false)
				case "ack":
					id, got, an := r.deq(q, false, false)
					ok = an
					if got {
						r.mu.Lock()
						m := q.msgs[id]
						r.mu.Unlock()
						if m != nil {
							ok = r.ack(q, m)
						}
					}
				}
				r.mu.Lock()
				if r.killed {
					after++
				}
				stop := !ok || after > 20 || r.err != nil
				r.mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	time.Sleep(time.Duration(seg.KillUS) * time.Microsecond)
	r.mu.Lock()
	r.killed = true
	r.mu.Unlock()
	fail()
	wg.Wait()
	r.mu.Lock()
	r.killed = false
	r.mu.Unlock()
}

func TestC12Proc(t *testing.T) {
	Main(t, Check[clusterCase]{
		ID: "C12", Test: "C12Proc",
		Rule:  "a case is a group of histories, each on a cluster of three real server processes (joined over HTTP, raft over TCP, files, requests to any node over HTTP and gRPC); while up to four clients have requests in flight one node - the leader or not - or all nodes are killed (SIGKILL), the others go on, and the node returns; all nodes must agree after every step and the leader is drained; non-trivial: at least 20 enqueues acknowledged and a leader killed",
		Quick: 1, Thorough: 40, QuickSecs: 60, ThoroughSecs: 900,
		Gen: func(t *rapid.T) clusterCase {
			var c clusterCase
			ops := func(t *rapid.T, n int) (l []Op) {
				for j := UniRange(t, n/4, n); j > 0; j-- {
					l = append(l, Op{K: Pick(t, []string{"enq", "enq", "enq", "deq", "ack", "upd"}), Q: Uni(t, 2), P: int64(Uni(t, 5)), G: Pick(t, groups), A: Uni(t, 2) == 0, I: Uni(t, 31)})
				}
				return
			}
			for i := 0; i < 3; i++ {
				h := clusterHist{Seed: int64(Uni(t, 1<<20))}
				for k := UniRange(t, 1, 2); k > 0; k-- {
					h.Types = append(h.Types, Pick(t, both))
				}
				for k := 0; k < 3; k++ {
					s := clusterSeg{Ops: ops(t, 25), Down: ops(t, 16), Join: Uni(t, 2) == 0, Victim: Pick(t, []int{0, 0, 1, 2, 3})}
					if k == 0 {
						s.Victim = 0
					}
					if k == i { // more data than fits into one transaction of the storage
						for j := Pick(t, []int{2, 14, 18}); j > 0; j-- {
							s.Down = append(s.Down, Op{K: "enq", P: 1, Q: Uni(t, 2), B: 900000})
						}
					}
					for j := UniRange(t, 1, 4); j > 0; j-- {
						s.Burst = append(s.Burst, burst{K: Pick(t, []string{"enq", "enq", "deq", "take", "ack"}), Q: Uni(t, 2)})
					}
					s.KillUS = Pick(t, []int{300, 3000, 10000, 30000, 100000, 250000}) + Uni(t, 1000)
					h.Segs = append(h.Segs, s)
				}
				c.Hists = append(c.Hists, h)
			}
			return c
		},
		Minimize: func(c clusterCase, fails func(clusterCase) bool) clusterCase {
			for i := range c.Hists {
				if d := (clusterCase{Hists: c.Hists[i : i+1]}); fails(d) {
					return d
				}
			}
			return c
		},
		Run: func(c clusterCase, tr *Trace) error {
			runs := make([]*clusterRun, len(c.Hists))
			errs := make([]error, len(c.Hists))
			var wg sync.WaitGroup
			for i := range c.Hists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for try := 0; try < 3; try++ {
						runs[i] = &clusterRun{h: c.Hists[i]}
						errs[i] = runs[i].run()
						if !errors.Is(errs[i], ErrBusyPort) {
							break
						}
					}
				}()
			}
			wg.Wait()
			for i, r := range runs {
				if errors.Is(errs[i], ErrBusyPort) {
					tr.Discard = "port taken"
					continue
				}
				if r.p != nil && r.p.Slow {
					tr.Discard = "a request took a minute" // what became of it can happen at any time
					continue
				}
				if errs[i] != nil {
					return errs[i]
				}
				tr.Count("process_cluster_enqueues", r.acked)
				tr.Count("process_cluster_requests_in_doubt", r.inDoubt)
				tr.Count("process_cluster_failures", len(r.h.Segs))
				tr.Count("process_clusters", 1)
				tr.Nontrivial = tr.Nontrivial || r.acked >= 20
			}
			return nil
		},
	})
}
