package node

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	hraft "github.com/hashicorp/raft"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

type c12Op struct {
	Op
	X int `json:"x,omitempty"` // fault target: 0 leader, 1, 2 followers
}

type c12Case struct {
	Types []string `json:"types"`
	Disk  bool     `json:"disk,omitempty"`
	Skew  []int64  `json:"skew,omitempty"` // ms the clock of each node is behind
	Ops   []c12Op  `json:"ops"`
}

// leaderSys sends every request to one node; raft failures are "no answer".
type leaderSys struct {
	*NodeSys
}

func noAns(err error) error {
	for _, e := range []error{hraft.ErrLeadershipLost, hraft.ErrRaftShutdown, hraft.ErrEnqueueTimeout, hraft.ErrAbortedByRestore, hraft.ErrNotLeader, hraft.ErrLeadershipTransferInProgress} {
		if errors.Is(err, e) {
			return fmt.Errorf("%w: %v", ErrNoAnswer, err)
		}
	}
	return err
}

func (s *leaderSys) Enqueue(id uint64, n, g string, p int64, c string) (Msg, error) {
	m, err := s.NodeSys.Enqueue(id, n, g, p, c)
	return m, noAns(err)
}
func (s *leaderSys) Dequeue(n string, a bool) (Msg, error) {
	m, err := s.NodeSys.Dequeue(n, a)
	return m, noAns(err)
}
func (s *leaderSys) Ack(n string, id uint64) error  { return noAns(s.NodeSys.Ack(n, id)) }
func (s *leaderSys) Nack(n string, id uint64) error { return noAns(s.NodeSys.Nack(n, id)) }
func (s *leaderSys) Update(n string, id uint64, p int64) error {
	return noAns(s.NodeSys.Update(n, id, p))
}

func TestC12(t *testing.T) {
	Main(t, Check[c12Case]{
		ID:     "C12",
		Rule:   "a case is a random history on a three-node cluster (real nodes, raft, log stores and queues; in-memory network, virtual time) in which one node at a time - the leader or a follower - is killed, restarted, cut off or reconnected, also with requests in flight and with clocks up to an hour apart; at the end all nodes must agree on queues and counts and the leader is drained; non-trivial: at least one leader failure with messages present and at least 5 acknowledged enqueues",
		Bubble: true, Quick: 700, Thorough: 12000, QuickSecs: 40, ThoroughSecs: 800,
		Assumptions: []string{"no acknowledgement timeout expires (F13) and no snapshot is installed (F14)", "raft messages travel over hashicorp/raft's in-memory transport instead of TCP"},
		Gen: func(t *rapid.T) c12Case {
			c := c12Case{Disk: Uni(t, 25) == 24}
			for k := UniRange(t, 1, 2); k > 0; k-- {
				c.Types = append(c.Types, Pick(t, both))
			}
			if Uni(t, 2) == 1 {
				for i := 0; i < 3; i++ {
					c.Skew = append(c.Skew, Pick(t, []int64{0, 1, 7, 300, 2000, 15000, 3600000}))
				}
			}
			w := map[string]int{"enq": 34, "deq": 14, "ack": 10, "upd": 6, "kill": 3, "start": 5, "cut": 4, "heal": 5, "inflight": 8, "adv": 5, "newq": 2, "delq": 2, "big": 2}
			var ks []string
			for _, k := range []string{"enq", "deq", "ack", "upd", "kill", "start", "cut", "heal", "inflight", "adv", "newq", "delq", "big"} {
				for i := 0; i < w[k]; i++ {
					ks = append(ks, k)
				}
			}
			for k := UniRange(t, 8, 50); k > 0; k-- {
				op := c12Op{Op: Op{K: Pick(t, ks), Q: Uni(t, 2), P: int64(Uni(t, 5)), G: Pick(t, groups), A: Uni(t, 2) == 0, I: Uni(t, 31)}}
				if op.K == "kill" || op.K == "cut" {
					op.X = Pick(t, []int{0, 0, 1, 2})
				}
				if op.K == "inflight" {
					op.T = Pick(t, []string{"enq", "enq", "deq", "ack", "upd"})
				}
				if op.K == "big" {
					op.N, op.B = Pick(t, []int{2, 20, 40, 70}), Pick(t, []int{100, 5000, 30000, 60000})
				}
				op.MS = Pick(t, []int64{1, 50, 400, 1500, 4000})
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Minimize: func(c c12Case, fails func(c12Case) bool) c12Case {
			c.Ops = DDMin(c.Ops, func(o []c12Op) bool { d := c; d.Ops = o; return fails(d) })
			return c
		},
		Run: runC12,
	})
}

func runC12(c c12Case, tr *Trace) error {
	cl, err := NewCluster(3, Conf{Timeout: 1000000, Interval: 1, Window: 10, Disk: c.Disk}, c.Skew...)
	if cl != nil {
		defer cl.Close()
	}
	if err != nil {
		return err
	}
	r := &doubtModel{lenient: true, died: func() (string, bool) { return "", false }}
	var lead *Member
	var faulty *Member // at most one
	elect := func() error {
		if lead = cl.Leader(120 * time.Second); lead == nil {
			return V("two of three nodes are up and connected but no leader is elected within 120 s")
		}
		r.s = &leaderSys{&NodeSys{M: lead}}
		return nil
	}
	if err := elect(); err != nil {
		return err
	}
	nq := 0
	create := func(typ string) {
		nq++
		q := &pqueue{name: fmt.Sprintf("q%d", nq), typ: typ, msgs: map[uint64]*pmsg{}, maybes: map[string]*pmsg{}, gone: map[uint64]string{}}
		if err := r.s.Create(typ, q.name); err == nil {
			r.qs = append(r.qs, q)
		} else if !errors.Is(noAns(err), ErrNoAnswer) {
			r.fail(V("creating queue %q failed: %v", q.name, err))
		} else {
			r.inDoubt++
		}
	}
	for _, typ := range c.Types {
		create(typ)
	}
	if r.err != nil {
		return r.err
	}
	leaderFaults, faults := 0, 0
	var dropped []string
	var wg sync.WaitGroup
	step := func(k string, op c12Op, solo bool) {
		q := r.qs[op.Q%len(r.qs)]
		switch k {
		case "newq":
			create(both[op.I%2])
		case "delq":
			if len(r.qs) < 2 {
				return
			}
			k := op.Q % len(r.qs)
			r.qs = append(append([]*pqueue{}, r.qs[:k]...), r.qs[k+1:]...)
			if err := r.s.Delete(q.name); err == nil {
				dropped = append(dropped, q.name)
			} else if !errors.Is(noAns(err), ErrNoAnswer) {
				r.fail(V("deleting queue %q failed: %v", q.name, err))
			} else {
				r.inDoubt++
			}
		case "enq":
			r.enq(q, op.G, op.P)
		case "big": // one after the other or all at once
			var wg sync.WaitGroup
			for k := 0; k < op.N; k++ {
				if op.A {
					wg.Add(1)
					go func() { defer wg.Done(); r.enqBig(q, op.G, op.P, op.B) }()
				} else if before := r.inDoubt; !r.enqBig(q, op.G, op.P, op.B) || before != r.inDoubt {
					break
				}
			}
			wg.Wait()
		case "deq":
			r.deq(q, op.A, solo)
		case "ack":
			if m := r.pick(q, op.I, func(m *pmsg) bool { return m.held && !m.maybe }); m != nil {
				r.ack(q, m)
			}
		case "upd":
			if m := r.pick(q, op.I, func(m *pmsg) bool { return !m.maybe }); m != nil {
				r.upd(q, m, op.P)
			}
		}
	}
	// a pending request ends before the next leader is used
	join := func() {
		wg.Wait()
		r.mu.Lock()
		r.killed = false
		r.mu.Unlock()
	}
	recover := func() error {
		join()
		if err := elect(); err != nil {
			return err
		}
		return r.settle()
	}
	target := func(x int) *Member {
		if x == 0 {
			return lead
		}
		var f []*Member
		for _, m := range cl.M {
			if m != lead {
				f = append(f, m)
			}
		}
		return f[(x-1)%len(f)]
	}
	for i, op := range c.Ops {
		tr.Logf("step %d %+v leader=%s", i, op, lead.ID)
		switch op.K {
		case "adv":
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
		case "inflight":
			// cut the leader off, send a request to it, and let time pass: unless the
			// link comes back soon it must step down without having answered
			if faulty != nil {
				continue
			}
			faulty = lead
			leaderFaults++
			cl.Cut[lead.ID] = true
			cl.Wire()
			r.mu.Lock()
			r.killed = true
			r.mu.Unlock()
			wg.Add(1)
			go func() { defer wg.Done(); step(op.T, op, false) }()
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
			if op.I%3 == 0 { // the link comes back at once
				cl.Cut = map[string]bool{}
				cl.Wire()
				faulty = nil
			} else if op.I%3 == 1 { // the old leader dies with the request
				if err := lead.Stop(); err != nil {
					return err
				}
				cl.Cut = map[string]bool{}
				cl.Wire()
			}
			if err := recover(); err != nil {
				return err
			}
		case "kill", "cut":
			if faulty != nil {
				continue
			}
			m := target(op.X)
			faulty = m
			faults++
			if m == lead {
				leaderFaults++
			}
			if op.K == "kill" {
				if err := m.Stop(); err != nil {
					return err
				}
			} else {
				cl.Cut[m.ID] = true
			}
			cl.Wire()
			if m == lead {
				if err := recover(); err != nil {
					return err
				}
			}
		case "start", "heal":
			if faulty == nil || (op.K == "start") == faulty.Up {
				continue
			}
			m := faulty
			faulty = nil
			cl.Cut = map[string]bool{}
			if !m.Up {
				if c.Disk {
					if err := m.ReopenDB("crash"); err != nil {
						return err
					}
				}
				if err := m.Start(false); err != nil {
					return err
				}
				cl.Wire()
				if err := m.InitIDs(); err != nil {
					return err
				}
			}
			cl.Wire()
			if op.I%2 == 0 { // otherwise the next step meets a node that is still behind
				if err := recover(); err != nil {
					return err
				}
			}
		default:
			if lead.Raft.State() != hraft.Leader {
				if err := recover(); err != nil {
					return err
				}
			}
			// a rejoining node may depose the leader at any time: what is in doubt then is in doubt
			before := r.inDoubt
			step(op.K, op, true)
			if r.inDoubt != before {
				if err := recover(); err != nil {
					return err
				}
			}
		}
		if r.err != nil {
			return V("step %d (%+v): %v", i, op, r.err)
		}
	}
	join()
	if faulty != nil {
		cl.Cut = map[string]bool{}
		if !faulty.Up {
			if err := faulty.Start(false); err != nil {
				return err
			}
		}
		cl.Wire()
	}
	if err := elect(); err != nil {
		return err
	}
	if err := r.settle(); err != nil {
		return err
	}
	agree := func(when string) error {
		if !cl.Settle(120 * time.Second) {
			return V("%s: the nodes do not catch up with the leader", when)
		}
		synctest.Wait()
		var want string
		for i, m := range cl.M {
			s := &NodeSys{M: m}
			l, err := s.List()
			got := fmt.Sprint(err)
			for _, n := range dropped {
				if _, err := s.Info(n); err == nil {
					return V("%s: the deleted queue %q still exists on %s", when, n, m.ID)
				}
			}
			for _, i := range l {
				got += fmt.Sprintf(" %s(%s) ready=%d unacked=%d total=%d;", i.Name, i.Type, i.Ready, i.Unacked, i.Total)
			}
			if i == 0 {
				want = got
			} else if got != want {
				return V("%s: node-0 has %s but %s has %s", when, want, m.ID, got)
			}
		}
		return nil
	}
	if err := agree("before the drain"); err != nil {
		return err
	}
	if err := elect(); err != nil {
		return err
	}
	if err := r.drain(); err != nil {
		return err
	}
	if err := agree("after the drain"); err != nil {
		return err
	}
	tr.Nontrivial = leaderFaults > 0 && r.acked >= 5
	tr.Count("acknowledged_enqueues", r.acked)
	tr.Count("requests_in_doubt", r.inDoubt)
	tr.Count("leader_faults", leaderFaults)
	tr.Count("faults", faults+leaderFaults)
	return nil
}
