package node

import (
	"fmt"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	hraft "github.com/hashicorp/raft"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

type c11Case struct {
	Case
	Lag   int64   `json:"lag"`   // ms between the leader's run and the replicas'
	Gaps  []int64 `json:"gaps"`  // ms between applied entries, cyclic
	Break []int   `json:"break"` // replica 3 restarts after these many entries (per mille of the log)
}

func describe(qm *QM, names []string, ids map[string][]uint64) (out []string) {
	for _, n := range names {
		i, err := qm.Info(n)
		out = append(out, fmt.Sprintf("info %q type=%s %d/%d/%d %v", n, i.Type, i.Ready, i.Unacked, i.Total, err == nil))
		q, err := qm.QM.GetQueue(n)
		if err != nil {
			continue
		}
		for _, id := range ids[n] {
			m, err := q.GetByID(id)
			if err != nil {
				out = append(out, fmt.Sprintf("%q %d absent", n, id))
			} else {
				out = append(out, fmt.Sprintf("%q %d %+v", n, id, *m))
			}
		}
	}
	l, _ := qm.List()
	for _, i := range l {
		out = append(out, "listed "+i.Name+" "+i.Type)
	}
	// what is held is returned, the rest is handed out in order
	for _, n := range names {
		for _, id := range ids[n] {
			out = append(out, fmt.Sprintf("nack %d %v", id, qm.Nack(n, id) == nil))
		}
		for k := 0; k < 10000; k++ {
			m, err := qm.Dequeue(n, true)
			if err != nil {
				break
			}
			out = append(out, fmt.Sprintf("drained %q %+v", n, m))
		}
	}
	return
}

func diffLines(a, b []string) string {
	for i := 0; i < max(len(a), len(b)); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%.400s <> %.400s", x, y)
		}
	}
	return ""
}

func TestC11(t *testing.T) {
	p := Profile{Sys: "node", Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Groups: groups, Prio: FuturePrio, MaxOps: 70,
		Weights:  map[string]int{"enq": 34, "deq": 30, "ack": 8, "nack": 6, "upd": 10, "adv": 14, "delete": 2, "create": 3},
		Timeouts: []int64{1000000}, Intervals: []int64{1, 5}, Advs: []int64{100, 400, 700, 1000, 2000, 5000, 9000}, MultiDeq: true, Contents: AnyText, Deep: 20, Bulk: 50, BulkMax: 300}
	Main(t, Check[c11Case]{
		ID:     "C11",
		Rule:   "a case runs a random history through the node API of a leader, takes the command log from its log store and applies it to three fresh replicas: at other times with other gaps, all at once much later, and with restarts after which the log is applied again from the start; every response is compared with the leader's answer, and contents, counts and drain order among the replicas; non-trivial: at least 3 deliveries and one dequeue that faced only messages not due yet",
		Bubble: true, Quick: 320, Thorough: 30000, QuickSecs: 40, ThoroughSecs: 600,
		Assumptions: []string{"no acknowledgement timeout expires (known finding F13: redelivery is not part of the log)"},
		Gen: func(t *rapid.T) c11Case {
			c := c11Case{Case: p.Gen(t)}
			c.Lag = Pick(t, []int64{0, 1, 700, 3000, 10000, 100000, 10000000})
			for i := 0; i < 3; i++ {
				c.Gaps = append(c.Gaps, Pick(t, []int64{0, 0, 1, 300, 1000, 5000, 60000}))
			}
			for i := UniRange(t, 1, 3); i > 0; i-- {
				c.Break = append(c.Break, Uni(t, 1001))
			}
			return c
		},
		Minimize: func(c c11Case, fails func(c11Case) bool) c11Case {
			c.Case = MinimizeCase(c.Case, func(x Case) bool { d := c; d.Case = x; return fails(d) })
			return c
		},
		Run: runC11,
	})
}

func runC11(c c11Case, tr *Trace) error {
	conf := Conf{Timeout: c.Timeout, Interval: c.Interval, Window: c.Window}
	s, err := NewNodeSys(conf)
	if err != nil {
		return err
	}
	defer s.Close()
	rec := &Recorder{Sys: s}
	w := NewWorld(&c.Case, rec, Claims{Lax: true, NoDrain: true}, tr)
	if err := w.Run(); err != nil {
		return err
	}
	logs, err := s.(*NodeSys).M.CommandLog()
	if err != nil {
		return err
	}
	// The answer to every command: the leader's or, if some operations are answered
	// without a command, the first replica's.
	answers := make([]*Answer, len(logs))
	if len(logs) == len(rec.Answers) {
		for i := range answers {
			answers[i] = &rec.Answers[i]
		}
	} else {
		tr.Count("logs_with_fewer_commands_than_operations", 1)
	}
	time.Sleep(time.Duration(c.Lag) * time.Millisecond)

	apply := func(qm *QM, breaks []int, gap func(i int) time.Duration) error {
		run := func(upto int, judge bool) error {
			fsm, m, err := NewFSM("replica", qm.DB, conf.Config())
			if err != nil {
				return err
			}
			qm.StopManager()
			qm.QM = m
			one := func(i int) *hraft.Log {
				time.Sleep(gap(i))
				cp := *logs[i]
				cp.Data = append([]byte{}, logs[i].Data...)
				return &cp
			}
			judgeOne := func(i int, resp any) error {
				got, text := Response(resp)
				if answers[i] == nil {
					got.Full = true
					answers[i] = &got
					return nil
				}
				want := answers[i]
				tr.Count("responses_compared", 1)
				if got.Ok != want.Ok {
					return V("entry %d (%s): the leader answered ok=%v, the replica %s", i, want.Op, want.Ok, text)
				}
				if want.Full {
					g, x := got.Msg, want.Msg
					if want.Op == "enqueue" {
						g.Group, x.Group = "", ""
					}
					if g != x {
						return V("entry %d (%s): the leader answered %+v, the replica %s", i, want.Op, want.Msg, text)
					}
				}
				return nil
			}
			bat, batching := any(fsm).(hraft.BatchingFSM)
			for i := 0; i < upto; {
				n := 1
				if batching { // as raft does with such a state machine
					n = min(upto-i, 1+(i*7+len(logs))%5)
				}
				var ls []*hraft.Log
				for k := i; k < i+n; k++ {
					ls = append(ls, one(k))
				}
				var rs []any
				if batching && len(breaks)%2 == 0 {
					rs = bat.ApplyBatch(ls)
				} else {
					for _, l := range ls {
						rs = append(rs, fsm.Apply(l))
					}
				}
				if len(rs) != n {
					return V("a batch of %d commands got %d responses", n, len(rs))
				}
				for k := 0; k < n; k++ {
					if err := judgeOne(i+k, rs[k]); err != nil {
						return err
					}
				}
				i += n
			}
			return nil
		}
		for _, b := range breaks {
			if err := run(len(logs)*b/1000, true); err != nil {
				return err
			}
		}
		return run(len(logs), true)
	}
	var want []string
	names := append([]string{}, c.Names...)
	sort.Strings(names)
	var qms []*QM
	defer func() {
		for _, q := range qms {
			q.Close()
		}
	}()
	for k := 0; k < 3; k++ {
		qm, err := NewQM(conf)
		if err != nil {
			return err
		}
		qms = append(qms, qm)
		var e error
		switch k {
		case 0:
			e = apply(qm, nil, func(i int) time.Duration { return time.Duration(c.Gaps[i%3]) * time.Millisecond })
		case 1:
			e = apply(qm, nil, func(int) time.Duration { return 0 })
		case 2:
			e = apply(qm, c.Break, func(i int) time.Duration { return time.Duration(c.Gaps[(i+1)%3]) * time.Millisecond / 10 })
		}
		if e != nil {
			if v, ok := e.(*Violation); ok {
				return V("replica %d: %s", k, v.Msg)
			}
			return e
		}
	}
	time.Sleep(1000 * time.Second)
	synctest.Wait()
	for k, qm := range qms {
		got := describe(qm, names, rec.IDs)
		if k == 0 {
			want = got
		} else if d := diffLines(want, got); d != "" {
			return V("replicas 0 and %d ended in different states: %s", k, d)
		}
	}
	tr.Nontrivial = w.Deliveries >= 3 && w.FutureGate > 0
	tr.Count("entries", len(logs))
	tr.Count("deliveries", w.Deliveries)
	tr.Count("dequeues_facing_only_future_messages", w.FutureGate)
	return nil
}

var _ = hraft.LogCommand
