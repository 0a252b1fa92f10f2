package qm

import (
	"testing"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

var (
	delayed = []string{"delayed"}
	fair    = []string{"fair"}
	both    = []string{"delayed", "fair"}
	groups  = []string{"default", "a", "b", "c", "d", ""}
	advs    = []int64{100, 500, 1000, 1500, 2000, 3000, 5000, 8000, 13000}
)

func newSys(c *Case) (Sys, error) {
	conf := Conf{Timeout: c.Timeout, Interval: c.Interval, Window: c.Window, Disk: c.Disk, Metrics: c.Metrics}
	FreshMetrics()
	switch c.Sys {
	case "node":
		return NewNodeSys(conf)
	default:
		return NewQM(conf)
	}
}

func runSeq(c Case, cl Claims, tr *Trace, nontrivial func(w *World) bool, after func(w *World, op *Op) error) error {
	ToPresent()
	s, err := newSys(&c)
	if err != nil {
		return err
	}
	defer s.Close()
	w := NewWorld(&c, s, cl, tr)
	w.After = after
	err = w.Run()
	w.DeleteAll()
	if err != nil {
		return err
	}
	tr.Nontrivial = nontrivial(w)
	tr.Count("ops", len(w.Res))
	tr.Count("deliveries", w.Deliveries)
	tr.Count("redeliveries", w.Redeliveries)
	tr.Count("settlements", w.Settles)
	tr.Count("rejected_ops", w.Failures)
	tr.Count("reloads", w.Reloads)
	tr.Count("queue_deletes", w.Deletes)
	tr.Count("priority_ties", w.Ties)
	tr.Count("priority_changes", w.Updates)
	tr.Count("steps_whose_writes_are_refused", w.Faults)
	tr.Count("system:"+c.Sys, 1)
	return nil
}

// sysMix draws mostly the fast direct system and sometimes the full node.
func sysMix(t *rapid.T, p Profile, nodeEvery int) Case {
	c := p.Gen(t)
	if c.Sys == "" && nodeEvery > 0 && Uni(t, nodeEvery) == nodeEvery-1 {
		c.Sys = "node"
		for i := range c.Ops { // the node has its own, much larger store
			if c.Ops[i].B > 10000 {
				c.Ops[i].B = 3000
			}
			if c.Ops[i].K == "reload" { // restarts of a node are the subject of C10
				c.Ops[i] = Op{K: "adv", MS: 1000}
			}
		}
	} else {
		c.Sys = "qm"
	}
	c.Faults(t)
	return c
}

func TestC01(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 2}, Groups: groups, Prio: MixedPrio, MaxOps: 60,
		Weights:  map[string]int{"enq": 34, "deq": 24, "ack": 10, "nack": 8, "upd": 8, "mid": 2, "adv": 10, "delete": 1, "create": 2, "reload": 1},
		Timeouts: []int64{2, 3, 5, 10}, Intervals: []int64{1, 1, 2, 3}, Advs: advs, Reloads: []string{"clean"}, BigEvery: true, Deep: 12, Bulk: 40, Long: 80, MultiDeq: true}
	Main(t, Check[Case]{
		ID:     "C01",
		Rule:   "a case is a random history of create/enqueue/dequeue/ack/nack/priority/delete/time/reload steps on 1-2 queues followed by a complete drain; non-trivial: at least 4 deliveries and at least one of nack, redelivery, refused enqueue, reload or queue deletion",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { return sysMix(t, p, 6) },
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Conserve: true}, tr, func(w *World) bool {
				return w.Deliveries >= 4 && (w.Settles > 0 || w.Redeliveries > 0 || w.Reloads > 0 || w.Deletes > 0)
			}, nil)
		},
	})
}

func TestC02(t *testing.T) {
	p := Profile{Types: delayed, Queues: [2]int{1, 1}, Prio: MixedPrio, MaxOps: 70,
		Weights:  map[string]int{"enq": 38, "deq": 24, "ack": 6, "nack": 10, "upd": 14, "adv": 6, "reload": 1},
		Timeouts: []int64{2, 4, 9}, Intervals: []int64{1, 2}, Advs: advs, Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true}
	Main(t, Check[Case]{
		ID:     "C02",
		Rule:   "a case is a random history on one delayed queue with few distinct priorities (many ties), drained at the end; non-trivial: at least 5 deliveries and at least one tie or priority change",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { return sysMix(t, p, 6) },
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Order: true}, tr, func(w *World) bool { return w.Deliveries >= 5 && w.Ties+w.Updates > 0 }, nil)
		},
	})
}

func TestC03(t *testing.T) {
	p := Profile{Types: delayed, Queues: [2]int{1, 1}, Prio: FuturePrio, MaxOps: 50,
		Weights:  map[string]int{"enq": 30, "deq": 30, "ack": 4, "nack": 8, "upd": 14, "adv": 16, "reload": 1},
		Timeouts: []int64{2, 4, 9}, Intervals: []int64{1, 2}, Advs: []int64{100, 300, 600, 700, 1000, 1300, 2000, 5000}, Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true}
	Main(t, Check[Case]{
		ID:     "C03",
		Rule:   "a case is a random history on one delayed queue whose priorities are mostly delivery times between -3 and +20 s around the (virtual) clock, or extreme values; non-trivial: at least one dequeue met only future messages and at least 3 deliveries",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { return sysMix(t, p, 6) },
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Gate: true}, tr, func(w *World) bool {
				tr.Count("dequeues_facing_only_future_messages", w.FutureGate)
				return w.FutureGate > 0 && w.Deliveries >= 3
			}, nil)
		},
	})
}

func TestC04(t *testing.T) {
	p := Profile{Types: fair, Queues: [2]int{1, 1}, Groups: groups, Prio: AnyPrio, MaxOps: 80,
		Weights:  map[string]int{"enq": 36, "deq": 34, "ack": 4, "nack": 10, "upd": 10, "adv": 5, "reload": 1},
		Timeouts: []int64{2, 4, 9}, Intervals: []int64{1, 2}, Advs: advs, Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true}
	Main(t, Check[Case]{
		ID:     "C04",
		Rule:   "a case is a random history on one fair queue with up to 6 groups, drained at the end; non-trivial: at least 3 dequeues made while two or more groups had ready messages",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { return sysMix(t, p, 6) },
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Fair: true}, tr, func(w *World) bool {
				tr.Count("dequeues_with_several_groups", w.MultiGroup)
				return w.MultiGroup >= 3
			}, nil)
		},
	})
}

func TestC05(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 2}, Groups: groups, Prio: MixedPrio, MaxOps: 50,
		Weights:  map[string]int{"enq": 26, "deq": 32, "ack": 7, "nack": 8, "upd": 10, "mid": 5, "adv": 22},
		Timeouts: []int64{2, 3, 5, 7, 20, 60}, Intervals: []int64{1, 1, 2, 5}, Advs: []int64{200, 700, 1000, 1900, 3000, 4000, 10000, 30000}, AckRatio: 8,
		Targets: []string{"unacked", "unacked", "unacked", "ready", "unknown"}, Deep: 12, Bulk: 40, MultiDeq: true}
	// many messages held at a time, each for a deadline of its own, settled in no particular order
	hold := p
	hold.Queues, hold.MaxOps, hold.Deep, hold.AckRatio = [2]int{1, 1}, 60, 1, 2
	hold.Weights = map[string]int{"enq": 16, "deq": 34, "ack": 16, "nack": 4, "adv": 34}
	hold.Targets = []string{"unacked"}
	hold.Timeouts, hold.Intervals, hold.Advs = []int64{15, 20, 30, 60}, []int64{1}, []int64{1000, 1000, 1000, 2000, 5000}
	// timeouts of hours
	long := p
	long.Queues, long.Long = [2]int{1, 1}, 1
	long.Weights = map[string]int{"enq": 30, "deq": 34, "ack": 4, "nack": 2, "upd": 4, "adv": 26}
	// a thousand messages that time out at once
	mass := p
	mass.Queues, mass.Bulk, mass.Many, mass.AckRatio = [2]int{1, 1}, 1, []int{1, 700, 1100, 2100}, 10
	mass.Weights = map[string]int{"enq": 30, "deq": 30, "adv": 40}
	mass.Advs = []int64{1000, 1000, 3000, 7000}
	Main(t, Check[Case]{
		ID:     "C05",
		Rule:   "a case is a random history dominated by unacknowledged dequeues and passage of virtual time, for several timeouts and check intervals (one case in eight: up to 300 steps with tens of messages held at once; one in 25: timeouts of hours; one in 60: up to two thousand messages that time out at once); non-trivial: at least 2 timeout redeliveries",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case {
			if Uni(t, 8) == 7 {
				return hold.Gen(t)
			}
			if Uni(t, 25) == 24 {
				return long.Gen(t)
			}
			if Uni(t, 60) == 59 {
				c := mass.Gen(t)
				c.Sys = "qm"
				return c
			}
			return sysMix(t, p, 6)
		},
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Timing: true, Counts: true}, tr, func(w *World) bool { return w.Redeliveries >= 2 },
				func(w *World, op *Op) error {
					if op.K == "adv" { // what is ready must be visible as soon as time has passed
						for i := range w.C.Names {
							if w.Queues[w.C.Names[i]] != nil {
								if err := w.Step(&Op{K: "info", Q: i}); err != nil {
									return err
								}
							}
						}
					}
					return nil
				})
		},
	})
}

func TestC06(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 2}, Groups: groups, Prio: MixedPrio, MaxOps: 60,
		Weights:  map[string]int{"enq": 26, "deq": 20, "ack": 16, "nack": 14, "upd": 16, "adv": 6, "mid": 3, "delete": 1, "create": 1},
		Timeouts: []int64{2, 3, 5, 10}, Intervals: []int64{1, 2, 7, 30}, Advs: advs, Deep: 12, Bulk: 40, MultiDeq: true}
	Main(t, Check[Case]{
		ID:     "C06",
		Rule:   "a case is a random history dominated by ack, nack and priority change aimed at ready, unacknowledged, gone, foreign and unknown messages; non-trivial: at least 3 successful and 2 rejected settlements",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { return sysMix(t, p, 6) },
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Settle: true, Conserve: true, Order: true, Counts: true}, tr,
				func(w *World) bool { return w.Settles >= 3 && w.Failures >= 2 },
				func(w *World, op *Op) error {
					if op.K == "ack" || op.K == "nack" || op.K == "upd" {
						for i := range w.C.Names {
							if w.Queues[w.C.Names[i]] != nil {
								if err := w.Step(&Op{K: "info", Q: i}); err != nil {
									return err
								}
							}
						}
					}
					return nil
				})
		},
	})
}

func TestC07(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 4}, Names: TrickyNames, Groups: groups, Prio: MixedPrio, MaxOps: 60, NoInitial: true,
		Weights:  map[string]int{"enq": 34, "deq": 14, "ack": 4, "nack": 4, "upd": 4, "adv": 4, "delete": 10, "create": 14, "reload": 5, "list": 5, "info": 5},
		Timeouts: []int64{3, 10}, Intervals: []int64{1}, Advs: advs, Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true, BigEvery: false}
	// queues of a thousand messages
	big := p
	big.Queues, big.Bulk, big.Many = [2]int{1, 2}, 1, []int{1, 130, 600, 1050, 1050, 2100}
	big.Weights = map[string]int{"enq": 34, "deq": 5, "delete": 20, "create": 30, "reload": 12, "info": 5}
	Main(t, Check[Case]{
		ID:     "C07",
		Rule:   "a case is a random history of queue creation, deletion, re-creation (same or other type), use and storage reload over 1-4 queue names (one case in 60: queues of up to two thousand messages); non-trivial: at least one queue deleted and at least one of re-creation, reload or operation on a missing queue",
		Bubble: true, Minimize: MinimizeCase, Quick: 2400, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case {
			if Uni(t, 60) == 59 {
				c := big.Gen(t)
				c.Sys = "qm"
				return c
			}
			return sysMix(t, p, 6)
		},
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Lifecycle: true}, tr,
				func(w *World) bool { return w.Deletes > 0 && (w.Reloads > 0 || w.Failures > 0) },
				func(w *World, op *Op) error {
					if op.K == "delete" || op.K == "create" || op.K == "reload" {
						return w.Step(&Op{K: "list"})
					}
					return nil
				})
		},
	})
}

func TestC17(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 2}, Groups: groups, Prio: MixedPrio, MaxOps: 60,
		Weights:  map[string]int{"enq": 30, "deq": 24, "ack": 10, "nack": 8, "upd": 4, "adv": 18, "delete": 1, "create": 1, "reload": 1, "list": 2},
		Timeouts: []int64{3, 5, 30}, Intervals: []int64{1, 2}, Windows: []int{1, 2, 3, 5, 10, 30, 60, 61, 120, 600}, Advs: []int64{100, 400, 1000, 1500, 2000, 3000, 7000, 15000},
		Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true, BigEvery: true}
	Main(t, Check[Case]{
		ID:     "C17",
		Rule:   "a case is a random history with idle periods; after every step the counts and the four rates of every queue are compared with the model; non-trivial: at least 6 successful operations and at least 2 seconds passing between some of them",
		Bubble: true, Minimize: MinimizeCase, Quick: 2000, Thorough: 40000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { return sysMix(t, p, 6) },
		Run: func(c Case, tr *Trace) error {
			return runSeq(c, Claims{Counts: true, Rates: true}, tr,
				func(w *World) bool { return w.Deliveries+w.Settles >= 6 },
				func(w *World, op *Op) error { return w.Step(&Op{K: "list"}) })
		},
	})
}

// C08: every operation also runs on a system that holds only that one queue.
func TestC08(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{2, 4}, Names: TrickyNames, Groups: groups, Prio: MixedPrio, MaxOps: 60,
		Weights:  map[string]int{"enq": 34, "deq": 22, "ack": 6, "nack": 6, "upd": 6, "adv": 8, "delete": 5, "create": 6, "reload": 4, "info": 2},
		Timeouts: []int64{2, 3, 10}, Intervals: []int64{1, 2}, Advs: advs, Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true}
	Main(t, Check[Case]{
		ID:     "C08",
		Rule:   "a case is a random history over 2-4 queues whose names share prefixes and separators; every operation is run at the same time on a store holding all queues and on a store holding only its own queue, and answers, counts, rates and queue lists are compared after every step; non-trivial: at least two queues delivered messages and at least one queue deletion, reload or redelivery happened",
		Bubble: true, Minimize: MinimizeCase, Quick: 1500, Thorough: 40000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case { c := p.Gen(t); c.Sys = "qm"; return c },
		Run: func(c Case, tr *Trace) error {
			ToPresent()
			conf := Conf{Timeout: c.Timeout, Interval: c.Interval, Window: c.Window}
			all, err := NewQM(conf)
			if err != nil {
				return err
			}
			m := &Mirror{All: all, Per: map[string]Sys{}, New: func() (Sys, error) {
				s, err := NewQM(conf)
				return s, err
			}}
			defer m.Close()
			w := NewWorld(&c, m, Claims{Lax: true}, tr)
			delivered := map[string]bool{}
			w.After = func(w *World, op *Op) error {
				if op.K == "deq" {
					delivered[c.Names[op.Q%len(c.Names)]] = true
				}
				m.Sync()
				return m.Err()
			}
			err = w.Run()
			if m.Diff != "" {
				if v, ok := err.(*Violation); ok && err != nil {
					return v
				}
				return m.Err()
			}
			if err != nil {
				return err
			}
			w.DeleteAll()
			m.Sync()
			if err := m.Err(); err != nil {
				return V("after deleting all queues: %v", err)
			}
			tr.Nontrivial = len(delivered) >= 2 && w.Deliveries >= 3 && w.Deletes+w.Reloads+w.Redeliveries > 0
			tr.Count("compared_answers", m.Ops)
			tr.Count("deliveries", w.Deliveries)
			tr.Count("redeliveries", w.Redeliveries)
			tr.Count("reloads", w.Reloads)
			tr.Count("queue_deletes", w.Deletes)
			return nil
		},
	})
}

// C09: the storage is closed or abandoned after arbitrary operations and reopened.
func TestC09(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Groups: groups, Prio: MixedPrio, MaxOps: 60, Disk: true,
		Weights:  map[string]int{"enq": 40, "deq": 18, "ack": 8, "nack": 4, "upd": 10, "adv": 4, "delete": 2, "create": 3, "reload": 11},
		Timeouts: []int64{3, 30}, Intervals: []int64{1}, Advs: advs, Reloads: []string{"clean", "crash", "crash"}, Deep: 12, Bulk: 40, MultiDeq: true,
		Contents: AnyText, Bigs: []int{500, 1500, 5000}}
	Main(t, Check[Case]{
		ID:     "C09",
		Rule:   "a case is a random history in which the store is repeatedly closed and reopened or, on real storage files (one case in four), abandoned and reopened from a copy of its files as they are at that moment (a crash), and which at times refuses to write, followed by a complete drain; non-trivial: at least one reload with at least 2 messages present and at least one removal or priority change before it",
		Bubble: true, Minimize: MinimizeCase, Quick: 450, Thorough: 14000, QuickSecs: 40, ThoroughSecs: 700,
		Gen: func(t *rapid.T) Case {
			c := p.Gen(t)
			c.Sys = "qm"
			c.Disk = Uni(t, 4) == 3
			c.Faults(t)
			return c
		},
		Run: func(c Case, tr *Trace) error {
			nt := false
			return runSeq(c, Claims{Conserve: true, Content: true, Lifecycle: true, Order: true, Settle: true, Counts: true}, tr, func(w *World) bool { return nt },
				func(w *World, op *Op) error {
					if op.K == "reload" {
						if w.MsgCount() >= 2 && w.Settles+w.Updates+w.Deliveries > 0 {
							nt = true
						}
						return w.Step(&Op{K: "list"})
					}
					return nil
				})
		},
	})
}

// C18: the registry is scraped after every step.
func TestC18(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Groups: groups, Prio: MixedPrio, MaxOps: 60,
		Weights:  map[string]int{"enq": 30, "deq": 24, "ack": 10, "nack": 9, "upd": 3, "mid": 2, "adv": 12, "delete": 4, "create": 6, "reload": 2},
		Timeouts: []int64{2, 3, 5, 30}, Intervals: []int64{1, 2}, Advs: []int64{400, 1000, 2000, 3000, 7000, 15000},
		Reloads: []string{"clean"}, Deep: 12, Bulk: 40, MultiDeq: true, BigEvery: true}
	Main(t, Check[Case]{
		ID:     "C18",
		Rule:   "a case is a random history over 1-3 queues with metrics enabled (one case in eight: disabled); after every step all series are gathered and compared with the model; non-trivial: at least 4 deliveries and at least two of acks/nacks, redelivery, queue deletion and reload",
		Bubble: true, Minimize: MinimizeCase, Quick: 1600, Thorough: 40000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: func(t *rapid.T) Case {
			c := sysMix(t, p, 6)
			c.Metrics = Uni(t, 8) != 7
			return c
		},
		Run: func(c Case, tr *Trace) error {
			scrapes := 0
			defer func() { tr.Count("scrapes", scrapes) }()
			return runSeq(c, Claims{Counts: true}, tr,
				func(w *World) bool {
					k := 0
					for _, n := range []int{w.Settles, w.Redeliveries, w.Deletes, w.Reloads} {
						if n > 0 {
							k++
						}
					}
					return c.Metrics && w.Deliveries >= 4 && k >= 2
				},
				func(w *World, op *Op) error {
					if !c.Metrics {
						return nil
					}
					_, reg := Metrics()
					s, err := GatherSeries(reg)
					if err != nil {
						return V("the metrics cannot be gathered: %v", err)
					}
					scrapes++
					return w.CheckSeries(s)
				})
		},
	})
}
