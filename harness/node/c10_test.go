package node

import (
	"testing"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

var (
	both   = []string{"delayed", "fair"}
	groups = []string{"default", "a", "b", "c", "d", ""}
	advs   = []int64{100, 500, 1000, 1500, 2000, 3000, 5000, 8000, 13000}
)

// known histories that the recorded findings fail on.
var (
	f13 = Case{Sys: "node", Names: []string{"q"}, Types: []string{"delayed"}, Timeout: 3, Interval: 1, Window: 10, Disk: true, Ops: []Op{
		{K: "enq", P: 5}, {K: "deq"}, {K: "enq", P: 5}, {K: "adv", MS: 6000}, {K: "deq", A: true}, {K: "reload", T: "crash"}}}
	f14 = Case{Sys: "node", Names: []string{"q"}, Types: []string{"delayed"}, Timeout: 3600, Interval: 1, Window: 10, Disk: true, Ops: []Op{
		{K: "enq", P: 1}, {K: "enq", P: 2}, {K: "deq", A: true}, {K: "reload", T: "snapshot"}}}
)

func sameCase(a, b Case) bool {
	if len(a.Ops) != len(b.Ops) || a.Timeout != b.Timeout {
		return false
	}
	for i := range a.Ops {
		if a.Ops[i] != b.Ops[i] {
			return false
		}
	}
	return true
}

// knownOr runs a known-finding case: a violation there is the listed finding.
func knownOr(c Case, tr *Trace, err error) error {
	if _, ok := err.(*Violation); !ok {
		return err
	}
	switch {
	case sameCase(c, f13):
		tr.Known = append(tr.Known, "F13")
	case sameCase(c, f14):
		tr.Known = append(tr.Known, "F14")
	default:
		return err
	}
	return nil
}

func TestC10(t *testing.T) {
	p := Profile{Sys: "node", Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Groups: groups, Prio: MixedPrio, MaxOps: 60, Disk: true,
		Weights:  map[string]int{"enq": 38, "deq": 20, "ack": 10, "nack": 5, "upd": 10, "adv": 4, "delete": 2, "create": 3, "reload": 8},
		Timeouts: []int64{3600}, Intervals: []int64{1, 5}, Advs: advs, Reloads: []string{"clean", "crash", "crash"}, MultiDeq: true, Deep: 20, Bulk: 30, BulkMax: 300,
		Contents: AnyText, Bigs: []int{500, 1500, 5000}}
	Main(t, Check[Case]{
		ID:     "C10",
		Rule:   "a case is a random history on a single node (node API, raft, FSM, log store and queues on real files) in which the node is stopped or crashes (it is restarted from a copy of its files) several times, followed by a complete drain; non-trivial: at least one restart with at least 2 messages present and at least one removal or priority change before it",
		Bubble: true, Minimize: MinimizeCase, Quick: 100, Thorough: 4000, QuickSecs: 40, ThoroughSecs: 700,
		Fixed: []Case{f13, f14},
		Assumptions: []string{
			"the crash image is what the files hold after the last answered operation (process death, not power loss)",
			"no acknowledgement timeout expires and no raft snapshot is taken before a restart: those are the known findings F13 and F14",
		},
		Gen: func(t *rapid.T) Case { return p.Gen(t) },
		Run: func(c Case, tr *Trace) error {
			return knownOr(c, tr, runC10(c, tr))
		},
	})
}

func runC10(c Case, tr *Trace) error {
	s, err := NewNodeSys(Conf{Timeout: c.Timeout, Interval: c.Interval, Window: c.Window, Disk: true})
	if err != nil {
		return err
	}
	defer s.Close()
	nt := false
	w := NewWorld(&c, s, Claims{Conserve: true, Content: true, Lifecycle: true, Order: true, Settle: true, Counts: true, Fair: true, Gate: true, Restart: true}, tr)
	w.After = func(w *World, op *Op) error {
		if op.K == "reload" && w.MsgCount() >= 2 && w.Settles+w.Updates+w.Deliveries > 0 {
			nt = true
		}
		return nil
	}
	if err := w.Run(); err != nil {
		return err
	}
	w.DeleteAll()
	tr.Nontrivial = nt
	tr.Count("ops", len(w.Res))
	tr.Count("deliveries", w.Deliveries)
	tr.Count("settlements", w.Settles)
	tr.Count("restarts", w.Reloads)
	tr.Count("queue_deletes", w.Deletes)
	return nil
}
