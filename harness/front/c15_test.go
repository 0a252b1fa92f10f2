package front

import (
	"testing"
	"testing/synctest"
	"time"

	"github.com/kgantsov/doq/pkg/zzverif/api"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

var both = []string{"delayed", "fair"}

// toPresent moves the virtual clock, which starts in the year 2000, to where ids
// of messages are positive numbers.
func toPresent() {
	time.Sleep(time.Until(time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)))
}

func newServices(t *testing.T) *api.Services {
	s, err := api.NewServices()
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func TestC15(t *testing.T) {
	p := Profile{Sys: "front", Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Prio: MixedPrio, MaxOps: 50,
		Groups:   []string{"default", "default", "a", "b", "", "c:d", "é", "\U0001F600", "{\"g\":1}", " "},
		Weights:  map[string]int{"enq": 34, "deq": 22, "ack": 9, "nack": 7, "upd": 10, "adv": 3, "delete": 2, "create": 3, "list": 3, "info": 7},
		Timeouts: []int64{3600}, Intervals: []int64{1}, Advs: []int64{100, 1000, 3000}, MultiDeq: true, Interfaces: 8, Deep: 30, Bulk: 60, BulkMax: 130,
		Contents: AnyText, Bigs: []int{500, 5000, 5000, 60000, 66000, 300000, 700000}}
	s := newServices(t)
	Main(t, Check[Case]{
		ID:     "C15",
		Setup:  func() error { toPresent(); return s.StartGRPC() },
		Rule:   "a case is a random history in which every step goes over HTTP or gRPC at random to a node (real services, real raft, FSM and queues), with a complete drain at the end; non-trivial: both interfaces were used at least twice and at least 2 messages were delivered",
		Bubble: true, Minimize: MinimizeCase, Quick: 250, Thorough: 6000, QuickSecs: 60, ThoroughSecs: 700,
		Assumptions: []string{
			"HTTP requests are served in process by the router of the service, gRPC over an in-memory connection",
			"negative priorities and the empty group are sent over gRPC only (HTTP documents a minimum of 0, and an empty group there means the default group)",
		},
		Gen: func(t *rapid.T) Case {
			c := p.Gen(t)
			c.Faults(t)
			return c
		},
		Run: func(c Case, tr *Trace) error { return runC15(s, c, tr) },
	})
}

func runC15(s *api.Services, c Case, tr *Trace) error {
	back, err := NewNodeSys(Conf{Timeout: c.Timeout, Interval: c.Interval, Window: c.Window})
	if err != nil {
		return err
	}
	s.Node.Node = back.(*NodeSys).M.Node
	f := &api.Front{H: s.H, G: s.G, Back: back, Strict: true}
	defer f.Close()
	w := NewWorld(&c, f, Claims{Conserve: true, Content: true, Lifecycle: true, Settle: true, Counts: true, Rates: true, Gate: true, Order: true}, tr)
	w.Takes = 700000
	n := 0
	f.Sel = func() int {
		if w.Cur != nil {
			return w.Cur.V
		}
		return n
	}
	w.After = func(*World, *Op) error { n++; return nil }
	if err := w.Run(); err != nil {
		return err
	}
	w.DeleteAll()
	synctest.Wait()
	tr.Nontrivial = f.Calls[0] >= 2 && f.Calls[1] >= 2 && w.Deliveries >= 2
	tr.Count("http_calls", f.Calls[0])
	tr.Count("grpc_calls", f.Calls[1])
	tr.Count("deliveries", w.Deliveries)
	tr.Count("settlements", w.Settles)
	tr.Count("failures", w.Failures)
	tr.Count("steps_whose_writes_are_refused", w.Faults)
	return nil
}
