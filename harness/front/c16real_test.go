package front

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/gofiber/fiber/v2"
	hraft "github.com/hashicorp/raft"
	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	pb "github.com/kgantsov/doq/pkg/proto"
	draft "github.com/kgantsov/doq/pkg/raft"
	"github.com/kgantsov/doq/pkg/zzverif/api"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"pgregory.net/rapid"
)

// realCluster is three complete nodes over TCP: raft transport, leader tracking,
// HTTP and gRPC services, forwarding. One per process.
type realCluster struct {
	ids    []string
	addrs  []string
	hosts  []string
	nodes  []*draft.Node
	fronts []*api.Front
	apps   []*fiber.App
}

// blockPort finds a port that is free on all the hosts (it is released again).
func blockPort(hs []string) (int, error) {
	p, ls, err := bindAll(hs)
	for _, l := range ls {
		l.Close()
	}
	return p, err
}

func (r *realCluster) start() error {
	base := 20 + 4*EnvShard()
	for i := 0; i < 3; i++ {
		r.hosts = append(r.hosts, fmt.Sprintf("127.0.0.%d", base+i))
	}
	hp, hl, err := bindAll(r.hosts)
	if err != nil {
		return err
	}
	gp, gl, err := bindAll(r.hosts)
	if err != nil {
		return err
	}
	rp, err := blockPort(r.hosts)
	if err != nil {
		return err
	}
	var wg sync.WaitGroup
	for i := range r.hosts {
		cfg := Conf{Timeout: 3600, Interval: 1, Window: 10}.Config()
		cfg.Http.Port = fmt.Sprint(hp)
		cfg.Cluster.NodeID = fmt.Sprintf("node-%d", i)
		cfg.Raft.Address = fmt.Sprintf("%s:%d", r.hosts[i], rp)
		cfg.Logging.LogLevel = "error"
		db, err := OpenDB("", 16<<20)
		if err != nil {
			return err
		}
		n := draft.NewNode(db, TempDir(), cfg, nil)
		r.nodes = append(r.nodes, n)
		r.ids = append(r.ids, cfg.Cluster.NodeID)
		r.addrs = append(r.addrs, cfg.Raft.Address)
		wg.Add(1)
		go func() { defer wg.Done(); n.Initialize() }()
		app, err := api.App(cfg, n)
		if err != nil {
			return err
		}
		r.apps = append(r.apps, app)
		go func(l net.Listener) { _ = app.Listener(l) }(hl[i])
		g, err := doqgrpc.NewGRPCServer(n, gp)
		if err != nil {
			return err
		}
		go func(l net.Listener) { _ = g.Serve(l) }(gl[i])
		cc, err := grpc.Dial(fmt.Sprintf("%s:%d", r.hosts[i], gp), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			return err
		}
		r.fronts = append(r.fronts, &api.Front{H: sockClient(r.hosts[i], hp), G: pb.NewDOQClient(cc), Strict: true})
	}
	wg.Wait()
	// the others join through the first, as the join endpoint does it
	for i := 1; i < 3; i++ {
		body := fmt.Sprintf(`{"id":%q,"addr":%q}`, r.ids[i], r.addrs[i])
		if _, err := r.fronts[0].H.Call("POST", "/join", []byte(body), nil); err != nil {
			return V("node %s cannot join: %v", r.ids[i], err)
		}
	}
	wg = sync.WaitGroup{}
	for _, n := range r.nodes {
		wg.Add(1)
		go func(n *draft.Node) { defer wg.Done(); _ = n.InitIDGenerator() }(n)
	}
	wg.Wait()
	_, err = r.settled(60 * time.Second)
	return err
}

// settled waits until there is one leader that everybody knows and that everybody
// has caught up with.
func (r *realCluster) settled(max time.Duration) (int, error) {
	state, barrier := "", -1
	for t0 := time.Now(); time.Since(t0) < max; time.Sleep(20 * time.Millisecond) {
		lead, n := -1, 0
		for i, nd := range r.nodes {
			if nd.IsLeader() {
				lead = i
				n++
			}
		}
		if n != 1 {
			state = fmt.Sprintf("%d leaders", n)
			continue
		}
		if barrier != lead {
			if r.nodes[lead].Raft.Barrier(2*time.Second).Error() != nil {
				state = "the leader does not commit"
				continue
			}
			barrier = lead
		}
		ok := true
		for i, nd := range r.nodes {
			if nd.Leader() != r.hosts[lead] || nd.Raft.AppliedIndex() < r.nodes[lead].Raft.LastIndex() {
				ok = false
				state = fmt.Sprintf("node %d knows leader %q (it is %q) and has applied %d of %d", i, nd.Leader(), r.hosts[lead], nd.Raft.AppliedIndex(), r.nodes[lead].Raft.LastIndex())
			}
		}
		if ok {
			return lead, nil
		}
	}
	return 0, V("within %v the nodes do not agree on the leader: %s", max, state)
}

// spread sends every call to the node and the interface that the step names.
type spread struct {
	r    *realCluster
	sel  func() int // interface bits and, from bit 3 on, the node
	uses map[string]int
}

func (s *spread) f() *api.Front {
	v := s.sel()
	n := (v >> 3) % 3
	fr := s.r.fronts[n]
	fr.Sel = func() int { return v }
	what := "follower"
	if s.r.nodes[n].IsLeader() {
		what = "leader"
	}
	s.uses[what]++
	return fr
}
func (s *spread) Create(typ, name string) error { return s.f().Create(typ, name) }
func (s *spread) Delete(name string) error      { return s.f().Delete(name) }
func (s *spread) Enqueue(id uint64, name, group string, p int64, c string) (Msg, error) {
	return s.f().Enqueue(id, name, group, p, c)
}
func (s *spread) Dequeue(name string, ack bool) (Msg, error) { return s.f().Dequeue(name, ack) }
func (s *spread) Ack(name string, id uint64) error           { return s.f().Ack(name, id) }
func (s *spread) Nack(name string, id uint64) error          { return s.f().Nack(name, id) }
func (s *spread) Update(name string, id uint64, p int64) error {
	return s.f().Update(name, id, p)
}
func (s *spread) List() ([]Info, error) {
	if _, err := s.r.settled(20 * time.Second); err != nil {
		return nil, err
	}
	return s.f().List()
}
func (s *spread) Info(name string) (Info, error) {
	if _, err := s.r.settled(20 * time.Second); err != nil {
		return Info{}, err
	}
	return s.f().Info(name)
}
func (s *spread) Reload(string) error { return nil }
func (s *spread) Close()              {}

func TestC16Real(t *testing.T) {
	r := &realCluster{}
	p := Profile{Sys: "front", Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Prio: PastPrio, MaxOps: 40,
		Groups:   []string{"default", "default", "a", "b", "", "é"},
		Weights:  map[string]int{"enq": 34, "deq": 22, "ack": 9, "nack": 7, "upd": 10, "delete": 2, "create": 3, "list": 2, "info": 5},
		Timeouts: []int64{3600}, Intervals: []int64{1}, MultiDeq: true, Plain: true, Interfaces: 24, Contents: AnyText, Bigs: []int{500, 5000}}
	Main(t, Check[Case]{
		ID: "C16", Test: "C16Real",
		Setup: r.start,
		Rule:  "a case is a random history in which every step goes over HTTP or gRPC to a random node of a real three-node cluster over TCP, with leadership transfers in between, judged by the reference model; non-trivial: at least 3 calls went to a follower and 2 messages were delivered",
		Quick: 40, Thorough: 800, QuickSecs: 30, ThoroughSecs: 600, Minimize: MinimizeCase,
		Gen: func(t *rapid.T) Case {
			c := p.Gen(t)
			if Uni(t, 3) == 0 { // a leadership transfer somewhere
				c.Ops[Uni(t, len(c.Ops))] = Op{K: "list", N: 7, V: UniRange(t, 0, 23)}
			}
			return c
		},
		Run: func(c Case, tr *Trace) error { return r.run(c, tr) },
	})
}

func (r *realCluster) run(c Case, tr *Trace) error {
	lead, err := r.settled(60 * time.Second)
	if err != nil {
		return err
	}
	for _, q := range r.nodes[lead].GetQueues() {
		if err := r.nodes[lead].DeleteQueue(q.Name); err != nil {
			return err
		}
	}
	s := &spread{r: r, uses: map[string]int{}}
	w := NewWorld(&c, s, Claims{Conserve: true, Content: true, Lifecycle: true, Settle: true, Counts: true, Order: true, RealTime: true, NoDrain: true}, tr)
	n := 0
	s.sel = func() int {
		if w.Cur != nil {
			return w.Cur.V
		}
		n++
		return n * 7 % 24
	}
	w.After = func(w *World, op *Op) error {
		if op.K == "list" && op.N == 7 {
			if lead, err = r.settled(20 * time.Second); err != nil {
				return err
			}
			to := (lead + 1) % 3
			if r.nodes[lead].Raft.LeadershipTransferToServer(hraft.ServerID(r.ids[to]), hraft.ServerAddress(r.addrs[to])).Error() == nil {
				tr.Count("transfers", 1)
			}
			_, err := r.settled(60 * time.Second)
			return err
		}
		return nil
	}
	if err := w.Run(); err != nil {
		return err
	}
	for i := range c.Names {
		for k := 0; k < 1000; k++ {
			if _, ok := w.Queues[c.Names[i]]; !ok {
				break
			}
			if _, u := w.Counts(c.Names[i]); u == 0 {
				break
			}
			if err := w.Step(&Op{K: "nack", Q: i, W: "unacked"}); err != nil {
				return err
			}
		}
	}
	if err := w.Drain(); err != nil {
		return err
	}
	w.DeleteAll()
	tr.Nontrivial = s.uses["follower"] >= 3 && w.Deliveries >= 2
	for k, v := range s.uses {
		tr.Count("calls_to_"+k, v)
	}
	tr.Count("deliveries", w.Deliveries)
	return nil
}
