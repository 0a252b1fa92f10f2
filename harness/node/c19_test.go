package node

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bwmarrin/snowflake"
	pb "github.com/kgantsov/doq/pkg/proto"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"pgregory.net/rapid"
)

type c19Op struct {
	K  string `json:"k"`            // burst seq gen adv move restart kill join
	C  int    `json:"c,omitempty"`  // concurrent clients
	N  int    `json:"n,omitempty"`  // ids per client
	X  int    `json:"x,omitempty"`  // node
	MS int64  `json:"ms,omitempty"` // adv
}

type c19Case struct {
	Nodes int     `json:"nodes"`
	Style int     `json:"style,omitempty"` // how nodes are named
	Types string  `json:"type"`
	Ops   []c19Op `json:"ops"`
}

// idLog remembers who got which id.
type idLog struct {
	mu   sync.Mutex
	by   map[uint64]string
	last map[string]uint64 // newest id got one after another from a node
	err  error
}

func (l *idLog) add(id uint64, who string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if o, ok := l.by[id]; ok && l.err == nil {
		l.err = V("id %d was given out twice: %s, and before %s", id, who, o)
	}
	l.by[id] = who
}

// inOrder notes an id obtained after all earlier ids of that node.
func (l *idLog) inOrder(node string, ids ...uint64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, id := range ids {
		if id <= l.last[node] && l.err == nil {
			l.err = V("node %s gave out id %d after id %d", node, id, l.last[node])
		}
		l.last[node] = max(l.last[node], id)
	}
}

func TestC19(t *testing.T) {
	Main(t, Check[c19Case]{
		ID:     "C19",
		Setup:  func() error { time.Sleep(time.Until(time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC))); return nil },
		Rule:   "a case is a random history on a cluster of 1-3 nodes (real node code and raft, virtual time): bursts of enqueues by concurrent clients and of ids drawn from all nodes at the same instant, sequences of enqueues, leadership transfers, restarts, crashes and further nodes joining; non-trivial: at least 40 ids and a burst, plus a second node or a restart",
		Bubble: true, Quick: 500, Thorough: 10000, QuickSecs: 40, ThoroughSecs: 700,
		Assumptions: []string{"the clock of a node never steps back, and fewer than 4096 ids are drawn per node and millisecond (beyond that the generator waits for the next one)", "generator numbers are compared for nodes that joined one after another, without removals"},
		Gen: func(t *rapid.T) c19Case {
			c := c19Case{Nodes: UniRange(t, 1, 3), Types: Pick(t, both), Style: max(0, Uni(t, 2*len(NodeIDs))-len(NodeIDs))}
			for k := UniRange(t, 2, 14); k > 0; k-- {
				op := c19Op{K: Pick(t, []string{"burst", "burst", "burst", "seq", "seq", "gen", "gen", "adv", "adv", "move", "restart", "kill", "join"})}
				switch op.K {
				case "burst":
					op.C, op.N = UniRange(t, 2, 16), UniRange(t, 1, 8)
				case "seq", "gen":
					op.N = UniRange(t, 1, 20)
				case "adv":
					op.MS = Pick(t, []int64{1, 1, 2, 10, 999, 20000})
				}
				op.X = Uni(t, 4)
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Minimize: func(c c19Case, fails func(c19Case) bool) c19Case {
			c.Ops = DDMin(c.Ops, func(o []c19Op) bool { d := c; d.Ops = o; return fails(d) })
			return c
		},
		Run: runC19,
	})
}

func runC19(c c19Case, tr *Trace) error {
	cl, err := NewClusterOf(c.Nodes, NodeIDs[c.Style], Conf{Timeout: 1000000, Interval: 1000, Window: 10})
	if cl != nil {
		defer cl.Close()
	}
	if err != nil {
		return err
	}
	l := &idLog{by: map[uint64]string{}, last: map[string]uint64{}}
	lead := cl.Leader(120 * time.Second)
	if lead == nil {
		return errors.New("no leader")
	}
	if err := lead.Node.CreateQueue(c.Types, "q"); err != nil {
		return V("creating a queue failed: %v", err)
	}
	stored := map[uint64]bool{}
	bursts, restarts := 0, 0
	for _, op := range c.Ops {
		if lead = cl.Leader(120 * time.Second); lead == nil {
			return V("no leader is elected within 120 s")
		}
		switch op.K {
		case "burst":
			bursts++
			start := make(chan struct{})
			var wg sync.WaitGroup
			var mu sync.Mutex
			var all []uint64
			before := l.last[lead.ID]
			for i := 0; i < op.C; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					last := before
					for k := 0; k < op.N; k++ {
						m, err := lead.Node.Enqueue("q", "g", 1, "x")
						if err != nil {
							return
						}
						l.add(m.ID, fmt.Sprintf("to client %d in a burst on %s", i, lead.ID))
						mu.Lock()
						if m.ID <= last && l.err == nil {
							l.err = V("client %d got id %d from node %s after id %d", i, m.ID, lead.ID, last)
						}
						last = m.ID
						stored[m.ID] = true
						all = append(all, m.ID)
						mu.Unlock()
					}
				}()
			}
			synctest.Wait()
			close(start)
			wg.Wait()
			for _, id := range all {
				l.last[lead.ID] = max(l.last[lead.ID], id)
			}
			tr.Count("ids_by_concurrent_clients", len(all))
		case "seq":
			for k := 0; k < op.N; k++ {
				m, err := lead.Node.Enqueue("q", "g", 1, "x")
				if err != nil {
					break
				}
				l.add(m.ID, "by enqueue on "+lead.ID)
				l.inOrder(lead.ID, m.ID)
				stored[m.ID] = true
			}
		case "gen":
			for k := 0; k < op.N; k++ {
				for _, m := range cl.M {
					if m.Up {
						id := m.Node.GenerateID()
						l.add(id, "by the generator of "+m.ID)
						l.inOrder(m.ID, id)
					}
				}
			}
		case "adv":
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
		case "move":
			if len(cl.M) > 1 {
				_ = lead.Raft.LeadershipTransfer().Error()
			}
		case "restart", "kill":
			m := cl.M[op.X%len(cl.M)]
			if op.K == "kill" {
				m = lead
			}
			restarts++
			if err := m.Stop(); err != nil {
				return err
			}
			cl.Wire()
			if op.K == "kill" && len(cl.M) > 2 { // the others go on without it for a while
				if n := cl.Leader(120 * time.Second); n != nil {
					for k := 0; k < 5; k++ {
						if e, err := n.Node.Enqueue("q", "g", 1, "x"); err == nil {
							l.add(e.ID, "by enqueue on "+n.ID)
							l.inOrder(n.ID, e.ID)
							stored[e.ID] = true
						}
					}
				}
			}
			if err := m.Start(false); err != nil {
				return err
			}
			cl.Wire()
			if err := m.Node.InitIDGenerator(); err != nil {
				return V("node %s cannot initialise its id generator: %v", m.ID, err)
			}
		case "join":
			if len(cl.M) >= 5 {
				continue
			}
			m, err := NewMember(NodeIDs[c.Style](len(cl.M)), cl.M[0].Conf, false)
			if err != nil {
				return err
			}
			cl.M = append(cl.M, m)
			if err := m.Start(false); err != nil {
				return err
			}
			cl.Wire()
			if err := lead.Node.Join(m.ID, m.ID); err != nil {
				return V("node %s cannot join: %v", m.ID, err)
			}
			if err := m.Node.InitIDGenerator(); err != nil {
				return V("node %s cannot initialise its id generator: %v", m.ID, err)
			}
		}
		if l.err != nil {
			return l.err
		}
	}
	if !cl.Settle(120 * time.Second) {
		return V("the cluster does not come to rest within 120 s")
	}
	lead = cl.Leader(120 * time.Second)
	// ids drawn on all nodes at the same instant differ, whoever leads next
	for k := 0; k < 10; k++ {
		for _, m := range cl.M {
			id := m.Node.GenerateID()
			l.add(id, "by the generator of "+m.ID+" at the end")
			l.inOrder(m.ID, id)
		}
	}
	if l.err != nil {
		return l.err
	}
	for n := 0; ; n++ {
		m, err := lead.Node.Dequeue("q", true)
		if err != nil {
			break
		}
		if n > len(stored)+5000 {
			return V("draining the queue does not end")
		}
		delete(stored, m.ID)
	}
	if len(stored) > 0 {
		return V("%d of the acknowledged messages cannot be dequeued by their id", len(stored))
	}
	tr.Count("ids", len(l.by))
	tr.Count("restarts", restarts)
	tr.Count(fmt.Sprintf("clusters_of_%d", len(cl.M)), 1)
	tr.Nontrivial = len(l.by) >= 40 && bursts > 0 && (restarts > 0 || len(cl.M) > 1)
	return nil
}

type c19Real struct {
	Clients int `json:"clients"`
	PerCl   int `json:"per_client"`
	Kill    int `json:"kill"` // which further node is killed after the first one is back
}

// Real processes: nodes join through their join address, then the leader is killed.
func TestC19Real(t *testing.T) {
	Main(t, Check[c19Real]{
		ID: "C19", Test: "C19Real",
		Rule:  "a case is a cluster of three real server processes that join one another; clients enqueue over gRPC at full speed on all of them, the leader is killed, and they go on; non-trivial: ids came from two generators",
		Quick: 1, Thorough: 15, QuickSecs: 60, ThoroughSecs: 700,
		Gen: func(t *rapid.T) c19Real {
			return c19Real{Clients: UniRange(t, 2, 8), PerCl: UniRange(t, 20, 150), Kill: Uni(t, 2)}
		},
		Run: func(c c19Real, tr *Trace) (err error) {
			for try := 0; try < 3; try++ {
				if err = c.run(tr); !errors.Is(err, ErrBusyPort) {
					return err
				}
			}
			tr.Discard = "port taken"
			return nil
		},
	})
}

func (c c19Real) run(tr *Trace) error {
	var srvs []*Server
	var cls []pb.DOQClient
	gport, rport := FreePort(), FreePort()
	for i := 0; i < 3; i++ {
		ip := fmt.Sprintf("127.0.%d.%d", 1+EnvShard(), 30+i)
		s := NewServer("--cluster.node_id", fmt.Sprintf("node-%d", i), "--grpc.address", fmt.Sprintf("%s:%d", ip, gport),
			"--queue.acknowledgement_timeout", "3600")
		s.Raft = fmt.Sprintf("%s:%d", ip, rport)
		if i > 0 {
			s.Flags = append(s.Flags, "--cluster.join_addr", fmt.Sprintf("127.0.0.1:%d", srvs[0].HTTPPort))
		}
		defer s.Close()
		if err := s.Start(); err != nil {
			return err
		}
		if i == 0 {
			if err := s.Ready(100 * time.Second); err != nil {
				return err
			}
		}
		srvs = append(srvs, s)
		cc, err := grpc.Dial(fmt.Sprintf("%s:%d", ip, gport), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			return err
		}
		defer cc.Close()
		cls = append(cls, pb.NewDOQClient(cc))
	}
	l := &idLog{by: map[uint64]string{}, last: map[string]uint64{}}
	gens := func(ids []uint64) map[int64]bool {
		out := map[int64]bool{}
		for _, id := range ids {
			s := snowflake.ID(int64(id))
			if d := time.Since(time.UnixMilli(s.Time())); d < -time.Hour || d > time.Hour {
				return nil // not such an id
			}
			out[s.Node()] = true
		}
		return out
	}
	load := func(up []int) (ids []uint64, err error) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < c.Clients; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cli := cls[up[i%len(up)]]
				for k := 0; k < c.PerCl; k++ {
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
					m, err := cli.Enqueue(ctx, &pb.EnqueueRequest{QueueName: "q", Group: "g", Content: "x"})
					cancel()
					if err != nil || !m.Success {
						return
					}
					l.add(m.Id, fmt.Sprintf("to client %d", i))
					mu.Lock()
					ids = append(ids, m.Id)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return ids, l.err
	}
	waitFor := func(what string, cli pb.DOQClient, name string) error {
		var err error
		for t0 := RealNow(); RealNow().Sub(t0) < 100*time.Second; time.Sleep(50 * time.Millisecond) {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			_, err = cli.CreateQueue(ctx, &pb.CreateQueueRequest{Name: name, Type: "delayed"})
			cancel()
			if err == nil {
				return nil
			}
		}
		return V("%s does not serve within 100 s: %v", what, err)
	}
	for i := range cls {
		if err := waitFor(fmt.Sprintf("node %d", i), cls[i], "q"); err != nil {
			return err
		}
	}
	a, err := load([]int{0, 1, 2})
	if err != nil {
		return err
	}
	ga := gens(a)
	if len(ga) > 1 {
		tr.Discard = "leadership moved by itself"
		return nil
	}
	srvs[0].Kill()
	for i := 1; i < 3; i++ {
		if err := waitFor(fmt.Sprintf("node %d, after node 0 has died,", i), cls[i], "q"); err != nil {
			return err
		}
	}
	b, err := load([]int{1, 2})
	if err != nil {
		return err
	}
	gb := gens(b)
	for g := range gb {
		if ga[g] {
			return V("after the first node has died the others give out ids of its generator (number %d): ids can repeat", g)
		}
	}
	tr.Count("real_ids", len(l.by))
	tr.Count("real_clusters", 1)
	tr.Nontrivial = len(ga) > 0 && len(gb) > 0
	return nil
}
