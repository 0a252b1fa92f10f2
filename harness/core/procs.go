package core

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
)

// Procs is a cluster of real server processes, deployed as it is meant to be: every
// node has an address of its own, all use the same ports.
type Procs struct {
	Srv   []*Server
	IP    []string
	Up    []bool
	gport int
	conns []*grpc.ClientConn
	Cli   []pb.DOQClient
	rnd   *rand.Rand
	mu    sync.Mutex
	Slow  bool // a request took so long that the machine must be to blame
}

// NewProcs starts n processes that join the first one.
func NewProcs(n int, flags ...string) (*Procs, error) {
	p := &Procs{gport: FreePort(), rnd: rand.New(rand.NewSource(int64(os.Getpid())<<24 ^ time.Now().UnixNano()))}
	hport, rport := FreePort(), FreePort()
	for i := 0; i < n; i++ {
		ip := fmt.Sprintf("127.%d.%d.%d", 2+p.rnd.Intn(250), p.rnd.Intn(256), 1+p.rnd.Intn(254))
		s := NewServer(append([]string{"--cluster.node_id", fmt.Sprintf("node-%d", i), "--grpc.address", fmt.Sprintf("%s:%d", ip, p.gport)}, flags...)...)
		s.Host, s.HTTPPort, s.Env = ip, hport, []string{"VERIF_LISTEN=" + ip}
		s.Raft = fmt.Sprintf("%s:%d", ip, rport)
		p.Srv, p.IP, p.Up = append(p.Srv, s), append(p.IP, ip), append(p.Up, false)
		cc, err := grpc.Dial(fmt.Sprintf("%s:%d", ip, p.gport), grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithConnectParams(grpc.ConnectParams{MinConnectTimeout: time.Second}))
		if err != nil {
			return p, err
		}
		p.conns, p.Cli = append(p.conns, cc), append(p.Cli, pb.NewDOQClient(cc))
		join := -1
		if i > 0 {
			join = 0
		}
		if err := p.Start(i, join); err != nil {
			return p, err
		}
		if err := p.Serves(i); err != nil {
			return p, err
		}
	}
	return p, nil
}

// Start runs node i (again); join < 0 means that it has no join address. A node that
// cannot join because there is no leader gives up, and is started again.
func (p *Procs) Start(i, join int) error {
	s := p.Srv[i]
	all := s.Flags
	defer func() { s.Flags = all }()
	if join >= 0 {
		s.Flags = append(append([]string{}, all...), "--cluster.join_addr", fmt.Sprintf("%s:%d", p.IP[join], p.Srv[join].HTTPPort))
	}
	var err error
	for try := 0; try < 6; try++ {
		if err = s.Start(); err == nil {
			p.setUp(i, true)
			p.conns[i].ResetConnectBackoff()
			return nil
		}
		if errors.Is(err, ErrBusyPort) || !strings.Contains(err.Error(), "failed to join") {
			return err
		}
	}
	return err
}

func (p *Procs) Kill(i int) {
	p.setUp(i, false)
	p.Srv[i].Kill()
}

func (p *Procs) setUp(i int, up bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Up[i] = up
}

// Running lists the nodes that should be up.
func (p *Procs) Running() (up []int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i, u := range p.Up {
		if u {
			up = append(up, i)
		}
	}
	return
}

func (p *Procs) Close() {
	for _, c := range p.conns {
		_ = c.Close()
	}
	for _, s := range p.Srv {
		s.Close()
	}
}

// Died tells whether a process that should run has ended.
func (p *Procs) Died() (string, bool) {
	for _, i := range p.Running() {
		if o, dead := p.Srv[i].Died(); dead {
			return fmt.Sprintf("node %d: %s", i, o), true
		}
	}
	return "", false
}

// Serves waits until a request that needs the leader succeeds through node i.
func (p *Procs) Serves(i int) error {
	var err error
	for t0 := RealNow(); RealNow().Sub(t0) < 100*time.Second; time.Sleep(30 * time.Millisecond) {
		p.conns[i].ResetConnectBackoff()
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		_, err = p.Cli[i].CreateQueue(ctx, &pb.CreateQueueRequest{Name: "who-leads", Type: "delayed"})
		cancel()
		if err == nil {
			return nil
		}
		if o, dead := p.Died(); dead {
			return V("a node ended by itself: %.3000s", o)
		}
	}
	return V("node %d does not serve within 100 s although a majority of the nodes runs: %v", i, err)
}

// AllServe waits until every running node serves.
func (p *Procs) AllServe() error {
	for _, i := range p.Running() {
		if err := p.Serves(i); err != nil {
			return err
		}
	}
	return nil
}

// Leads tells whether node i leads: only then can one enqueue on a stream.
func (p *Procs) Leads(i int) bool {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	st, err := p.Cli[i].EnqueueStream(ctx)
	if err != nil {
		return false
	}
	if err := st.Send(&pb.EnqueueRequest{QueueName: "who-leads", Content: "x"}); err != nil {
		return false
	}
	m, err := st.Recv()
	return err == nil && m.Success
}

// Leader finds the leader.
func (p *Procs) Leader() (int, error) {
	for t0 := RealNow(); RealNow().Sub(t0) < 100*time.Second; time.Sleep(30 * time.Millisecond) {
		if err := p.AllServe(); err != nil {
			return -1, err
		}
		for _, i := range p.Running() {
			if p.Leads(i) {
				return i, nil
			}
		}
	}
	return -1, V("no node accepts enqueues on a stream, so none leads, within 100 s")
}

// ProcSys sends each request to a random running node, over gRPC or HTTP. A request
// that fails has an unknown outcome unless it is sure that there was nothing to get.
type ProcSys struct{ *Procs }

func (s ProcSys) any() int {
	up := s.Running()
	s.mu.Lock()
	defer s.mu.Unlock()
	return up[s.rnd.Intn(len(up))]
}

// doubt turns every failure into "no answer".
func (s ProcSys) doubt(err error) error {
	if err == nil {
		return nil
	}
	if status.Code(err) == codes.DeadlineExceeded || errors.Is(err, context.DeadlineExceeded) || strings.Contains(err.Error(), "Client.Timeout") {
		s.mu.Lock()
		s.Slow = true
		s.mu.Unlock()
	}
	return fmt.Errorf("%w: %v", ErrNoAnswer, err)
}

func (s ProcSys) ctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 60*time.Second)
}

func (s ProcSys) http() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rnd.Intn(2) == 0
}

func (s ProcSys) Create(typ, name string) error {
	i := s.any()
	if s.http() {
		return s.doubt(s.Srv[i].Create(typ, name))
	}
	ctx, c := s.ctx()
	defer c()
	_, err := s.Cli[i].CreateQueue(ctx, &pb.CreateQueueRequest{Name: name, Type: typ})
	return s.doubt(err)
}

func (s ProcSys) Delete(name string) error {
	i := s.any()
	if s.http() {
		return s.doubt(s.Srv[i].Delete(name))
	}
	ctx, c := s.ctx()
	defer c()
	_, err := s.Cli[i].DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: name})
	return s.doubt(err)
}

func (s ProcSys) Enqueue(_ uint64, name, group string, prio int64, content string) (Msg, error) {
	i := s.any()
	if s.http() {
		m, err := s.Srv[i].Enqueue(0, name, group, prio, content)
		return m, s.doubt(err)
	}
	ctx, c := s.ctx()
	defer c()
	m, err := s.Cli[i].Enqueue(ctx, &pb.EnqueueRequest{QueueName: name, Group: group, Priority: prio, Content: content})
	return Msg{ID: m.GetId(), Group: group, Priority: m.GetPriority(), Content: m.GetContent()}, s.doubt(err)
}

// Dequeue uses gRPC only: the HTTP clients repeat a GET whose connection broke.
func (s ProcSys) Dequeue(name string, ack bool) (Msg, error) {
	ctx, c := s.ctx()
	defer c()
	m, err := s.Cli[s.any()].Dequeue(ctx, &pb.DequeueRequest{QueueName: name, Ack: ack})
	if err != nil {
		d := s.doubt(err)
		if status.Code(err) != codes.Unavailable && s.empty(name) {
			return Msg{}, fmt.Errorf("empty: %v", err)
		}
		return Msg{}, d
	}
	return Msg{ID: m.Id, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (s ProcSys) empty(name string) bool {
	for _, i := range s.Running() {
		if in, err := s.Srv[i].Info(name); err != nil || in.Ready != 0 {
			return false
		}
	}
	return true
}

func (s ProcSys) Ack(name string, id uint64) error {
	i := s.any()
	if s.http() {
		return s.doubt(s.Srv[i].Ack(name, id))
	}
	ctx, c := s.ctx()
	defer c()
	_, err := s.Cli[i].Ack(ctx, &pb.AckRequest{QueueName: name, Id: id})
	return s.doubt(err)
}

func (s ProcSys) Nack(name string, id uint64) error {
	i := s.any()
	if s.http() {
		return s.doubt(s.Srv[i].Nack(name, id))
	}
	ctx, c := s.ctx()
	defer c()
	_, err := s.Cli[i].Nack(ctx, &pb.NackRequest{QueueName: name, Id: id})
	return s.doubt(err)
}

func (s ProcSys) Update(name string, id uint64, prio int64) error {
	i := s.any()
	if s.http() {
		return s.doubt(s.Srv[i].Update(name, id, prio))
	}
	ctx, c := s.ctx()
	defer c()
	_, err := s.Cli[i].UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: name, Id: id, Priority: prio})
	return s.doubt(err)
}

// Info is what the leader tells.
func (s ProcSys) Info(name string) (Info, error) {
	l, err := s.Leader()
	if err != nil {
		return Info{}, err
	}
	return s.Srv[l].Info(name)
}

func (s ProcSys) List() ([]Info, error) {
	l, err := s.Leader()
	if err != nil {
		return nil, err
	}
	return s.Srv[l].List()
}
func (s ProcSys) Reload(string) error { return errors.New("not for a cluster") }

var _ Sys = ProcSys{}
