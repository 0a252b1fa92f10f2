package front

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	nethttp "net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/gofiber/fiber/v2"
	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/api"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"pgregory.net/rapid"
)

// stub is a node that records what it is asked to do and answers by a rule that
// depends on nothing but the question.
type stub struct {
	mu     sync.Mutex
	name   string
	lead   bool
	leader string
	salt   uint64
	calls  []string
}

func (s *stub) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.calls
	s.calls = nil
	sort.Strings(c)
	return c
}
func (s *stub) set(lead bool, leader string, salt uint64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lead, s.leader, s.salt = lead, leader, salt
}
func (s *stub) ask(format string, args ...any) (uint64, error) {
	c := fmt.Sprintf(format, args...)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = append(s.calls, c)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s", s.salt, c)
	v := h.Sum64()
	if v%5 == 0 {
		return v, errors.New("refused")
	}
	return v, nil
}
func (s *stub) Join(string, string) error                 { return nil }
func (s *stub) PrometheusRegistry() prometheus.Registerer { return nil }
func (s *stub) Leader() string                            { s.mu.Lock(); defer s.mu.Unlock(); return s.leader }
func (s *stub) IsLeader() bool                            { s.mu.Lock(); defer s.mu.Unlock(); return s.lead }
func (s *stub) GenerateID() uint64                        { return 1 }
func (s *stub) GetQueues() []*queue.QueueInfo             { return nil }
func (s *stub) GetQueueInfo(n string) (*queue.QueueInfo, error) {
	return nil, errors.New("not asked for here")
}
func (s *stub) GetByID(uint64) (*queue.Message, error) { return nil, nil }
func (s *stub) CreateQueue(typ, name string) error {
	_, err := s.ask("create %q %q", typ, name)
	return err
}
func (s *stub) DeleteQueue(name string) error { _, err := s.ask("delete %q", name); return err }
func (s *stub) Enqueue(name, group string, prio int64, content string) (*queue.Message, error) {
	v, err := s.ask("enqueue %q %q %d %q", name, group, prio, content)
	if err != nil {
		return nil, err
	}
	return &queue.Message{ID: v >> 1, Group: group, Priority: prio, Content: content}, nil
}
func (s *stub) Dequeue(name string, ack bool) (*queue.Message, error) {
	v, err := s.ask("dequeue %q %v", name, ack)
	if err != nil {
		return nil, err
	}
	p := int64(v)
	return &queue.Message{ID: v >> 1, Group: groupsAny[v%uint64(len(groupsAny))], Priority: p, Content: textsAny[(v>>8)%uint64(len(textsAny))]}, nil
}
func (s *stub) Ack(name string, id uint64) error { _, err := s.ask("ack %q %d", name, id); return err }
func (s *stub) Nack(name string, id uint64) error {
	_, err := s.ask("nack %q %d", name, id)
	return err
}
func (s *stub) UpdatePriority(name string, id uint64, p int64) error {
	_, err := s.ask("update %q %d %d", name, id, p)
	return err
}

var (
	groupsAny = []string{"default", "a", "", "é", "a b", "\U0001F600", "g:1"}
	textsAny  = []string{"", "x", "{}", "null", "a\nb\x00", "\u2028 <&> é", "\U0001F600", "\"", strings.Repeat("long ", 700)}
)

// FOp is one request or a change of the leader.
type FOp struct {
	K string `json:"k"` // lead create delete enq deq ack nack upd burst
	L int    `json:"l,omitempty"`
	V int    `json:"v,omitempty"` // bit 0 gRPC, others: JSON variants
	N string `json:"n,omitempty"`
	T string `json:"t,omitempty"`
	G string `json:"g,omitempty"`
	P int64  `json:"p,omitempty"`
	C string `json:"c,omitempty"`
	D uint64 `json:"d,omitempty"`
	A bool   `json:"a,omitempty"`
	B []FOp  `json:"b,omitempty"` // concurrent requests
}

// FCase is a sequence of them.
type FCase struct {
	Salt uint64 `json:"salt"`
	Ops  []FOp  `json:"ops"`
}

func genReq(t *rapid.T) FOp {
	op := FOp{K: Pick(t, []string{"create", "delete", "enq", "enq", "deq", "deq", "ack", "nack", "upd"}), V: Uni(t, 8)}
	op.N = TrickyNames(t, 1)[0]
	switch Uni(t, 8) {
	case 0:
		op.N = Pick(t, []string{"%2F", "%", "a%20b", "a+b", "?x=1", "#", "..", ".", "ü/ö", "a//b", "a;b", "q\x7f", strings.Repeat("n", 300)})
	case 1:
		op.N = rapid.StringN(1, 8, 20).Draw(t, "name")
	}
	switch op.K {
	case "create":
		op.T = Pick(t, []string{"delayed", "fair", "delayed", "fair", "other"})
	case "enq":
		op.G = Pick(t, groupsAny)
		op.C = Pick(t, textsAny)
		if Uni(t, 2) == 0 {
			op.C = AnyText(t)
		}
		op.P, _ = AnyPrio(t)
	case "deq":
		op.A = Uni(t, 2) == 0
	case "upd":
		op.P, _ = AnyPrio(t)
		fallthrough
	default:
		op.D = Pick(t, []uint64{0, 1, 42, 1 << 31, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1})
		if Uni(t, 2) == 0 {
			op.D = rapid.Uint64().Draw(t, "id")
		}
	}
	return op
}

// hosts: two leaders, one that nobody listens on, one that hangs up, none, (chain),
// one that executes requests but hangs up instead of answering.
var hosts = []string{"127.0.0.2", "127.0.0.3", "127.0.0.4", "127.0.0.5", "", "", "127.0.0.6"}

const (
	hLeader1, hLeader2, hDead, hHangup, hNone = 0, 1, 2, 3, 4
	hChain                                    = 5 // host 1 believes to be a follower of host 2
	hMute                                     = 6
	hBehind                                   = "127.0.0.7" // the leader behind hMute
)

// tracked remembers its connections.
type tracked struct {
	net.Listener
	mu sync.Mutex
	cs []net.Conn
}

func (l *tracked) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.mu.Lock()
		l.cs = append(l.cs, c)
		l.mu.Unlock()
	}
	return c, err
}
func (l *tracked) hangUp() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.cs {
		_ = c.Close()
	}
	l.cs = nil
}

// mute serves a leader whose connections break before an answer gets through.
func (f *forwarding) mute(hl, gl net.Listener) {
	h := &nethttp.Server{Handler: nethttp.HandlerFunc(func(w nethttp.ResponseWriter, r *nethttp.Request) {
		b, _ := io.ReadAll(r.Body)
		q, err := nethttp.NewRequest(r.Method, fmt.Sprintf("http://%s:%d%s", hBehind, f.hp, r.RequestURI), bytes.NewReader(b))
		if err == nil {
			q.Header = r.Header.Clone()
			if resp, err := f.direct[2].H.Do(q); err == nil {
				_, _ = io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
		}
		panic(nethttp.ErrAbortHandler)
	})}
	go func() { _ = h.Serve(hl) }()
	tl := &tracked{Listener: gl}
	g := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req any, _ *grpc.UnaryServerInfo, next grpc.UnaryHandler) (any, error) {
		m, err := next(ctx, req)
		tl.hangUp()
		return m, err
	}))
	pb.RegisterDOQServer(g, doqgrpc.NewQueueServer(f.nodes[2], f.gp))
	go func() { _ = g.Serve(tl) }()
}

type forwarding struct {
	nodes    [3]*stub       // two leaders, and the one behind hMute
	owed     map[string]int // requests at hMute that have not been executed (yet)
	follower *stub
	fapp     *fiber.App
	hp, gp   int
	grpcs    []*grpc.Server
	direct   [3]*api.Front
	hang     [2]net.Listener
}

// bindAll finds a port that is free on all the addresses.
func bindAll(addrs []string) (int, []net.Listener, error) {
	var last error
	for try := 0; try < 50; try++ {
		p := FreePort()
		var ls []net.Listener
		for _, a := range addrs {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", a, p))
			if err != nil {
				last = err
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == len(addrs) {
			return p, ls, nil
		}
		for _, l := range ls {
			l.Close()
		}
	}
	return 0, nil, last
}

func (f *forwarding) start() error {
	addrs := []string{hosts[0], hosts[1], hBehind, hosts[3], hosts[hMute]}
	f.owed = map[string]int{}
	hp, hl, err := bindAll(addrs)
	if err != nil {
		return err
	}
	gp, gl, err := bindAll(addrs)
	if err != nil {
		return err
	}
	f.hp, f.gp = hp, gp
	cfg := Conf{Timeout: 60, Interval: 1, Window: 10}.Config()
	cfg.Http.Port = fmt.Sprint(hp)
	for i := 0; i < 3; i++ {
		f.nodes[i] = &stub{name: addrs[i], lead: true}
		app, err := api.App(cfg, f.nodes[i])
		if err != nil {
			return err
		}
		go func(l net.Listener) { _ = app.Listener(l) }(hl[i])
		g, err := doqgrpc.NewGRPCServer(f.nodes[i], gp)
		if err != nil {
			return err
		}
		go func(l net.Listener) { _ = g.Serve(l) }(gl[i])
		cc, err := grpc.Dial(fmt.Sprintf("%s:%d", addrs[i], gp), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			return err
		}
		f.direct[i] = &api.Front{H: sockClient(addrs[i], hp), G: pb.NewDOQClient(cc)}
	}
	for i, l := range []net.Listener{hl[3], gl[3]} {
		f.hang[i] = l
		go func(l net.Listener) {
			for n := 0; ; n++ {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func(n int) {
					if n%2 == 0 { // reads something first
						_ = c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
						_, _ = bufio.NewReader(c).ReadByte()
					}
					c.Close()
				}(n)
			}
		}(l)
	}
	f.mute(hl[4], gl[4])
	f.follower = &stub{name: "follower"}
	f.fapp, err = api.App(cfg, f.follower)
	return err
}

func sockClient(host string, port int) api.Client {
	cl := &nethttp.Client{Timeout: 60 * time.Second, Transport: &nethttp.Transport{MaxIdleConnsPerHost: 32}}
	return api.Client{Do: func(r *nethttp.Request) (*nethttp.Response, error) {
		r.URL.Host = fmt.Sprintf("%s:%d", host, port)
		return cl.Do(r)
	}}
}

// answer is what a client sees.
type answer struct {
	ok   bool
	body string
	err  error
}

func ask(fr *api.Front, op FOp) answer {
	if op.V&1 == 1 {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		var m interface{ GetSuccess() bool }
		var err error
		switch op.K {
		case "create":
			m, err = fr.G.CreateQueue(ctx, &pb.CreateQueueRequest{Name: op.N, Type: op.T})
		case "delete":
			m, err = fr.G.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: op.N})
		case "enq":
			m, err = fr.G.Enqueue(ctx, &pb.EnqueueRequest{QueueName: op.N, Group: op.G, Priority: op.P, Content: op.C})
		case "deq":
			m, err = fr.G.Dequeue(ctx, &pb.DequeueRequest{QueueName: op.N, Ack: op.A})
		case "ack":
			m, err = fr.G.Ack(ctx, &pb.AckRequest{QueueName: op.N, Id: op.D})
		case "nack":
			m, err = fr.G.Nack(ctx, &pb.NackRequest{QueueName: op.N, Id: op.D})
		case "upd":
			m, err = fr.G.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: op.N, Id: op.D, Priority: op.P})
		}
		if err != nil {
			return answer{err: err}
		}
		b, _ := json.Marshal(m)
		return answer{ok: true, body: string(b)}
	}
	q := "/API/v1/queues/" + url.PathEscape(op.N)
	if op.V&2 != 0 {
		q = "/API/v1/queues/" + percentAll(op.N)
	}
	a := op.V&4 != 0
	method, path, body := "POST", "", ""
	switch op.K {
	case "create":
		path, body = "/API/v1/queues", `{"name":`+api.JString(op.N, a)+`,"type":`+api.JString(op.T, a)+`}`
	case "delete":
		method, path = "DELETE", q
	case "enq":
		path, body = q+"/messages", fmt.Sprintf(`{"content":%s,"priority":%d`, api.JString(op.C, a), op.P)
		if op.G != "" {
			body += `,"group":` + api.JString(op.G, a)
		}
		body += "}"
	case "deq":
		method, path = "GET", q+"/messages"
		if op.A {
			path += "?ack=true"
		} else if a {
			path += "?ack=false"
		}
	case "ack", "nack":
		path = fmt.Sprintf("%s/messages/%d/%s", q, op.D, op.K)
	case "upd":
		method, path, body = "PUT", fmt.Sprintf("%s/messages/%d/priority", q, op.D), fmt.Sprintf(`{"priority":%d}`, op.P)
	}
	var rb []byte
	if body != "" {
		rb = []byte(body)
	}
	var raw map[string]any
	st, err := fr.H.Call(method, path, rb, &raw)
	if err != nil {
		return answer{err: err}
	}
	delete(raw, "$schema")
	b, _ := json.Marshal(raw)
	return answer{ok: true, body: fmt.Sprintf("%d %s", st, b)}
}

func percentAll(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%%%02X", s[i])
	}
	return b.String()
}

func TestC16(t *testing.T) {
	f := &forwarding{}
	Main(t, Check[FCase]{
		ID:    "C16",
		Setup: f.start,
		Rule:  "a case is a sequence of leader changes (two leaders, a chain of two, no leader, a host nobody listens on, a host that hangs up, one that executes the request and then hangs up) and requests, single and concurrent, that go to a follower over HTTP and gRPC; each is repeated directly at the leader: the leader must have been asked for exactly the same once, and the answers must be the same; non-trivial: at least 3 requests were forwarded to and answered by a leader, over both interfaces",
		Quick: 600, Thorough: 12000, QuickSecs: 40, ThoroughSecs: 600,
		Assumptions: []string{"leaders are the real HTTP and gRPC services on loopback addresses over a recording node that answers by a fixed rule", "the leader does not change while a request is being forwarded"},
		Minimize: func(c FCase, fails func(FCase) bool) FCase {
			c.Ops = DDMin(c.Ops, func(o []FOp) bool { return fails(FCase{Salt: c.Salt, Ops: o}) })
			for i := range c.Ops {
				if c.Ops[i].K == "burst" {
					ops := append([]FOp{}, c.Ops...)
					ops[i].B = DDMin(ops[i].B, func(b []FOp) bool { ops[i].B = b; return fails(FCase{Salt: c.Salt, Ops: ops}) })
					if fails(FCase{Salt: c.Salt, Ops: ops}) {
						c.Ops = ops
					}
				}
			}
			return c
		},
		Gen: func(t *rapid.T) FCase {
			c := FCase{Salt: rapid.Uint64().Draw(t, "salt")}
			n := UniRange(t, 2, 25)
			for i := 0; i < n; i++ {
				switch Uni(t, 8) {
				case 0:
					c.Ops = append(c.Ops, FOp{K: "lead", L: Uni(t, 7)})
				case 1:
					c.Ops = append(c.Ops, FOp{K: "lead", L: Uni(t, 2)})
					fallthrough
				case 2:
					b := FOp{K: "burst"}
					for k := UniRange(t, 2, 8); k > 0; k-- {
						b.B = append(b.B, genReq(t))
					}
					c.Ops = append(c.Ops, b)
				default:
					c.Ops = append(c.Ops, genReq(t))
				}
			}
			return c
		},
		Run: func(c FCase, tr *Trace) error { return f.run(c, tr) },
	})
}

func (f *forwarding) run(c FCase, tr *Trace) error {
	// the gRPC part of the follower is new for every case
	srv, err := doqgrpc.NewGRPCServer(f.follower, f.gp)
	if err != nil {
		return err
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	go func() { _ = srv.Serve(l) }()
	defer srv.Stop()
	cc, err := grpc.Dial(l.Addr().String(), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return err
	}
	defer cc.Close()
	fr := &api.Front{H: api.AppClient(f.fapp), G: pb.NewDOQClient(cc)}
	lead := 0
	var used [2]int
	setLead := func(n int) {
		lead = n
		for _, s := range f.nodes {
			s.set(true, s.name, c.Salt)
		}
		switch n {
		case hChain:
			f.nodes[0].set(false, hosts[1], c.Salt)
			f.follower.set(false, hosts[0], c.Salt)
		default:
			f.follower.set(false, hosts[n], c.Salt)
		}
	}
	setLead(0)
	for _, s := range append(f.nodes[:], f.follower) {
		s.take()
	}
	for i, op := range c.Ops {
		if op.K == "lead" {
			setLead(op.L % 7)
			continue
		}
		reqs := []FOp{op}
		if op.K == "burst" {
			reqs = op.B
		}
		got := make([]answer, len(reqs))
		var wg sync.WaitGroup
		for k := range reqs {
			wg.Add(1)
			go func(k int) { defer wg.Done(); got[k] = ask(fr, reqs[k]) }(k)
		}
		wg.Wait()
		who := f.nodes[0]
		dir := f.direct[0]
		if lead == hLeader2 || lead == hChain {
			who, dir = f.nodes[1], f.direct[1]
		}
		if lead == hMute {
			who, dir = f.nodes[2], f.direct[2]
		}
		alive := lead == hLeader1 || lead == hLeader2 || lead == hChain
		if x := f.follower.take(); len(x) > 0 {
			return V("step %d: the follower executed %v itself", i, x)
		}
		for _, s := range f.nodes {
			if s == f.nodes[2] {
				continue // a request whose connection broke may be executed a little later
			}
			if s != who || !alive {
				if x := s.take(); len(x) > 0 {
					return V("step %d: %v was executed on %s, which is not the leader the follower knows (%q)", i, x, s.name, f.follower.Leader())
				}
			}
		}
		if !alive {
			for k, a := range got {
				if a.ok {
					return V("step %d: the leader (%q) cannot be reached, but the follower reports success for %+v: %s", i, hosts[lead], reqs[k], a.body)
				}
			}
			if lead == hMute {
				// What the requests are in the leader's eyes comes from asking it directly; whatever
				// it executes besides belongs to a request of this or an earlier step.
				var via []string
				for k := range reqs {
					via = append(via, who.take()...)
					ask(dir, reqs[k])
					x := who.take()
					if len(x) > 1 { // one of them is late; nothing can be said about this one
						tr.Count("late executions", 1)
						for _, y := range x {
							f.owed[y]++
						}
					} else if len(x) == 1 {
						f.owed[x[0]]++
					}
				}
				for _, x := range via {
					if f.owed[x]--; f.owed[x] < 0 {
						return V("step %d (%+v): the connection to the leader breaks before the answer; the leader has executed %v", i, op, via)
					}
				}
				tr.Count("executed_without_an_answer", len(via))
				continue
			}
			tr.Count("unreachable", len(reqs))
			continue
		}
		for k := range reqs {
			// neither the leader nor the lack of one is an internal error of the follower
			if e := got[k].err; e != nil && strings.Contains(e.Error(), "HTTP status 500") {
				return V("step %d: for %+v the follower fails itself: %v", i, reqs[k], e)
			}
		}
		via := who.take()
		want := make([]answer, len(reqs))
		for k := range reqs {
			want[k] = ask(dir, reqs[k])
		}
		direct := who.take()
		if fmt.Sprint(via) != fmt.Sprint(direct) {
			return V("step %d (%+v): the request to the follower made the leader execute\n%v\nthe same request to the leader makes it execute\n%v (answers of the follower: %v)", i, op, via, direct, got)
		}
		for k := range reqs {
			if got[k].ok != want[k].ok || got[k].body != want[k].body {
				return V("step %d: for %+v the follower answers %v %s %v, the leader %v %s %v", i, reqs[k], got[k].ok, got[k].body, got[k].err, want[k].ok, want[k].body, want[k].err)
			}
			if len(direct) > 0 {
				used[reqs[k].V&1]++
			}
			if !got[k].ok {
				tr.Count("refused", 1)
			}
		}
		tr.Count("forwarded", len(direct))
		if len(reqs) > 1 {
			tr.Count("bursts", 1)
		}
		if lead == hChain {
			tr.Count("chained", len(reqs))
		}
	}
	tr.Nontrivial = used[0] > 0 && used[1] > 0 && used[0]+used[1] >= 3
	return nil
}

var _ = utf8.ValidString
var _ io.Reader
