package front

import (
	"context"
	"fmt"
	"io"
	"math"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/zzverif/api"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// SOp is one step of a streaming history.
type SOp struct {
	K  string `json:"k"` // enq stream burst join leave adv deq ack
	Q  int    `json:"q,omitempty"`
	I  int    `json:"i,omitempty"`  // consumer or message index
	A  bool   `json:"a,omitempty"`  // automatic acknowledgement
	Z  bool   `json:"z,omitempty"`  // join: reads late; stream: messages are sent without waiting for responses
	MS int64  `json:"ms,omitempty"` // adv
	M  []SMsg `json:"m,omitempty"`  // enq, stream: messages; burst: one goroutine per message
}

// SMsg is a message to enqueue.
type SMsg struct {
	Q int    `json:"q,omitempty"`
	G string `json:"g,omitempty"`
	P int64  `json:"p,omitempty"`
	R bool   `json:"r,omitempty"`
	C string `json:"c,omitempty"`
	S bool   `json:"s,omitempty"` // burst: over a stream
	X bool   `json:"x,omitempty"` // stream: into a queue that does not exist
}

// SCase is a streaming history.
type SCase struct {
	Names []string `json:"names"`
	Types []string `json:"types"`
	Ops   []SOp    `json:"ops"`
	// consumers acknowledge what they get, and leave at any moment: what was on its
	// way to them comes back after the acknowledgement timeout
	Crash bool `json:"crash,omitempty"`
}

type sgot struct {
	m   *pb.DequeueResponse
	who int
	at  time.Time
	ack bool
}

type sconsumer struct {
	n      int
	q      string
	ack    bool
	joined time.Time
	cancel context.CancelFunc
	stream pb.DOQ_DequeueStreamClient
	on     bool // is reading
	done   chan struct{}
	gone   bool
}

type swant struct {
	seq     int
	q       string
	id      uint64
	group   string
	prio    int64
	content string
	delayed bool
	maybe   bool // came after a request that failed, on the same stream
	acked   int
}

type sworld struct {
	c    *SCase
	s    *api.Services
	tr   *Trace
	mu   sync.Mutex
	want map[string]*swant // by content, which is unique
	got  []sgot
	by   map[string][]sgot
	err  error
	cons []*sconsumer
	open int
	seq  int
	held []sgot // delivered without acknowledgement
}

func genSMsg(t *rapid.T, nq int) SMsg {
	m := SMsg{Q: Uni(t, nq), G: Pick(t, []string{"default", "a", "b", "", "é"}), C: AnyText(t), S: Uni(t, 2) == 0}
	switch Uni(t, 5) {
	case 0:
		m.P, m.R = int64(UniRange(t, -2, 6)), true
	case 1:
		m.P = Pick(t, []int64{-1, math.MinInt64, 1 << 30})
	default:
		m.P = int64(Uni(t, 4))
	}
	return m
}

func TestC20(t *testing.T) {
	s := newServices(t)
	Main(t, Check[SCase]{
		ID:     "C20",
		Rule:   "a case is a history of stream consumers joining and leaving (automatic and manual acknowledgement, prompt and late readers), unary and stream producers, concurrent bursts, messages given back (they must be delivered once more), stream requests that fail and waiting over 1-3 queues on a real node (one case in four: consumers acknowledge at once and leave at any moment, what was on its way to them must come back and every message is acknowledged exactly once); at the end every queue gets a consumer; each message must have reached exactly one consumer, intact; non-trivial: at least 3 messages were delivered over streams and at least two consumers had been connected",
		Bubble: true, Quick: 1000, Thorough: 30000, QuickSecs: 45, ThoroughSecs: 600,
		Setup:       func() error { toPresent(); return nil },
		Assumptions: []string{"gRPC runs over an in-memory connection, on one node", "consumers with automatic acknowledgement leave when nothing is on its way to them"},
		Minimize: func(c SCase, fails func(SCase) bool) SCase {
			with := func(o []SOp) SCase { d := c; d.Ops = o; return d }
			c.Ops = DDMin(c.Ops, func(o []SOp) bool { return fails(with(o)) })
			return c
		},
		Gen: func(t *rapid.T) SCase {
			n := UniRange(t, 1, 3)
			c := SCase{Names: TrickyNames(t, n)}
			for i := 0; i < n; i++ {
				c.Types = append(c.Types, Pick(t, both))
			}
			c.Crash = Uni(t, 4) == 3
			k := UniRange(t, 3, 24)
			for i := 0; i < k; i++ {
				op := SOp{K: pick(t, map[string]int{"enq": 5, "stream": 4, "burst": 4, "join": 6, "leave": 3, "adv": 5, "deq": 1, "ack": 3, "nack": 3}), Q: Uni(t, n)}
				switch op.K {
				case "enq":
					for m := UniRange(t, 1, 4); m > 0; m-- {
						op.M = append(op.M, genSMsg(t, n))
					}
				case "stream":
					op.Z = Uni(t, 2) == 0
					for m := UniRange(t, 1, 12); m > 0; m-- {
						op.M = append(op.M, genSMsg(t, n))
					}
					if Uni(t, 6) == 5 {
						op.M[Uni(t, len(op.M))].X = true
					}
				case "burst":
					for m := UniRange(t, 2, 10); m > 0; m-- {
						op.M = append(op.M, genSMsg(t, n))
					}
				case "join":
					op.A, op.Z = Uni(t, 2) == 0, Uni(t, 4) == 0
				case "leave", "ack", "nack":
					op.I = Uni(t, 16)
				case "deq":
					op.A = Uni(t, 2) == 0
				case "adv":
					op.MS = Pick(t, []int64{1, 30, 300, 999, 1000, 1001, 2500, 7000})
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Run: func(c SCase, tr *Trace) error { return runC20(s, c, tr) },
	})
}

func pick(t *rapid.T, w map[string]int) string {
	var ks []string
	tot := 0
	for k := range w {
		ks = append(ks, k)
		tot += w[k]
	}
	sort.Strings(ks)
	n := Uni(t, tot)
	for _, k := range ks {
		if n < w[k] {
			return k
		}
		n -= w[k]
	}
	return ks[0]
}

func runC20(s *api.Services, c SCase, tr *Trace) error {
	conf := Conf{Timeout: 36000, Interval: 1, Window: 10}
	if c.Crash {
		conf.Timeout = 5
	}
	back, err := NewNodeSys(conf)
	if err != nil {
		return err
	}
	defer back.Close()
	s.Node.Node = back.(*NodeSys).M.Node
	if err := s.StartGRPC(); err != nil {
		return err
	}
	w := &sworld{c: &c, s: s, tr: tr, want: map[string]*swant{}, by: map[string][]sgot{}}
	defer func() {
		for _, k := range w.cons {
			k.cancel()
		}
		s.Srv.Stop()
		synctest.Wait()
	}()
	for i, n := range c.Names {
		if err := back.Create(c.Types[i], n); err != nil {
			return V("creating queue %q failed: %v", n, err)
		}
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		err := w.step(op)
		if err == nil {
			err = w.bad()
		}
		if err != nil {
			if v, ok := err.(*Violation); ok {
				return V("step %d (%s): %s", i, op.K, v.Msg)
			}
			return err
		}
	}
	if err := w.finish(back); err != nil {
		return err
	}
	streamed, everyone := 0, map[int]bool{}
	for _, g := range w.got {
		if g.who >= 0 {
			streamed++
			everyone[g.who] = true
		}
	}
	tr.Count("delivered_over_streams", streamed)
	tr.Count("consumers", len(w.cons))
	tr.Count("messages", len(w.want))
	tr.Nontrivial = streamed >= 3 && len(w.cons) >= 2
	if len(everyone) >= 2 {
		tr.Count("shared_between_consumers", 1)
	}
	return nil
}

func (w *sworld) bad() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.err
}

func (w *sworld) fail(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.err == nil {
		w.err = V(format, args...)
	}
}

// received judges a delivered message.
func (w *sworld) received(m *pb.DequeueResponse, q string, who int, ack bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	set := func(format string, args ...any) {
		if w.err == nil {
			w.err = V(format, args...)
		}
	}
	x := w.want[m.Content]
	if x == nil {
		set("consumer %d of %q received the content %.80q, which nobody enqueued", who, q, m.Content)
		return
	}
	if x.q != q {
		set("message #%d was enqueued into %q and delivered to consumer %d of %q", x.seq, x.q, who, q)
	}
	if !m.Success || m.Priority != x.prio || (!x.delayed && m.Group != x.group) {
		set("message #%d of %q has group %q priority %d and arrives with success=%v group %q priority %d", x.seq, q, x.group, x.prio, m.Success, m.Group, m.Priority)
	}
	if x.delayed && x.prio > time.Now().Unix() {
		set("message #%d of %q with delivery time %d arrives at %d", x.seq, q, x.prio, time.Now().Unix())
	}
	if l := w.by[m.Content]; len(l) > 0 && !w.c.Crash {
		set("message #%d of %q is delivered to consumer %d and again to consumer %d", x.seq, q, l[0].who, who)
	}
	g := sgot{m: m, who: who, at: time.Now(), ack: ack}
	w.by[m.Content] = append(w.by[m.Content], g)
	w.got = append(w.got, g)
	if !ack && !w.c.Crash {
		w.held = append(w.held, g)
	}
}

// settle acknowledges a message at once.
func (w *sworld) settle(m *pb.DequeueResponse, q string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if _, err := w.s.G.Ack(ctx, &pb.AckRequest{QueueName: q, Id: m.Id}); err == nil {
		w.mu.Lock()
		if x := w.want[m.Content]; x != nil {
			x.acked++
		}
		w.mu.Unlock()
	}
}

func (w *sworld) register(m SMsg) (*pb.EnqueueRequest, *swant) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	i := m.Q % len(w.c.Names)
	x := &swant{seq: w.seq, q: w.c.Names[i], group: m.G, prio: m.P, content: fmt.Sprintf("%s#%d", m.C, w.seq), delayed: w.c.Types[i] == "delayed"}
	if m.R {
		x.prio += time.Now().Unix()
	}
	w.want[x.content] = x
	return &pb.EnqueueRequest{QueueName: x.q, Group: x.group, Priority: x.prio, Content: x.content}, x
}

func (w *sworld) response(r *pb.EnqueueResponse, x *swant) {
	w.mu.Lock()
	defer w.mu.Unlock()
	x.id = r.Id
	if w.err == nil && (!r.Success || r.Group != x.group || r.Priority != x.prio || r.Content != x.content) {
		w.err = V("the answer to enqueueing #%d (group %q, priority %d, content %.60q) is success=%v group %q, priority %d, content %.60q", x.seq, x.group, x.prio, x.content, r.Success, r.Group, r.Priority, r.Content)
	}
}

func (w *sworld) unary(m SMsg) {
	req, x := w.register(m)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	r, err := w.s.G.Enqueue(ctx, req)
	if err != nil {
		w.fail("enqueue of #%d into %q failed: %v", x.seq, x.q, err)
		return
	}
	w.response(r, x)
}

func (w *sworld) stream(ms []SMsg, ahead bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
	defer cancel()
	st, err := w.s.G.EnqueueStream(ctx)
	if err != nil {
		w.fail("enqueue stream does not open: %v", err)
		return
	}
	var xs []*swant
	failed := map[*swant]bool{}
	broken := false // the stream has ended because of a request that failed
	recv := func(x *swant) bool {
		r, err := st.Recv()
		if failed[x] {
			if err == nil && r.Success {
				w.fail("enqueue stream: the response to #%d, whose queue %q does not exist, is success with group %q, priority %d, content %.60q", x.seq, x.q, r.Group, r.Priority, r.Content)
			}
			broken = err != nil
			return err == nil && !r.Success
		}
		if err != nil {
			w.fail("enqueue stream: no response for #%d into %q: %v", x.seq, x.q, err)
			return false
		}
		w.response(r, x)
		return true
	}
	for _, m := range ms {
		req, x := w.register(m)
		xs = append(xs, x)
		if m.X {
			failed[x] = true
			req.QueueName += "?missing"
			w.mu.Lock()
			delete(w.want, x.content)
			w.mu.Unlock()
		} else if len(failed) > 0 {
			w.mu.Lock()
			x.maybe = true
			w.mu.Unlock()
		}
		if err := st.Send(req); err != nil {
			if len(failed) > 0 {
				break
			}
			w.fail("enqueue stream: sending #%d failed: %v", x.seq, err)
			return
		}
		if !ahead && !recv(x) {
			return
		}
	}
	_ = st.CloseSend()
	if ahead {
		for _, x := range xs {
			if !recv(x) {
				return
			}
		}
	}
	if broken {
		return
	}
	if r, err := st.Recv(); err != io.EOF {
		w.fail("enqueue stream: after %d requests and as many responses came %v, %v", len(ms), r, err)
	}
}

func (w *sworld) join(q string, ack, late bool) error {
	ctx, cancel := context.WithCancel(context.Background())
	st, err := w.s.G.DequeueStream(ctx, &pb.DequeueRequest{QueueName: q, Ack: ack})
	if err != nil {
		cancel()
		return V("dequeue stream on %q does not open: %v", q, err)
	}
	k := &sconsumer{n: len(w.cons), q: q, ack: ack, joined: time.Now(), cancel: cancel, stream: st, done: make(chan struct{})}
	w.cons = append(w.cons, k)
	synctest.Wait()
	if !late {
		w.read(k)
	}
	return nil
}

func (w *sworld) read(k *sconsumer) {
	if k.on {
		return
	}
	k.on = true
	go func() {
		defer close(k.done)
		for {
			m, err := k.stream.Recv()
			if err != nil {
				w.mu.Lock()
				gone := k.gone
				w.mu.Unlock()
				if !gone {
					w.fail("the stream of consumer %d of %q ended: %v", k.n, k.q, err)
				}
				return
			}
			w.received(m, k.q, k.n, k.ack)
			if w.c.Crash {
				w.settle(m, k.q)
			}
		}
	}()
}

func (w *sworld) leave(k *sconsumer) {
	if w.c.Crash {
		w.read(k)
		w.mu.Lock()
		k.gone = true
		w.mu.Unlock()
		k.cancel()
		<-k.done
		// The server's side of the stream ends too before anything is announced to it again: a wait for a
		// mutex (the consumer's, while an announcement to it goes on) would stop the bubble's clock.
		for i := 0; i < 20; i++ {
			synctest.Wait()
			time.Sleep(10 * time.Millisecond)
		}
		synctest.Wait()
		return
	}
	w.read(k)
	// everything that is due reaches somebody; then, between two of its ticks, it goes
	time.Sleep(2500 * time.Millisecond)
	for {
		synctest.Wait()
		ph := time.Since(k.joined) % time.Second
		un := time.Now().UnixMilli() % 1000
		if ph > 50*time.Millisecond && ph < 950*time.Millisecond && un > 50 && un < 950 {
			break
		}
		time.Sleep(60 * time.Millisecond)
	}
	w.mu.Lock()
	k.gone = true
	w.mu.Unlock()
	k.cancel()
	synctest.Wait()
	<-k.done
}

func (w *sworld) step(op *SOp) error {
	switch op.K {
	case "adv":
		time.Sleep(time.Duration(op.MS) * time.Millisecond)
		synctest.Wait()
	case "enq":
		for _, m := range op.M {
			w.unary(m)
		}
	case "stream":
		w.stream(op.M, op.Z)
	case "burst":
		var wg sync.WaitGroup
		for _, m := range op.M {
			wg.Add(1)
			go func(m SMsg) {
				defer wg.Done()
				if m.S {
					w.stream([]SMsg{m}, true)
				} else {
					w.unary(m)
				}
			}(m)
		}
		wg.Wait()
	case "join":
		return w.join(w.c.Names[op.Q%len(w.c.Names)], op.A && !w.c.Crash, op.Z)
	case "leave":
		var on []*sconsumer
		for _, k := range w.cons {
			if !k.gone {
				on = append(on, k)
			}
		}
		if len(on) > 0 {
			w.leave(on[op.I%len(on)])
		}
	case "deq":
		q := w.c.Names[op.Q%len(w.c.Names)]
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		if m, err := w.s.G.Dequeue(ctx, &pb.DequeueRequest{QueueName: q, Ack: op.A && !w.c.Crash}); err == nil {
			w.received(m, q, -1, op.A)
			if w.c.Crash {
				w.settle(m, q)
			}
		}
	case "ack":
		return w.ack(op.I, false)
	case "nack":
		return w.ack(op.I, true)
	}
	return nil
}

// ack acknowledges one of the messages that were handed out without it, or gives it
// back: then it must be delivered once more.
func (w *sworld) ack(i int, back bool) error {
	w.mu.Lock()
	if len(w.held) == 0 {
		w.mu.Unlock()
		return nil
	}
	i %= len(w.held)
	g := w.held[i]
	w.held = append(w.held[:i:i], w.held[i+1:]...)
	x := w.want[g.m.Content]
	if back {
		delete(w.by, g.m.Content)
	}
	w.mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if back {
		if _, err := w.s.G.Nack(ctx, &pb.NackRequest{QueueName: x.q, Id: g.m.Id}); err != nil {
			return V("consumer %d cannot give back message #%d of %q, which was delivered to it: %v", g.who, x.seq, x.q, err)
		}
		w.tr.Count("given_back", 1)
		return nil
	}
	if _, err := w.s.G.Ack(ctx, &pb.AckRequest{QueueName: x.q, Id: g.m.Id}); err != nil {
		return V("consumer %d cannot acknowledge message #%d of %q, which was delivered to it: %v", g.who, x.seq, x.q, err)
	}
	return nil
}

// finish gives every queue a consumer, lets everything arrive and compares.
func (w *sworld) finish(back Sys) error {
	for _, k := range w.cons {
		if !k.gone {
			w.read(k)
		}
	}
	for _, q := range w.c.Names {
		have := false
		for _, k := range w.cons {
			have = have || (!k.gone && k.q == q)
		}
		if !have {
			if err := w.join(q, !w.c.Crash, false); err != nil {
				return err
			}
		}
	}
	time.Sleep(15 * time.Second)
	if w.c.Crash {
		time.Sleep(10 * time.Second)
	}
	synctest.Wait()
	if err := w.bad(); err != nil {
		return err
	}
	w.mu.Lock()
	var missing []*swant
	for _, x := range w.want {
		if l := w.by[x.content]; len(l) == 0 && x.maybe {
			continue
		} else if w.c.Crash && len(l) > 0 && x.acked != 1 {
			w.mu.Unlock()
			return V("consumers acknowledge what they get at once; message #%d of %q was delivered %d times and acknowledged successfully %d times", x.seq, x.q, len(l), x.acked)
		} else if len(l) == 0 {
			missing = append(missing, x)
		} else if l[0].m.Id != x.id && !(x.maybe && x.id == 0) {
			w.mu.Unlock()
			return V("message #%d of %q was accepted with id %d and delivered with id %d", x.seq, x.q, x.id, l[0].m.Id)
		}
	}
	w.mu.Unlock()
	if len(missing) > 0 {
		sort.Slice(missing, func(i, j int) bool { return missing[i].seq < missing[j].seq })
		x := missing[0]
		return V("%d of %d messages never reached a consumer although their queues have one, e.g. #%d of %q (priority %d, now %d)", len(missing), len(w.want), x.seq, x.q, x.prio, time.Now().Unix())
	}
	for len(w.held) > 0 {
		if err := w.ack(0, false); err != nil {
			return err
		}
	}
	for _, q := range w.c.Names {
		i, err := back.Info(q)
		if err != nil {
			return V("info of %q failed: %v", q, err)
		}
		if i.Total != 0 || i.Ready != 0 || i.Unacked != 0 {
			return V("everything was delivered and acknowledged, but %q reports ready=%d unacked=%d total=%d", q, i.Ready, i.Unacked, i.Total)
		}
	}
	return nil
}
