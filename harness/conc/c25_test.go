package conc

import (
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// Many clients work on the same queues at the same instants of virtual time,
// most of them exactly when the background redelivery scan runs. Goroutines in a
// bubble run in parallel, so the interleavings are real.

type cop struct {
	K string `json:"k"`           // enq deq take ack nack upd info list create del
	Q int    `json:"q,omitempty"` // queue
	I int    `json:"i,omitempty"` // which of the held messages
	P int64  `json:"p,omitempty"`
}

type phase struct {
	Adv     int64   `json:"adv"`  // milliseconds to pass before
	Tick    bool    `json:"tick"` // then wait for the next scan of queue 0
	Clients [][]cop `json:"clients"`
}

type c25Case struct {
	Sys      string   `json:"sys"`
	Types    []string `json:"types"`
	Timeout  int64    `json:"timeout"`
	Interval int64    `json:"interval"`
	Metrics  bool     `json:"metrics"`
	Phases   []phase  `json:"phases"`
}

// ev is one completed operation on one message (or an empty dequeue).
type ev struct {
	k      string // enq deq take ack nack upd
	ok     bool
	q      int
	id     uint64
	s, e   int64 // real order
	ts, te time.Time
	who    string
}

func (v ev) String() string {
	r := "failed"
	if v.ok {
		r = "ok"
	}
	return fmt.Sprintf("%s by %s: %s [%d,%d] at %s", v.k, v.who, r, v.s, v.e, v.ts.UTC().Format("15:04:05.000"))
}

type run25 struct {
	c   c25Case
	s   Sys
	clk atomic.Int64
	mu  sync.Mutex
	ev  []ev
	// all ids ever handed out without acknowledgement, newest last, by queue
	held  map[int][]uint64
	ids   atomic.Uint64
	err   error
	names []string
	prio  map[uint64][]int64
}

const scratchQ = 9 // a queue that clients also delete

func (r *run25) name(q int) string {
	if q == scratchQ {
		return "scratch"
	}
	return fmt.Sprintf("queue-%d", q)
}

func (r *run25) fail(err error) {
	r.mu.Lock()
	if r.err == nil {
		r.err = err
	}
	r.mu.Unlock()
}

func (r *run25) rec(v ev, start int64, ts time.Time) {
	v.s, v.e = start, r.clk.Add(1)
	v.ts, v.te = ts, time.Now()
	r.mu.Lock()
	r.ev = append(r.ev, v)
	r.mu.Unlock()
}

func (r *run25) do(who string, o cop) {
	defer func() {
		if p := recover(); p != nil {
			r.fail(V("%s panicked: %v", o.K, p))
		}
	}()
	n := r.name(o.Q)
	ts, st := time.Now(), r.clk.Add(1)
	switch o.K {
	case "enq":
		id := 1000 + r.ids.Add(1)
		content := fmt.Sprintf("%s/%d", who, st)
		r.mu.Lock()
		r.prio[id] = append(r.prio[id], o.P)
		r.mu.Unlock()
		m, err := r.s.Enqueue(id, n, []string{"a", "b", "c"}[o.I%3], o.P, content)
		if err == nil {
			r.rec(ev{k: "enq", ok: true, q: o.Q, id: m.ID, who: who}, st, ts)
		} else if o.Q != scratchQ {
			r.fail(V("enqueue into %q failed: %v", n, err))
		}
	case "deq", "take":
		m, err := r.s.Dequeue(n, o.K == "deq")
		if err != nil {
			r.rec(ev{k: "empty", q: o.Q, who: who}, st, ts)
			return
		}
		r.rec(ev{k: o.K, ok: true, q: o.Q, id: m.ID, who: who}, st, ts)
		if o.K == "take" {
			r.mu.Lock()
			r.held[o.Q] = append(r.held[o.Q], m.ID)
			r.mu.Unlock()
		}
	case "ack", "nack", "upd":
		r.mu.Lock()
		h := r.held[o.Q]
		var id uint64
		if len(h) > 0 { // recent ones, so that clients meet
			id = h[max(0, len(h)-1-o.I%6)]
		}
		r.mu.Unlock()
		if id == 0 {
			return
		}
		st = r.clk.Add(1)
		var err error
		switch o.K {
		case "ack":
			err = r.s.Ack(n, id)
		case "nack":
			err = r.s.Nack(n, id)
		default:
			err = r.s.Update(n, id, o.P)
		}
		r.rec(ev{k: o.K, ok: err == nil, q: o.Q, id: id, who: who}, st, ts)
	case "info":
		i, err := r.s.Info(n)
		if err != nil {
			if o.Q != scratchQ {
				r.fail(V("info of %q failed: %v", n, err))
			}
			return
		}
		if i.Total != i.Ready+i.Unacked || i.Ready < 0 || i.Unacked < 0 {
			r.fail(V("info of %q reports ready=%d unacked=%d total=%d", n, i.Ready, i.Unacked, i.Total))
		}
	case "list":
		l, err := r.s.List()
		if err != nil {
			r.fail(V("listing the queues failed: %v", err))
		}
		have := map[string]int{}
		for _, i := range l {
			have[i.Name]++
			if i.Total != i.Ready+i.Unacked || i.Ready < 0 || i.Unacked < 0 {
				r.fail(V("queue %q is listed with ready=%d unacked=%d total=%d", i.Name, i.Ready, i.Unacked, i.Total))
			}
		}
		for _, n := range r.names {
			if have[n] != 1 {
				r.fail(V("queue %q is listed %d times", n, have[n]))
			}
		}
	case "create":
		if err := r.s.Create("delayed", n); err != nil {
			r.fail(V("creating queue %q failed: %v", n, err))
		}
	case "del":
		_ = r.s.Delete(n)
	}
}

// explain searches for an order of the operations on one message, compatible with
// when they ran, in which every outcome is right.
func (r *run25) explain(evs []ev) bool {
	const (
		absent = iota
		ready
		held
		gone
	)
	early := time.Duration(r.c.Timeout)*time.Second - time.Second
	late := time.Duration(r.c.Timeout+r.c.Interval)*time.Second + time.Second
	type key struct {
		done uint64
		st   int
		take int
	}
	if len(evs) > 60 {
		return true // too many to search
	}
	seen := map[key]bool{}
	budget := 2_000_000
	var rec func(done uint64, st, take int) bool
	rec = func(done uint64, st, take int) bool {
		if done == 1<<len(evs)-1 {
			return true
		}
		k := key{done, st, take}
		if seen[k] {
			return false
		}
		seen[k] = true
		if budget--; budget < 0 {
			return true // undecided counts as explained
		}
		minEnd := int64(1) << 62
		for i := range evs {
			if done&(1<<i) == 0 && evs[i].e < minEnd {
				minEnd = evs[i].e
			}
		}
		for i := range evs {
			v := evs[i]
			if done&(1<<i) != 0 || v.s > minEnd {
				continue
			}
			// the message may have timed out before this operation
			states := []int{st}
			if st == held {
				may := v.te.Sub(evs[take].ts) >= early
				must := v.ts.Sub(evs[take].te) >= late
				if must {
					states = []int{ready}
				} else if may {
					states = []int{held, ready}
				}
			}
			for _, s := range states {
				ns, nt, ok := s, take, false
				switch v.k {
				case "enq":
					ok = s == absent
					ns = ready
				case "take":
					ok = s == ready
					ns, nt = held, i
				case "deq":
					ok = s == ready
					ns = gone
				case "ack":
					ok = v.ok == (s == held)
					if v.ok {
						ns = gone
					}
				case "nack":
					ok = v.ok == (s == held)
					if v.ok {
						ns = ready
					}
				case "upd":
					ok = v.ok == (s == held || s == ready)
				}
				if ok && rec(done|1<<i, ns, nt) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, absent, 0)
}

var raceLog = func() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}()

var raceSeen int64

// newRaces returns a new report of the race detector about code of the repository.
func newRaces() string {
	if raceLog == "" {
		return ""
	}
	b, err := os.ReadFile(raceLog)
	if err != nil || int64(len(b)) <= raceSeen {
		return ""
	}
	text := string(b[raceSeen:])
	raceSeen = int64(len(b))
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		for _, part := range regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic|Previous atomic)[^\n]*\n`).Split(rep, -1)[1:] {
			// the first frame that is not the standard library
			for _, l := range strings.Split(strings.Split(part, "\n\n")[0], "\n") {
				l = strings.TrimSpace(l)
				if !strings.HasSuffix(l, ")") || strings.HasPrefix(l, "/") {
					continue
				}
				if strings.Contains(l, "kgantsov/doq/pkg/") && !strings.Contains(l, "/zzverif/") {
					return rep
				}
				if strings.Contains(strings.SplitN(l, "(", 2)[0], ".com/") || strings.Contains(l, "zzverif") {
					break
				}
			}
		}
	}
	return ""
}

func runC25(c c25Case, tr *Trace) error {
	conf := Conf{Timeout: c.Timeout, Interval: c.Interval, Window: 5, Metrics: c.Metrics}
	FreshMetrics()
	var s Sys
	var err error
	if c.Sys == "node" {
		s, err = NewNodeSys(conf)
	} else {
		s, err = NewQM(conf)
	}
	if err != nil {
		return err
	}
	defer s.Close()
	time.Sleep(time.Until(time.Unix(time.Now().Unix()+1, 300e6)))
	r := &run25{c: c, s: s, held: map[int][]uint64{}, prio: map[uint64][]int64{}}
	for i, typ := range c.Types {
		if err := s.Create(typ, r.name(i)); err != nil {
			return V("creating a queue failed: %v", err)
		}
		r.names = append(r.names, r.name(i))
	}
	created := time.Now()
	defer func() {
		for _, n := range append(r.names, r.name(scratchQ)) {
			_ = s.Delete(n)
		}
	}()
	conc := 0
	for _, ph := range c.Phases {
		if d := time.Duration(ph.Adv) * time.Millisecond; d > 0 {
			time.Sleep(d)
		}
		wake := time.Now()
		if ph.Tick {
			iv := time.Duration(c.Interval) * time.Second
			wake = created.Add((wake.Sub(created)/iv + 1) * iv)
		}
		var wg sync.WaitGroup
		for i, ops := range ph.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Until(wake))
				for _, o := range ops {
					r.do(fmt.Sprintf("client %d", i), o)
				}
			}()
		}
		if len(ph.Clients) > 1 {
			conc++
		}
		wg.Wait()
		synctest.Wait()
		if r.err != nil {
			return r.err
		}
		if rep := newRaces(); rep != "" {
			return V("concurrent operations access the same memory without synchronisation: %.3500s", rep)
		}
	}
	// everything still held times out; then all is drained by one client
	time.Sleep(time.Duration(c.Timeout+2*c.Interval+3) * time.Second)
	synctest.Wait()
	for i := range c.Types {
		in, err := s.Info(r.name(i))
		if err != nil {
			return V("info of %q failed: %v", r.name(i), err)
		}
		if in.Unacked != 0 {
			return V("queue %q reports %d unacknowledged messages long after all timeouts", r.name(i), in.Unacked)
		}
		drained := int64(0)
		for {
			n := len(r.ev)
			r.do("drain", cop{K: "deq", Q: i})
			if r.err != nil {
				return r.err
			}
			if r.ev[n].k == "empty" {
				r.ev = r.ev[:n]
				break
			}
			if drained++; drained > in.Ready+1000 {
				return V("draining queue %q does not end", r.name(i))
			}
		}
		if drained != in.Ready {
			return V("queue %q reported %d ready messages, but %d could be taken out", r.name(i), in.Ready, drained)
		}
	}
	// judge every message
	by := map[uint64][]ev{}
	removed := map[uint64]int{}
	okOps := map[int]map[string]int{}
	for _, v := range r.ev {
		if v.k == "empty" {
			continue
		}
		if okOps[v.q] == nil {
			okOps[v.q] = map[string]int{}
		}
		if v.ok {
			okOps[v.q][v.k]++
		}
		if v.q == scratchQ {
			continue
		}
		by[v.id] = append(by[v.id], v)
		if v.ok && (v.k == "deq" || v.k == "ack") {
			removed[v.id]++
		}
	}
	var all []uint64
	for id := range by {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	contended := 0
	for _, id := range all {
		evs := by[id]
		sort.Slice(evs, func(i, j int) bool { return evs[i].s < evs[j].s })
		show := func() string {
			var b strings.Builder
			for _, v := range evs {
				fmt.Fprintf(&b, "\n  %v", v)
			}
			return b.String()
		}
		enq := 0
		for i, v := range evs {
			if v.k == "enq" {
				enq++
			}
			if i > 0 && v.s < evs[i-1].e {
				contended++
			}
		}
		if enq == 0 {
			return V("message %d was never enqueued:%s", id, show())
		}
		if removed[id] == 0 {
			return V("message %d of queue %d is lost: it was enqueued and never settled, but the queue is empty:%s", id, evs[0].q, show())
		}
		if removed[id] > 1 {
			return V("message %d was removed %d times:%s", id, removed[id], show())
		}
		if !r.explain(evs) {
			return V("no order of these operations on message %d of queue %d explains their outcomes (timeout %d s):%s", id, evs[0].q, c.Timeout, show())
		}
	}
	// an empty answer while a message was there the whole time
	for _, e := range r.ev {
		if e.k != "empty" || e.q == scratchQ {
			continue
		}
		for _, id := range all {
			evs := by[id]
			if evs[0].q != e.q || evs[0].k != "enq" || evs[0].e >= e.s || maxPrio(r.prio[id]) > 0 {
				continue
			}
			first := int64(1) << 62
			for _, v := range evs[1:] {
				if (v.k == "take" || v.k == "deq") && v.s < first {
					first = v.s
				}
			}
			if first > e.e {
				return V("a dequeue from queue %d found nothing although message %d had been there all the time (enqueued %v; dequeue %v)", e.q, id, evs[0], e)
			}
		}
	}
	if c.Metrics {
		_, reg := Metrics()
		ser, err := GatherSeries(reg)
		if err != nil {
			return V("metrics cannot be gathered: %v", err)
		}
		for i, n := range r.names {
			o := okOps[i]
			want := map[string]int{"doq_queues_enqueue_total": o["enq"], "doq_queues_dequeue_total": o["deq"] + o["take"],
				"doq_queues_ack_total": o["ack"], "doq_queues_nack_total": o["nack"]}
			for m, k := range want {
				if got := ser[m][n]; got != float64(k) {
					return V("%s of queue %q is %v after %d successful operations", m, n, got, k)
				}
			}
		}
	}
	for i := range c.Types {
		in, err := s.Info(r.name(i))
		if err != nil || in.Ready != 0 || in.Unacked != 0 || in.Total != 0 {
			return V("the drained queue %q reports ready=%d unacked=%d total=%d (%v)", r.name(i), in.Ready, in.Unacked, in.Total, err)
		}
	}
	if c.Sys != "node" { // nothing may be left in the storage either
		if err := s.Reload("clean"); err != nil {
			return err
		}
		synctest.Wait()
		l, err := s.List()
		if err != nil {
			return err
		}
		if len(l) < len(r.names) {
			return V("after a restart %d of %d queues are left", len(l), len(r.names))
		}
		for _, in := range l {
			if in.Name != r.name(scratchQ) && in.Total != 0 {
				return V("after a restart, the drained queue %q has %d messages again", in.Name, in.Total)
			}
		}
	}
	if rep := newRaces(); rep != "" {
		return V("concurrent operations access the same memory without synchronisation: %.3500s", rep)
	}
	tr.Count("operations", len(r.ev))
	tr.Count("messages", len(all))
	tr.Count("overlapping_operations_on_one_message", contended)
	tr.Count("phases_at_scan", func() (n int) {
		for _, p := range c.Phases {
			if p.Tick {
				n++
			}
		}
		return
	}())
	tr.Count("system:"+c.Sys, 1)
	tr.Nontrivial = conc >= 2 && len(all) >= 5
	return nil
}

func maxPrio(l []int64) int64 {
	m := int64(0)
	for _, p := range l {
		m = max(m, p)
	}
	return m
}

func genC25(t *rapid.T) c25Case {
	c := c25Case{Sys: Pick(t, []string{"qm", "qm", "qm", "node"}), Timeout: int64(UniRange(t, 1, 4)), Interval: int64(UniRange(t, 1, 2)), Metrics: Uni(t, 3) == 0}
	for k := UniRange(t, 1, 2); k > 0; k-- {
		c.Types = append(c.Types, Pick(t, []string{"delayed", "fair"}))
	}
	kinds := []string{"enq", "enq", "enq", "enq", "take", "take", "take", "deq", "ack", "ack", "nack", "upd", "info", "list"}
	for k := UniRange(t, 2, 6); k > 0; k-- {
		ph := phase{Adv: Pick(t, []int64{0, 0, 500, 1000, 3000}), Tick: Uni(t, 4) > 0}
		for n := UniRange(t, 1, 8); n > 0; n-- {
			var ops []cop
			for m := UniRange(t, 1, 12); m > 0; m-- {
				o := cop{K: Pick(t, kinds), I: Uni(t, 12)}
				o.Q = Uni(t, len(c.Types))
				if o.K == "upd" || o.K == "enq" {
					o.P = int64(-Uni(t, 4))
				}
				if Uni(t, 12) == 11 {
					o.Q = scratchQ
					ks := []string{"create", "enq", "take", "deq", "info", "create"}
					if c.Sys == "node" {
						ks = append(ks, "del", "del")
					}
					o.K = Pick(t, ks)
				}
				ops = append(ops, o)
			}
			ph.Clients = append(ph.Clients, ops)
		}
		c.Phases = append(c.Phases, ph)
	}
	return c
}

func TestC25(t *testing.T) {
	Main(t, Check[c25Case]{
		ID:     "C25",
		Rule:   "a case is 2-6 phases in each of which up to 8 clients run lists of operations on shared queues in parallel, mostly at the very instant of the redelivery scan; at the end everything is drained, and the operations on every message are checked to be explainable by some sequential order; non-trivial: at least two phases with several clients and 5 messages",
		Bubble: true, Quick: 500, Thorough: 12000, QuickSecs: 50, ThoroughSecs: 800,
		Assumptions: []string{"deletion runs concurrently with other operations only through the node, which orders them; on the queue manager itself it does not"},
		Gen:         genC25,
		Minimize: func(c c25Case, fails func(c25Case) bool) c25Case {
			again := func(d c25Case) bool { // schedules differ from run to run
				for i := 0; i < 10; i++ {
					if fails(d) {
						return true
					}
				}
				return false
			}
			c.Phases = DDMin(c.Phases, func(p []phase) bool { d := c; d.Phases = p; return again(d) })
			for i := range c.Phases {
				c.Phases[i].Clients = DDMin(c.Phases[i].Clients, func(l [][]cop) bool {
					d := c
					d.Phases = append([]phase{}, c.Phases...)
					d.Phases[i].Clients = l
					return again(d)
				})
			}
			return c
		},
		Run: func(c c25Case, tr *Trace) error {
			if os.Getenv("VERIF_REPLAY") == "" {
				return runC25(c, tr)
			}
			var err error
			for i := 0; i < 300 && err == nil; i++ { // a replay repeats the schedule until it fails
				err = runC25(c, tr)
			}
			return err
		},
	})
}

var _ = errors.New
