package core

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Op is one abstract step; message references are resolved against the model
// when the step runs, so any sub-sequence of a case is a case.
type Op struct {
	K  string `json:"k"`            // create delete enq deq ack nack upd mid adv reload list info
	Q  int    `json:"q,omitempty"`  // queue index
	T  string `json:"t,omitempty"`  // create: type; reload: mode
	G  string `json:"g,omitempty"`  // enq: group
	P  int64  `json:"p,omitempty"`  // enq/upd: priority
	R  bool   `json:"r,omitempty"`  // priority is relative to now (seconds)
	C  string `json:"c,omitempty"`  // enq: content prefix (made unique)
	B  int    `json:"b,omitempty"`  // enq: pad the content to this many bytes
	A  bool   `json:"a,omitempty"`  // deq: automatic acknowledgement
	W  string `json:"w,omitempty"`  // ack/nack/upd target: ready unacked gone other unknown first last
	I  int    `json:"i,omitempty"`  // index among the candidates
	MS int64  `json:"ms,omitempty"` // adv: milliseconds
	N  int    `json:"n,omitempty"`  // repeat count for deq
	V  int    `json:"v,omitempty"`  // interface selector for API level systems
	E  bool   `json:"e,omitempty"`  // enq: the content is exactly C, not made unique
	S  int    `json:"s,omitempty"`  // enq: a burst is spread over this many groups
	F  bool   `json:"f,omitempty"`  // the storage refuses writes meanwhile
}

// Case is a whole history plus its configuration.
type Case struct {
	Sys      string   `json:"sys"`
	Names    []string `json:"names"`
	Types    []string `json:"types"`
	Timeout  int64    `json:"timeout"`
	Interval int64    `json:"interval"`
	Window   int      `json:"window"`
	IDBase   uint64   `json:"id_base"`
	IDStep   uint64   `json:"id_step"`
	Disk     bool     `json:"disk,omitempty"`
	Metrics  bool     `json:"metrics,omitempty"`
	Ops      []Op     `json:"ops"`
}

// Claims selects what a check asserts; everything else is followed, not judged.
type Claims struct {
	Conserve, Order, Gate, Fair, Timing, Settle, Lifecycle, Content, Counts, Rates bool
	// Lax: nothing is asserted; the model only follows (another oracle judges).
	Lax bool
	// Restart: the system is a node that is restarted; what was unacknowledged may
	// be held or ready afterwards.
	Restart bool
	// NoDrain skips the final drain.
	NoDrain bool
	// NoVirtualTime: the system does not run in a bubble; adv really sleeps.
	RealTime bool
	// EarlySlack/LateSlack widen the redelivery window (real-time systems).
	LateSlack time.Duration
}

type mmsg struct {
	id       uint64
	seq      int
	group    string
	prio     int64
	content  string
	unacked  bool
	deqAt    time.Time
	inFlight bool
	updated  bool
}

type mqueue struct {
	name, typ string
	msgs      map[uint64]*mmsg
	gone      []uint64
	bypass    map[string]map[string]int
	created   time.Time
	ev        [4][]time.Time // enqueue dequeue ack nack times
}

// World runs a case and carries the reference model.
type World struct {
	Takes  int // contents of up to so many bytes must be accepted
	C      *Case
	S      Sys
	Cl     Claims
	Tr     *Trace
	Queues map[string]*mqueue
	seq    int
	goneID map[uint64]bool
	last   *mmsg // handed out last
	fault  bool  // the storage refuses writes
	// Stats about the history, for the non-triviality rule.
	Faults, Deliveries, Redeliveries, Settles, Failures, Reloads, Deletes, Ties, Updates, Empty, MultiGroup, FutureGate int
	// After is called after every op.
	After func(w *World, op *Op) error
	Res   []string // per-op outcome (for differential checks)
	Cur   *Op      // the step being executed
	// Custom executes steps of kinds that World does not know.
	Custom func(w *World, op *Op) error
	// Totals of successful enqueues, dequeues, acks and nacks by queue name; they
	// survive deletion and reload.
	Totals map[string]*[4]int
}

func NewWorld(c *Case, s Sys, cl Claims, tr *Trace) *World {
	return &World{C: c, S: s, Cl: cl, Tr: tr, Queues: map[string]*mqueue{}, goneID: map[uint64]bool{}, Totals: map[string]*[4]int{}}
}

func newMQ(name, typ string, now time.Time) *mqueue {
	return &mqueue{name: name, typ: typ, msgs: map[uint64]*mmsg{}, bypass: map[string]map[string]int{}, created: now}
}

func (w *World) now() time.Time { return time.Now() }

func (q *mqueue) due(m *mmsg, now time.Time) bool {
	if m.unacked {
		return false
	}
	return q.typ == "fair" || m.prio <= now.Unix()
}

func (q *mqueue) sorted(f func(*mmsg) bool) []*mmsg {
	var out []*mmsg
	for _, m := range q.msgs {
		if f(m) {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].seq < out[j].seq })
	return out
}

func less(a, b *mmsg) bool {
	if a.prio != b.prio {
		return a.prio < b.prio
	}
	return a.seq < b.seq
}

// window of the redelivery of m.
func (w *World) win(m *mmsg) (early, late time.Time) {
	t := time.Duration(w.C.Timeout) * time.Second
	early = m.deqAt.Add(t - time.Second)
	late = m.deqAt.Add(t + time.Duration(w.C.Interval)*time.Second + time.Second + w.Cl.LateSlack)
	return
}

// settle moves expired messages to ready and returns the time until which the
// state of some message is not determined (zero if all are).
func (w *World) ripen() time.Time {
	var until time.Time
	now := w.now()
	for _, q := range w.Queues {
		for _, m := range q.sorted(func(m *mmsg) bool { return m.unacked }) {
			e, l := w.win(m)
			if !now.Before(l) {
				m.unacked = false
				m.inFlight = true
				w.join(q, m)
				w.Redeliveries++
			} else if !now.Before(e) && l.After(until) {
				until = l
			}
		}
	}
	return until
}

// join records that a group may have started to wait (nothing to do: bypass
// counters exist from the first bypass on, but a group that was empty starts
// afresh).
func (w *World) join(q *mqueue, m *mmsg) {
	for _, o := range q.msgs {
		if o != m && !o.unacked && o.group == m.group {
			return
		}
	}
	q.bypass[m.group] = map[string]int{}
}

func (w *World) sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	if !w.Cl.RealTime {
		synctest.Wait()
	}
}

// Advance lets time pass, and a little more whenever the state would be
// undetermined at the end (inside a redelivery window or at a tick).
func (w *World) Advance(d time.Duration) {
	w.sleep(d)
	for i := 0; i < 200; i++ {
		if until := w.ripen(); !until.IsZero() {
			w.sleep(until.Sub(w.now()))
			continue
		}
		if w.nearTick() {
			w.sleep(130 * time.Millisecond)
			continue
		}
		return
	}
}

func (w *World) nearTick() bool {
	if w.Cl.RealTime {
		return false
	}
	now := w.now()
	for _, q := range w.Queues {
		if now.Equal(q.created) {
			continue
		}
		ph := now.Sub(q.created) % time.Second
		if ph < 60*time.Millisecond || ph > 940*time.Millisecond {
			return true
		}
	}
	return false
}

// Run executes the whole case.
func (w *World) Run() error {
	if !w.Cl.RealTime {
		// leave the whole second so that truncation to seconds matters
		time.Sleep(time.Until(time.Unix(time.Now().Unix()+1, 300e6)))
	}
	for i, typ := range w.C.Types {
		if typ == "" {
			continue
		}
		if err := w.Step(&Op{K: "create", Q: i, T: typ}); err != nil {
			return fmt.Errorf("%w\n(creating queue %d)", err, i)
		}
	}
	for i := range w.C.Ops {
		op := &w.C.Ops[i]
		w.Cur = op
		err := w.Step(op)
		w.Cur = nil
		if err == nil && w.After != nil {
			err = w.After(w, op)
		}
		if err != nil {
			if v, ok := err.(*Violation); ok {
				return V("step %d (%+v): %s", i, *op, v.Msg)
			}
			return err
		}
	}
	if w.Cl.NoDrain {
		return nil
	}
	return w.Drain()
}

func (w *World) qname(i int) string {
	return w.C.Names[((i%len(w.C.Names))+len(w.C.Names))%len(w.C.Names)]
}

func (w *World) res(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	w.Res = append(w.Res, s)
	w.Tr.Logf("%s", s)
}

func okS(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

func (w *World) prio(op *Op) int64 {
	if op.R {
		return w.now().Unix() + op.P
	}
	return op.P
}

// v is a violation, unless another oracle judges this run.
func (w *World) v(format string, args ...any) error {
	if w.Cl.Lax {
		return nil
	}
	return V(format, args...)
}

// Step executes one op against system and model.
func (w *World) Step(op *Op) error {
	if f, ok := w.S.(interface{ Fault(on bool) }); ok && op.F {
		f.Fault(true)
		w.fault = true
		w.Faults++
		defer func() {
			f.Fault(false)
			w.fault = false
		}()
	}
	name := w.qname(op.Q)
	q := w.Queues[name]
	switch op.K {
	case "adv":
		w.Advance(time.Duration(op.MS) * time.Millisecond)
		w.Tr.Logf("advance to %v", w.now().UTC().Format("15:04:05.000"))
		return nil
	case "mid":
		return w.mid(op, q)
	case "again":
		return w.again(op, name)
	case "crowd":
		return w.crowd(op)
	case "create":
		err := w.S.Create(op.T, name)
		w.res("create %q %s: %s", name, op.T, okS(err))
		if err != nil && w.fault {
			return nil
		}
		if err != nil {
			return w.v("creating queue %q (%s) failed: %v", name, op.T, err)
		}
		if q == nil {
			w.Queues[name] = newMQ(name, op.T, w.now())
		}
		return nil
	case "delete":
		err := w.S.Delete(name)
		w.res("delete %q: %s", name, okS(err))
		if q == nil {
			w.Failures++
			if err == nil && w.Cl.Lifecycle {
				return w.v("deleting queue %q succeeded although it does not exist", name)
			}
			return nil
		}
		if err != nil && w.fault {
			return nil // nothing is deleted
		}
		if err != nil {
			return w.v("deleting queue %q failed: %v", name, err)
		}
		w.Deletes++
		for id := range q.msgs {
			w.goneID[id] = true
		}
		delete(w.Queues, name)
		return nil
	case "reload":
		if err := w.S.Reload(op.T); err != nil {
			return err
		}
		if !w.Cl.RealTime {
			synctest.Wait()
		}
		w.Reloads++
		now := w.now()
		for _, q := range w.Queues {
			q.created = now
			q.bypass = map[string]map[string]int{}
			q.ev = [4][]time.Time{}
			if w.Cl.Restart {
				continue
			}
			for _, m := range q.msgs {
				m.unacked = false
			}
		}
		w.res("reload %s", op.T)
		if w.Cl.Restart {
			return w.restarted(op.I)
		}
		return nil
	case "list":
		return w.checkList()
	case "info":
		return w.checkInfo(name)
	case "enq":
		if op.N > 1 { // a burst of messages with different priorities
			for i := 0; i < op.N; i++ {
				o := *op
				if o.P > math.MinInt64/2 && o.P < math.MaxInt64/2 {
					o.P += int64((op.I + i*i) % 7)
				}
				if op.S > 1 {
					o.G = fmt.Sprintf("%s%d", op.G, i%op.S)
				}
				if err := w.enqueue(&o, name, w.Queues[name]); err != nil {
					return err
				}
			}
			return nil
		}
		return w.enqueue(op, name, q)
	case "deq":
		n := op.N
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			got, err := w.Dequeue(name, op.A)
			if err != nil {
				return err
			}
			if !got {
				break
			}
		}
		return nil
	case "ack", "nack", "upd":
		for i := 1; i < op.N; i++ { // many of them
			o := *op
			o.I += 7 * i
			if err := w.settle(&o, name, w.Queues[name]); err != nil {
				return err
			}
		}
		return w.settle(op, name, w.Queues[name])
	}
	if w.Custom != nil {
		return w.Custom(w, op)
	}
	return fmt.Errorf("unknown op %q", op.K)
}

// restarted finds out what became of the messages that were unacknowledged: each
// is acknowledged or returned, which succeeds if it is held and fails if it is ready.
func (w *World) restarted(bits int) error {
	if err := w.checkList(); err != nil {
		return err
	}
	var names []string
	for n := range w.Queues {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		q := w.Queues[n]
		i, err := w.S.Info(n)
		if err != nil {
			return w.v("after the restart, info of queue %q failed: %v", n, err)
		}
		held := 0
		for _, m := range q.msgs {
			if m.unacked {
				held++
			}
		}
		if i.Total != int64(len(q.msgs)) || i.Ready+i.Unacked != i.Total || i.Unacked > int64(held) {
			return w.v("after the restart, queue %q reports ready=%d unacked=%d total=%d; before it held %d messages, %d of them unacknowledged",
				n, i.Ready, i.Unacked, i.Total, len(q.msgs), held)
		}
		for k, m := range q.sorted(func(m *mmsg) bool { return m.unacked }) {
			m.unacked = false
			if bits>>(k%5)&1 == 1 {
				if err := w.S.Ack(n, m.id); err == nil {
					delete(q.msgs, m.id)
					q.gone = append(q.gone, m.id)
					w.goneID[m.id] = true
				}
			} else {
				_ = w.S.Nack(n, m.id)
			}
		}
		q.bypass = map[string]map[string]int{}
	}
	return nil
}

func (w *World) checkList() error {
	l, err := w.S.List()
	if err != nil {
		return w.v("listing queues failed: %v", err)
	}
	w.res("list %d", len(l))
	if !w.Cl.Lifecycle && !w.Cl.Counts {
		return nil
	}
	var want []string
	for n := range w.Queues {
		want = append(want, n)
	}
	sort.Strings(want)
	var got []string
	for _, i := range l {
		got = append(got, i.Name)
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return w.v("queue list is %q, want %q", got, want)
	}
	for _, i := range l {
		if w.Cl.Lifecycle && i.Type != w.Queues[i.Name].typ {
			return w.v("queue %q is listed with type %q, want %q", i.Name, i.Type, w.Queues[i.Name].typ)
		}
		if err := w.compareInfo(i); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) checkInfo(name string) error {
	i, err := w.S.Info(name)
	q := w.Queues[name]
	w.res("info %q: %s %d/%d/%d", name, okS(err), i.Ready, i.Unacked, i.Total)
	if q == nil {
		w.Failures++
		if err == nil && w.Cl.Lifecycle {
			return w.v("info of queue %q succeeded although it does not exist", name)
		}
		return nil
	}
	if err != nil {
		return w.v("info of queue %q failed: %v", name, err)
	}
	if (w.Cl.Lifecycle || w.Cl.Counts) && (i.Name != name || i.Type != q.typ) {
		return w.v("info of queue %q reports name %q and type %q, want type %q", name, i.Name, i.Type, q.typ)
	}
	return w.compareInfo(i)
}

// MsgCount is the number of messages in all queues.
func (w *World) MsgCount() (n int) {
	for _, q := range w.Queues {
		n += len(q.msgs)
	}
	return
}

// Counts returns the model counts of a queue.
func (w *World) Counts(name string) (ready, unacked int64) {
	for _, m := range w.Queues[name].msgs {
		if m.unacked {
			unacked++
		} else {
			ready++
		}
	}
	return
}

var totalNames = []string{"doq_queues_enqueue_total", "doq_queues_dequeue_total", "doq_queues_ack_total", "doq_queues_nack_total"}

// CheckSeries compares scraped metrics with the model.
func (w *World) CheckSeries(s Series) error {
	known := map[string]bool{}
	for n := range w.Totals {
		known[n] = true
	}
	for n := range w.Queues {
		known[n] = true
	}
	var names []string
	for n := range known {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for k, m := range totalNames {
			want := 0
			if w.Totals[n] != nil {
				want = w.Totals[n][k]
			}
			if got := s[m][n]; got != float64(want) {
				return w.v("%s of queue %q is %v, want %d", m, n, got, want)
			}
		}
		var r, u int64
		if w.Queues[n] != nil {
			r, u = w.Counts(n)
		}
		for m, want := range map[string]int64{"doq_queues_messages": r + u, "doq_queues_unacked_messages": u, "doq_queues_ready_messages": r} {
			if got := s[m][n]; got != float64(want) {
				return w.v("%s of queue %q is %v, want %d", m, n, got, want)
			}
		}
	}
	for m, qs := range s {
		for n, v := range qs {
			if v != 0 && !known[n] {
				return w.v("%s has a series for queue %q with value %v; there never was such a queue", m, n, v)
			}
		}
	}
	return nil
}

func (w *World) compareInfo(i Info) error {
	q := w.Queues[i.Name]
	if q == nil {
		return nil
	}
	if w.Cl.Counts {
		r, u := w.Counts(i.Name)
		if i.Ready != r || i.Unacked != u || i.Total != r+u {
			return w.v("queue %q reports ready=%d unacked=%d total=%d, want %d, %d, %d", i.Name, i.Ready, i.Unacked, i.Total, r, u, r+u)
		}
	}
	if w.Cl.Rates {
		want := w.rates(q)
		got := [4]float64{i.Enq, i.Deq, i.Ack, i.Nack}
		for k := range want {
			if math.Abs(want[k]-got[k]) > 1e-9 {
				return w.v("queue %q reports rates enqueue/dequeue/ack/nack %v, want %v (window %d s)", i.Name, got, want, w.C.Window)
			}
		}
	}
	return nil
}

// rates over the last full window: ticks happen every second after creation.
func (w *World) rates(q *mqueue) (out [4]float64) {
	now := w.now()
	last := q.created.Add(now.Sub(q.created) / time.Second * time.Second)
	first := last.Add(-time.Duration(w.C.Window) * time.Second)
	for k := range q.ev {
		n := 0
		for _, t := range q.ev[k] {
			// an operation at the very instant of creation belongs to the first second
			if t.Equal(q.created) {
				t = t.Add(time.Nanosecond)
			}
			if t.After(first) && !t.After(last) {
				n++
			}
		}
		out[k] = float64(n) / float64(w.C.Window)
	}
	return
}

func (w *World) event(q *mqueue, k int) {
	q.ev[k] = append(q.ev[k], w.now())
	if w.Totals[q.name] == nil {
		w.Totals[q.name] = &[4]int{}
	}
	w.Totals[q.name][k]++
}

func (w *World) enqueue(op *Op, name string, q *mqueue) error {
	w.seq++
	seq := w.seq
	a, b := op.C, fmt.Sprintf("#%d", seq)
	if seq%2 == 0 {
		a, b = b, a
	}
	if op.E {
		b = ""
		a = op.C
	}
	pad := strings.Repeat("x", max(0, op.B-len(a)-len(b)))
	content := a + pad + b
	id := w.C.IDBase + uint64(seq)*max(w.C.IDStep, 1)
	p := w.prio(op)
	m, err := w.S.Enqueue(id, name, op.G, p, content)
	w.res("enqueue %q group=%q prio=%d len=%d: %s seq=%d", name, op.G, p, len(content), okS(err), seq)
	if q == nil {
		w.Failures++
		if err == nil && (w.Cl.Lifecycle || w.Cl.Conserve) {
			return w.v("enqueue into queue %q succeeded although the queue does not exist", name)
		}
		return nil
	}
	if err != nil {
		w.Failures++
		if w.fault || op.B > max(w.Takes, 60000) {
			return nil // an enqueue that is refused must leave nothing behind
		}
		return w.v("enqueue into %q failed: %v", name, err)
	}
	if w.goneID[m.ID] || w.findID(m.ID) != nil {
		return w.v("enqueue returned id %d which was already used", m.ID)
	}
	if w.Cl.Content && (m.Priority != p || m.Content != content) {
		return w.v("enqueue of priority %d content %.60q reports priority %d content %.60q", p, content, m.Priority, m.Content)
	}
	mm := &mmsg{id: m.ID, seq: seq, group: op.G, prio: p, content: content}
	if q.typ != "fair" {
		mm.group = "default"
	}
	q.msgs[m.ID] = mm
	w.join(q, mm)
	for _, o := range q.msgs {
		if o != mm && o.prio == mm.prio && o.group == mm.group {
			w.Ties++
			break
		}
	}
	w.event(q, 0)
	return nil
}

func (w *World) findID(id uint64) *mqueue {
	for _, q := range w.Queues {
		if q.msgs[id] != nil {
			return q
		}
	}
	return nil
}

// AnyID is the id of a message of the queue that is there now, held ones
// included, or 1.
func (w *World) AnyID(name string, i int) uint64 {
	q := w.Queues[name]
	if q == nil {
		return 1
	}
	if l := q.sorted(func(*mmsg) bool { return true }); len(l) > 0 {
		return l[((i%len(l))+len(l))%len(l)].id
	}
	return 1
}

// Dequeue performs one dequeue and judges it; got reports whether a message came.
func (w *World) Dequeue(name string, ack bool) (got bool, err error) {
	q := w.Queues[name]
	now := w.now()
	m, derr := w.S.Dequeue(name, ack)
	if derr != nil {
		w.res("dequeue %q ack=%v: none", name, ack)
		w.Empty++
		if q != nil && w.fault {
			q.bypass = map[string]map[string]int{} // whose turn it is then is not judged
			return false, nil
		}
		if q == nil {
			w.Failures++
			return false, nil
		}
		var d []*mmsg
		d = q.sorted(func(m *mmsg) bool { return q.due(m, now) })
		if len(d) > 0 {
			return false, w.v("dequeue from %q reports %q although %d ready messages are due (oldest: #%d priority %d group %q; now %d)",
				name, derr.Error(), len(d), d[0].seq, d[0].prio, d[0].group, now.Unix())
		}
		if len(q.msgs) > 0 {
			w.FutureGate++
		}
		return false, nil
	}
	if q == nil {
		return false, w.v("dequeue from %q returned message %d although the queue does not exist", name, m.ID)
	}
	mm := q.msgs[m.ID]
	if mm == nil {
		w.res("dequeue %q ack=%v: unknown", name, ack)
		what := "was never enqueued there"
		if w.goneID[m.ID] {
			what = "was acknowledged or deleted before"
		} else if o := w.findID(m.ID); o != nil {
			what = fmt.Sprintf("belongs to queue %q", o.name)
		}
		return false, w.v("dequeue from %q returned message %d which %s (content %.60q)", name, m.ID, what, m.Content)
	}
	w.res("dequeue %q ack=%v: seq=%d group=%q prio=%d", name, ack, mm.seq, m.Group, m.Priority)
	w.Deliveries++
	if mm.unacked {
		if w.Cl.Conserve || w.Cl.Timing {
			return false, w.v("dequeue from %q handed out message #%d again %v after it was handed out, unacknowledged, with a timeout of %d s",
				name, mm.seq, now.Sub(mm.deqAt), w.C.Timeout)
		}
		mm.unacked = false
	}
	if w.Cl.Content || w.Cl.Settle || w.Cl.Conserve || w.Cl.Timing {
		if m.Content != mm.content {
			return false, w.v("message #%d of %q was enqueued with content %.80q (%d bytes) and delivered with %.80q (%d bytes)", mm.seq, name, mm.content, len(mm.content), m.Content, len(m.Content))
		}
	}
	if w.Cl.Content || w.Cl.Settle || w.Cl.Timing {
		if m.Priority != mm.prio {
			return false, w.v("message #%d of %q has priority %d but was delivered with priority %d", mm.seq, name, mm.prio, m.Priority)
		}
		if q.typ == "fair" && m.Group != mm.group {
			return false, w.v("message #%d of %q has group %q but was delivered with group %q", mm.seq, name, mm.group, m.Group)
		}
	}
	if q.typ != "fair" {
		if w.Cl.Gate && mm.prio > now.Unix() {
			return false, w.v("message #%d of %q with delivery time %d was handed out at %d", mm.seq, name, mm.prio, now.Unix())
		}
		if w.Cl.Order {
			for _, o := range q.sorted(func(o *mmsg) bool { return q.due(o, now) }) {
				if o != mm && less(o, mm) {
					return false, w.v("dequeue from %q returned #%d (priority %d) although #%d (priority %d) is ready and comes first", name, mm.seq, mm.prio, o.seq, o.prio)
				}
			}
		}
	} else if w.Cl.Fair {
		groups := map[string]bool{}
		for _, o := range q.sorted(func(o *mmsg) bool { return !o.unacked }) {
			groups[o.group] = true
			if o != mm && o.group == mm.group && less(o, mm) {
				return false, w.v("fair queue %q returned #%d (priority %d) of group %q although #%d (priority %d) of the same group comes first", name, mm.seq, mm.prio, mm.group, o.seq, o.prio)
			}
		}
		if len(groups) > 1 {
			w.MultiGroup++
		}
		for g := range groups {
			if g == mm.group {
				continue
			}
			if q.bypass[g] == nil {
				q.bypass[g] = map[string]int{}
			}
			q.bypass[g][mm.group]++
			if q.bypass[g][mm.group] > 1 {
				return false, w.v("fair queue %q served group %q twice while group %q was waiting with a ready message", name, mm.group, g)
			}
		}
		q.bypass[mm.group] = map[string]int{}
	}
	w.event(q, 1)
	w.last = mm
	if ack {
		delete(q.msgs, mm.id)
		q.gone = append(q.gone, mm.id)
		w.goneID[mm.id] = true
	} else {
		mm.unacked = true
		mm.deqAt = now
	}
	return true, nil
}

func (w *World) target(op *Op, q *mqueue) uint64 {
	pick := func(l []uint64) (uint64, bool) {
		if len(l) == 0 {
			return 0, false
		}
		return l[((op.I%len(l))+len(l))%len(l)], true
	}
	ids := func(q *mqueue, f func(*mmsg) bool) (out []uint64) {
		for _, m := range q.sorted(f) {
			out = append(out, m.id)
		}
		return
	}
	var cand []uint64
	if q != nil {
		switch op.W {
		case "unacked":
			cand = ids(q, func(m *mmsg) bool { return m.unacked })
		case "ready":
			cand = ids(q, func(m *mmsg) bool { return !m.unacked })
		case "gone":
			cand = q.gone
		}
	}
	if op.W == "other" {
		var ns []string
		for n := range w.Queues {
			if q == nil || n != q.name {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			cand = append(cand, ids(w.Queues[n], func(*mmsg) bool { return true })...)
		}
	}
	if id, ok := pick(cand); ok {
		return id
	}
	return w.C.IDBase/2 + uint64(op.I&1023) + 1 // unknown
}

func (w *World) settle(op *Op, name string, q *mqueue) error {
	return w.settleID(op, name, q, w.target(op, q))
}

func (w *World) settleID(op *Op, name string, q *mqueue, id uint64) error {
	var mm *mmsg
	if q != nil {
		mm = q.msgs[id]
	}
	var err error
	var want bool
	p := w.prio(op)
	switch op.K {
	case "ack":
		err = w.S.Ack(name, id)
		want = mm != nil && mm.unacked
	case "nack":
		err = w.S.Nack(name, id)
		want = mm != nil && mm.unacked
	case "upd":
		err = w.S.Update(name, id, p)
		want = mm != nil
	}
	seq := -1
	if mm != nil {
		seq = mm.seq
	}
	w.res("%s %q seq=%d: %s", op.K, name, seq, okS(err))
	if !want {
		w.Failures++
	}
	if err != nil && w.fault {
		return nil // nothing changes
	}
	if (err == nil) != want {
		if !w.Cl.Settle {
			// not judged here; follow the system
			if err == nil && mm == nil {
				return nil
			}
			if err != nil {
				return nil
			}
		} else {
			st := "is not in the queue"
			if q == nil {
				st = "is in no such queue"
			} else if mm != nil && mm.unacked {
				st = "is handed out and unacknowledged"
			} else if mm != nil {
				st = "is ready"
			}
			return w.v("%s of message %d (#%d) in %q which %s: %v", op.K, id, seq, name, st, errOr(err))
		}
	}
	if err != nil {
		return nil
	}
	w.Settles++
	switch op.K {
	case "ack":
		delete(q.msgs, id)
		q.gone = append(q.gone, id)
		w.goneID[id] = true
		w.event(q, 2)
	case "nack":
		mm.unacked = false
		w.join(q, mm)
		w.event(q, 3)
	case "upd":
		mm.prio = p
		mm.updated = true
		w.Updates++
	}
	return nil
}

// again takes a message and has it come back, many times.
func (w *World) again(op *Op, name string) error {
	for i := 0; i < op.N; i++ {
		w.last = nil
		got, err := w.Dequeue(name, false)
		if err != nil {
			return err
		}
		if !got || w.last == nil || w.Queues[name] == nil {
			return nil
		}
		if _, l := w.win(w.last); op.W == "wait" && !w.Cl.RealTime && l.Sub(w.now()) < 10*time.Minute {
			w.Advance(l.Sub(w.now()) + time.Millisecond)
			continue
		}
		if err := w.settleID(&Op{K: "nack"}, name, w.Queues[name], w.last.id); err != nil {
			return err
		}
	}
	return nil
}

// crowd creates many more queues, each with a message, some of which are handed out.
func (w *World) crowd(op *Op) error {
	for i := 0; i < op.N; i++ {
		name := fmt.Sprintf("crowd-%d", i)
		typ := []string{"delayed", "fair"}[(i+op.I)%2]
		if w.Queues[name] != nil {
			continue
		}
		if err := w.S.Create(typ, name); err != nil {
			return w.v("creating queue %q (%s) failed: %v", name, typ, err)
		}
		w.res("create %q %s", name, typ)
		w.Queues[name] = newMQ(name, typ, w.now())
		if err := w.enqueue(&Op{K: "enq", G: "default", P: op.P}, name, w.Queues[name]); err != nil {
			return err
		}
		if i%2 == 0 {
			if _, err := w.Dequeue(name, false); err != nil {
				return err
			}
		}
	}
	return nil
}

// mid settles a message whose acknowledgement timeout has passed, or nearly, and which
// may have been put back already or not.
func (w *World) mid(op *Op, q *mqueue) error {
	if q == nil || w.Cl.RealTime {
		return nil
	}
	held := q.sorted(func(m *mmsg) bool { return m.unacked })
	if len(held) == 0 {
		return nil
	}
	mm := held[op.I%len(held)]
	e, l := w.win(mm)
	at := e.Add(l.Sub(e) * time.Duration(op.MS) / 1000)
	if at.Sub(w.now()) > 10*time.Minute {
		return nil
	}
	w.sleep(at.Sub(w.now()))
	if w.nearTick() {
		w.sleep(130 * time.Millisecond)
	}
	w.ripen()
	if mm.unacked {
		var err error
		p := w.prio(op)
		switch op.W {
		case "ack":
			err = w.S.Ack(q.name, mm.id)
		case "nack":
			err = w.S.Nack(q.name, mm.id)
		case "upd":
			err = w.S.Update(q.name, mm.id, p)
		}
		w.res("%s %q seq=%d around its deadline: %s", op.W, q.name, mm.seq, okS(err))
		switch {
		case op.W == "upd" && err == nil:
			mm.prio, mm.updated = p, true
			w.Updates++
		case op.W == "upd" && w.Cl.Settle:
			return w.v("priority change of message #%d of %q, whose acknowledgement timeout ends, failed: %v", mm.seq, q.name, err)
		case op.W == "upd":
		case err == nil && op.W == "ack":
			w.Settles++
			delete(q.msgs, mm.id)
			q.gone = append(q.gone, mm.id)
			w.goneID[mm.id] = true
			w.event(q, 2)
		default: // it is ready, one way or the other
			if err == nil {
				w.Settles++
				w.event(q, 3)
			}
			mm.unacked = false
			mm.inFlight = true
			w.join(q, mm)
		}
	}
	w.Advance(0)
	return nil
}

func errOr(err error) string {
	if err == nil {
		return "succeeded"
	}
	return "failed: " + err.Error()
}

// Drain waits for all redeliveries, then takes everything out of all queues.
func (w *World) Drain() error {
	w.Tr.Logf("-- drain")
	w.Advance(0)
	for i := 0; i < 50; i++ {
		var late time.Time
		for _, q := range w.Queues {
			for _, m := range q.msgs {
				if m.unacked {
					if _, l := w.win(m); l.After(late) {
						late = l
					}
				}
			}
		}
		if late.IsZero() {
			break
		}
		w.Advance(late.Sub(w.now()))
	}
	var names []string
	for n := range w.Queues {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		q := w.Queues[n]
		if w.Cl.Counts {
			if err := w.checkInfo(n); err != nil {
				return err
			}
		}
		for guard := 0; ; guard++ {
			if guard > 5*w.seq+50 {
				return w.v("draining %q does not end", n)
			}
			got, err := w.Dequeue(n, true)
			if err != nil {
				return wrapDrain(err)
			}
			if got {
				continue
			}
			rest := q.sorted(func(m *mmsg) bool { return !m.unacked })
			if len(rest) == 0 {
				break
			}
			// only future messages are left
			m := rest[0]
			if m.prio-w.now().Unix() < 300 {
				w.Advance(time.Duration(m.prio-w.now().Unix()) * time.Second)
				continue
			}
			if err := w.S.Update(n, m.id, 0); err != nil {
				return w.v("drain: priority change of ready message #%d of %q failed: %v", m.seq, n, err)
			}
			m.prio = 0
		}
		if w.Cl.Counts {
			if err := w.checkInfo(n); err != nil {
				return wrapDrain(err)
			}
		}
	}
	if err := w.checkList(); err != nil {
		return wrapDrain(err)
	}
	return nil
}

func wrapDrain(err error) error {
	if v, ok := err.(*Violation); ok {
		return V("final drain: %s", v.Msg)
	}
	return err
}

// DeleteAll removes all queues (ends their goroutines).
func (w *World) DeleteAll() {
	for n := range w.Queues {
		_ = w.S.Delete(n)
	}
}

// Profile steers the case generator.
type Profile struct {
	Sys        string
	Types      []string // types to draw from
	Queues     [2]int   // number of queues
	Names      func(t *rapid.T, n int) []string
	Weights    map[string]int // per op kind
	MaxOps     int
	Groups     []string
	Prio       func(t *rapid.T) (int64, bool)
	Timeouts   []int64
	Intervals  []int64
	Windows    []int
	Advs       []int64 // milliseconds
	BigEvery   bool    // include enqueues that the storage refuses
	Targets    []string
	Reloads    []string
	NoInitial  bool // queues are not created up front
	Disk       bool
	AckRatio   int // percent of dequeues with ack
	MultiDeq   bool
	Interfaces int
	Contents   func(t *rapid.T) string // content prefix
	Bigs       []int                   // content sizes drawn now and then
	Tail       string                  // kind of a final step
	Deep       int                     // one case in so many is several times longer, with bursts of enqueues
	Bulk       int                     // one case in so many has few steps, each on hundreds of messages
	BulkMax    int                     // at most so many of them at a step
	Many       []int                   // numbers to draw from instead of the usual ones
	Plain      bool                    // no message that comes back many times, no crowd of queues
	Long       int                     // one case in so many has a timeout of hours (direct system only)

	deep, bulk bool
}

var longGroup = strings.Repeat("customer-", 30)

// moreGroups are group names that differ only a little.
var moreGroups = []string{"", "default", "Default", "default ", " default", "a", "A", "a ", "a:", "0", "00", "é", "e\u0301", longGroup, longGroup + "1", longGroup + "2"}

// someGroups draws the groups of a case from a pool.
func someGroups(t *rapid.T, pool []string) []string {
	if len(pool) < 2 {
		return pool
	}
	switch Uni(t, 6) {
	case 0:
		n := UniRange(t, 2, 5)
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, Pick(t, moreGroups))
		}
		return out
	case 1:
		n := UniRange(t, 2, 14)
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("g%d", i))
		}
		return out
	}
	return pool
}

func pickW(t *rapid.T, w map[string]int) string {
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	tot := 0
	for _, k := range ks {
		tot += w[k]
	}
	n := Uni(t, tot)
	for _, k := range ks {
		if n < w[k] {
			return k
		}
		n -= w[k]
	}
	return ks[0]
}

// PlainNames are unremarkable distinct names.
func PlainNames(_ *rapid.T, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("queue-%d", i)
	}
	return out
}

// TrickyNames are distinct names with shared prefixes and separators.
func TrickyNames(t *rapid.T, n int) []string {
	alpha := []string{"a", "b", ":", "a:", "::", "ab", "queues", "messages", "messages:", "logs", "conf", "\x00", "é", "q", "default", ".", " ", "/", "\xf0\x9f\x98\x80"}
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		var s string
		k := UniRange(t, 1, 3)
		if len(out) > 0 && Uni(t, 3) > 0 {
			s = out[Uni(t, len(out))]
			if Uni(t, 4) == 0 { // differs as little as possible
				s = Pick(t, []func(string) string{
					strings.ToUpper, strings.ToLower, strings.TrimSpace,
					func(s string) string { return s + " " }, func(s string) string { return " " + s },
					func(s string) string { return s + "/" },
					func(s string) string { // another separator in its place
						seps := []string{"/", ":", "-", "_", ".", " ", "%2F", "+", "%20", "\\", "\x00"}
						for i, x := range seps {
							if strings.Contains(s, x) {
								return strings.Replace(s, x, seps[(i+1+Uni(t, len(seps)-1))%len(seps)], 1+Uni(t, 2))
							}
						}
						return s + Pick(t, seps)
					}, func(s string) string {
						r := []rune(s)
						return string(r[:len(r)/2]) + "-" + string(r[len(r)/2:])
					},
				})(s)
				if s != "" && utf8.ValidString(s) && !seen[s] {
					k = 0
				}
			}
		} else if len(out) == 0 && Uni(t, 5) == 0 { // long names, up to what HTTP takes
			s = strings.Repeat(Pick(t, []string{"n", "ab", "x-y_"}), Pick(t, []int{8, 16, 31, 32, 63, 64, 65, 120, 128, 200, 220}))
		}
		for i := 0; i < k; i++ {
			s += Pick(t, alpha)
		}
		for seen[s] {
			s += Pick(t, alpha[:4])
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

// ToPresent moves a bubble's clock from its start in 2000 to the present; nothing
// that ticks may run yet.
func ToPresent() {
	if d := time.Until(time.Unix(present, 0)); d > 0 {
		time.Sleep(d)
	}
}

const present = 1767225600 // 2026-01-01

// unitPrio is a time like now in another unit than seconds: the far future.
func unitPrio(t *rapid.T) int64 {
	u := Pick(t, []int64{1000, 1000, 1e6, 1e9})
	return present*u + int64(UniRange(t, -20, 20))*u + int64(Uni(t, 3))
}

// MixedPrio: small with ties, around now, extreme.
func MixedPrio(t *rapid.T) (int64, bool) {
	switch Uni(t, 10) {
	case 0, 1, 2, 3:
		return int64(Uni(t, 5)), false
	case 4, 5:
		return int64(Uni(t, 1001)), false
	case 6:
		if Uni(t, 3) == 0 {
			return unitPrio(t), false
		}
		return Pick(t, []int64{-1, -5, math.MinInt64, math.MinInt64 + 1, 1 << 31, 1 << 32, -(1 << 31), -(1 << 32)}), false
	case 7:
		return int64(UniRange(t, -3, 0)), true
	default:
		return int64(UniRange(t, -2, 12)), true
	}
}

// PastPrio never lies in the future.
func PastPrio(t *rapid.T) (int64, bool) {
	switch Uni(t, 6) {
	case 0, 1, 2:
		return int64(Uni(t, 4)), false
	case 3:
		return int64(Uni(t, 1001)), false
	case 4:
		return Pick(t, []int64{-1, -5, math.MinInt64, -(1 << 32), 1 << 29, -1000}), false
	default:
		return int64(UniRange(t, -5, 0)), true
	}
}

// FuturePrio concentrates on delivery times around the near future.
func FuturePrio(t *rapid.T) (int64, bool) {
	switch Uni(t, 8) {
	case 0:
		return int64(Uni(t, 5)), false
	case 1:
		if Uni(t, 3) == 0 {
			return unitPrio(t), false
		}
		return Pick(t, []int64{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, -1, 1 << 40, 1 << 32, 1 << 31}), false
	default:
		return int64(UniRange(t, -3, 20)), true
	}
}

// AnyText draws valid UTF-8 of all kinds.
func AnyText(t *rapid.T) string {
	switch Uni(t, 4) {
	case 0:
		return ""
	case 1:
		return Pick(t, []string{"null", "{}", "\"", "\\", "a\nb", "\x00", "<&>", "\u2028\u2029", "%41%", "é", "\U0001F600", "\ufffd", "0", "true", " x ", "\t", "\x7f", "+", "%2F", "messages:", "a:b", "\n", "\r\n", "  ", "\ufeff", "\u00a0", "\u200b", "\x1b[0m", "'", "e\u0301", "$x", "</script>", "\n\n", "\b\f\v", "[1]", "1e5", "=", "\x00\x00"})
	case 2:
		return rapid.StringN(0, 12, 40).Draw(t, "text")
	default:
		return rapid.StringMatching(`[a-zA-Z0-9 _{}:"]{0,20}`).Draw(t, "ascii")
	}
}

// AnyPrio for fair queues, where priority is only an order.
func AnyPrio(t *rapid.T) (int64, bool) {
	if Uni(t, 3) > 0 {
		return int64(Uni(t, 5)), false
	}
	if Uni(t, 2) == 0 {
		return Pick(t, []int64{math.MaxInt64, math.MinInt64, 0, -1, -2, 1}), false
	}
	return rapid.Int64().Draw(t, "p"), false
}

// Gen draws a case.
func (p *Profile) Gen(t *rapid.T) Case {
	c := Case{Sys: p.Sys, Disk: p.Disk}
	n := UniRange(t, p.Queues[0], p.Queues[1])
	names := p.Names
	if names == nil {
		names = PlainNames
	}
	c.Names = names(t, n)
	for i := 0; i < n; i++ {
		typ := Pick(t, p.Types)
		if p.NoInitial {
			typ = ""
		}
		c.Types = append(c.Types, typ)
	}
	c.Timeout = Pick(t, p.Timeouts)
	c.Interval = Pick(t, p.Intervals)
	c.Window = 10
	if len(p.Windows) > 0 {
		c.Window = Pick(t, p.Windows)
	}
	c.IDBase = Pick(t, []uint64{100, 1 << 20, 0x3a3a3a3a3a3a00, 1 << 40, 7 << 58})
	c.IDStep = Pick(t, []uint64{1, 1, 3, 58, 4096, 1 << 22, 1 << 40})
	k := UniRange(t, 1, p.MaxOps)
	q := *p
	q.Groups = someGroups(t, p.Groups)
	if p.Long > 0 && Uni(t, p.Long) == p.Long-1 {
		c.Sys = "qm"
		c.Timeout = Pick(t, []int64{1800, 3600, 7200, 43200, 50000, 90000})
		c.Interval = Pick(t, []int64{1, 30, 60, 600, 3600})
		q.Advs = []int64{1000, 60000, c.Timeout * 300, c.Timeout*1000 - 3000, c.Timeout * 1000, (c.Timeout + c.Interval) * 1000}
		k = UniRange(t, 3, 12)
	} else if p.Bulk > 0 && Uni(t, p.Bulk) == p.Bulk-1 {
		q.bulk = true
		k = UniRange(t, 3, 12)
	} else if p.Deep > 0 && Uni(t, p.Deep) == p.Deep-1 {
		q.deep = true
		k = UniRange(t, p.MaxOps, 5*p.MaxOps)
	}
	g := rapid.Custom(func(t *rapid.T) Op { return q.op(t, n) })
	for i := 0; i < k; i++ {
		c.Ops = append(c.Ops, g.Draw(t, "op"))
	}
	if !p.Plain && Uni(t, 8) == 7 {
		c.insert(t, Op{K: "again", Q: Uni(t, n), N: UniRange(t, 2, 14), W: Pick(t, []string{"nack", "nack", "wait"})})
	}
	if !p.Plain && Uni(t, 50) == 49 {
		c.insert(t, Op{K: "crowd", N: Pick(t, []int{3, 7, 20, 120}), I: Uni(t, 2), P: int64(Uni(t, 3))})
	}
	return c
}

// Faults has the storage refuse the writes of some steps, now and then.
func (c *Case) Faults(t *rapid.T) {
	if Uni(t, 5) < 4 || len(c.Ops) == 0 {
		return
	}
	if Uni(t, 2) == 1 {
		c.insert(t, Op{K: Pick(t, []string{"delete", "delete", "create"}), Q: Uni(t, len(c.Names)), T: "fair", F: true})
	}
	for n := UniRange(t, 1, 4); n > 0; n-- {
		i := Uni(t, len(c.Ops))
		switch c.Ops[i].K {
		case "enq", "deq", "ack", "nack", "upd", "create", "delete":
			c.Ops[i].F = true
			if c.Sys == "qm" && Uni(t, 2) == 1 { // what does the storage hold?
				c.Ops = append(c.Ops[:i+1:i+1], append([]Op{{K: "reload", T: "clean"}}, c.Ops[i+1:]...)...)
			}
		}
	}
}

func (c *Case) insert(t *rapid.T, op Op) {
	i := Uni(t, len(c.Ops)+1)
	c.Ops = append(c.Ops[:i:i], append([]Op{op}, c.Ops[i:]...)...)
}

// many is a number of messages that a step of a bulk case is about.
func (p *Profile) many(t *rapid.T) int {
	if p.Many != nil {
		return Pick(t, p.Many)
	}
	n := Pick(t, []int{1, 20, 66, 70, 101, 130, 130, 260, 300, 300, 520, 1050})
	if p.BulkMax > 0 && n > p.BulkMax {
		n = p.BulkMax
	}
	return n
}

// OneOp draws a single step over n queues.
func (p *Profile) OneOp(t *rapid.T, n int) Op { return p.op(t, n) }

func (p *Profile) op(t *rapid.T, n int) Op {
	op := Op{K: pickW(t, p.Weights)}
	if n > 1 {
		op.Q = Uni(t, n)
	}
	if p.Interfaces > 1 {
		op.V = UniRange(t, 0, p.Interfaces-1)
	}
	switch op.K {
	case "create":
		op.T = Pick(t, p.Types)
	case "reload":
		op.T = Pick(t, p.Reloads)
		op.I = Uni(t, 32)
	case "enq":
		op.P, op.R = p.Prio(t)
		op.G = "default"
		if len(p.Groups) > 0 {
			op.G = Pick(t, p.Groups)
		}
		if p.deep {
			op.N, op.I = Pick(t, []int{1, 1, 2, 4, 9}), Uni(t, 7)
		}
		if p.Contents != nil {
			op.C = p.Contents(t)
		}
		if len(p.Bigs) > 0 && Uni(t, 8) == 0 {
			op.B = Pick(t, p.Bigs)
		}
		if Uni(t, 14) == 13 {
			op.E, op.C = true, Pick(t, []string{"", "", " ", "0", "x"})
		}
		if p.bulk {
			op.N, op.I, op.B = p.many(t), Uni(t, 7), 0
			op.S = Pick(t, []int{1, 1, 3, 40, 70, 150, 300, 1200})
			if len(p.Groups) == 0 {
				op.S = 1
			}
		}
		if p.BigEvery && !p.bulk {
			switch Uni(t, 40) {
			case 39:
				op.B = 200_000 // more than one transaction of the small test store takes
			case 38:
				op.B = 2000
			}
		}
	case "deq":
		r := p.AckRatio
		if r == 0 {
			r = 40
		}
		op.A = Uni(t, 100) < r
		if p.MultiDeq {
			op.N = Pick(t, []int{1, 1, 1, 2, 5})
		}
		if p.bulk {
			op.N = p.many(t)
		}
	case "ack", "nack", "upd":
		tg := p.Targets
		if len(tg) == 0 {
			if op.K == "upd" {
				tg = []string{"ready", "ready", "ready", "unacked", "unacked", "gone", "other", "unknown"}
			} else {
				tg = []string{"unacked", "unacked", "unacked", "unacked", "unacked", "ready", "gone", "other", "unknown"}
			}
		}
		op.W = Pick(t, tg)
		op.I = Uni(t, 31)
		if p.bulk {
			op.N = p.many(t)
		}
		if op.K == "upd" {
			op.P, op.R = p.Prio(t)
		}
	case "adv":
		op.MS = Pick(t, p.Advs)
	case "mid":
		op.W = Pick(t, []string{"ack", "nack", "upd", "upd"})
		op.I, op.MS = Uni(t, 31), int64(Uni(t, 1000))
		if op.W == "upd" {
			op.P, op.R = p.Prio(t)
		}
	}
	return op
}

// MinimizeCase removes steps and simplifies what is left.
func MinimizeCase(c Case, fails func(Case) bool) Case {
	with := func(ops []Op) Case { d := c; d.Ops = ops; return d }
	c.Ops = DDMin(c.Ops, func(o []Op) bool { return fails(with(o)) })
	for i := range c.Ops {
		half := func(o *Op) { o.N /= 2 }
		less := func(o *Op) { o.N -= o.N / 8 }
		for _, f := range []func(*Op){
			func(o *Op) { o.F = false }, func(o *Op) { o.N = 0 }, half, half, half, half, half, half, less, less, less, less, func(o *Op) { o.S = 0 }, func(o *Op) { o.S /= 2 }, func(o *Op) { o.B = 0 }, func(o *Op) { o.C = "" }, func(o *Op) { o.I = 0 },
			func(o *Op) { o.G = "default" }, func(o *Op) { o.P, o.R = 0, false }, func(o *Op) { o.A = false },
		} {
			ops := append([]Op{}, c.Ops...)
			f(&ops[i])
			if ops[i] != c.Ops[i] && fails(with(ops)) {
				c.Ops = ops
			}
		}
	}
	for n := len(c.Names); n > 1; n-- {
		d := c
		d.Names, d.Types = c.Names[:n-1], c.Types[:min(len(c.Types), n-1)]
		if !fails(d) {
			break
		}
		c = d
	}
	return c
}

// ForgetHeld makes the model treat every unacknowledged message as ready again.
func (w *World) ForgetHeld() {
	for _, q := range w.Queues {
		for _, m := range q.msgs {
			m.unacked = false
		}
	}
}
