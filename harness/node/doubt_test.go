package node

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
)

// doubtModel is a reference model that copes with requests whose outcome is not
// known because the system failed before it answered.

type pmsg struct {
	id      uint64
	group   string
	content string
	pad     int     // the content has this many more bytes
	prios   []int64 // possible priorities
	held    bool
	maybe   bool // may be gone
}

type pqueue struct {
	name, typ string
	msgs      map[uint64]*pmsg
	maybes    map[string]*pmsg  // unanswered enqueues by content
	gone      map[uint64]string // content
	missing   int               // dequeues with acknowledgement that were not answered
}

type doubtModel struct {
	mu      sync.Mutex
	s       Sys
	died    func() (string, bool)
	qs      []*pqueue
	n       int
	rnd     *rand.Rand
	killed  bool // the system is failing: anything may go wrong
	lenient bool // requests may stay without answer at any time
	patient bool // the final drain survives requests without answer
	inDoubt int
	acked   int
	err     error
}

func (r *doubtModel) fail(err error) {
	if r.err == nil {
		r.err = err
	}
}

// answer tells whether the request was answered; a request may only stay without
// answer when the server was killed.
func (r *doubtModel) answered(what string, err error) bool {
	if err != nil && errors.Is(err, ErrNoAnswer) {
		if !r.killed && !r.lenient {
			if o, dead := r.died(); dead {
				r.fail(V("the server died during %s: %.2000s", what, o))
			} else {
				r.fail(V("%s got no answer from a running server: %v", what, err))
			}
		}
		r.inDoubt++
		return false
	}
	return true
}

func (r *doubtModel) enq(q *pqueue, group string, prio int64) bool {
	return r.enqBig(q, group, prio, 0)
}

func (r *doubtModel) enqBig(q *pqueue, group string, prio int64, pad int) bool {
	r.mu.Lock()
	r.n++
	content := fmt.Sprintf("%s-%d", q.name, r.n)
	r.mu.Unlock()
	if q.typ != "fair" || group == "" {
		group = "default"
	}
	m, err := r.s.Enqueue(0, q.name, group, prio, content+strings.Repeat("~", pad))
	r.mu.Lock()
	defer r.mu.Unlock()
	pm := &pmsg{group: group, content: content, pad: pad, prios: []int64{prio}}
	if !r.answered("enqueue", err) {
		q.maybes[content] = pm
		return false
	}
	if err != nil {
		if !r.killed {
			r.fail(V("enqueue into %q failed: %v", q.name, err))
		}
		q.maybes[content] = pm
		return false
	}
	// (a concurrent dequeue may have met the message already)
	g, isGone := q.gone[m.ID]
	if x := q.msgs[m.ID]; (isGone && g != content) || (x != nil && x.content != content) {
		r.fail(V("enqueue into %q returned id %d, which was used before", q.name, m.ID))
	}
	if x := q.msgs[m.ID]; x == nil && !isGone {
		pm.id = m.ID
		q.msgs[m.ID] = pm
	}
	r.acked++
	return true
}

func (r *doubtModel) smaller(o, m *pmsg, mp int64) bool {
	for _, p := range o.prios {
		if p > mp || (p == mp && o.id > m.id) {
			return false
		}
	}
	return true
}

// deq dequeues; solo means that nothing else is running, so that the order can be judged.
func (r *doubtModel) deq(q *pqueue, ack, solo bool) (id uint64, got, answered bool) {
	m, err := r.s.Dequeue(q.name, ack)
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.answered("dequeue", err) || (err != nil && r.killed) {
		if ack {
			q.missing++
		}
		return 0, false, false
	}
	if err != nil {
		if solo {
			n := 0
			for _, o := range q.msgs {
				if !o.held && !o.maybe {
					n++
				}
			}
			if n > q.missing {
				var some *pmsg
				for _, o := range q.msgs {
					if !o.held && !o.maybe {
						some = o
					}
				}
				r.fail(V("dequeue from %q finds nothing although %d acknowledged messages must be there (%d dequeues were in flight at a crash), e.g. %s", q.name, n, q.missing, some.content))
			}
		}
		return 0, false, true
	}
	pad := len(m.Content)
	m.Content = strings.TrimRight(m.Content, "~")
	pad -= len(m.Content)
	pm := q.msgs[m.ID]
	if pm == nil {
		if _, isGone := q.gone[m.ID]; isGone {
			r.fail(V("dequeue from %q returned message %d (%s) which was removed before", q.name, m.ID, m.Content))
			return 0, false, true
		}
		if pm = q.maybes[m.Content]; pm == nil {
			if solo {
				r.fail(V("dequeue from %q returned an unknown message %d (%s)", q.name, m.ID, m.Content))
				return 0, false, true
			}
			// another client's enqueue that is not answered yet
			pm = &pmsg{group: m.Group, content: m.Content, pad: pad, prios: []int64{m.Priority}}
		}
		delete(q.maybes, m.Content)
		pm.id = m.ID
		q.msgs[m.ID] = pm
	}
	if pm.held {
		r.fail(V("dequeue from %q handed out message %s twice", q.name, pm.content))
	}
	if m.Content != pm.content || pad != pm.pad || m.Group != pm.group {
		r.fail(V("message %s (group %s, %d more bytes) of %q came back as %.200s (group %s, %d more bytes)", pm.content, pm.group, pm.pad, q.name, m.Content, m.Group, pad))
	}
	ok := false
	for _, p := range pm.prios {
		ok = ok || p == m.Priority
	}
	if !ok {
		r.fail(V("message %s of %q has priority %v but came back with %d", pm.content, q.name, pm.prios, m.Priority))
	}
	pm.maybe = false
	if solo {
		for id, o := range q.msgs {
			if o == pm || o.held || o.maybe || (q.typ == "fair" && o.group != pm.group) || !r.smaller(o, pm, m.Priority) {
				continue
			}
			// skipped: only a dequeue that was in flight can have taken it
			if q.missing == 0 {
				r.fail(V("dequeue from %q returned %s (priority %d) although %s (priority %v) comes first", q.name, pm.content, m.Priority, o.content, o.prios))
			}
			q.missing--
			delete(q.msgs, id)
			q.gone[id] = o.content
		}
	}
	pm.prios = []int64{m.Priority}
	if ack {
		delete(q.msgs, pm.id)
		q.gone[pm.id] = pm.content
	} else {
		pm.held = true
	}
	return pm.id, true, true
}

func (r *doubtModel) pick(q *pqueue, i int, f func(*pmsg) bool) *pmsg {
	r.mu.Lock()
	defer r.mu.Unlock()
	var l []*pmsg
	for _, m := range q.msgs {
		if f(m) {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		return nil
	}
	sort.Slice(l, func(a, b int) bool { return l[a].id < l[b].id })
	return l[i%len(l)]
}

func (r *doubtModel) ack(q *pqueue, m *pmsg) bool {
	err := r.s.Ack(q.name, m.id)
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.answered("ack", err) {
		m.maybe = true
		return false
	}
	if err != nil {
		if !r.killed {
			r.fail(V("ack of held message %s of %q failed: %v", m.content, q.name, err))
		}
		m.maybe = true
		return false
	}
	delete(q.msgs, m.id)
	q.gone[m.id] = m.content
	return true
}

func (r *doubtModel) upd(q *pqueue, m *pmsg, p int64) bool {
	r.mu.Lock()
	old := m.prios
	m.prios = append(append([]int64{}, m.prios...), p) // from now on either is possible
	r.mu.Unlock()
	err := r.s.Update(q.name, m.id, p)
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.answered("priority change", err) {
		return false
	}
	if err != nil {
		if q.msgs[m.id] != nil && !r.killed {
			m.prios = old
			if q.missing > 0 && !m.held { // a dequeue in doubt has taken it
				q.missing--
				delete(q.msgs, m.id)
				q.gone[m.id] = m.content
				return true
			}
			r.fail(V("priority change of message %s of %q failed: %v", m.content, q.name, err))
		}
		return false
	}
	m.prios = []int64{p}
	return true
}

// settle checks the counts after a failure and returns everything that is held.
func (r *doubtModel) settle() error {
	for _, q := range r.qs {
		i, err := r.s.Info(q.name)
		if err != nil {
			return V("info of queue %q failed: %v", q.name, err)
		}
		lo, hi := -q.missing, len(q.maybes)
		for _, m := range q.msgs {
			hi++
			if !m.maybe {
				lo++
			}
		}
		if i.Type != q.typ || i.Total < int64(lo) || i.Total > int64(hi) || i.Ready+i.Unacked != i.Total {
			return V("queue %q (%s) reports type %q, ready=%d, unacked=%d, total=%d; between %d and %d messages must be there", q.name, q.typ, i.Type, i.Ready, i.Unacked, i.Total, lo, hi)
		}
		// what was handed out may be held or ready: make it ready
		for id, m := range q.msgs {
			_ = r.s.Nack(q.name, id)
			m.held = false
		}
	}
	return nil
}

// drain takes everything out and demands that everything acknowledged comes.
func (r *doubtModel) drain() error {
	for _, q := range r.qs {
		for k, miss := 0, 0; k < 100000 && miss < 100; k++ {
			_, got, answered := r.deq(q, true, true)
			if r.err != nil {
				return V("final drain: %v", r.err)
			}
			if !answered && r.patient {
				miss++
				time.Sleep(100 * time.Millisecond)
			} else if !got {
				break
			}
		}
		i, err := r.s.Info(q.name)
		if err != nil || i.Ready != 0 {
			return V("after the drain, queue %q reports ready=%d, %v", q.name, i.Ready, err)
		}
	}
	return nil
}
