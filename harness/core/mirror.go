package core

import (
	"fmt"
	"sort"
)

// Mirror runs every operation on one system that holds all queues and, at the
// same moment, on a system that has never seen any other queue. The answers must
// be the same.
type Mirror struct {
	All  Sys
	New  func() (Sys, error)
	Per  map[string]Sys
	Diff string // first difference
	Ops  int
}

func (m *Mirror) per(name string) Sys {
	s := m.Per[name]
	if s == nil {
		var err error
		if s, err = m.New(); err != nil {
			panic(err)
		}
		m.Per[name] = s
	}
	return s
}

func (m *Mirror) cmp(what, name string, a, b any, ea, eb error) {
	m.Ops++
	x := fmt.Sprintf("%+v %s", a, okS(ea))
	y := fmt.Sprintf("%+v %s", b, okS(eb))
	if x != y && m.Diff == "" {
		m.Diff = fmt.Sprintf("%s on queue %q answers %.300s, but %.300s when it is the only queue", what, name, x, y)
	}
}

func (m *Mirror) Create(typ, name string) error {
	ea := m.All.Create(typ, name)
	eb := m.per(name).Create(typ, name)
	m.cmp("create", name, nil, nil, ea, eb)
	return ea
}
func (m *Mirror) Delete(name string) error {
	ea := m.All.Delete(name)
	eb := m.per(name).Delete(name)
	m.cmp("delete", name, nil, nil, ea, eb)
	return ea
}
func (m *Mirror) List() ([]Info, error) {
	a, ea := m.All.List()
	var b []Info
	for _, s := range m.Per {
		l, _ := s.List()
		b = append(b, l...)
	}
	sort.Slice(b, func(i, j int) bool { return b[i].Name < b[j].Name })
	if len(a) == 0 && len(b) == 0 {
		return a, ea
	}
	m.cmp("list", "*", a, b, ea, nil)
	return a, ea
}
func (m *Mirror) Info(name string) (Info, error) {
	a, ea := m.All.Info(name)
	b, eb := m.per(name).Info(name)
	m.cmp("info", name, a, b, ea, eb)
	return a, ea
}
func (m *Mirror) Enqueue(id uint64, name, group string, prio int64, content string) (Msg, error) {
	a, ea := m.All.Enqueue(id, name, group, prio, content)
	b, eb := m.per(name).Enqueue(id, name, group, prio, content)
	m.cmp("enqueue", name, a, b, ea, eb)
	return a, ea
}
func (m *Mirror) Dequeue(name string, ack bool) (Msg, error) {
	a, ea := m.All.Dequeue(name, ack)
	b, eb := m.per(name).Dequeue(name, ack)
	m.cmp("dequeue", name, a, b, ea, eb)
	return a, ea
}
func (m *Mirror) Ack(name string, id uint64) error {
	ea := m.All.Ack(name, id)
	eb := m.per(name).Ack(name, id)
	m.cmp("ack", name, nil, nil, ea, eb)
	return ea
}
func (m *Mirror) Nack(name string, id uint64) error {
	ea := m.All.Nack(name, id)
	eb := m.per(name).Nack(name, id)
	m.cmp("nack", name, nil, nil, ea, eb)
	return ea
}
func (m *Mirror) Update(name string, id uint64, prio int64) error {
	ea := m.All.Update(name, id, prio)
	eb := m.per(name).Update(name, id, prio)
	m.cmp("priority change", name, nil, nil, ea, eb)
	return ea
}
func (m *Mirror) Reload(mode string) error {
	if err := m.All.Reload(mode); err != nil {
		return err
	}
	for _, n := range m.names() {
		if err := m.Per[n].Reload(mode); err != nil {
			return err
		}
	}
	return nil
}
func (m *Mirror) names() (out []string) {
	for n := range m.Per {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

// Sync compares all queues.
func (m *Mirror) Sync() {
	for _, n := range m.names() {
		_, _ = m.Info(n)
	}
	_, _ = m.List()
}

// Err is the first difference as a violation.
func (m *Mirror) Err() error {
	if m.Diff != "" {
		return V("%s", m.Diff)
	}
	return nil
}

func (m *Mirror) Close() {
	m.All.Close()
	for _, s := range m.Per {
		s.Close()
	}
}

// Answer is what one replicated operation told its caller.
type Answer struct {
	Op   string
	Ok   bool
	Msg  Msg
	Full bool // Msg is meaningful
}

// Recorder remembers the answers of the operations that go through the log.
type Recorder struct {
	Sys
	Answers []Answer
	IDs     map[string][]uint64
}

func (r *Recorder) add(op string, err error, m Msg, full bool) {
	r.Answers = append(r.Answers, Answer{Op: op, Ok: err == nil, Msg: m, Full: full && err == nil})
}
func (r *Recorder) Create(typ, name string) error {
	err := r.Sys.Create(typ, name)
	r.add("create", err, Msg{}, false)
	return err
}
func (r *Recorder) Delete(name string) error {
	err := r.Sys.Delete(name)
	r.add("delete", err, Msg{}, false)
	return err
}
func (r *Recorder) Enqueue(id uint64, name, group string, prio int64, content string) (Msg, error) {
	m, err := r.Sys.Enqueue(id, name, group, prio, content)
	r.add("enqueue", err, m, true)
	if err == nil {
		if r.IDs == nil {
			r.IDs = map[string][]uint64{}
		}
		r.IDs[name] = append(r.IDs[name], m.ID)
	}
	return m, err
}
func (r *Recorder) Dequeue(name string, ack bool) (Msg, error) {
	m, err := r.Sys.Dequeue(name, ack)
	r.add("dequeue", err, m, true)
	return m, err
}
func (r *Recorder) Ack(name string, id uint64) error {
	err := r.Sys.Ack(name, id)
	r.add("ack", err, Msg{}, false)
	return err
}
func (r *Recorder) Nack(name string, id uint64) error {
	err := r.Sys.Nack(name, id)
	r.add("nack", err, Msg{}, false)
	return err
}
func (r *Recorder) Update(name string, id uint64, prio int64) error {
	err := r.Sys.Update(name, id, prio)
	r.add("priority change", err, Msg{}, false)
	return err
}
