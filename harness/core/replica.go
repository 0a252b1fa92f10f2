package core

import (
	"fmt"
	"reflect"
	"unsafe"

	hraft "github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	draft "github.com/kgantsov/doq/pkg/raft"
)

// CommandLog returns the command entries of the log of a member, in order.
func (m *Member) CommandLog() ([]*hraft.Log, error) {
	store, err := badgerstore.New(m.DB, badgerstore.Options{})
	if err != nil {
		return nil, err
	}
	lo, err := store.FirstIndex()
	if err != nil {
		return nil, err
	}
	hi, err := store.LastIndex()
	if err != nil {
		return nil, err
	}
	var out []*hraft.Log
	for i := lo; i <= hi && i > 0; i++ {
		l := &hraft.Log{}
		if err := store.GetLog(i, l); err != nil {
			return nil, V("log entry %d of %d..%d cannot be read: %v", i, lo, hi, err)
		}
		if l.Type == hraft.LogCommand {
			out = append(out, l)
		}
	}
	return out, nil
}

// Response is the readable form of what FSM.Apply returned.
func Response(r any) (a Answer, text string) {
	a.Ok = true
	v := reflect.ValueOf(r)
	if !v.IsValid() {
		return a, "nil"
	}
	if e, ok := r.(error); ok {
		return Answer{Ok: e == nil}, "error"
	}
	if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return a, fmt.Sprintf("%v", r)
	}
	v = v.Elem()
	et := reflect.TypeFor[error]()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		n := v.Type().Field(i).Name
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if f.Type() == et {
			if !f.IsNil() {
				a.Ok = false
			}
			continue
		}
		text += fmt.Sprintf("%s=%v ", n, f.Interface())
	}
	if x, ok := r.(*draft.FSMResponse); ok {
		a.Msg = Msg{ID: x.ID, Group: x.Group, Priority: x.Priority, Content: x.Content}
	}
	text += okS2(a.Ok)
	return a, text
}

func okS2(ok bool) string {
	if ok {
		return "ok"
	}
	return "error"
}
