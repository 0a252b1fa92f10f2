package store

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// entry is a log entry in a case.
type entry struct {
	Index uint64 `json:"i"`
	Term  uint64 `json:"t"`
	Type  uint8  `json:"y"`
	Data  []byte `json:"d"`
	Pad   int    `json:"p,omitempty"`
	Ext   []byte `json:"e"`
	At    int64  `json:"at"` // nanoseconds; 0 is the zero time
	Zone  int    `json:"z,omitempty"`
}

func (e entry) log() *raft.Log {
	l := &raft.Log{Index: e.Index, Term: e.Term, Type: raft.LogType(e.Type), Data: e.Data, Extensions: e.Ext}
	if e.Pad > 0 {
		l.Data = append(append([]byte{}, e.Data...), bytes.Repeat([]byte{byte(e.Index)}, e.Pad)...)
	}
	if e.At != 0 {
		l.AppendedAt = time.Unix(0, e.At).In(time.FixedZone("", e.Zone*60))
	}
	return l
}

func genEntry(t *rapid.T, idx uint64) entry {
	e := entry{Index: idx, Term: Pick(t, []uint64{0, 1, 2, 255, 256, 1 << 32, 1<<64 - 1}), Type: uint8(Uni(t, 6)), At: Pick(t, []int64{0, 1, 946684800300000000, 1732000000123456789, 1 << 62, -1})}
	switch Uni(t, 5) {
	case 0:
	case 1:
		e.Data = []byte(Pick(t, []string{"\x00", "{}", "null", "logs", "\xff\xff", "\xc0"}))
	default:
		e.Data = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "data")
	}
	if Uni(t, 20) == 0 {
		e.Pad = Pick(t, []int{100, 1500, 20000})
	}
	if Uni(t, 4) == 0 {
		e.Ext = rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "ext")
	}
	e.Zone = Pick(t, []int{0, 0, 60, -330, 765})
	return e
}

func sameLog(got, want *raft.Log) string {
	switch {
	case got.Index != want.Index:
		return fmt.Sprintf("index %d, want %d", got.Index, want.Index)
	case got.Term != want.Term:
		return fmt.Sprintf("term %d, want %d", got.Term, want.Term)
	case got.Type != want.Type:
		return fmt.Sprintf("type %d, want %d", got.Type, want.Type)
	case !bytes.Equal(got.Data, want.Data):
		return fmt.Sprintf("data %.40q, want %.40q", got.Data, want.Data)
	case !bytes.Equal(got.Extensions, want.Extensions):
		return fmt.Sprintf("extensions %q, want %q", got.Extensions, want.Extensions)
	case !got.AppendedAt.Equal(want.AppendedAt):
		return fmt.Sprintf("appended at %v, want %v", got.AppendedAt, want.AppendedAt)
	}
	return ""
}

// logModel is the reference: a map.
type logModel struct {
	m    map[uint64]*raft.Log
	ever map[uint64]bool
}

func newLogModel() *logModel { return &logModel{m: map[uint64]*raft.Log{}, ever: map[uint64]bool{}} }

func (lm *logModel) bounds() (lo, hi uint64) {
	for i := range lm.m {
		if lo == 0 || i < lo {
			lo = i
		}
		if i > hi {
			hi = i
		}
	}
	return
}

func (lm *logModel) checkBounds(s *badgerstore.BadgerStore) error {
	lo, hi := lm.bounds()
	f, err := s.FirstIndex()
	if err != nil || f != lo {
		return V("first index is %d (%v), want %d", f, err, lo)
	}
	l, err := s.LastIndex()
	if err != nil || l != hi {
		return V("last index is %d (%v), want %d", l, err, hi)
	}
	return nil
}

func (lm *logModel) checkAt(s *badgerstore.BadgerStore, i uint64) error {
	got := &raft.Log{}
	err := s.GetLog(i, got)
	want := lm.m[i]
	if want == nil {
		if !errors.Is(err, raft.ErrLogNotFound) {
			return V("entry %d is not stored, but reading it gives %v", i, err)
		}
		return nil
	}
	if err != nil {
		return V("entry %d is stored, but reading it gives %v", i, err)
	}
	if d := sameLog(got, want); d != "" {
		return V("entry %d reads %s", i, d)
	}
	return nil
}

// checkAll reads every index that ever mattered and its neighbours.
func (lm *logModel) checkAll(s *badgerstore.BadgerStore) error {
	if err := lm.checkBounds(s); err != nil {
		return err
	}
	var l []uint64
	for i := range lm.ever {
		l = append(l, i)
		if !lm.ever[i+1] {
			l = append(l, i+1)
		}
		if i > 1 && !lm.ever[i-1] {
			l = append(l, i-1)
		}
	}
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	for _, i := range l {
		if err := lm.checkAt(s, i); err != nil {
			return err
		}
	}
	return nil
}

type logOp struct {
	K    string  `json:"k"`           // store1 store del reopen scratch
	E    []entry `json:"e,omitempty"` // entries; the first one is repeated over Rep indices
	Rep  int     `json:"rep,omitempty"`
	Min  uint64  `json:"min,omitempty"`
	Max  uint64  `json:"max,omitempty"`
	Mode string  `json:"mode,omitempty"`
	F    bool    `json:"f,omitempty"` // the storage refuses writes meanwhile
}

type c13Case struct {
	Disk   bool    `json:"disk"`
	Faulty bool    `json:"faulty,omitempty"`
	Ops    []logOp `json:"ops"`
}

var bases = []uint64{1, 1, 1, 200, 250, 65500, 1<<32 - 60, 1<<56 - 40, 0x3a3a3a3a3a3a00, 1 << 62}

func (o *logOp) entries() []*raft.Log {
	var out []*raft.Log
	for _, e := range o.E {
		out = append(out, e.log())
	}
	if o.Rep > 0 && len(o.E) > 0 {
		for k := 1; k < o.Rep; k++ {
			e := o.E[0]
			e.Index += uint64(k)
			e.Term += uint64(k % 3)
			out = append(out, e.log())
		}
	}
	return out
}

func genC13(t *rapid.T) c13Case {
	c := c13Case{Disk: Uni(t, 6) == 5, Faulty: Uni(t, 4) == 3}
	base := Pick(t, bases)
	idx := func() uint64 { return base + uint64(Uni(t, 60)) + uint64(Pick(t, []int{0, 0, 0, 100, 250, 400})) }
	for k := UniRange(t, 2, 16); k > 0; k-- {
		var o logOp
		switch Uni(t, 10) {
		case 0, 1:
			o.K = "store1"
			o.E = []entry{genEntry(t, idx())}
			if Uni(t, 12) == 11 { // more than the storage takes
				o.E[0].Pad = Pick(t, []int{130000, 200000, 600000})
			}
		case 2, 3:
			o.K = "store"
			i := idx()
			for n := UniRange(t, 0, 6); n > 0; n-- {
				o.E = append(o.E, genEntry(t, i))
				i += uint64(Pick(t, []int{1, 1, 1, 2, 7}))
			}
		case 4, 5:
			o.K = "store"
			o.E = []entry{genEntry(t, idx())}
			o.E[0].Pad = 0
			o.Rep = Pick(t, []int{5, 99, 100, 101, 130, 210, 320})
			if Uni(t, 4) == 3 { // more than fits into one transaction of the storage
				o.Rep, o.E[0].Pad = Pick(t, []int{2, 5, 20, 64}), Pick(t, []int{4000, 30000, 100000})
			}
		case 6, 7, 8:
			o.K = "del"
			o.Min = idx()
			o.Max = o.Min + uint64(Pick(t, []int{0, 0, 1, 3, 98, 99, 100, 101, 150, 199, 200, 201, 350, 600}))
			switch Uni(t, 12) {
			case 0:
				o.Min, o.Max = o.Max, o.Min
			case 1:
				o.Min = 0
			case 2:
				o.Max = 1 << 63
			case 3:
				o.Min, o.Max = 0, 1<<64-1
			}
		default:
			o.K = "reopen"
			o.Mode = Pick(t, []string{"clean", "crash"})
		}
		o.F = c.Faulty && Uni(t, 4) == 3
		c.Ops = append(c.Ops, o)
	}
	return c
}

func reopen(db *badger.DB, dir *string, mode string) (*badger.DB, error) {
	if mode == "crash" {
		nd := TempDir()
		if err := CopyDir(*dir, nd); err != nil {
			return db, err
		}
		_ = db.Close()
		_ = os.RemoveAll(*dir)
		*dir = nd
	} else if err := db.Close(); err != nil {
		return db, err
	}
	n, err := OpenDB(*dir, 0)
	if err != nil {
		return nil, V("the storage does not open again: %v", err)
	}
	return n, nil
}

func runC13(c c13Case, tr *Trace) error {
	dir := ""
	if c.Disk {
		dir = TempDir()
	}
	db, err := OpenDB(dir, 0)
	if err != nil {
		return err
	}
	defer func() {
		if db != nil {
			_ = db.Close()
		}
		if dir != "" {
			_ = os.RemoveAll(dir)
		}
	}()
	s, err := badgerstore.New(db, badgerstore.Options{})
	if err != nil {
		return err
	}
	lm := newLogModel()
	big, deleted, over, faults := 0, 0, 0, 0
	for i, o := range c.Ops {
		what := fmt.Sprintf("step %d (%s %d..%d, %d entries)", i, o.K, o.Min, o.Max, len(o.entries()))
		tr.Logf("%s", what)
		touch := []uint64{}
		if o.F && o.K != "reopen" {
			Refuse(db, true)
			faults++
		}
		switch o.K {
		case "store1", "store":
			l := o.entries()
			var err error
			if o.K == "store1" {
				err = s.StoreLog(l[0])
			} else {
				err = s.StoreLogs(l)
			}
			Refuse(db, false)
			large := o.K == "store1" && o.E[0].Pad > 120000
			if large {
				tr.Count("entries_larger_than_a_transaction", 1)
			}
			if err != nil && (o.F || large) { // nothing is stored
				for _, x := range l {
					lm.ever[x.Index] = true
					touch = append(touch, x.Index)
				}
				break
			}
			if err != nil {
				return V("%s failed: %v", what, err)
			}
			for _, x := range l {
				if lm.m[x.Index] != nil {
					over++
				}
				cp := *x
				lm.m[x.Index], lm.ever[x.Index] = &cp, true
				touch = append(touch, x.Index)
			}
		case "del":
			err := s.DeleteRange(o.Min, o.Max)
			Refuse(db, false)
			if err != nil && o.F { // nothing is deleted
				break
			}
			if err != nil {
				return V("%s failed: %v", what, err)
			}
			n := 0
			for i := range lm.m {
				if i >= o.Min && i <= o.Max {
					delete(lm.m, i)
					n++
				}
			}
			deleted += n
			if n > 100 {
				big++
			}
			touch = append(touch, o.Min, o.Max, o.Max+1)
			if o.Min > 1 {
				touch = append(touch, o.Min-1)
			}
		case "reopen":
			if !c.Disk {
				continue
			}
			if db, err = reopen(db, &dir, o.Mode); err != nil {
				return err
			}
			if s, err = badgerstore.New(db, badgerstore.Options{}); err != nil {
				return err
			}
			tr.Count("reopens", 1)
		}
		if err := lm.checkBounds(s); err != nil {
			return V("after %s: %v", what, err)
		}
		for k, i := range touch {
			if k < 6 || k > len(touch)-3 {
				if err := lm.checkAt(s, i); err != nil {
					return V("after %s: %v", what, err)
				}
			}
		}
		if i%4 == 3 || i == len(c.Ops)-1 {
			if err := lm.checkAll(s); err != nil {
				return V("after %s: %v", what, err)
			}
		}
	}
	// the key range is exact: deleting everything leaves nothing
	if err := s.DeleteRange(0, 1<<63); err != nil {
		return V("deleting everything failed: %v", err)
	}
	lm.m = map[uint64]*raft.Log{}
	if err := lm.checkAll(s); err != nil {
		return V("after deleting everything: %v", err)
	}
	tr.Nontrivial = deleted > 0 || over > 0
	tr.Count("steps_whose_writes_are_refused", faults)
	tr.Count("range_deletions_over_100_entries", big)
	tr.Count("entries_deleted", deleted)
	tr.Count("entries_overwritten", over)
	return nil
}

func TestC13(t *testing.T) {
	Main(t, Check[c13Case]{
		ID:    "C13",
		Rule:  "a case is a random sequence of storing single entries and batches (arbitrary terms, types, data, extensions, times), overwriting, inclusive range deletions of up to 600 entries and clean or crash reopening, at index bases between 1 and 2^62; bounds and touched entries are compared with a map after every step, all entries every fourth step; non-trivial: entries were deleted or overwritten",
		Quick: 1200, Thorough: 60000, QuickSecs: 40, ThoroughSecs: 500,
		Gen: genC13, Run: runC13,
		Minimize: func(c c13Case, fails func(c13Case) bool) c13Case {
			c.Ops = DDMin(c.Ops, func(o []logOp) bool { d := c; d.Ops = o; return fails(d) })
			return c
		},
	})
}

// C14: three tenants of one database.

type c14Op struct {
	Op
	Key []byte `json:"key,omitempty"`
	Val []byte `json:"val,omitempty"`
	U   uint64 `json:"u,omitempty"`
	L   *logOp `json:"l,omitempty"`
}

type c14Case struct {
	Case
	Mix []c14Op `json:"mix"`
}

// near draws a value that is similar to v.
func near(t *rapid.T, v []byte) []byte {
	v = append([]byte{}, v...)
	switch Uni(t, 6) {
	case 0:
		return v[:len(v)/2]
	case 1:
		return v[:max(len(v)-1, 0)]
	case 2:
		return append(v, byte(Uni(t, 256)))
	case 3:
		return v[min(len(v), 1):]
	case 4:
		if len(v) > 0 {
			v[Uni(t, len(v))] ^= 1 << Uni(t, 8)
		}
	}
	return v
}

func genC14(t *rapid.T) c14Case {
	p := Profile{Types: []string{"delayed", "fair"}, Queues: [2]int{1, 3}, Names: TrickyNames, Groups: []string{"default", "a", "b"}, Prio: MixedPrio, MaxOps: 1,
		Weights:  map[string]int{"enq": 40, "deq": 18, "ack": 8, "nack": 4, "upd": 8, "adv": 3, "delete": 6, "create": 6, "reload": 5},
		Timeouts: []int64{100000}, Intervals: []int64{1}, Advs: []int64{1000}, Reloads: []string{"clean", "crash"}, MultiDeq: true, Contents: AnyText}
	c := c14Case{Case: p.Gen(t)}
	c.Disk = Uni(t, 8) == 7
	base := Pick(t, bases)
	c.IDBase = Pick(t, []uint64{base, base << 8, 100, 1 << 40})
	keys := [][]byte{[]byte("CurrentTerm"), []byte("LastVoteTerm"), []byte("LastVoteCand"), {}, []byte("logs"), []byte(":"), []byte("conf"), {0}, {0xff}, []byte("queues:"), []byte("messages:a:"), rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "key")}
	last := map[string][]byte{}
	faulty := Uni(t, 4) == 3
	for k := UniRange(t, 5, 45); k > 0; k-- {
		var o c14Op
		switch Uni(t, 10) {
		case 0, 1:
			o.K, o.Key = "set", Pick(t, keys)
			o.Val = rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "val")
			switch Uni(t, 10) {
			case 0:
				o.Val = bytes.Repeat([]byte{7}, 3000)
			case 1, 2, 3: // what raft stores: addresses that differ little
				o.Val = []byte(fmt.Sprintf("node-%d.cluster.local:12000", Uni(t, 9)))
			case 4, 5, 6: // a relative of what is there
				o.Val = near(t, last[string(o.Key)])
			}
			last[string(o.Key)] = o.Val
		case 2:
			o.K, o.Key = "setu", Pick(t, keys)
			o.U = Pick(t, []uint64{0, 1, 255, 256, 1 << 63, 1<<64 - 1, uint64(Uni(t, 1<<30))})
		case 3, 4:
			o.K = "log"
			i := base + uint64(Uni(t, 30))
			o.L = &logOp{E: []entry{genEntry(t, i)}, Rep: Pick(t, []int{1, 1, 3, 20, 120})}
			if o.L.Rep > 3 {
				o.L.E[0].Pad = 0
			}
		case 5:
			o.K = "trunc"
			o.L = &logOp{Min: base + uint64(Uni(t, 40)), Max: base + uint64(Uni(t, 160))}
			if Uni(t, 3) == 0 {
				o.L.Min, o.L.Max = 0, 1<<63
			}
		default:
			o.Op = p.OneOp(t, len(c.Names))
		}
		o.F = faulty && Uni(t, 5) == 4
		c.Mix = append(c.Mix, o)
	}
	return c
}

func runC14(c c14Case, tr *Trace) error {
	conf := Conf{Timeout: c.Timeout, Interval: c.Interval, Window: 10, Disk: c.Disk}
	qm, err := NewQM(conf)
	if err != nil {
		return err
	}
	defer qm.Close()
	c.Ops = nil
	w := NewWorld(&c.Case, qm, Claims{Conserve: true, Content: true, Lifecycle: true, Counts: true, NoDrain: true}, tr)
	defer w.DeleteAll()
	if err := w.Run(); err != nil { // creates the queues
		return err
	}
	store := func() *badgerstore.BadgerStore {
		s, err := badgerstore.New(qm.DB, badgerstore.Options{})
		if err != nil {
			panic(err)
		}
		return s
	}
	s := store()
	lm := newLogModel()
	kv := map[string][]byte{}
	asked := map[string]bool{}
	kinds := map[string]int{}
	check := func() error {
		if err := lm.checkAll(s); err != nil {
			return err
		}
		for k := range asked {
			got, err := s.Get([]byte(k))
			want, ok := kv[k]
			if !ok {
				if err == nil {
					return V("unset key %q reads %q", k, got)
				}
				if v, err := s.GetUint64([]byte(k)); err == nil {
					return V("unset key %q reads the number %d", k, v)
				}
				continue
			}
			if err != nil || !bytes.Equal(got, want) {
				return V("key %q was set to %.60q and reads %.60q (%v)", k, want, got, err)
			}
			if len(want) == 8 {
				n := uint64(0)
				for _, b := range want {
					n = n<<8 | uint64(b)
				}
				if v, err := s.GetUint64([]byte(k)); err != nil || v != n {
					return V("key %q holds the number %d and reads %d (%v)", k, n, v, err)
				}
			}
		}
		return w.Step(&Op{K: "list"})
	}
	for i, o := range c.Mix {
		var err error
		kinds[o.K]++
		what := fmt.Sprintf("step %d (%s)", i, o.K)
		tr.Logf("%s %+v", what, o)
		refused := func(e error) bool {
			Refuse(qm.DB, false)
			return o.F && e != nil
		}
		if o.F {
			Refuse(qm.DB, true)
		}
		switch o.K {
		case "set":
			err = s.Set(o.Key, o.Val)
			asked[string(o.Key)] = true
			if refused(err) {
				err = nil
				break
			}
			if err != nil {
				return V("%s: set %q failed: %v", what, o.Key, err)
			}
			kv[string(o.Key)] = o.Val
		case "setu":
			err = s.SetUint64(o.Key, o.U)
			asked[string(o.Key)] = true
			if refused(err) {
				err = nil
				break
			}
			if err != nil {
				return V("%s: set %q failed: %v", what, o.Key, err)
			}
			b := make([]byte, 8)
			for k := range b {
				b[k] = byte(o.U >> (56 - 8*k))
			}
			kv[string(o.Key)] = b
			asked[string(o.Key)+"x"] = true
		case "log":
			l := o.L.entries()
			err = s.StoreLogs(l)
			if refused(err) {
				err = nil
				break
			}
			if err != nil {
				return V("%s: storing %d entries failed: %v", what, len(l), err)
			}
			for _, x := range l {
				cp := *x
				lm.m[x.Index], lm.ever[x.Index] = &cp, true
			}
		case "trunc":
			err = s.DeleteRange(o.L.Min, o.L.Max)
			if refused(err) {
				err = nil
				break
			}
			if err != nil {
				return V("%s: deleting %d..%d failed: %v", what, o.L.Min, o.L.Max, err)
			}
			for i := range lm.m {
				if i >= o.L.Min && i <= o.L.Max {
					delete(lm.m, i)
				}
			}
		default:
			Refuse(qm.DB, false) // Step has it refuse writes where that applies
			switch o.K {
			case "enq", "deq", "ack", "nack", "upd", "create", "delete":
			default:
				o.F = false
			}
			err = w.Step(&o.Op)
			if o.K == "reload" {
				s = store()
			}
		}
		if err == nil {
			err = check()
		}
		if err != nil {
			if v, ok := err.(*Violation); ok {
				return V("%s: %s", what, v.Msg)
			}
			return err
		}
	}
	if err := w.Drain(); err != nil {
		return err
	}
	w.DeleteAll()
	if err := check(); err != nil && w.MsgCount() == 0 {
		if v, ok := err.(*Violation); ok && len(w.Queues) == 0 {
			return V("after deleting all queues: %s", v.Msg)
		}
	}
	if err := lm.checkAll(s); err != nil {
		return V("after deleting all queues: %v", err)
	}
	tr.Nontrivial = kinds["set"]+kinds["setu"] > 0 && kinds["log"] > 0 && w.Deliveries > 0 && (kinds["trunc"] > 0 || w.Deletes > 0 || w.Reloads > 0)
	tr.Count("deliveries", w.Deliveries)
	tr.Count("queue_deletes", w.Deletes)
	tr.Count("reloads", w.Reloads)
	tr.Count("truncations", kinds["trunc"])
	tr.Count("log_writes", kinds["log"])
	tr.Count("key_writes", kinds["set"]+kinds["setu"])
	return nil
}

func TestC14(t *testing.T) {
	Main(t, Check[c14Case]{
		ID:     "C14",
		Rule:   "a case is a random interleaving of stable-store writes, log-store writes and truncations and queue operations (including queue deletion and storage reload) on one database, with queue names and keys that imitate the key prefixes; after every step all keys, all log entries and the counts of all queues are compared with the model, and the queues are drained at the end; non-trivial: keys, entries and messages were all used and something was truncated, deleted or reloaded",
		Bubble: true, Quick: 700, Thorough: 30000, QuickSecs: 40, ThoroughSecs: 600,
		Gen: genC14, Run: runC14,
		Minimize: func(c c14Case, fails func(c14Case) bool) c14Case {
			c.Mix = DDMin(c.Mix, func(o []c14Op) bool { d := c; d.Mix = o; return fails(d) })
			return c
		},
	})
}
