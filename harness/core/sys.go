package core

import (
	"errors"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/dgraph-io/badger/v4"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
)

// Msg is a message as a client sees it.
type Msg struct {
	ID       uint64
	Group    string
	Priority int64
	Content  string
}

// Info is queue info as a client sees it.
type Info struct {
	Name, Type            string
	Ready, Unacked, Total int64
	Enq, Deq, Ack, Nack   float64
}

// Sys is the system under test at the level of queue operations.
type Sys interface {
	Create(typ, name string) error
	Delete(name string) error
	List() ([]Info, error)
	Info(name string) (Info, error)
	Enqueue(id uint64, name, group string, prio int64, content string) (Msg, error)
	Dequeue(name string, ack bool) (Msg, error)
	Ack(name string, id uint64) error
	Nack(name string, id uint64) error
	Update(name string, id uint64, prio int64) error
	// Reload closes and reopens the storage (mode "clean") or drops all memory
	// state and recovers from what is stored (mode "crash").
	Reload(mode string) error
	Close()
}

// Conf of a system.
type Conf struct {
	Timeout, Interval int64 // seconds
	Window            int
	Disk              bool // real files (required for "crash"), else in memory
	MemTable          int64
	Metrics           bool
}

// Config builds the doq configuration.
func (c Conf) Config() *config.Config {
	return &config.Config{
		Queue: config.QueueConfig{
			AcknowledgementCheckInterval: c.Interval,
			AcknowledgementTimeout:       c.Timeout,
			QueueStats:                   config.QueueStatsConfig{WindowSide: c.Window},
		},
		Storage:    config.StorageConfig{GCInterval: 300, GCDiscardRatio: 0.7},
		Prometheus: config.PrometheusConfig{Enabled: c.Metrics},
		Http:       config.HttpConfig{Port: "0"},
		Cluster:    config.ClusterConfig{NodeID: "node-1"},
		Raft:       config.RaftConfig{Address: "node-1"},
	}
}

// OpenDB opens a small database; dir "" means in memory.
func OpenDB(dir string, memTable int64) (*badger.DB, error) {
	if memTable == 0 {
		memTable = 1 << 20
	}
	o := badger.DefaultOptions(dir).WithLogger(nil).WithMemTableSize(memTable).
		WithValueThreshold(1 << 10).WithNumCompactors(0).WithBlockCacheSize(0).WithCompression(0)
	if dir == "" {
		// there is no value log in memory: larger values would be refused
		o = o.WithInMemory(true).WithValueThreshold(min(1<<20, memTable/10)).WithNumLevelZeroTablesStall(1 << 20) // (no compaction would end a stall)
	} else {
		o = o.WithValueLogFileSize(4 << 20).WithNumCompactors(2)
	}
	return badger.Open(o)
}

var (
	metricsOnce *queue.PrometheusMetrics
	metricsReg  *prometheus.Registry
)

// Metrics returns the metrics of the "process" under test.
func Metrics() (*queue.PrometheusMetrics, *prometheus.Registry) {
	if metricsOnce == nil {
		// they register in the global registry as well, which takes them only once
		prometheus.DefaultRegisterer = prometheus.NewRegistry()
		metricsReg = prometheus.NewRegistry()
		metricsOnce = queue.NewPrometheusMetrics(metricsReg, "doq", "queues")
	}
	return metricsOnce, metricsReg
}

// FreshMetrics makes the next system start with metrics of its own, as a new process does.
func FreshMetrics() { metricsOnce, metricsReg = nil, nil }

// Series are the values of one process, by metric name and queue name.
type Series map[string]map[string]float64

// GatherSeries reads the queue metrics as a scrape does.
func GatherSeries(g prometheus.Gatherer) (Series, error) {
	fams, err := g.Gather()
	if err != nil {
		return nil, err
	}
	out := Series{}
	for _, f := range fams {
		n := f.GetName()
		if !strings.HasPrefix(n, "doq_queues_") {
			continue
		}
		out[n] = map[string]float64{}
		for _, m := range f.GetMetric() {
			q := ""
			for _, l := range m.GetLabel() {
				if l.GetName() == "queue_name" {
					q = l.GetValue()
				}
			}
			if _, dup := out[n][q]; dup {
				return nil, V("metric %s has two series for queue %q", n, q)
			}
			switch {
			case m.GetCounter() != nil:
				out[n][q] = m.GetCounter().GetValue()
			case m.GetGauge() != nil:
				out[n][q] = m.GetGauge().GetValue()
			default:
				return nil, V("metric %s of queue %q is neither a counter nor a gauge", n, q)
			}
		}
	}
	return out, nil
}

var dirSeq atomic.Int64

// TempDir makes a fresh scratch directory.
func TempDir() string {
	d := filepath.Join(Scratch(), "d"+itoa(os.Getpid())+"-"+itoa(int(dirSeq.Add(1))))
	_ = os.MkdirAll(d, 0o755)
	return d
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	return string(b)
}

// Refuse makes a database refuse all writes, as one whose disk is full does, or take
// them again.
func Refuse(db *badger.DB, on bool) {
	f := reflect.ValueOf(db).Elem().FieldByName("blockWrites")
	b, ok := reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Interface().(*atomic.Int32)
	if !ok {
		panic("badger.DB has no blockWrites")
	}
	if on {
		b.Store(1)
	} else {
		b.Store(0)
	}
}

// Fault makes the storage refuse writes.
func (s *QM) Fault(on bool) { Refuse(s.DB, on) }

// QM drives a QueueManager directly.
type QM struct {
	Conf Conf
	DB   *badger.DB
	QM   *queue.QueueManager
	dir  string
	dirs []string
	olds []*queue.QueueManager
}

// NewQM opens a queue manager on a fresh database.
func NewQM(c Conf) (*QM, error) {
	s := &QM{Conf: c}
	if c.Disk {
		s.dir = TempDir()
		s.dirs = append(s.dirs, s.dir)
	}
	if err := s.open(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *QM) open() error {
	db, err := OpenDB(s.dir, s.Conf.MemTable)
	if err != nil {
		return err
	}
	s.DB = db
	s.newManager()
	return nil
}

func (s *QM) newManager() {
	var m *queue.PrometheusMetrics
	if s.Conf.Metrics {
		m, _ = Metrics()
	}
	s.QM = queue.NewQueueManager(s.DB, s.Conf.Config(), m)
}

func conv(m *queue.Message) Msg {
	if m == nil {
		return Msg{}
	}
	return Msg{ID: m.ID, Group: m.Group, Priority: m.Priority, Content: m.Content}
}

// ConvInfo converts queue info.
func ConvInfo(i *queue.QueueInfo) Info {
	if i == nil {
		return Info{}
	}
	r := Info{Name: i.Name, Type: i.Type, Ready: i.Ready, Unacked: i.Unacked, Total: i.Total}
	if i.Stats != nil {
		r.Enq, r.Deq, r.Ack, r.Nack = i.Stats.EnqueueRPS, i.Stats.DequeueRPS, i.Stats.AckRPS, i.Stats.NackRPS
	}
	return r
}

func (s *QM) Create(typ, name string) error {
	_, err := s.QM.Create(typ, name)
	return err
}
func (s *QM) Delete(name string) error { return s.QM.Delete(name) }
func (s *QM) List() ([]Info, error) {
	var out []Info
	for _, i := range s.QM.GetQueues() {
		out = append(out, ConvInfo(i))
	}
	return out, nil
}
func (s *QM) Info(name string) (Info, error) {
	q, err := s.QM.GetQueue(name)
	if err != nil {
		return Info{}, err
	}
	return ConvInfo(q.GetStats()), nil
}
func (s *QM) Enqueue(id uint64, name, group string, prio int64, content string) (Msg, error) {
	q, err := s.QM.GetQueue(name)
	if err != nil {
		return Msg{}, err
	}
	m, err := q.Enqueue(id, group, prio, content)
	if err != nil {
		return Msg{}, err
	}
	return conv(m), nil
}
func (s *QM) Dequeue(name string, ack bool) (Msg, error) {
	q, err := s.QM.GetQueue(name)
	if err != nil {
		return Msg{}, err
	}
	m, err := q.Dequeue(ack)
	if err != nil {
		return Msg{}, err
	}
	if m == nil {
		return Msg{}, errors.New("dequeue returned neither message nor error")
	}
	return conv(m), nil
}
func (s *QM) Ack(name string, id uint64) error {
	q, err := s.QM.GetQueue(name)
	if err != nil {
		return err
	}
	return q.Ack(id)
}
func (s *QM) Nack(name string, id uint64) error {
	q, err := s.QM.GetQueue(name)
	if err != nil {
		return err
	}
	return q.Nack(id)
}
func (s *QM) Update(name string, id uint64, prio int64) error {
	q, err := s.QM.GetQueue(name)
	if err != nil {
		return err
	}
	return q.UpdatePriority(id, prio)
}

// stopManager ends the goroutines of a manager that is thrown away (best effort).
func stopManager(m *queue.QueueManager) {
	defer func() { _ = recover() }()
	for _, i := range m.GetQueues() {
		q, err := m.GetQueue(i.Name)
		if err != nil {
			continue
		}
		func() {
			defer func() { _ = recover() }()
			q.StopAckQueueMonitoring()
		}()
		CallOnUnexportedFields(q, "Stop")
	}
}

func (s *QM) Reload(mode string) error {
	old := s.QM
	switch {
	case s.dir == "":
		// in memory: all memory state is dropped, the database lives on
	case mode == "clean":
		if err := s.DB.Close(); err != nil {
			return err
		}
		db, err := OpenDB(s.dir, s.Conf.MemTable)
		if err != nil {
			return V("the storage does not open again after a clean close: %v", err)
		}
		s.DB = db
	default: // crash: what the files hold right now is all that is left
		nd := TempDir()
		if err := CopyDir(s.dir, nd); err != nil {
			return err
		}
		oldDB := s.DB
		defer oldDB.Close()
		s.dir = nd
		s.dirs = append(s.dirs, nd)
		db, err := OpenDB(nd, s.Conf.MemTable)
		if err != nil {
			return V("the storage does not open after a crash: %v", err)
		}
		s.DB = db
	}
	stopManager(old)
	s.newManager()
	s.QM.LoadQueues()
	return nil
}

// listing of a directory: names and sizes.
func listing(dir string) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err.Error()
	}
	out := ""
	for _, e := range es {
		if i, err := e.Info(); err == nil && !e.IsDir() {
			out += e.Name() + " " + itoa(int(i.Size())) + "\n"
		} else {
			out += e.Name() + " ?\n"
		}
	}
	return out
}

// CopyDir copies a flat directory as it is at one moment: nobody writes to the
// database now, but a flush in the background may still be replacing files; then
// the copy is taken again.
func CopyDir(from, to string) error {
	var last error
	for try := 0; try < 400; try++ {
		before := listing(from)
		last = copyOnce(from, to)
		if last == nil && listing(from) == before {
			return nil
		}
		if last == nil {
			last = errors.New("the files keep changing")
		}
		es, _ := os.ReadDir(to)
		for _, e := range es {
			_ = os.Remove(filepath.Join(to, e.Name()))
		}
		ts := syscall.NsecToTimespec(5e6)
		_ = syscall.Nanosleep(&ts, nil)
	}
	return last
}

func copyOnce(from, to string) error {
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		if e.IsDir() || e.Name() == "LOCK" {
			continue
		}
		if err := copySparse(filepath.Join(from, e.Name()), filepath.Join(to, e.Name())); err != nil {
			return err
		}
	}
	return nil
}

func copySparse(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	f, err := os.Create(to)
	if err != nil {
		return err
	}
	defer f.Close()
	const blk = 4096
	for i := 0; i < len(b); i += blk {
		e := min(i+blk, len(b))
		zero := true
		for _, c := range b[i:e] {
			if c != 0 {
				zero = false
				break
			}
		}
		if !zero {
			if _, err := f.WriteAt(b[i:e], int64(i)); err != nil {
				return err
			}
		}
	}
	return f.Truncate(int64(len(b)))
}

func (s *QM) Close() {
	stopManager(s.QM)
	_ = s.DB.Close()
	for _, d := range s.dirs {
		_ = os.RemoveAll(d)
	}
}

// Keys returns every key of the database.
func (s *QM) Keys() []string {
	var out []string
	_ = s.DB.View(func(txn *badger.Txn) error {
		o := badger.DefaultIteratorOptions
		o.PrefetchValues = false
		it := txn.NewIterator(o)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			out = append(out, string(it.Item().KeyCopy(nil)))
		}
		return nil
	})
	return out
}

// StopManager ends the goroutines of the current manager.
func (s *QM) StopManager() { stopManager(s.QM) }
