package core

import (
	"errors"
	"fmt"
	"github.com/bwmarrin/snowflake"
	"io"
	"os"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/go-hclog"
	hraft "github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	draft "github.com/kgantsov/doq/pkg/raft"
)

// Member is one doq node whose raft talks over an in-memory transport, so that
// a whole cluster runs under the virtual clock. Everything but the transport,
// the listener and the bootstrap is the real code: Node, commands, FSM, queue
// manager, and the raft log store on the queue database.
type Member struct {
	SkewMS int64 // how far the clock its ids come from is behind
	ID     string
	Addr   string // raft address (the id unless set)
	Conf   Conf
	Cfg    *config.Config
	DB     *badger.DB
	Dir    string
	Raft   *hraft.Raft
	Trans  *hraft.InmemTransport
	Node   *draft.Node
	FSM    *draft.FSM
	QM     *queue.QueueManager
	Snaps  hraft.SnapshotStore
	Up     bool
	Tune   func(*hraft.Config)
	refuse atomic.Bool // the storage refuses writes while a command is applied
}

// refusing is a state machine whose storage refuses writes at times.
type refusing struct {
	hraft.FSM
	m *Member
}

func (f refusing) Apply(l *hraft.Log) any {
	if l.Type == hraft.LogCommand && f.m.refuse.Load() {
		Refuse(f.m.DB, true)
		defer Refuse(f.m.DB, false)
	}
	return f.FSM.Apply(l)
}

func (m *Member) machine(fsm hraft.FSM) hraft.FSM {
	if _, ok := fsm.(hraft.BatchingFSM); ok {
		return fsm
	}
	if _, ok := fsm.(hraft.ConfigurationStore); ok {
		return fsm
	}
	return refusing{fsm, m}
}

// NewFSM builds the replicated state machine over a database.
func NewFSM(id string, db *badger.DB, cfg *config.Config) (*draft.FSM, *queue.QueueManager, error) {
	var m *queue.PrometheusMetrics
	if cfg.Prometheus.Enabled {
		m, _ = Metrics()
	}
	qm := queue.NewQueueManager(db, cfg, m)
	fsm := &draft.FSM{NodeID: id}
	if err := SetByType(fsm, qm); err != nil {
		return nil, nil, err
	}
	if err := SetByType(fsm, db); err != nil {
		return nil, nil, err
	}
	_ = SetByType(fsm, cfg)
	return fsm, qm, nil
}

// NewMember opens the storage of a node (dir "" is in memory) without starting it.
func NewMember(id string, c Conf, disk bool) (*Member, error) {
	m := &Member{ID: id, Conf: c}
	if disk {
		m.Dir = TempDir()
	}
	db, err := OpenDB(m.Dir, 8<<20)
	if err != nil {
		return nil, err
	}
	m.DB = db
	m.Cfg = c.Config()
	m.Cfg.Cluster.NodeID = id
	m.Cfg.Raft.Address = id
	m.Addr = id
	m.Snaps = hraft.NewInmemSnapshotStore()
	return m, nil
}

// Start starts (or restarts) the node on its storage.
func (m *Member) Start(bootstrap bool) error {
	store, err := badgerstore.New(m.DB, badgerstore.Options{})
	if err != nil {
		return err
	}
	m.Cfg.Raft.Address = m.Addr
	fsm, qm, err := NewFSM(m.ID, m.DB, m.Cfg)
	if err != nil {
		return err
	}
	_, m.Trans = hraft.NewInmemTransport(hraft.ServerAddress(m.Addr))
	cfg := hraft.DefaultConfig()
	cfg.LocalID = hraft.ServerID(m.ID)
	cfg.Logger = hclog.NewNullLogger()
	if m.Tune != nil {
		m.Tune(cfg)
	}
	if bootstrap {
		err := hraft.BootstrapCluster(cfg, store, store, m.Snaps, m.Trans, hraft.Configuration{
			Servers: []hraft.Server{{ID: cfg.LocalID, Address: hraft.ServerAddress(m.Addr)}}})
		if err != nil {
			return err
		}
	}
	r, err := hraft.NewRaft(cfg, m.machine(fsm), store, store, m.Snaps, m.Trans)
	if err != nil {
		return V("raft does not start on the stored state: %v", err)
	}
	n := draft.NewNode(m.DB, m.Dir, m.Cfg, nil)
	n.Raft = r
	n.QueueManager = qm
	m.Raft, m.Node, m.FSM, m.QM = r, n, fsm, qm
	m.Up = true
	return nil
}

// InitIDs sets up the id generator the way the server does, as if the clock of
// the member was behind by SkewMS.
func (m *Member) InitIDs() error {
	epoch := snowflake.Epoch
	snowflake.Epoch += m.SkewMS
	defer func() { snowflake.Epoch = epoch }()
	return m.Node.InitIDGenerator()
}

// Stop shuts the node down; its storage stays.
func (m *Member) Stop() error {
	if !m.Up {
		return nil
	}
	m.Up = false
	_ = m.Trans.Close()
	err := m.Raft.Shutdown().Error()
	stopManager(m.QM)
	return err
}

// ReopenDB closes and reopens the files of a stopped member; mode "crash" takes
// only what the files hold at this moment.
func (m *Member) ReopenDB(mode string) error {
	if m.Dir == "" {
		return nil
	}
	if mode == "crash" {
		nd := TempDir()
		if err := CopyDir(m.Dir, nd); err != nil {
			return err
		}
		old, od := m.DB, m.Dir
		m.Dir = nd
		_ = old.Close()
		_ = os.RemoveAll(od)
	} else if err := m.DB.Close(); err != nil {
		return err
	}
	db, err := OpenDB(m.Dir, 8<<20)
	if err != nil {
		return V("the storage does not open again: %v", err)
	}
	m.DB = db
	return nil
}

// Close stops the member and removes its files.
func (m *Member) Close() {
	_ = m.Stop()
	_ = m.DB.Close()
	if m.Dir != "" {
		_ = os.RemoveAll(m.Dir)
	}
}

// WaitLeader waits until the member leads and has applied everything.
func (m *Member) WaitLeader(max time.Duration) bool {
	for t := time.Duration(0); t < max; t += 50 * time.Millisecond {
		if m.Up && m.Raft.State() == hraft.Leader {
			if m.Raft.Barrier(5*time.Second).Error() == nil {
				return true
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

// NodeSys drives a single-node cluster through the node API.
type NodeSys struct{ M *Member }

// NewNodeSys starts a fresh single-node cluster.
func NewNodeSys(c Conf) (Sys, error) {
	m, err := NewMember("node-1", c, c.Disk)
	if err != nil {
		return nil, err
	}
	if err := m.Start(true); err != nil {
		return nil, err
	}
	s := &NodeSys{M: m}
	if err := s.lead(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *NodeSys) lead() error {
	if !s.M.WaitLeader(60 * time.Second) {
		return errors.New("the single node did not become leader")
	}
	return s.M.InitIDs()
}

func (s *NodeSys) Create(typ, name string) error { return s.M.Node.CreateQueue(typ, name) }
func (s *NodeSys) Delete(name string) error      { return s.M.Node.DeleteQueue(name) }
func (s *NodeSys) List() ([]Info, error) {
	var out []Info
	for _, i := range s.M.Node.GetQueues() {
		out = append(out, ConvInfo(i))
	}
	return out, nil
}
func (s *NodeSys) Info(name string) (Info, error) {
	i, err := s.M.Node.GetQueueInfo(name)
	return ConvInfo(i), err
}
func (s *NodeSys) Enqueue(_ uint64, name, group string, prio int64, content string) (Msg, error) {
	m, err := s.M.Node.Enqueue(name, group, prio, content)
	return conv(m), err
}
func (s *NodeSys) Dequeue(name string, ack bool) (Msg, error) {
	m, err := s.M.Node.Dequeue(name, ack)
	if err == nil && m == nil {
		return Msg{}, errors.New("dequeue returned neither message nor error")
	}
	return conv(m), err
}
func (s *NodeSys) Ack(name string, id uint64) error  { return s.M.Node.Ack(name, id) }
func (s *NodeSys) Nack(name string, id uint64) error { return s.M.Node.Nack(name, id) }
func (s *NodeSys) Update(name string, id uint64, prio int64) error {
	return s.M.Node.UpdatePriority(name, id, prio)
}

// Fault makes the storage refuse what commands write; the log is not affected.
func (s *NodeSys) Fault(on bool) { s.M.refuse.Store(on) }

// Reload restarts the node: "clean", "crash", or "snapshot" (clean, after a raft snapshot).
func (s *NodeSys) Reload(mode string) error {
	if mode == "snapshot" {
		if err := s.M.Raft.Snapshot().Error(); err != nil && !errors.Is(err, hraft.ErrNothingNewToSnapshot) {
			return fmt.Errorf("snapshot: %w", err)
		}
	}
	if err := s.M.Stop(); err != nil {
		return err
	}
	if err := s.M.ReopenDB(mode); err != nil {
		return err
	}
	if err := s.M.Start(false); err != nil {
		return err
	}
	return s.lead()
}
func (s *NodeSys) Close() { s.M.Close() }

var _ io.Closer = (*nopCloser)(nil)

type nopCloser struct{}

func (*nopCloser) Close() error { return nil }
