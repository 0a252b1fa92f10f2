package core

import (
	"fmt"
	"sort"
	"strings"
	"time"

	hraft "github.com/hashicorp/raft"
)

// Cluster is a set of members connected over an in-memory network with cuttable links.
type Cluster struct {
	M   []*Member
	Cut map[string]bool // isolated members
}

// NewCluster starts n members; the first bootstraps, the others join through it.
func NewCluster(n int, c Conf, skews ...int64) (*Cluster, error) {
	return NewClusterOf(n, func(i int) string { return fmt.Sprintf("node-%d", i) }, c, skews...)
}

// NodeIDs are ways to name nodes.
var NodeIDs = []func(i int) string{
	func(i int) string { return fmt.Sprintf("node-%d", i) },
	func(i int) string { return fmt.Sprintf("doq-%d.doq-internal.svc:8000", 9-i) },
	func(i int) string { return strings.Repeat("n", i+1) },
	func(i int) string { return []string{"10", "2", "010", "1", "22", "0", "7"}[i%7] },
	func(i int) string { return []string{"b", "A", "a", "B", "é", "Node", "c"}[i%7] },
	func(i int) string { return fmt.Sprintf("host%d-0", 3*i%8) },
	func(i int) string { return []string{"12", "21", "node-013", "node-031", "node-103", "ab", "ba"}[i%7] },
}

// NewClusterOf is NewCluster with nodes named by name.
func NewClusterOf(n int, name func(i int) string, c Conf, skews ...int64) (*Cluster, error) {
	cl := &Cluster{Cut: map[string]bool{}}
	for i := 0; i < n; i++ {
		m, err := NewMember(name(i), c, c.Disk)
		if err != nil {
			return nil, err
		}
		if i < len(skews) {
			m.SkewMS = skews[i]
		}
		cl.M = append(cl.M, m)
		if err := m.Start(i == 0); err != nil {
			return nil, err
		}
		cl.Wire()
		if i == 0 {
			if !m.WaitLeader(60 * time.Second) {
				return nil, fmt.Errorf("the first node did not become leader")
			}
		} else if err := cl.M[0].Node.Join(m.ID, m.ID); err != nil {
			return nil, V("node %s cannot join: %v", m.ID, err)
		}
		if err := m.InitIDs(); err != nil {
			return nil, err
		}
	}
	return cl, nil
}

// Wire sets the links according to who is up and who is cut off.
func (c *Cluster) Wire() {
	for _, a := range c.M {
		if a.Trans == nil {
			continue
		}
		for _, b := range c.M {
			if a != b {
				a.Trans.Disconnect(hraft.ServerAddress(b.Addr))
			}
		}
		// an address may have passed from a dead member to a live one
		for _, b := range c.M {
			if a != b && a.Up && b.Up && !c.Cut[a.ID] && !c.Cut[b.ID] {
				a.Trans.Connect(hraft.ServerAddress(b.Addr), b.Trans)
			}
		}
	}
}

// Leader waits for the leader among the members that are up and connected.
func (c *Cluster) Leader(max time.Duration) *Member {
	for t := time.Duration(0); t < max; t += 50 * time.Millisecond {
		for _, m := range c.M {
			if m.Up && !c.Cut[m.ID] && m.Raft.State() == hraft.Leader && m.Raft.Barrier(2*time.Second).Error() == nil {
				return m
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil
}

// Settle waits until all members that are up have applied what the leader has.
func (c *Cluster) Settle(max time.Duration) bool {
	l := c.Leader(max)
	if l == nil {
		return false
	}
	for t := time.Duration(0); t < max; t += 50 * time.Millisecond {
		ok := true
		for _, m := range c.M {
			if m.Up && !c.Cut[m.ID] && m.Raft.AppliedIndex() < l.Raft.LastIndex() {
				ok = false
			}
		}
		if ok {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

// Ids of the members, sorted.
func (c *Cluster) Ids() (out []string) {
	for _, m := range c.M {
		out = append(out, m.ID)
	}
	sort.Strings(out)
	return
}

// Close stops everything.
func (c *Cluster) Close() {
	for _, m := range c.M {
		m.Close()
	}
}
