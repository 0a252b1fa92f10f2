package conf

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	hraft "github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/cluster"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	discoveryv1 "k8s.io/api/discovery/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/kubernetes/fake"
	"k8s.io/client-go/rest"
	"pgregory.net/rapid"
)

// place is a Kubernetes namespace with a service, its DNS and its API.
type place struct {
	NS     string   `json:"ns"`
	Svc    string   `json:"svc"`
	Port   int      `json:"port"` // HTTP port of the nodes
	Domain string   `json:"domain"`
	Hosts  []string `json:"hosts"`
	Ports  []int    `json:"ports"` // of the service records
}

type dnsWorld struct {
	place
	order []int
	ip    map[string][]string
	fail  map[string]bool
	api   *fake.Clientset
	noSRV int // that many lookups of the service records fail; all if negative
}

func newWorld(p place) *dnsWorld {
	w := &dnsWorld{place: p, ip: map[string][]string{}, fail: map[string]bool{}, api: fake.NewSimpleClientset()}
	for i, h := range p.Hosts {
		w.order = append(w.order, i)
		w.ip[h] = []string{fmt.Sprintf("10.0.%d.1", i)}
	}
	return w
}

func (w *dnsWorld) record(i int) string {
	return fmt.Sprintf("%s%s:%d", w.Hosts[i], w.Domain, w.Ports[i])
}

// errBlind is the failure of a discovery that has been given no service records.
var errBlind = errors.New("no service records")

// boot makes the cluster view of a node as main does.
func (w *dnsWorld) boot(i int) (*cluster.Cluster, error) {
	sd := cluster.NewServiceDiscoverySRV(w.NS, w.Svc)
	host := w.Hosts[i]
	if err := SetByType(sd, func(service, proto, name string) (string, []*net.SRV, error) {
		if service != "" || proto != "" || strings.TrimSuffix(name, ".") != fmt.Sprintf("%s-internal.%s.svc.cluster.local", w.Svc, w.NS) {
			return "", nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
		}
		if w.noSRV != 0 {
			w.noSRV--
			return "", nil, &net.DNSError{Err: "server misbehaving", Name: name, IsTemporary: true}
		}
		var l []*net.SRV
		for _, k := range w.order {
			l = append(l, &net.SRV{Target: w.Hosts[k] + w.Domain, Port: uint16(w.Ports[k])})
		}
		return name, l, nil
	}); err != nil {
		return nil, err
	}
	if err := SetByType(sd, func() (string, error) { return host, nil }); err != nil {
		return nil, err
	}
	if err := SetByType(sd, func(name string) ([]string, error) {
		for h, ips := range w.ip {
			if name == h || (w.Domain != "" && name == h+w.Domain) {
				if w.fail[h] {
					return nil, &net.DNSError{Err: "server misbehaving", Name: name, IsTemporary: true}
				}
				return append([]string{}, ips...), nil
			}
		}
		return nil, &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}); err != nil {
		return nil, err
	}
	c := cluster.NewCluster(sd, w.NS, w.Svc, fmt.Sprint(w.Port))
	if err := SetByType(c, func() (*rest.Config, error) { return &rest.Config{Host: "http://127.0.0.1:1"}, nil }); err != nil {
		return nil, err
	}
	blind := w.noSRV != 0
	if err := c.Init(); err != nil {
		if blind {
			return nil, errBlind
		}
		return nil, V("node %s: discovery failed: %v", host, err)
	}
	if err := SetByType[kubernetes.Interface](c, w.api); err != nil {
		return nil, err
	}
	return c, nil
}

func (w *dnsWorld) checkView(i int, c *cluster.Cluster) error {
	var recs []string
	for _, k := range w.order {
		recs = append(recs, w.record(k))
	}
	if c.NodeID() != w.record(i) {
		return V("node %s takes %q for itself; the service records are %v", w.Hosts[i], c.NodeID(), recs)
	}
	var peers []string
	for k := range w.Hosts {
		if k != i {
			peers = append(peers, w.record(k))
		}
	}
	got := append([]string{}, c.Hosts()...)
	sort.Strings(got)
	sort.Strings(peers)
	if strings.Join(got, " ") != strings.Join(peers, " ") {
		return V("node %s sees the peers %v; the service records are %v", w.Hosts[i], c.Hosts(), recs)
	}
	if want := w.Hosts[i] + w.Domain + ":12000"; c.RaftAddr() != want {
		return V("node %s has the raft address %q, want %q", w.Hosts[i], c.RaftAddr(), want)
	}
	return nil
}

func (w *dnsWorld) slices() ([]discoveryv1.EndpointSlice, error) {
	l, err := w.api.DiscoveryV1().EndpointSlices(metav1.NamespaceAll).List(context.Background(), metav1.ListOptions{})
	if err != nil {
		return nil, err
	}
	sort.Slice(l.Items, func(i, j int) bool {
		return l.Items[i].Namespace+"/"+l.Items[i].Name < l.Items[j].Namespace+"/"+l.Items[j].Name
	})
	return l.Items, nil
}

func (w *dnsWorld) mine(s *discoveryv1.EndpointSlice) bool {
	return s.Namespace == w.NS && s.Labels["kubernetes.io/service-name"] == w.Svc
}

// checkSlice compares what the service points at with node i.
func (w *dnsWorld) checkSlice(i int, what string) error {
	l, err := w.slices()
	if err != nil {
		return err
	}
	var my []discoveryv1.EndpointSlice
	for _, s := range l {
		if w.mine(&s) {
			my = append(my, s)
		}
	}
	want := fmt.Sprintf("one slice of service %s/%s with one of %v, port %d", w.NS, w.Svc, w.ip[w.Hosts[i]], w.Port)
	if len(my) != 1 {
		return V("%s: the service has %d endpoint slices (of all: %v), want %s", what, len(my), brief(l), want)
	}
	s := my[0]
	if len(s.Endpoints) != 1 || len(s.Endpoints[0].Addresses) != 1 || len(s.Ports) != 1 {
		return V("%s: the endpoint slice is %v, want %s", what, brief(my), want)
	}
	ok := false
	for _, a := range w.ip[w.Hosts[i]] {
		ok = ok || a == s.Endpoints[0].Addresses[0]
	}
	p := s.Ports[0]
	ok = ok && p.Port != nil && int(*p.Port) == w.Port && p.Name != nil && *p.Name == "http" && (p.Protocol == nil || *p.Protocol == "TCP")
	ok = ok && s.AddressType == discoveryv1.AddressTypeIPv4
	r := s.Endpoints[0].Conditions.Ready
	if !ok || (r != nil && !*r) {
		return V("%s: the endpoint slice is %v, want %s", what, brief(my), want)
	}
	return nil
}

func brief(l []discoveryv1.EndpointSlice) (out []string) {
	for _, s := range l {
		t := fmt.Sprintf("%s/%s service=%s %s", s.Namespace, s.Name, s.Labels["kubernetes.io/service-name"], s.AddressType)
		for _, e := range s.Endpoints {
			t += fmt.Sprintf(" %q", e.Addresses)
			if e.Conditions.Ready != nil && !*e.Conditions.Ready {
				t += "(not ready)"
			}
		}
		for _, p := range s.Ports {
			n, k := "", int32(0)
			if p.Name != nil {
				n = *p.Name
			}
			if p.Port != nil {
				k = *p.Port
			}
			t += fmt.Sprintf(" port %s=%d", n, k)
		}
		out = append(out, t)
	}
	return
}

func (w *dnsWorld) put(ns, name, svc string, addr string) {
	ready := true
	pn, port := "http", int32(81)
	s := &discoveryv1.EndpointSlice{ObjectMeta: metav1.ObjectMeta{Name: name, Namespace: ns, Labels: map[string]string{"kubernetes.io/service-name": svc, "x": "y"}},
		AddressType: discoveryv1.AddressTypeIPv4,
		Endpoints: []discoveryv1.Endpoint{{Addresses: []string{addr}, Conditions: discoveryv1.EndpointConditions{Ready: &ready}},
			{Addresses: []string{"192.168.7.7"}}},
		Ports: []discoveryv1.EndpointPort{{Name: &pn, Port: &port}}}
	es := w.api.DiscoveryV1().EndpointSlices(ns)
	if _, err := es.Update(context.Background(), s, metav1.UpdateOptions{}); err != nil {
		_, _ = es.Create(context.Background(), s, metav1.CreateOptions{})
	}
}

type kop struct {
	K string `json:"k"` // lead lose ip more fail drop alter restart shuffle nodns
	X int    `json:"x"`
	Y int    `json:"y"`
}

type kcase struct {
	place
	Pre int   `json:"pre"` // 0 no slice, 1 a slice of an earlier leader, 2 slices of other services too
	Ops []kop `json:"ops"`
}

func genPlace(t *rapid.T) place {
	p := place{NS: Pick(t, []string{"default", "default", "prod", "a-b", "doq"}), Svc: Pick(t, []string{"doq", "doq", "queue", "a", "doq-internal"}),
		Port: Pick(t, []int{8000, 80, 1, 65535, 9000 + 1})}
	p.Domain = Pick(t, []string{fmt.Sprintf(".%s-internal.%s.svc.cluster.local.", p.Svc, p.NS), fmt.Sprintf(".%s-internal.%s.svc.cluster.local", p.Svc, p.NS), "", ".x", "." + p.Svc + "-1."})
	base := Pick(t, []string{p.Svc, "doq", "n", "a-1"})
	seen := map[string]bool{}
	k := UniRange(t, 1, 8)
	if Uni(t, 16) == 15 {
		k = UniRange(t, 9, 60)
	}
	for ; k > 0; k-- {
		h := fmt.Sprintf("%s-%d", base, Pick(t, []int{0, 1, 2, 3, 10, 11, 12, 20, 21, 100, 101, 110, 111}))
		switch Uni(t, 8) {
		case 6:
			h = base
		case 7:
			h += Pick(t, []string{"a", "-0", "-1", "0", "x-" + base})
		}
		if !seen[h] {
			seen[h] = true
			p.Hosts = append(p.Hosts, h)
		}
	}
	port := Pick(t, []int{8000, 80, 12000, 1, UniRange(t, 1, 65000)})
	for range p.Hosts {
		if Uni(t, 10) == 9 {
			port++
		}
		p.Ports = append(p.Ports, port)
	}
	return p
}

func TestC23(t *testing.T) {
	Main(t, Check[kcase]{
		ID: "C23",
		Rule: "a case is a namespace with 1 to 8 (sometimes far more) nodes whose hostnames are often prefixes of one another, service records in changing order, an optional earlier endpoint slice, and a sequence of leadership gains and losses, address changes, restarts, failing lookups of addresses and of service records and foreign changes of the slice; discovery is compared for every node, and all endpoint slices (fake Kubernetes API) after every step; " +
			"non-trivial: a hostname that is a prefix of another one and two changes of the leader",
		Quick: 1500, Thorough: 40000, QuickSecs: 60, ThoroughSecs: 600,
		Assumptions: []string{"one service record per hostname; two nodes do not update the slice at the same instant"},
		Gen: func(t *rapid.T) kcase {
			c := kcase{place: genPlace(t), Pre: Uni(t, 3)}
			for k := UniRange(t, 1, 14); k > 0; k-- {
				c.Ops = append(c.Ops, kop{K: Pick(t, []string{"lead", "lead", "lead", "lead", "lose", "ip", "more", "fail", "drop", "alter", "restart", "shuffle", "nodns"}), X: Uni(t, 16), Y: Uni(t, 16)})
			}
			return c
		},
		Minimize: func(c kcase, fails func(kcase) bool) kcase {
			c.Ops = DDMin(c.Ops, func(o []kop) bool { d := c; d.Ops = o; return fails(d) })
			return c
		},
		Run: func(c kcase, tr *Trace) error {
			w := newWorld(c.place)
			if c.Pre > 0 {
				w.put(c.NS, c.Svc, c.Svc, "10.9.9.9")
			}
			if c.Pre > 1 {
				w.put(c.NS, "other", "other", "10.9.9.8")
				w.put("elsewhere", c.Svc, c.Svc, "10.9.9.7")
			}
			n := len(c.Hosts)
			nodes := make([]*cluster.Cluster, n)
			known := make([][]string, n) // addresses at the last lookup
			start := func(i int) (err error) {
				delete(w.fail, c.Hosts[i])
				if nodes[i], err = w.boot(i); err != nil {
					return err
				}
				known[i] = w.ip[c.Hosts[i]]
				return w.checkView(i, nodes[i])
			}
			for i := range nodes {
				if err := start(i); err != nil {
					return err
				}
			}
			prefixes := false
			for _, a := range c.Hosts {
				for _, b := range c.Hosts {
					prefixes = prefixes || (a != b && strings.HasPrefix(b, a))
				}
			}
			leads, serial := 0, 0
			last := -1
			for k, op := range c.Ops {
				i := op.X % n
				h := c.Hosts[i]
				what := fmt.Sprintf("step %d (%s %s)", k, op.K, h)
				tr.Logf("%s", what)
				before, err := w.slices()
				if err != nil {
					return err
				}
				switch op.K {
				case "lead":
					if w.fail[h] && !reflect.DeepEqual(known[i], w.ip[h]) {
						continue // nobody can know the address
					}
					old := last
					if old >= 0 && old != i && op.Y%3 == 0 {
						nodes[old].LeaderChanged(false)
					}
					nodes[i].LeaderChanged(true)
					if old >= 0 && old != i && op.Y%3 == 1 {
						nodes[old].LeaderChanged(false)
					}
					if !w.fail[h] {
						known[i] = w.ip[h]
					} else {
						tr.Count("leads_without_dns", 1)
					}
					if old != i {
						leads++
					}
					last = i
					if err := w.checkSlice(i, what); err != nil {
						return err
					}
					after, err := w.slices()
					if err != nil {
						return err
					}
					if a, b := others(w, before), others(w, after); !reflect.DeepEqual(a, b) {
						return V("%s: slices of other services changed from %v to %v", what, brief(a), brief(b))
					}
					continue
				case "lose":
					nodes[i].LeaderChanged(false)
				case "ip":
					serial++
					w.ip[h] = []string{fmt.Sprintf("10.1.%d.%d", i, serial)}
				case "more":
					serial++
					w.ip[h] = append(append([]string{}, w.ip[h]...), fmt.Sprintf("10.2.%d.%d", i, serial))
				case "fail":
					w.fail[h] = !w.fail[h]
				case "restart":
					if err := start(i); err != nil {
						return err
					}
				case "nodns": // discovery either fails or tells the truth
					w.noSRV = 1 - 2*(op.Y%2)
					x, err := w.boot(i)
					w.noSRV = 0
					tr.Count("discoveries_without_records", 1)
					if err == nil {
						err = w.checkView(i, x)
					}
					if err != nil && err != errBlind {
						return V("%s: the service records cannot be looked up: %v", what, err)
					}
				case "shuffle":
					for k := range w.order {
						j := (k + 1 + op.Y) % n
						w.order[k], w.order[j] = w.order[j], w.order[k]
					}
				case "drop":
					_ = w.api.DiscoveryV1().EndpointSlices(c.NS).Delete(context.Background(), c.Svc, metav1.DeleteOptions{})
					continue
				case "alter":
					w.put(c.NS, c.Svc, c.Svc, "10.9.9.9")
					continue
				}
				after, err := w.slices()
				if err != nil {
					return err
				}
				if !(len(before) == 0 && len(after) == 0) && !reflect.DeepEqual(before, after) {
					return V("%s: the endpoint slices changed from %v to %v", what, brief(before), brief(after))
				}
			}
			tr.Count("leader_changes", leads)
			tr.Count("views_checked", n)
			tr.Nontrivial = prefixes && leads > 1
			return nil
		},
	})
}

func others(w *dnsWorld, l []discoveryv1.EndpointSlice) (out []discoveryv1.EndpointSlice) {
	for _, s := range l {
		if !w.mine(&s) {
			out = append(out, s)
		}
	}
	return
}

// ---- with a real raft cluster deciding who leads ----

type rcase struct {
	N   int   `json:"n"`
	Ops []kop `json:"ops"` // cut kill heal ip move wait
}

func TestC23Raft(t *testing.T) {
	Main(t, Check[rcase]{
		ID: "C23", Test: "C23Raft", Bubble: true,
		Rule:  "a case is a cluster of 1 to 5 real nodes (in-memory network, virtual time) with their cluster views attached, under generated isolation, stops, restarts, leadership transfers and address changes; whenever a leader is established the endpoint slice must hold its address; non-trivial: leadership moved at least twice",
		Quick: 60, Thorough: 2000, QuickSecs: 60, ThoroughSecs: 600,
		Gen: func(t *rapid.T) rcase {
			c := rcase{N: Pick(t, []int{1, 3, 3, 3, 5})}
			for k := UniRange(t, 4, 12); k > 0; k-- {
				c.Ops = append(c.Ops, kop{K: Pick(t, []string{"cut", "cut", "kill", "kill", "heal", "heal", "move", "move", "ip", "wait"}), X: Uni(t, 16), Y: Uni(t, 16)})
			}
			return c
		},
		Minimize: func(c rcase, fails func(rcase) bool) rcase {
			c.Ops = DDMin(c.Ops, func(o []kop) bool { d := c; d.Ops = o; return fails(d) })
			return c
		},
		Run: runC23Raft,
	})
}

func runC23Raft(c rcase, tr *Trace) error {
	p := place{NS: "default", Svc: "doq", Port: 8000, Domain: ".doq-internal.default.svc.cluster.local."}
	for i := 0; i < c.N; i++ {
		p.Hosts = append(p.Hosts, fmt.Sprintf("doq-%d", i))
		p.Ports = append(p.Ports, 8000)
	}
	w := newWorld(p)
	conf := Conf{Timeout: 1000000, Interval: 1000, Window: 10}
	cl := &Cluster{Cut: map[string]bool{}}
	defer cl.Close()
	start := func(i int, boot bool) error {
		m := cl.M[i]
		v, err := w.boot(i)
		if err != nil {
			return err
		}
		if err := w.checkView(i, v); err != nil {
			return err
		}
		if err := m.Start(boot); err != nil {
			return err
		}
		m.Node.SetLeaderChangeFunc(v.LeaderChanged)
		go m.Node.ListenToLeaderChanges()
		cl.Wire()
		return nil
	}
	for i := 0; i < c.N; i++ {
		m, err := NewMember(w.record(i), conf, false)
		if err != nil {
			return err
		}
		m.Addr = p.Hosts[i] + p.Domain + ":12000"
		cl.M = append(cl.M, m)
		if err := start(i, i == 0); err != nil {
			return err
		}
		if i == 0 {
			if !m.WaitLeader(60 * time.Second) {
				return errors.New("the first node did not become leader")
			}
		} else if err := cl.M[0].Node.Join(m.ID, m.Addr); err != nil {
			return V("node %s cannot join: %v", m.ID, err)
		}
	}
	idx := func(m *Member) int {
		for i := range cl.M {
			if cl.M[i] == m {
				return i
			}
		}
		return -1
	}
	moves := 0
	var last *Member
	settled := func(what string) error {
		for try := 0; try < 100; try++ {
			l := cl.Leader(120 * time.Second)
			if l == nil {
				return V("%s: there is no leader within 120 s", what)
			}
			time.Sleep(10 * time.Second)
			synctest.Wait()
			if l.Up && !cl.Cut[l.ID] && l.Raft.State() == hraft.Leader {
				if l != last {
					moves++
					last = l
				}
				return w.checkSlice(idx(l), fmt.Sprintf("%s: %s leads", what, l.ID))
			}
		}
		tr.Discard = "leadership did not settle"
		return nil
	}
	if err := settled("at the start"); err != nil {
		return err
	}
	changed := map[int]bool{} // address changed while leading: the slice follows at the next gain
	for k, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s %d)", k, op.K, op.X)
		down := len(cl.Cut)
		for _, m := range cl.M {
			if !m.Up {
				down++
			}
		}
		m := last
		if op.Y%3 == 0 {
			m = cl.M[op.X%c.N]
		}
		switch op.K {
		case "cut", "kill":
			if 2*(down+1) >= c.N || !m.Up || cl.Cut[m.ID] {
				if c.N != 1 {
					continue
				}
			}
			if op.K == "cut" {
				if c.N == 1 {
					continue
				}
				cl.Cut[m.ID] = true
				cl.Wire()
			} else {
				if err := m.Stop(); err != nil {
					return err
				}
				cl.Wire()
				if c.N == 1 || op.X%4 == 0 { // back at once, as a new pod
					i := idx(m)
					w.ip[p.Hosts[i]] = []string{fmt.Sprintf("10.3.%d.%d", i, k)}
					delete(changed, i)
					if err := start(i, false); err != nil {
						return err
					}
				}
			}
		case "heal":
			for i, m := range cl.M {
				if !m.Up {
					w.ip[p.Hosts[i]] = []string{fmt.Sprintf("10.4.%d.%d", i, k)}
					delete(changed, i)
					if err := start(i, false); err != nil {
						return err
					}
				}
			}
			cl.Cut = map[string]bool{}
			cl.Wire()
		case "move":
			to := cl.M[op.X%c.N]
			if to == last || !to.Up || cl.Cut[to.ID] {
				continue
			}
			_ = last.Raft.LeadershipTransferToServer(hraft.ServerID(to.ID), hraft.ServerAddress(to.Addr)).Error()
		case "ip": // of a node that does not lead
			i := op.X % c.N
			if cl.M[i] == last || cl.M[i].Raft.State() == hraft.Leader || cl.M[i].Raft.State() == hraft.Candidate {
				continue
			}
			w.ip[p.Hosts[i]] = []string{fmt.Sprintf("10.5.%d.%d", i, k)}
			continue
		case "wait":
			time.Sleep(time.Duration(op.X) * 100 * time.Millisecond)
		}
		if err := settled(what); err != nil || tr.Discard != "" {
			return err
		}
	}
	tr.Count("raft_leader_moves", moves)
	tr.Nontrivial = moves > 2
	return nil
}
