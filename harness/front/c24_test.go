package front

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	nethttp "net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	hraft "github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/cluster"
	"github.com/kgantsov/doq/pkg/zzverif/api"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// ---- the joining node ----

// hostPlan says how a host answers its 1st, 2nd, ... request (the last repeats).
type hostPlan struct {
	Kind  string   `json:"kind"` // serve dead malformed
	Acts  []string `json:"acts,omitempty"`
	Alias int      `json:"alias,omitempty"` // >0: the same host as an earlier one
}

type joinerCase struct {
	ID    string     `json:"id"`
	Addr  string     `json:"addr"`
	Hosts []hostPlan `json:"hosts"`
}

type joinerGroup struct {
	Cases []joinerCase `json:"cases"`
}

type joinStub struct {
	stub
	mu2 sync.Mutex
	got map[string]int
}

func (s *joinStub) Join(id, addr string) error {
	s.mu2.Lock()
	defer s.mu2.Unlock()
	s.got[id+"\x00"+addr]++
	return nil
}

// reservedPort takes a port on which nobody listens; close the descriptor afterwards.
func reservedPort() (int, int, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return 0, 0, err
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		syscall.Close(fd)
		return 0, 0, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return 0, 0, err
	}
	return fd, sa.(*syscall.SockaddrInet4).Port, nil
}

func (c joinerCase) run(cli api.Client, node *joinStub) (asked int, accepted bool, err error) {
	var mu sync.Mutex
	var order []int
	var bad error
	count := make([]int, len(c.Hosts))
	hosts := make([]string, len(c.Hosts))
	for i, h := range c.Hosts {
		i := i
		switch {
		case h.Alias > 0:
			hosts[i] = hosts[h.Alias-1]
		case h.Kind == "dead":
			fd, port, err := reservedPort()
			if err != nil {
				return 0, false, err
			}
			defer syscall.Close(fd)
			hosts[i] = fmt.Sprintf("127.0.0.1:%d", port)
		case h.Kind == "malformed":
			hosts[i] = "%%:x"
		default:
			srv := httptest.NewUnstartedServer(nethttp.HandlerFunc(func(w nethttp.ResponseWriter, req *nethttp.Request) {
				body, rerr := io.ReadAll(req.Body)
				mu.Lock()
				k := count[i]
				count[i]++
				order = append(order, i)
				note := func(format string, args ...any) {
					if bad == nil {
						bad = V(format, args...)
					}
				}
				var in struct{ ID, Addr *string }
				if rerr != nil || req.Method != "POST" || req.URL.Path != "/join" {
					note("host %d got %s %s (%v)", i, req.Method, req.URL, rerr)
				} else if e := json.Unmarshal(body, &in); e != nil || in.ID == nil || in.Addr == nil || *in.ID != c.ID || *in.Addr != c.Addr {
					note("host %d was offered %.300q; the joining node has id %q and raft address %q", i, body, c.ID, c.Addr)
				}
				mu.Unlock()
				// what the real endpoint makes of it
				r2, _ := nethttp.NewRequest("POST", "/join", strings.NewReader(string(body)))
				r2.Header.Set("Content-Type", req.Header.Get("Content-Type"))
				resp, e := cli.Do(r2)
				if e != nil || resp.StatusCode != 200 {
					mu.Lock()
					st := 0
					if resp != nil {
						st = resp.StatusCode
					}
					note("the join endpoint does not take the request (content type %q, body %.200q): %d %v", req.Header.Get("Content-Type"), body, st, e)
					mu.Unlock()
				}
				switch act := h.Acts[min(k, len(h.Acts)-1)]; act {
				case "ok":
					_, _ = w.Write([]byte(`{}`))
				case "slow":
					time.Sleep(150 * time.Millisecond)
					_, _ = w.Write([]byte(`{}`))
				case "hangup":
					if conn, _, e := nethttp.NewResponseController(w).Hijack(); e == nil {
						conn.Close()
					}
				case "garbage":
					if conn, _, e := nethttp.NewResponseController(w).Hijack(); e == nil {
						_, _ = conn.Write([]byte("HELLO\r\n\r\n"))
						conn.Close()
					}
				default:
					st, _ := strconv.Atoi(act)
					w.Header().Set("Content-Type", "application/problem+json")
					w.WriteHeader(max(st, 400))
					if k%2 == 1 {
						_, _ = fmt.Fprintf(w, `{"status":%d,"title":"refused"}`, st)
					}
				}
			}))
			srv.Config.SetKeepAlivesEnabled(false)
			srv.Start()
			defer srv.Close()
			hosts[i] = strings.TrimPrefix(srv.URL, "http://")
		}
	}
	jerr := cluster.NewJoiner(c.ID, c.Addr, hosts).Join()
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return len(order), false, bad
	}
	// what should have happened
	phys := func(i int) int {
		for c.Hosts[i].Alias > 0 {
			i = c.Hosts[i].Alias - 1
		}
		return i
	}
	var want []int
	cnt := make([]int, len(c.Hosts))
	yes := len(c.Hosts) == 0
	rounds := 0
	for rounds = 0; rounds < 3 && !yes; rounds++ {
		for i := range c.Hosts {
			p := phys(i)
			h := c.Hosts[p]
			if h.Kind != "serve" {
				continue
			}
			want = append(want, p)
			a := h.Acts[min(cnt[p], len(h.Acts)-1)]
			cnt[p]++
			if a == "ok" || a == "slow" {
				yes = true
				break
			}
		}
	}
	if yes {
		if jerr != nil {
			return len(order), false, V("joining reports %v although host %d would have accepted (requests arrived at %v, expected %v)", jerr, want[len(want)-1], order, want)
		}
		if fmt.Sprint(order) != fmt.Sprint(want) {
			return len(order), true, V("requests arrived at hosts %v, expected %v (each host in turn, until one accepts)", order, want)
		}
		if len(c.Hosts) > 0 {
			node.mu2.Lock()
			n := node.got[c.ID+"\x00"+c.Addr]
			node.mu2.Unlock()
			if n == 0 {
				return len(order), true, V("joining reports success but no node got id %q with address %q", c.ID, c.Addr)
			}
		}
		return len(order), true, nil
	}
	if jerr == nil {
		return len(order), false, V("joining reports success although every host has refused (%v)", order)
	}
	// refusals only: whole rounds over all hosts
	per := len(want) / 3
	ok := len(order) >= len(want) && (per == 0 || len(order)%per == 0)
	for i := range order {
		if ok && order[i] != want[i%per] {
			ok = false
		}
	}
	if !ok {
		return len(order), false, V("all hosts refuse; requests arrived at %v, expected rounds of %v", order, want[:per])
	}
	return len(order), false, nil
}

func TestC24Joiner(t *testing.T) {
	node := &joinStub{got: map[string]int{}}
	app, err := api.App(Conf{Timeout: 1, Interval: 1, Window: 1}.Config(), node)
	if err != nil {
		t.Fatal(err)
	}
	cli := api.AppClient(app)
	acts := []string{"ok", "ok", "slow", "500", "500", "400", "404", "503", "hangup", "garbage",
		"401", "403", "405", "408", "409", "410", "413", "422", "429", "501", "502", "504"}
	Main(t, Check[joinerGroup]{
		ID: "C24", Test: "C24Joiner",
		Rule:  "a case is a group of joining nodes, each with up to 4 hosts that accept, refuse, hang up or are dead according to a generated plan per attempt; the requests that reach the hosts are compared with the expected sequence; non-trivial: a success after refusals and a total refusal both occur in the group",
		Quick: 4, Thorough: 120, QuickSecs: 60, ThoroughSecs: 600,
		Gen: func(t *rapid.T) joinerGroup {
			var g joinerGroup
			for n := 0; n < 60; n++ {
				c := joinerCase{ID: fmt.Sprintf("%s-%d", Pick(t, []string{"node", "doq-0.doq.svc.", "é", "a b", "\"", "<&>", "\u2028", "0"}), Uni(t, 1<<20)),
					Addr: Pick(t, []string{"127.0.0.1:9000", "doq-1.doq-internal.default.svc.cluster.local.:12000", "localhost:1", "[::1]:9000", "\\"})}
				for k := Uni(t, 5); k > 0; k-- {
					h := hostPlan{Kind: Pick(t, []string{"serve", "serve", "serve", "serve", "serve", "dead", "malformed"})}
					if len(c.Hosts) > 0 && Uni(t, 10) == 9 {
						h.Alias = 1 + Uni(t, len(c.Hosts))
					}
					pool := acts
					if Uni(t, 2) == 0 {
						pool = acts[3:] // mostly refusals
					}
					for j := UniRange(t, 1, 4); j > 0; j-- {
						h.Acts = append(h.Acts, Pick(t, pool))
					}
					c.Hosts = append(c.Hosts, h)
				}
				g.Cases = append(g.Cases, c)
			}
			return g
		},
		Minimize: func(g joinerGroup, fails func(joinerGroup) bool) joinerGroup {
			g.Cases = DDMin(g.Cases, func(l []joinerCase) bool { return fails(joinerGroup{Cases: l}) })
			return g
		},
		Run: func(g joinerGroup, tr *Trace) error {
			type res struct {
				asked int
				ok    bool
				err   error
			}
			out := make([]res, len(g.Cases))
			var wg sync.WaitGroup
			for i, c := range g.Cases {
				wg.Add(1)
				go func() {
					defer wg.Done()
					out[i].asked, out[i].ok, out[i].err = c.run(cli, node)
				}()
			}
			wg.Wait()
			late, refused := 0, 0
			for i, r := range out {
				if r.err != nil {
					return r.err
				}
				if r.ok && r.asked > 1 {
					late++
				}
				if !r.ok {
					refused++
				}
				tr.Count("join_requests", r.asked)
				if len(g.Cases[i].Hosts) == 0 {
					tr.Count("joins_without_hosts", 1)
				}
			}
			tr.Count("joining_nodes", len(out))
			tr.Count("accepted_after_refusals", late)
			tr.Count("refused_by_all", refused)
			tr.Nontrivial = late > 0 && refused > 0
			return nil
		},
	})
}

// ---- the leader ----

type memberOp struct {
	K string `json:"k"` // new repeat move rename both ghost ghostmove follower enq
	X int    `json:"x"`
	Y int    `json:"y"`
}

type memberCase struct {
	HTTP bool       `json:"http"`
	Look int        `json:"look,omitempty"` // what ids and addresses look like
	Ops  []memberOp `json:"ops"`
}

func TestC24(t *testing.T) {
	sw := &api.Switch{}
	cli := func() api.Client {
		app, err := api.App(Conf{Timeout: 1, Interval: 1, Window: 1}.Config(), sw)
		if err != nil {
			t.Fatal(err)
		}
		return api.AppClient(app)
	}()
	Main(t, Check[memberCase]{
		ID:     "C24",
		Rule:   "a case is a random sequence of join requests, directly or over the HTTP endpoint, to the leader of a cluster of real nodes (in-memory network, virtual time): new nodes, repetitions, nodes that come back under a new address or a new id, requests that fit two members, and requests to followers; after each the raft configuration is compared with the expected membership; non-trivial: at least one repetition and one replacement",
		Bubble: true, Quick: 400, Thorough: 8000, QuickSecs: 40, ThoroughSecs: 600,
		Assumptions: []string{"no join request contradicts the leader's own id or address, and a majority of the members is alive"},
		Gen: func(t *rapid.T) memberCase {
			c := memberCase{HTTP: Uni(t, 3) == 0, Look: Uni(t, 5)}
			c.Ops = append(c.Ops, memberOp{K: "new"}, memberOp{K: "new"})
			for k := UniRange(t, 2, 9); k > 0; k-- {
				c.Ops = append(c.Ops, memberOp{K: Pick(t, []string{"new", "repeat", "repeat", "move", "move", "rename", "both", "ghost", "ghostmove", "follower", "enq"}), X: Uni(t, 16), Y: Uni(t, 16)})
			}
			return c
		},
		Minimize: func(c memberCase, fails func(memberCase) bool) memberCase {
			c.Ops = DDMin(c.Ops, func(o []memberOp) bool { d := c; d.Ops = o; return fails(d) })
			return c
		},
		Run: func(c memberCase, tr *Trace) error { return runMember(c, tr, cli, sw) },
	})
}

// alike is the n-th of a series of strings that differ only a little.
func alike(look int, s string, n int) string {
	switch look {
	case 1: // beginnings of one another, longer and shorter in turn
		return s + strings.Repeat("1", (n^1)+1)
	case 2: // upper and lower case
		b := []byte("abcd")
		for i := range b {
			if n>>i&1 == 1 {
				b[i] -= 'a' - 'A'
			}
		}
		return s + string(b) + strings.Repeat("x", n>>4)
	case 3: // what is at the end
		return s + []string{"1", "1 ", "1.", "1/", "1-", "01", "1\t", "1.0", "1?", "1#", "é", "e\u0301", "%31"}[n%13] + strings.Repeat("y", n/13)
	case 4: // endings of one another
		return strings.Repeat("1", (n^1)+1) + s
	}
	return fmt.Sprintf("%s%d", s, n)
}

func runMember(c memberCase, tr *Trace, cli api.Client, sw *api.Switch) error {
	conf := Conf{Timeout: 1000000, Interval: 1000, Window: 10}
	cl := &Cluster{Cut: map[string]bool{}}
	defer cl.Close()
	serial, places := 0, 0
	spawn := func(id, addr string, boot bool) (*Member, error) {
		m, err := NewMember(id, conf, false)
		if err != nil {
			return nil, err
		}
		m.Addr = addr
		cl.M = append(cl.M, m)
		if err := m.Start(boot); err != nil {
			return nil, err
		}
		cl.Wire()
		return m, nil
	}
	fresh := func() string { serial++; return alike(c.Look, "n", serial) }
	place := func() string { // an address of its own
		places++
		if c.Look == 0 {
			return fmt.Sprintf("a%d:1", places)
		}
		return alike(c.Look, "10.0.0.1:", places)
	}
	first, err := spawn("n0", "n0:1", true)
	if err != nil {
		return err
	}
	if !first.WaitLeader(60 * time.Second) {
		return errors.New("the first node did not become leader")
	}
	if err := first.Node.InitIDGenerator(); err != nil {
		return err
	}
	want := map[string]string{"n0": "n0:1"} // id -> address
	alive := func(id, addr string) *Member {
		for _, m := range cl.M {
			if m.Up && m.ID == id && m.Addr == addr {
				return m
			}
		}
		return nil
	}
	live := func() (out []*Member) { // live members of the configuration, the leader aside
		for id, a := range want {
			if m := alive(id, a); m != nil && m != first {
				out = append(out, m)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
		return
	}
	config := func(m *Member) (map[string]string, error) {
		f := m.Raft.GetConfiguration()
		if err := f.Error(); err != nil {
			return nil, err
		}
		out := map[string]string{}
		for _, s := range f.Configuration().Servers {
			id := string(s.ID)
			if _, dup := out[id]; dup {
				return nil, V("the configuration has id %s twice", id)
			}
			if s.Suffrage != hraft.Voter {
				return nil, V("member %s has no vote", id)
			}
			out[id] = string(s.Address)
		}
		return out, nil
	}
	join := func(m *Member, id, addr string) error {
		if !c.HTTP {
			return m.Node.Join(id, addr)
		}
		sw.Node = m.Node
		body, _ := json.Marshal(map[string]string{"id": id, "addr": addr})
		_, err := cli.Call("POST", "/join", body, nil)
		return err
	}
	lead := func() error {
		if cl.Leader(120*time.Second) != first { // keep it simple: the first node leads
			l := cl.Leader(120 * time.Second)
			if l == nil {
				return V("a majority of the members is alive but there is no leader within 120 s (members %v)", want)
			}
			for i := 0; i < 50 && l != first; i++ {
				_ = l.Raft.LeadershipTransferToServer("n0", "n0:1").Error()
				time.Sleep(500 * time.Millisecond)
				if l = cl.Leader(120 * time.Second); l == nil {
					return V("there is no leader within 120 s (members %v)", want)
				}
			}
			if l != first {
				tr.Discard = "leadership did not return"
				return errDiscard
			}
		}
		return nil
	}
	repeats, repl := 0, 0
	request := func(what, id, addr string) error {
		if err := lead(); err != nil {
			return err
		}
		before, err := config(first)
		if err != nil {
			return err
		}
		exp := map[string]string{}
		for i, a := range before {
			if i != id && a != addr {
				exp[i] = a
			}
		}
		exp[id] = addr
		if len(exp) <= len(before) && fmt.Sprint(exp) != fmt.Sprint(before) {
			repl++
		}
		if fmt.Sprint(exp) == fmt.Sprint(before) {
			repeats++
		}
		if err := join(first, id, addr); err != nil {
			if !first.Node.IsLeader() {
				if err := lead(); err != nil {
					return err
				}
				err = join(first, id, addr)
			}
			if err != nil {
				return V("%s: join of %s at %s failed: %v (members before: %v)", what, id, addr, err, before)
			}
		}
		got, err := config(first)
		if err != nil {
			return err
		}
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			return V("%s: after the join of %s at %s the members are %v, want %v (before: %v)", what, id, addr, got, exp, before)
		}
		want = exp
		// nodes that were replaced go away
		for _, m := range cl.M {
			if m.Up && want[m.ID] != m.Addr {
				_ = m.Stop()
			}
		}
		cl.Wire()
		return nil
	}
	spare := func(loss int) bool { // would a majority be left with so many more members dead?
		return 2*(1+len(live())-loss) > len(want)
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", i, op.K)
		tr.Logf("%s members %v", what, want)
		ms := live()
		var err error
		switch op.K {
		case "new":
			if len(want) >= 6 {
				continue
			}
			id := fresh()
			at := place()
			if _, e := spawn(id, at, false); e != nil {
				return e
			}
			err = request(what, id, at)
		case "repeat":
			var ids []string
			for id := range want {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			id := ids[op.X%len(ids)]
			err = request(what, id, want[id])
		case "move": // comes back with its storage under another address
			if len(ms) < 2 || !spare(1) {
				continue
			}
			m := ms[op.X%len(ms)]
			if e := m.Stop(); e != nil {
				return e
			}
			m.Addr = place()
			if e := m.Start(false); e != nil {
				return e
			}
			cl.Wire()
			err = request(what, m.ID, m.Addr)
		case "rename": // an empty node takes over the address of another one
			if len(ms) < 2 || !spare(1) {
				continue
			}
			m := ms[op.X%len(ms)]
			if e := m.Stop(); e != nil {
				return e
			}
			id := fresh()
			if _, e := spawn(id, m.Addr, false); e != nil {
				return e
			}
			err = request(what, id, m.Addr)
		case "both": // one comes back at the address of another one, which is gone
			if len(ms) < 4 || !spare(2) {
				continue
			}
			a, b := ms[op.X%len(ms)], ms[(op.X+1+op.Y%(len(ms)-1))%len(ms)]
			_ = a.Stop()
			_ = b.Stop()
			a.Addr = b.Addr
			if e := a.Start(false); e != nil {
				return e
			}
			cl.Wire()
			err = request(what, a.ID, a.Addr)
		case "ghost": // a member that is not reachable (yet)
			if 2*(1+len(ms)) <= len(want)+1 || len(want) >= 7 {
				continue
			}
			id := fresh()
			err = request(what, id, place())
		case "ghostmove":
			var gs []string
			for id, a := range want {
				if alive(id, a) == nil {
					gs = append(gs, id)
				}
			}
			if len(gs) == 0 {
				continue
			}
			sort.Strings(gs)
			err = request(what, gs[op.X%len(gs)], place())
		case "follower":
			if len(ms) == 0 {
				continue
			}
			if err := lead(); err != nil {
				return err
			}
			m := ms[op.X%len(ms)]
			id := fresh()
			if e := join(m, id, place()); e == nil {
				return V("%s: a follower accepted the join of a new node", what)
			}
			got, e := config(first)
			if e != nil {
				return e
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return V("%s: a join sent to a follower left the members %v, want %v", what, got, want)
			}
		case "enq":
			if err := lead(); err != nil {
				return err
			}
			if err := first.Node.CreateQueue("delayed", "q"); err != nil {
				return V("%s: the cluster does not work: %v (members %v)", what, err, want)
			}
		}
		if errors.Is(err, errDiscard) {
			return nil
		}
		if err != nil {
			return err
		}
	}
	// in the end everybody alive agrees
	if err := lead(); err != nil {
		if errors.Is(err, errDiscard) {
			return nil
		}
		return err
	}
	for t := 0; ; t++ {
		bad := ""
		for _, m := range append(live(), first) {
			got, err := config(m)
			if err != nil {
				return err
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				bad = fmt.Sprintf("%s knows the members %v, want %v", m.ID, got, want)
			}
		}
		if bad == "" {
			break
		}
		if t > 600 {
			return V("after 60 s, %s", bad)
		}
		time.Sleep(100 * time.Millisecond)
	}
	tr.Count("replacements", repl)
	tr.Count("repetitions", repeats)
	tr.Count("members_at_end", len(want))
	tr.Nontrivial = repl > 0 && repeats > 0
	return nil
}

var errDiscard = errors.New("discard")
