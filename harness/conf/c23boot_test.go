package conf

import (
	"context"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	pb "github.com/kgantsov/doq/pkg/proto"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"golang.org/x/net/dns/dnsmessage"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	discoveryv1 "k8s.io/api/discovery/v1"
	"pgregory.net/rapid"
)

// ---- real server processes in a Kubernetes cluster played by the harness ----

// kube is the DNS and the API of a Kubernetes cluster.
type kube struct {
	mu     sync.Mutex
	svc    string
	recs   []krec
	slices map[string]*discoveryv1.EndpointSlice // by namespace/name
	dns    net.PacketConn
	api    *httptest.Server
	root   string
}

type krec struct {
	host string
	port int
	ip   string
}

func (k *kube) domain() string { return k.svc + "-internal.default.svc.cluster.local." }

func newKube(svc string) (*kube, error) {
	k := &kube{svc: svc, slices: map[string]*discoveryv1.EndpointSlice{}, root: TempDir()}
	var err error
	if k.dns, err = net.ListenPacket("udp", "127.0.0.1:0"); err != nil {
		return nil, err
	}
	go k.serveDNS()
	k.api = httptest.NewTLSServer(http.HandlerFunc(k.serveAPI))
	d := filepath.Join(k.root, "var/run/secrets/kubernetes.io/serviceaccount")
	_ = os.MkdirAll(d, 0o700)
	_ = os.MkdirAll(filepath.Join(k.root, "etc"), 0o700)
	ca := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: k.api.Certificate().Raw})
	for f, s := range map[string]string{filepath.Join(d, "token"): "secret", filepath.Join(d, "namespace"): "default", filepath.Join(d, "ca.crt"): string(ca),
		filepath.Join(k.root, "etc/resolv.conf"): "nameserver 127.0.0.1\n"} {
		if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
			return nil, err
		}
	}
	return k, nil
}

func (k *kube) close() {
	_ = k.dns.Close()
	k.api.CloseClientConnections()
	k.api.Close()
	_ = os.RemoveAll(k.root)
}

func (k *kube) serveDNS() {
	b := make([]byte, 4096)
	for {
		n, from, err := k.dns.ReadFrom(b)
		if err != nil {
			return
		}
		var q dnsmessage.Message
		if q.Unpack(b[:n]) != nil || len(q.Questions) != 1 {
			continue
		}
		if out, err := k.answer(q); err == nil {
			_, _ = k.dns.WriteTo(out, from)
		}
	}
}

func (k *kube) answer(q dnsmessage.Message) ([]byte, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	qn := q.Questions[0]
	name := strings.ToLower(qn.Name.String())
	r := dnsmessage.Message{Header: dnsmessage.Header{ID: q.ID, Response: true, Authoritative: true, RecursionAvailable: true, RecursionDesired: q.RecursionDesired}, Questions: q.Questions}
	found := name == k.domain()
	for _, rec := range k.recs {
		full := rec.host + "." + k.domain()
		h := dnsmessage.ResourceHeader{Name: qn.Name, Class: dnsmessage.ClassINET, TTL: 1}
		switch {
		case name == k.domain() && qn.Type == dnsmessage.TypeSRV:
			t, err := dnsmessage.NewName(full)
			if err != nil {
				return nil, err
			}
			h.Type = dnsmessage.TypeSRV
			r.Answers = append(r.Answers, dnsmessage.Resource{Header: h, Body: &dnsmessage.SRVResource{Weight: 10, Port: uint16(rec.port), Target: t}})
		case name == full || name == rec.host+".":
			found = true
			if qn.Type == dnsmessage.TypeA {
				h.Type = dnsmessage.TypeA
				var a [4]byte
				copy(a[:], net.ParseIP(rec.ip).To4())
				r.Answers = append(r.Answers, dnsmessage.Resource{Header: h, Body: &dnsmessage.AResource{A: a}})
			}
		}
	}
	if !found {
		r.RCode = dnsmessage.RCodeNameError
	}
	return r.Pack()
}

func (k *kube) serveAPI(w http.ResponseWriter, r *http.Request) {
	k.mu.Lock()
	defer k.mu.Unlock()
	w.Header().Set("Content-Type", "application/json")
	reply := func(code int, v any) {
		w.WriteHeader(code)
		_ = json.NewEncoder(w).Encode(v)
	}
	status := func(code int, reason string) {
		s := "Failure"
		if code < 300 {
			s = "Success"
		}
		reply(code, map[string]any{"kind": "Status", "apiVersion": "v1", "status": s, "reason": reason, "code": code, "message": reason})
	}
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if len(p) < 6 || strings.Join(p[:4], "/") != "apis/discovery.k8s.io/v1/namespaces" || p[5] != "endpointslices" {
		status(404, "NotFound")
		return
	}
	ns, name := p[4], ""
	if len(p) > 6 {
		name = p[6]
	}
	var body discoveryv1.EndpointSlice
	if r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH" {
		if err := json.NewDecoder(r.Body).Decode(&body); err != nil {
			status(400, "BadRequest")
			return
		}
		body.TypeMeta.Kind, body.TypeMeta.APIVersion = "EndpointSlice", "discovery.k8s.io/v1"
		body.Namespace = ns
		if name == "" {
			name = body.Name
		}
		body.Name = name
		body.ResourceVersion = fmt.Sprint(time.Now().UnixNano())
	}
	key := ns + "/" + name
	old := k.slices[key]
	switch {
	case r.Method == "POST" && old != nil:
		status(409, "AlreadyExists")
	case r.Method == "POST" && name == "":
		status(422, "Invalid")
	case r.Method == "POST":
		k.slices[key] = &body
		reply(201, body)
	case r.Method == "GET" && name == "" || r.Method == "DELETE" && name == "":
		l := discoveryv1.EndpointSliceList{}
		l.Kind, l.APIVersion = "EndpointSliceList", "discovery.k8s.io/v1"
		for id, s := range k.slices {
			if s.Namespace == ns {
				l.Items = append(l.Items, *s)
				if r.Method == "DELETE" {
					delete(k.slices, id)
				}
			}
		}
		reply(200, l)
	case old == nil && r.Method == "PATCH" && strings.Contains(r.Header.Get("Content-Type"), "apply"):
		k.slices[key] = &body
		reply(201, body)
	case old == nil:
		status(404, "NotFound")
	case r.Method == "GET":
		reply(200, old)
	case r.Method == "DELETE":
		delete(k.slices, key)
		status(200, "")
	case r.Method == "PUT":
		k.slices[key] = &body
		reply(200, body)
	case r.Method == "PATCH":
		n := *old
		if body.Endpoints != nil {
			n.Endpoints = body.Endpoints
		}
		if body.Ports != nil {
			n.Ports = body.Ports
		}
		if body.Labels != nil {
			n.Labels = body.Labels
		}
		k.slices[key] = &n
		reply(200, n)
	default:
		status(405, "MethodNotAllowed")
	}
}

// pod is a server process of a StatefulSet.
type pod struct {
	srv  *Server
	ip   string
	up   bool
	name string
}

type podWorld struct {
	*kube
	pods  []*pod
	gport int
	hosts *rand.Rand
}

func (w *podWorld) newIP() string {
	return fmt.Sprintf("127.%d.%d.%d", 2+w.hosts.Intn(250), w.hosts.Intn(256), 1+w.hosts.Intn(254))
}

// run starts pod i (again) at a new address; the node ends by itself when it cannot
// join, and is then started again, as Kubernetes does.
func (w *podWorld) run(i int) error {
	p := w.pods[i]
	p.ip = w.newIP()
	w.mu.Lock()
	var recs []krec
	for j, q := range w.pods {
		if j == i || q.ip != "" {
			recs = append(recs, krec{host: q.name, port: q.srv.HTTPPort, ip: q.ip})
		}
	}
	w.recs = recs
	w.mu.Unlock()
	host, port, _ := net.SplitHostPort(w.api.Listener.Addr().String())
	p.srv.Flags = []string{"--cluster.service_name", w.svc, "--grpc.address", fmt.Sprintf("%s:%d", p.ip, w.gport)}
	p.srv.Raft = p.ip + ":12000" // not used: the address comes from the service records
	p.srv.Env = []string{"VERIF_ROOT=" + w.root, "VERIF_HOSTNAME=" + p.name, "VERIF_DNS=" + w.dns.LocalAddr().String(),
		"KUBERNETES_SERVICE_HOST=" + host, "KUBERNETES_SERVICE_PORT=" + port, "GODEBUG=netdns=go"}
	var err error
	for try := 0; try < 5; try++ {
		if err = p.srv.Start(); err == nil {
			p.up = true
			return nil
		}
		if errors.Is(err, ErrBusyPort) || !strings.Contains(err.Error(), "failed to join") {
			return err
		}
	}
	return V("node %s never starts: %v", p.name, err)
}

// owner tells which running pod the service points at, and what is wrong if none.
func (w *podWorld) owner() (int, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var my []discoveryv1.EndpointSlice
	for _, s := range w.slices {
		if s.Namespace == "default" && s.Labels["kubernetes.io/service-name"] == w.svc {
			my = append(my, *s)
		}
	}
	at := fmt.Sprint(brief(my))
	if len(my) != 1 || len(my[0].Endpoints) != 1 || len(my[0].Endpoints[0].Addresses) != 1 || len(my[0].Ports) != 1 || my[0].Ports[0].Port == nil {
		return -1, at
	}
	for i, p := range w.pods {
		if p.up && p.ip == my[0].Endpoints[0].Addresses[0] {
			if int(*my[0].Ports[0].Port) != p.srv.HTTPPort {
				return -1, at
			}
			return i, at
		}
	}
	return -1, at
}

func (w *podWorld) describe() (out []string) {
	for _, p := range w.pods {
		if p.up {
			out = append(out, fmt.Sprintf("%s %s port %d", p.name, p.ip, p.srv.HTTPPort))
		}
	}
	return
}

// leader finds the pod that leads: the only one that enqueues on a stream, which is
// not forwarded.
func (w *podWorld) leader() int {
	for i, p := range w.pods {
		if p.up && w.leads(p) {
			return i
		}
	}
	return -1
}

func (w *podWorld) leads(p *pod) bool {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	cc, err := grpc.Dial(fmt.Sprintf("%s:%d", p.ip, w.gport), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return false
	}
	defer cc.Close()
	cli := pb.NewDOQClient(cc)
	if _, err := cli.CreateQueue(ctx, &pb.CreateQueueRequest{Name: "who-leads", Type: "delayed"}); err != nil {
		return false
	}
	st, err := cli.EnqueueStream(ctx)
	if err != nil {
		return false
	}
	if err := st.Send(&pb.EnqueueRequest{QueueName: "who-leads", Content: "x"}); err != nil {
		return false
	}
	m, err := st.Recv()
	return err == nil && m.Success
}

// settle waits until the service points at the leader and stays there.
func (w *podWorld) settle(what string) (int, error) {
	last, since, led := -1, RealNow(), -1
	for t0 := RealNow(); RealNow().Sub(t0) < 60*time.Second; time.Sleep(50 * time.Millisecond) {
		for _, p := range w.pods {
			if p.up {
				if o, dead := p.srv.Died(); dead {
					return -1, V("%s: node %s ended by itself: %.3000s", what, p.name, o)
				}
			}
		}
		i, _ := w.owner()
		if i != last {
			last, since = i, RealNow()
		}
		if i >= 0 && RealNow().Sub(since) > 2*time.Second {
			if led = w.leader(); led == i {
				return i, nil
			}
		}
	}
	_, at := w.owner()
	who := "none of them leads"
	if led >= 0 {
		who = w.pods[led].name + " leads"
	}
	return -1, V("%s: after 60 s the endpoint slice of the service is %v; running nodes: %q; %s", what, at, w.describe(), who)
}

type bootHist struct {
	N    int    `json:"n"`
	Svc  string `json:"svc"`
	Seed int64  `json:"seed"`
	Ops  []int  `json:"ops"`  // 0 kill the node the service points at, k kill the k-th other one
	Back []bool `json:"back"` // the killed node comes back before the next step, or only then
}

type bootCase struct {
	Hists []bootHist `json:"hists"`
}

func (h bootHist) run(moves *int) error {
	k, err := newKube(h.Svc)
	if err != nil {
		return err
	}
	w := &podWorld{kube: k, gport: FreePort(), hosts: rand.New(rand.NewSource(h.Seed ^ int64(os.Getpid())<<24 ^ time.Now().UnixNano()))}
	defer func() {
		for _, p := range w.pods {
			p.srv.Close()
		}
		k.close()
	}()
	cur := -1
	for i := 0; i < h.N; i++ {
		s := NewServer()
		s.Bin = os.Getenv("VERIF_K8S_SERVER")
		w.pods = append(w.pods, &pod{srv: s, name: fmt.Sprintf("%s-%d", h.Svc, i)})
		if err := w.run(i); err != nil {
			return err
		}
		if cur, err = w.settle(fmt.Sprintf("%d nodes have started", i+1)); err != nil {
			return err
		}
	}
	for j, op := range h.Ops {
		v := (cur + op) % h.N
		what := fmt.Sprintf("step %d: the node that the service points at was killed", j)
		if v != cur {
			what = fmt.Sprintf("step %d: a node that the service does not point at was killed", j)
		}
		was := w.pods[v].ip
		w.mu.Lock()
		w.pods[v].up = false
		w.mu.Unlock()
		w.pods[v].srv.Kill()
		if h.N > 1 && !h.Back[j] {
			c, err := w.settle(what)
			if err != nil {
				return err
			}
			if c != cur {
				*moves++
			}
			cur = c
		}
		if err := w.run(v); err != nil {
			return err
		}
		c, err := w.settle(what + fmt.Sprintf(" and started again at %s instead of %s", w.pods[v].ip, was))
		if err != nil {
			return err
		}
		if c != cur || h.N == 1 {
			*moves++
		}
		cur = c
	}
	return nil
}

func TestC23Boot(t *testing.T) {
	if os.Getenv("VERIF_K8S_SERVER") == "" {
		t.Fatal("VERIF_K8S_SERVER is not set")
	}
	Main(t, Check[bootCase]{
		ID: "C23", Test: "C23Boot",
		Rule:  "a case is a group of StatefulSets of 1 or 3 real server processes that find each other through DNS service records and write to a Kubernetes API, both played by the harness; nodes start one after another, are killed (the one that the service points at, or another) and come back at a new address; the service must always come to point at the leader (the one node that enqueues on a stream), and at another node when that one is killed; non-trivial: the service moved twice",
		Quick: 1, Thorough: 12, QuickSecs: 60, ThoroughSecs: 900,
		Gen: func(t *rapid.T) bootCase {
			var c bootCase
			for _, n := range []int{1, 3} {
				h := bootHist{N: n, Svc: Pick(t, []string{"doq", "queue", "a-b"}), Seed: int64(Uni(t, 1<<20))}
				for k := UniRange(t, 1, 2); k > 0; k-- {
					h.Ops = append(h.Ops, Uni(t, n))
					h.Back = append(h.Back, Uni(t, 3) == 0)
				}
				c.Hists = append(c.Hists, h)
			}
			return c
		},
		Run: func(c bootCase, tr *Trace) error {
			errs := make([]error, len(c.Hists))
			moves := make([]int, len(c.Hists))
			var wg sync.WaitGroup
			for i := range c.Hists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for try := 0; try < 3; try++ {
						moves[i] = 0
						if errs[i] = c.Hists[i].run(&moves[i]); !errors.Is(errs[i], ErrBusyPort) {
							break
						}
					}
				}()
			}
			wg.Wait()
			sum := 0
			for i, err := range errs {
				if errors.Is(err, ErrBusyPort) {
					tr.Discard = "port taken"
				} else if err != nil {
					return err
				}
				sum += moves[i]
			}
			tr.Count("service_moves", sum)
			tr.Count("kubernetes_clusters", len(c.Hists))
			tr.Nontrivial = sum >= 2
			return nil
		},
	})
}
