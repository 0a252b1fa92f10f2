package front

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	nethttp "net/http"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	hraft "github.com/hashicorp/raft"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/zzverif/api"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/encoding/protowire"
	"pgregory.net/rapid"
)

// A bad step: K "bad", V the surface, T method, W path or gRPC method, C the
// payload in base64. Each one is invalid by construction.
const (
	sFSM = iota
	sHTTP
	sGRPC
	sStream
)

type field struct {
	name string
	kind string // str, int, uint, bool
}

var commands = map[string][]field{
	"createQueue":    {{"queue_type", "str"}, {"queue_name", "str"}},
	"deleteQueue":    {{"queue_name", "str"}},
	"enqueue":        {{"id", "uint"}, {"queue_name", "str"}, {"group", "str"}, {"priority", "int"}, {"content", "str"}},
	"dequeue":        {{"queue_name", "str"}, {"ack", "bool"}},
	"ack":            {{"queue_name", "str"}, {"id", "uint"}},
	"nack":           {{"queue_name", "str"}, {"id", "uint"}},
	"updatePriority": {{"queue_name", "str"}, {"id", "uint"}, {"priority", "int"}},
}
var opNames = []string{"createQueue", "deleteQueue", "enqueue", "dequeue", "ack", "nack", "updatePriority"}

func bad(surface int, method, where string, payload []byte) Op {
	return Op{K: "bad", V: surface, T: method, W: where, C: base64.StdEncoding.EncodeToString(payload)}
}

func rbytes(t *rapid.T, lo, hi int) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(t, "bytes")
}

// wrongFor is a JSON value that a field of the kind does not take.
func wrongFor(t *rapid.T, kind string) string {
	switch kind {
	case "str":
		return Pick(t, []string{"1", "true", "[]", "{}", "[\"a\"]", "1e5"})
	case "bool":
		return Pick(t, []string{"1", "\"true\"", "[]", "{}", "0"})
	case "uint":
		return Pick(t, []string{"\"1\"", "-1", "1.5", "18446744073709551616", "1e30", "true", "[1]", "{}", "\"\""})
	default:
		return Pick(t, []string{"\"1\"", "1.5", "9223372036854775808", "1e30", "true", "[1]", "{}", "-9223372036854775809"})
	}
}

// here stands for the id of a message that is in the queue when the request is
// made, so that nothing but its own fault keeps the request from working.
const here = "@@ID@@"

func genCommand(t *rapid.T, queues []string) []byte {
	op := Pick(t, opNames)
	fs := commands[op]
	q := Pick(t, append([]string{"no such queue"}, queues...))
	val := func(f field) string {
		switch f.name {
		case "queue_name":
			return api.JString(q, false)
		case "queue_type":
			return `"fair"`
		}
		return map[string]string{"str": `"x"`, "int": "7", "uint": Pick(t, []string{here, here, "9"}), "bool": "true"}[f.kind]
	}
	body := func(wrong int) string {
		var p []string
		for i, f := range fs {
			v := val(f)
			if i == wrong {
				v = wrongFor(t, f.kind)
			}
			p = append(p, fmt.Sprintf("%q:%s", f.name, v))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	whole := fmt.Sprintf(`{"op":%q,"payload":%s}`, op, body(-1))
	switch Uni(t, 10) {
	case 0: // no JSON at all
		b := rbytes(t, 0, 40)
		if json.Valid(b) {
			b = append(b, '}')
		}
		return b
	case 1: // cut off
		return []byte(whole[:Uni(t, len(whole))])
	case 2: // something behind the end
		return []byte(whole + Pick(t, []string{"}", "{}", whole, "x", "\x00", ","}))
	case 3: // unknown operation
		o := Pick(t, []string{"", "Enqueue ", "snapshot", "deleteAll", "queue", "enqueue\u0000", "ENQ", "create", "null"})
		return []byte(fmt.Sprintf(`{"op":%s,"payload":%s}`, api.JString(o, true), body(-1)))
	case 4: // the operation is not a string, or missing
		return []byte(Pick(t, []string{`{"op":1,"payload":` + body(-1) + `}`, `{"payload":` + body(-1) + `}`, `{"op":["enqueue"],"payload":` + body(-1) + `}`, `{"op":{},"payload":{}}`, `{"op":null,"payload":{}}`}))
	case 5: // the payload is no object
		return []byte(fmt.Sprintf(`{"op":%q,"payload":%s}`, op, Pick(t, []string{"1", `"x"`, "[]", "true", "[{}]", api.JString(body(-1), false)})))
	case 6: // no payload
		return []byte(fmt.Sprintf(`{"op":%q}`, op))
	case 7: // a byte of the syntax is replaced
		i := Pick(t, []int{0, len(whole) - 1, strings.Index(whole, ":"), strings.Index(whole, `"payload"`)})
		return []byte(whole[:i] + Pick(t, []string{"]", "\x01", "\xff", "=", ";"}) + whole[i+1:])
	case 8: // another type of JSON
		return []byte(Pick(t, []string{"null", "[]", "1", `"enqueue"`, "true", "{}", "[" + whole + "]", strings.Repeat("[", 20000), strings.Repeat(`{"op":`, 20000)}))
	default: // a field has the wrong type
		return []byte(fmt.Sprintf(`{"op":%q,"payload":%s}`, op, body(Uni(t, len(fs)))))
	}
}

// genUnknown is a well-formed command that addresses something that does not exist.
func genUnknown(t *rapid.T, queues []string) []byte {
	q := "no such queue"
	op := Pick(t, []string{"deleteQueue", "enqueue", "dequeue", "ack", "nack", "updatePriority"})
	if Uni(t, 2) == 0 && len(queues) > 0 {
		op, q = Pick(t, []string{"ack", "nack", "updatePriority"}), Pick(t, queues)
	}
	return []byte(fmt.Sprintf(`{"op":%q,"payload":{"queue_name":%s,"id":%d,"priority":5,"content":"x","group":"default"}}`, op, api.JString(q, false),
		Pick(t, []uint64{0, 3, 1<<64 - 1, 1 << 63})))
}

func genHTTP(t *rapid.T, queues []string) Op {
	q := "no such queue"
	known := len(queues) > 0
	if known {
		q = Pick(t, queues)
	}
	p := api.QPath(q)
	u := api.QPath("no such queue")
	id := Pick(t, []string{"abc", "-1", "1.5", "18446744073709551616", "0x10", "%201", "1e3", "%00", "1%2F", "٣", "99999999999999999999999"})
	switch Uni(t, 14) {
	case 0: // bad id
		return bad(sHTTP, "POST", p+"/messages/"+id+"/"+Pick(t, []string{"ack", "nack"}), nil)
	case 1:
		return bad(sHTTP, "PUT", p+"/messages/"+id+"/priority", []byte(`{"priority":1}`))
	case 2: // unknown message
		return bad(sHTTP, "POST", p+"/messages/12/"+Pick(t, []string{"ack", "nack"}), nil)
	case 3: // unknown queue
		return Pick(t, []Op{
			bad(sHTTP, "POST", u+"/messages", []byte(`{"content":"x","priority":1}`)), bad(sHTTP, "GET", u+"/messages?ack=true", nil),
			bad(sHTTP, "GET", u+"/messages", nil), bad(sHTTP, "DELETE", u, nil), bad(sHTTP, "GET", u, nil), bad(sHTTP, "POST", u+"/messages/1/ack", nil),
			bad(sHTTP, "POST", u+"/messages/1/nack", nil), bad(sHTTP, "PUT", u+"/messages/1/priority", []byte(`{"priority":1}`))})
	case 4: // negative priority
		n := Pick(t, []string{"-1", "-9223372036854775808", "-100"})
		if Uni(t, 2) == 0 {
			return bad(sHTTP, "PUT", p+"/messages/"+here+"/priority", []byte(`{"priority":`+n+`}`))
		}
		return bad(sHTTP, "POST", p+"/messages", []byte(`{"content":"x","priority":`+n+`}`))
	case 5: // priority of another type
		n := wrongFor(t, "int")
		if Uni(t, 2) == 0 {
			return bad(sHTTP, "PUT", p+"/messages/"+here+"/priority", []byte(`{"priority":`+n+`}`))
		}
		return bad(sHTTP, "POST", p+"/messages", []byte(`{"content":"x","priority":`+n+`}`))
	case 6: // content or group of another type
		return bad(sHTTP, "POST", p+"/messages", []byte(`{"`+Pick(t, []string{"content", "group"})+`":`+wrongFor(t, "str")+`,"priority":3}`))
	case 7: // something is missing
		return Pick(t, []Op{bad(sHTTP, "POST", p+"/messages", []byte(`{"content":"x"}`)), bad(sHTTP, "POST", p+"/messages", []byte(`{"priority":1}`)),
			bad(sHTTP, "POST", p+"/messages", []byte(`{}`)), bad(sHTTP, "PUT", p+"/messages/"+here+"/priority", []byte(`{}`)), bad(sHTTP, "POST", p+"/messages", nil),
			bad(sHTTP, "POST", "/API/v1/queues", []byte(`{"name":"n"}`)), bad(sHTTP, "POST", "/API/v1/queues", []byte(`{"type":"fair"}`)), bad(sHTTP, "POST", "/API/v1/queues", nil)})
	case 8: // unknown type of queue
		ty := Pick(t, []string{`""`, `"Fair"`, `"delayed "`, `"priority"`, `1`, `null`, `["fair"]`, `{}`, `true`, `"fair,delayed"`})
		return bad(sHTTP, "POST", "/API/v1/queues", []byte(`{"name":"`+Pick(t, []string{"newq", "x"})+`","type":`+ty+`}`))
	case 9: // bad name of a queue
		n := Pick(t, []string{"1", "null", "{}", "[]", api.JString(strings.Repeat("n", 1025), false), "true"})
		return bad(sHTTP, "POST", "/API/v1/queues", []byte(`{"name":`+n+`,"type":"fair"}`))
	case 10: // no JSON
		b := rbytes(t, 1, 40)
		if json.Valid(b) {
			b = append(b, '}')
		}
		return bad(sHTTP, "POST", Pick(t, []string{p + "/messages", "/API/v1/queues", "/join"}), b)
	case 11: // cut off, or the wrong kind
		w := `{"content":"x","priority":1,"group":"g"}`
		path := p + "/messages"
		if Uni(t, 2) == 0 {
			w, path = `{"name":"cutq","type":"fair"}`, "/API/v1/queues"
		}
		return bad(sHTTP, "POST", path, []byte(Pick(t, []string{w[:1+Uni(t, len(w)-1)], "[" + w + "]", "null", "1", `"x"`, strings.Repeat("[", 50000), w + "}"})))
	case 12: // a dequeue that is not understood must not take anything
		return bad(sHTTP, "GET", p+"/messages?ack="+Pick(t, []string{"maybe", "2", "yes", "tru", "%00", "-1"}), nil)
	default: // methods that are not served
		return Pick(t, []Op{bad(sHTTP, "PATCH", p, nil), bad(sHTTP, "PUT", p, []byte("{}")), bad(sHTTP, "DELETE", p+"/messages", nil), bad(sHTTP, "DELETE", "/API/v1/queues", nil),
			bad(sHTTP, "PATCH", p+"/messages/"+here+"/ack", nil), bad(sHTTP, "POST", p, []byte(`{"name":"n","type":"fair"}`)), bad(sHTTP, "DELETE", p+"/messages/"+here, nil),
			bad(sHTTP, "GET", p+"/messages/"+here+"/ack", nil), bad(sHTTP, "PUT", p+"/messages/"+here+"/nack", nil), bad(sHTTP, "POST", p+"/messages/"+here+"/priority", []byte(`{"priority":1}`))})
	}
}

var methods = []string{"CreateQueue", "DeleteQueue", "Enqueue", "Dequeue", "Ack", "Nack", "UpdatePriority"}

func genGRPC(t *rapid.T, queues []string) Op {
	if Uni(t, 3) == 0 {
		op := Pick(t, []string{"DeleteQueue", "Enqueue", "Dequeue", "Ack", "Nack", "UpdatePriority"})
		var b []byte // well-formed, but of a queue or message that does not exist
		q := "no such queue"
		if strings.HasSuffix(op, "ck") || op == "UpdatePriority" {
			if len(queues) > 0 && Uni(t, 2) == 0 {
				q = Pick(t, queues)
			}
		}
		b = protowire.AppendTag(b, 1, protowire.BytesType)
		b = protowire.AppendString(b, q)
		if strings.HasSuffix(op, "ck") || op == "UpdatePriority" {
			b = protowire.AppendTag(b, 2, protowire.VarintType)
			b = protowire.AppendVarint(b, Pick(t, []uint64{0, 3, 1<<64 - 1}))
		}
		return bad(Pick(t, []int{sGRPC, sGRPC, sGRPC}), "", op, b)
	}
	q := "no such queue"
	if len(queues) > 0 {
		q = Pick(t, queues)
	}
	var b []byte
	good := protowire.AppendString(protowire.AppendTag(nil, 1, protowire.BytesType), q)
	switch Uni(t, 5) {
	case 0: // a string that is not UTF-8
		b = protowire.AppendTag(nil, 1, protowire.BytesType)
		b = protowire.AppendBytes(b, []byte("\xff\xfe"+q))
	case 1: // cut off inside of the name
		b = good[:UniRange(t, 1, len(good)-1)]
	case 2: // the tag of a field, and nothing else
		b = append(append([]byte{}, good...), protowire.AppendTag(nil, 2, protowire.VarintType)...)
	case 3: // a number that never ends
		b = append(append(append([]byte{}, good...), protowire.AppendTag(nil, 2, protowire.VarintType)...), []byte(strings.Repeat("\xff", 11))...)
	default: // field number 0
		b = append(append([]byte{}, good...), 0x00, 0x01)
	}
	if Uni(t, 4) == 0 {
		return bad(sStream, "", Pick(t, []string{"EnqueueStream", "DequeueStream"}), b)
	}
	m := Pick(t, methods)
	op := bad(sGRPC, "", m, b)
	op.A = m == "Ack" || m == "Nack" || m == "UpdatePriority" // put the id of a message in front
	return op
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error)   { return *(v.(*[]byte)), nil }
func (rawCodec) Unmarshal(b []byte, v any) error { *(v.(*[]byte)) = append([]byte{}, b...); return nil }
func (rawCodec) Name() string                    { return "proto" }

type abuser struct {
	s   *api.Services
	n   *NodeSys
	cc  *grpc.ClientConn
	tr  *Trace
	bad int
}

func (a *abuser) do(w *World, op *Op) error {
	payload, err := base64.StdEncoding.DecodeString(op.C)
	if err != nil {
		return err
	}
	a.bad++
	id := w.AnyID(op.G, op.I)
	where := strings.ReplaceAll(op.W, here, fmt.Sprint(id))
	payload = []byte(strings.ReplaceAll(string(payload), here, fmt.Sprint(id)))
	if op.A {
		payload = append(protowire.AppendVarint(protowire.AppendTag(nil, 2, protowire.VarintType), id), payload...)
	}
	switch op.V {
	case sFSM:
		a.tr.Count("commands", 1)
		for i := 0; i < 2; i++ {
			var resp any
			if i == 0 { // first at the state machine alone: a panic there is caught and can be minimised
				resp = a.n.M.FSM.Apply(&hraft.Log{Data: payload, Type: hraft.LogCommand, AppendedAt: time.Now()})
			} else {
				f := a.n.M.Raft.Apply(payload, 10*time.Second)
				if err := f.Error(); err != nil {
					return V("applying the command %.300q through raft failed: %v", payload, err)
				}
				resp = f.Response()
			}
			if r, text := Response(resp); r.Ok {
				return V("the invalid command %.300q is answered with %s", payload, text)
			}
		}
	case sHTTP:
		a.tr.Count("http_requests", 1)
		var body io.Reader
		if len(payload) > 0 {
			body = strings.NewReader(string(payload))
		}
		req, err := nethttp.NewRequest(op.T, "http://doq"+where, body)
		if err != nil {
			a.tr.Count("not_sendable", 1)
			return nil
		}
		if body != nil {
			req.Header.Set("Content-Type", "application/json")
		}
		resp, err := a.s.App.Test(req, 60_000)
		if err != nil {
			return V("%s %s with body %.200q got no answer: %v", op.T, where, payload, err)
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		if resp.StatusCode < 400 || resp.StatusCode >= 500 {
			return V("the invalid request %s %s with body %.200q is answered with status %d %.300s", op.T, where, payload, resp.StatusCode, b)
		}
	case sGRPC:
		a.tr.Count("grpc_requests", 1)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		var out []byte
		if err := a.cc.Invoke(ctx, "/"+pb.DOQ_ServiceDesc.ServiceName+"/"+op.W, &payload, &out, grpc.ForceCodec(rawCodec{})); err == nil {
			return V("the invalid gRPC request %s %q is answered with %q", op.W, payload, out)
		}
	case sStream:
		a.tr.Count("grpc_streams", 1)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		st, err := a.cc.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true, ClientStreams: true}, "/"+pb.DOQ_ServiceDesc.ServiceName+"/"+op.W, grpc.ForceCodec(rawCodec{}))
		if err != nil {
			return err
		}
		_ = st.SendMsg(&payload)
		_ = st.CloseSend()
		var out []byte
		if err := st.RecvMsg(&out); err == nil || err == io.EOF {
			return V("the invalid request %q on a %s is answered with %q, %v", payload, op.W, out, err)
		}
	}
	return w.Step(&Op{K: "list"})
}

func TestC21(t *testing.T) {
	s := newServices(t)
	p := Profile{Sys: "front", Types: both, Queues: [2]int{1, 3}, Names: TrickyNames, Prio: PastPrio, MaxOps: 40,
		Groups:   []string{"default", "a", "b", ""},
		Weights:  map[string]int{"bad": 40, "enq": 20, "deq": 12, "ack": 5, "nack": 4, "upd": 5, "delete": 1, "create": 2, "info": 3, "reload": 1},
		Timeouts: []int64{3600}, Intervals: []int64{1}, Reloads: []string{"clean"}, MultiDeq: true, Interfaces: 8}
	Main(t, Check[Case]{
		ID:     "C21",
		Rule:   "a case is a random valid history over HTTP and gRPC with invalid input in between: undecodable, mistyped, truncated and unknown replicated commands (given to the state machine and through raft), HTTP requests and gRPC messages that are invalid by construction; each must be refused (no answer in the 5xx range, no crash), and listing, counts and the complete drain must be those of the history without them; non-trivial: at least 3 invalid inputs over at least 2 of the surfaces while messages were present",
		Setup:  func() error { toPresent(); return s.StartGRPC() },
		Bubble: true, Minimize: MinimizeCase, Quick: 250, Thorough: 8000, QuickSecs: 45, ThoroughSecs: 700,
		Assumptions: []string{"HTTP input reaches the router as a parsed request; malformed HTTP framing is the business of the server library"},
		Gen: func(t *rapid.T) Case {
			c := p.Gen(t)
			for i := range c.Ops {
				if c.Ops[i].K != "bad" {
					continue
				}
				names := []string{Pick(t, c.Names)}
				switch Uni(t, 4) {
				case 0:
					c.Ops[i] = bad(sFSM, "", "", genCommand(t, names))
				case 1:
					if Uni(t, 3) > 0 {
						c.Ops[i] = genHTTP(t, names)
					} else {
						c.Ops[i] = bad(sFSM, "", "", genUnknown(t, names))
					}
				case 2:
					c.Ops[i] = genHTTP(t, names)
				default:
					c.Ops[i] = genGRPC(t, names)
				}
				c.Ops[i].G, c.Ops[i].I = names[0], Uni(t, 1000)
			}
			return c
		},
		Run: func(c Case, tr *Trace) error { return runC21(s, c, tr) },
	})
}

func runC21(s *api.Services, c Case, tr *Trace) error {
	back, err := NewNodeSys(Conf{Timeout: c.Timeout, Interval: c.Interval, Window: c.Window})
	if err != nil {
		return err
	}
	n := back.(*NodeSys)
	f := &api.Front{H: s.H, G: s.G, Back: &reloadable{n, s}}
	s.Node.Node = n.M.Node
	defer f.Close()
	cc, err := grpc.Dial("passthrough:///doq", grpc.WithContextDialer(s.Dialer()), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return err
	}
	defer cc.Close()
	a := &abuser{s: s, n: n, cc: cc, tr: tr}
	w := NewWorld(&c, f, Claims{Conserve: true, Content: true, Lifecycle: true, Settle: true, Counts: true, Restart: true}, tr)
	w.Custom = a.do
	f.Sel = func() int {
		if w.Cur != nil && w.Cur.K != "bad" {
			return w.Cur.V
		}
		return 0
	}
	surf := map[int]bool{}
	w.After = func(w *World, op *Op) error {
		if op.K == "bad" && w.MsgCount() > 0 {
			surf[op.V] = true
		}
		return nil
	}
	if err := w.Run(); err != nil {
		return err
	}
	w.DeleteAll()
	synctest.Wait()
	tr.Nontrivial = a.bad >= 3 && len(surf) >= 2
	tr.Count("deliveries", w.Deliveries)
	return nil
}

// reloadable keeps the services pointed at the node that was restarted.
type reloadable struct {
	*NodeSys
	s *api.Services
}

func (r *reloadable) Reload(mode string) error {
	err := r.NodeSys.Reload(mode)
	r.s.Node.Node = r.M.Node
	return err
}
