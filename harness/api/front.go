// Package api drives the HTTP and gRPC front ends of the real code.
package api

import (
	"bytes"
	"context"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	nethttp "net/http"
	"net/url"
	"strconv"
	"time"
	"unicode/utf16"

	"github.com/gofiber/fiber/v2"
	"github.com/kgantsov/doq/pkg/config"
	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	"github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/zzverif/core"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/test/bufconn"
)

// Switch is a node that can be exchanged behind running services.
type Switch struct{ http.Node }

// App builds the HTTP service of a node and returns its router.
func App(cfg *config.Config, node http.Node) (*fiber.App, error) {
	var none embed.FS
	s := http.NewHttpService(cfg, node, none, none)
	p, err := core.FieldByType[*fiber.App](s)
	if err != nil {
		return nil, err
	}
	return *p, nil
}

// BufGRPC serves a node over an in-memory connection.
func BufGRPC(node http.Node) (*grpc.Server, *bufconn.Listener, error) {
	s, err := doqgrpc.NewGRPCServer(node, 0)
	if err != nil {
		return nil, nil, err
	}
	l := bufconn.Listen(1 << 16)
	go func() { _ = s.Serve(l) }()
	return s, l, nil
}

// Dial connects to an in-memory listener.
func Dial(l *bufconn.Listener) (*grpc.ClientConn, error) {
	return grpc.Dial("passthrough:///doq", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return l.Dial() }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
}

// Client is one way to reach a node over HTTP; Do performs a request.
type Client struct {
	Do func(*nethttp.Request) (*nethttp.Response, error)
}

// AppClient serves requests in process, without sockets.
func AppClient(app *fiber.App) Client {
	return Client{Do: func(r *nethttp.Request) (*nethttp.Response, error) { return app.Test(r, 60_000) }}
}

// Call makes a request; status 0 means that there was no answer.
func (c Client) Call(method, path string, body []byte, out any) (int, error) {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := nethttp.NewRequest(method, "http://doq"+path, rd)
	if err != nil {
		return 0, err
	}
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
		req.Header.Set("Content-Length", strconv.Itoa(len(body)))
	}
	resp, err := c.Do(req)
	if err != nil {
		return 0, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, err
	}
	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
		return resp.StatusCode, fmt.Errorf("HTTP status %d: %.300s", resp.StatusCode, b)
	}
	if out != nil {
		if err := json.Unmarshal(b, out); err != nil {
			return resp.StatusCode, core.V("%s %s answers %d with a body that is not the documented JSON: %.300q: %v", method, path, resp.StatusCode, b, err)
		}
	}
	return resp.StatusCode, nil
}

// QPath is the URL path of a queue.
func QPath(name string) string { return "/API/v1/queues/" + url.PathEscape(name) }

// JString encodes a JSON string; with ascii, everything beyond ASCII is escaped.
func JString(s string, ascii bool) string {
	if !ascii {
		b, _ := json.Marshal(s)
		return string(b)
	}
	out := []byte{'"'}
	for _, r := range s {
		switch {
		case r >= 0x10000:
			a, b := utf16.EncodeRune(r)
			out = append(out, fmt.Sprintf("\\u%04x\\u%04x", a, b)...)
		case r < 0x20 || r > 0x7e || r == '"' || r == '\\' || r == '/':
			out = append(out, fmt.Sprintf("\\u%04x", r)...)
		default:
			out = append(out, byte(r))
		}
	}
	return string(append(out, '"'))
}

// HMsg is a message as HTTP reports it.
type HMsg struct {
	Status   string `json:"status"`
	ID       string `json:"id"`
	Group    string `json:"group"`
	Priority int64  `json:"priority"`
	Content  string `json:"content"`
}

// Msg converts it; a bad id is a violation.
func (m HMsg) Msg() (core.Msg, error) {
	id, err := strconv.ParseUint(m.ID, 10, 64)
	if err != nil {
		return core.Msg{}, core.V("HTTP reports the message id %q", m.ID)
	}
	return core.Msg{ID: id, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

// HInfo is queue info as HTTP reports it.
type HInfo struct {
	Name    string  `json:"name"`
	Type    string  `json:"type"`
	Enq     float64 `json:"enqueue_rps"`
	Deq     float64 `json:"dequeue_rps"`
	Ack     float64 `json:"ack_rps"`
	Nack    float64 `json:"nack_rps"`
	Ready   int64   `json:"ready"`
	Unacked int64   `json:"unacked"`
	Total   int64   `json:"total"`
}

// Info converts it.
func (i HInfo) Info() core.Info {
	return core.Info{Name: i.Name, Type: i.Type, Ready: i.Ready, Unacked: i.Unacked, Total: i.Total, Enq: i.Enq, Deq: i.Deq, Ack: i.Ack, Nack: i.Nack}
}

// Front is a system that is driven through HTTP and gRPC at random.
type Front struct {
	H      Client
	G      pb.DOQClient
	Sel    func() int // bit 0: gRPC, bit 1: leave out what has a default, bit 2: ASCII-only JSON
	Back   core.Sys   // what lies behind (for Reload and Close)
	Calls  [2]int
	Strict bool // compare the echo of every answer
}

func (f *Front) sel() int {
	if f.Sel == nil {
		return 0
	}
	return f.Sel()
}

func (f *Front) ctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 60*time.Second)
}

// success: err == nil and the Success flag must agree.
func gok(err error, nilResp, success bool) error {
	if err != nil {
		return err
	}
	if nilResp || !success {
		return core.V("a gRPC call returns no error but success=false")
	}
	return nil
}

func (f *Front) Create(typ, name string) error {
	if f.sel()&1 == 1 {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.CreateQueue(ctx, &pb.CreateQueueRequest{Name: name, Type: typ})
		return gok(err, r == nil, r.GetSuccess())
	}
	f.Calls[0]++
	a := f.sel()&4 != 0
	var out struct{ Status, Name, Type string }
	_, err := f.H.Call("POST", "/API/v1/queues", []byte(`{"name":`+JString(name, a)+`,"type":`+JString(typ, a)+`}`), &out)
	if err == nil && f.Strict && (out.Status != "CREATED" || out.Name != name || out.Type != typ) {
		return core.V("creating %s queue %q over HTTP answers %+v", typ, name, out)
	}
	return err
}

func (f *Front) Delete(name string) error {
	if f.sel()&1 == 1 {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: name})
		return gok(err, r == nil, r.GetSuccess())
	}
	f.Calls[0]++
	var out struct{ Status string }
	_, err := f.H.Call("DELETE", QPath(name), nil, &out)
	if err == nil && f.Strict && out.Status != "DELETED" {
		return core.V("deleting queue %q over HTTP answers %+v", name, out)
	}
	return err
}

func (f *Front) Enqueue(_ uint64, name, group string, prio int64, content string) (core.Msg, error) {
	// HTTP has a minimum priority of 0 and reads an empty group as a missing one
	if f.sel()&1 == 1 || prio < 0 || group == "" {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.Enqueue(ctx, &pb.EnqueueRequest{QueueName: name, Group: group, Priority: prio, Content: content})
		if err := gok(err, r == nil, r.GetSuccess()); err != nil {
			return core.Msg{}, err
		}
		if f.Strict && r.Group != group {
			return core.Msg{}, core.V("enqueue with group %q over gRPC reports group %q", group, r.Group)
		}
		return core.Msg{ID: r.Id, Group: r.Group, Priority: r.Priority, Content: r.Content}, nil
	}
	f.Calls[0]++
	a := f.sel()&4 != 0
	body := `{"priority":` + strconv.FormatInt(prio, 10) + `,"content":` + JString(content, a)
	if group != "default" || f.sel()&2 == 0 {
		body += `,"group":` + JString(group, a)
	}
	var out HMsg
	_, err := f.H.Call("POST", QPath(name)+"/messages", []byte(body+"}"), &out)
	if err != nil {
		return core.Msg{}, err
	}
	if f.Strict && (out.Status != "ENQUEUED" || out.Group != group) {
		return core.Msg{}, core.V("enqueue with group %q over HTTP reports status %q and group %q", group, out.Status, out.Group)
	}
	return out.Msg()
}

func (f *Front) Dequeue(name string, ack bool) (core.Msg, error) {
	if f.sel()&1 == 1 {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.Dequeue(ctx, &pb.DequeueRequest{QueueName: name, Ack: ack})
		if err := gok(err, r == nil, r.GetSuccess()); err != nil {
			return core.Msg{}, err
		}
		return core.Msg{ID: r.Id, Group: r.Group, Priority: r.Priority, Content: r.Content}, nil
	}
	f.Calls[0]++
	p := QPath(name) + "/messages"
	if ack || f.sel()&2 == 0 { // not acknowledging is the default
		p += "?ack=" + strconv.FormatBool(ack)
	}
	var out HMsg
	_, err := f.H.Call("GET", p, nil, &out)
	if err != nil {
		return core.Msg{}, err
	}
	if f.Strict && out.Status != "DEQUEUED" {
		return core.Msg{}, core.V("dequeue over HTTP reports status %q", out.Status)
	}
	return out.Msg()
}

func (f *Front) settle(name, what, status string, id uint64) error {
	f.Calls[0]++
	var out HMsg
	_, err := f.H.Call("POST", fmt.Sprintf("%s/messages/%d/%s", QPath(name), id, what), nil, &out)
	if err == nil && f.Strict && (out.Status != status || out.ID != strconv.FormatUint(id, 10)) {
		return core.V("%s of message %d over HTTP answers status %q and id %q", what, id, out.Status, out.ID)
	}
	return err
}

func (f *Front) Ack(name string, id uint64) error {
	if f.sel()&1 == 1 {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.Ack(ctx, &pb.AckRequest{QueueName: name, Id: id})
		return gok(err, r == nil, r.GetSuccess())
	}
	return f.settle(name, "ack", "ACKNOWLEDGED", id)
}

func (f *Front) Nack(name string, id uint64) error {
	if f.sel()&1 == 1 {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.Nack(ctx, &pb.NackRequest{QueueName: name, Id: id})
		return gok(err, r == nil, r.GetSuccess())
	}
	return f.settle(name, "nack", "UNACKNOWLEDGED", id)
}

func (f *Front) Update(name string, id uint64, prio int64) error {
	if f.sel()&1 == 1 || prio < 0 {
		f.Calls[1]++
		ctx, c := f.ctx()
		defer c()
		r, err := f.G.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: name, Id: id, Priority: prio})
		return gok(err, r == nil, r.GetSuccess())
	}
	f.Calls[0]++
	var out HMsg
	_, err := f.H.Call("PUT", fmt.Sprintf("%s/messages/%d/priority", QPath(name), id), []byte(`{"priority":`+strconv.FormatInt(prio, 10)+`}`), &out)
	if err == nil && f.Strict && (out.Status != "UPDATED" || out.ID != strconv.FormatUint(id, 10) || out.Priority != prio) {
		return core.V("priority change of message %d to %d over HTTP answers %+v", id, prio, out)
	}
	return err
}

func (f *Front) List() ([]core.Info, error) {
	var l struct {
		Queues []HInfo `json:"queues"`
	}
	_, err := f.H.Call("GET", "/API/v1/queues", nil, &l)
	var out []core.Info
	for _, i := range l.Queues {
		out = append(out, i.Info())
	}
	return out, err
}

func (f *Front) Info(name string) (core.Info, error) {
	var i HInfo
	_, err := f.H.Call("GET", QPath(name), nil, &i)
	return i.Info(), err
}

func (f *Front) Reload(mode string) error {
	if f.Back == nil {
		return errors.New("no storage to reload")
	}
	return f.Back.Reload(mode)
}

// Fault has the storage of the node refuse writes.
func (f *Front) Fault(on bool) {
	if b, ok := f.Back.(interface{ Fault(bool) }); ok {
		b.Fault(on)
	}
}

func (f *Front) Close() {
	if f.Back != nil {
		f.Back.Close()
	}
}

var _ core.Sys = (*Front)(nil)

// Services are the two front ends of one exchangeable node, for a whole process.
type Services struct {
	Node *Switch
	App  *fiber.App
	H    Client
	G    pb.DOQClient
	Srv  *grpc.Server
	L    *bufconn.Listener
}

// NewServices builds the HTTP service. Call it outside of a bubble: middleware of
// the service has goroutines that poll the operating system every few seconds.
func NewServices() (*Services, error) {
	s := &Services{Node: &Switch{}}
	app, err := App(core.Conf{Timeout: 3600, Interval: 1, Window: 10}.Config(), s.Node)
	if err != nil {
		return nil, err
	}
	s.App, s.H = app, AppClient(app)
	return s, nil
}

// StartGRPC starts the gRPC service (again).
func (s *Services) StartGRPC() error {
	srv, l, err := BufGRPC(s.Node)
	if err != nil {
		return err
	}
	s.Srv, s.L = srv, l
	cc, err := Dial(l)
	if err != nil {
		return err
	}
	s.G = pb.NewDOQClient(cc)
	return nil
}

// Dialer reaches the in-memory listener.
func (s *Services) Dialer() func(context.Context, string) (net.Conn, error) {
	return func(context.Context, string) (net.Conn, error) { return s.L.Dial() }
}
