package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Server is the real server binary running as a process of its own.
type Server struct {
	Dir      string
	Host     string
	HTTPPort int
	RaftPort int
	GRPCPort int
	Flags    []string
	Env      []string
	Bin      string // the server unless set
	Raft     string // raft address (defaults to 127.0.0.1:RaftPort)
	cmd      *exec.Cmd
	out      *tailBuf
	Cl       *http.Client
	exited   chan struct{}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16000 {
		t.b = append([]byte{}, t.b[len(t.b)-8000:]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

var (
	portMu   sync.Mutex
	portUsed = map[int]bool{}
	portRand = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
)

// FreePort finds a port nobody listens on right now, outside the range that the kernel
// takes for outgoing connections, and never the same one twice in this process.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for try := 0; ; try++ {
		p := 13000 + portRand.Intn(19000)
		if portUsed[p] && try < 10000 {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err != nil && try < 10000 {
			continue
		}
		if err == nil {
			_ = l.Close()
		}
		portUsed[p] = true
		return p
	}
}

// OwnsPort reports whether a process listens on a TCP port itself; known is false when
// the system does not tell.
func OwnsPort(pid, port int) (owns, known bool) {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n") {
			c := strings.Fields(line)
			if len(c) > 9 && c[3] == "0A" && strings.HasSuffix(c[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+c[9]+"]"] = true
			}
		}
	}
	dir := fmt.Sprintf("/proc/%d/fd", pid)
	fds, err := os.ReadDir(dir)
	if err != nil || len(fds) == 0 || len(inodes) == 0 {
		return false, false
	}
	for _, fd := range fds {
		l, err := os.Readlink(dir + "/" + fd.Name())
		if err == nil && inodes[l] {
			return true, true
		}
	}
	return false, true
}

// NewServer prepares a server on a fresh directory.
func NewServer(flags ...string) *Server {
	return &Server{Dir: TempDir(), Host: "127.0.0.1", HTTPPort: FreePort(), RaftPort: FreePort(), GRPCPort: FreePort(), Flags: flags,
		Cl: &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}}
}

// ErrBusyPort means that the environment, not the server, is at fault.
var ErrBusyPort = errors.New("a port is taken by someone else")

// Start runs the server and waits until it serves. It is a violation if it does not.
func (s *Server) Start() error {
	if s.Raft == "" {
		s.Raft = fmt.Sprintf("127.0.0.1:%d", s.RaftPort)
	}
	args := append([]string{"--storage.data_dir", s.Dir, "--http.port", strconv.Itoa(s.HTTPPort), "--raft.address", s.Raft,
		"--grpc.address", fmt.Sprintf("127.0.0.1:%d", s.GRPCPort), "--logging.level", "error"}, s.Flags...)
	if s.Bin == "" {
		s.Bin = os.Getenv("VERIF_SERVER")
	}
	s.cmd = exec.Command(s.Bin, args...)
	s.cmd.Dir = s.Dir
	s.cmd.Env = []string{"HOME=" + s.Dir, "PATH=" + os.Getenv("PATH"), "GOMAXPROCS=2", "GOTRACEBACK=all"}
	s.cmd.Env = append(s.cmd.Env, s.Env...)
	s.out = &tailBuf{}
	s.cmd.Stdout, s.cmd.Stderr = io.Discard, s.out
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	exited := make(chan struct{})
	s.exited = exited
	cmd := s.cmd
	go func() { _ = cmd.Wait(); close(exited) }()
	for t0 := RealNow(); RealNow().Sub(t0) < 100*time.Second; time.Sleep(30 * time.Millisecond) {
		select {
		case <-exited:
			o := s.out.String()
			if strings.Contains(o, "address already in use") {
				return ErrBusyPort
			}
			return V("the server ended by itself: %.3000s", o)
		default:
		}
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", s.Host, s.HTTPPort), time.Second); err == nil {
			_ = c.Close()
			if owns, known := OwnsPort(s.cmd.Process.Pid, s.HTTPPort); known && !owns {
				continue // somebody else answered
			}
			return nil
		}
	}
	if owns, known := OwnsPort(s.cmd.Process.Pid, s.HTTPPort); known && !owns {
		return ErrBusyPort
	}
	return V("the server does not serve within 100 s of its start")
}

// Kill ends the process without warning.
func (s *Server) Kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		_ = s.cmd.Process.Kill()
		<-s.exited
	}
	s.Cl.CloseIdleConnections()
}

// Died reports whether the process ended by itself, with its last words.
func (s *Server) Died() (string, bool) {
	select {
	case <-s.exited:
		return s.out.String(), true
	default:
		return "", false
	}
}

// Close kills the server and removes its files.
func (s *Server) Close() {
	s.Kill()
	_ = os.RemoveAll(s.Dir)
}

// Call makes one HTTP request. status 0 means that no complete answer came.
func (s *Server) Call(method, path string, in, out any) (status int, err error) {
	var body io.Reader
	if in != nil {
		b, err := json.Marshal(in)
		if err != nil {
			return 0, err
		}
		body = bytes.NewReader(b)
	}
	req, err := http.NewRequest(method, fmt.Sprintf("http://%s:%d%s", s.Host, s.HTTPPort, path), body)
	if err != nil {
		return 0, err
	}
	req.GetBody = nil // never send a request twice
	if in != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	resp, err := s.Cl.Do(req)
	if err != nil {
		return 0, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, err
	}
	if resp.StatusCode >= 300 {
		return resp.StatusCode, fmt.Errorf("%d %.300s", resp.StatusCode, b)
	}
	if out != nil {
		if err := json.Unmarshal(b, out); err != nil {
			return 0, fmt.Errorf("answer %.300s: %w", b, err)
		}
	}
	return resp.StatusCode, nil
}

type httpMsg struct {
	ID       string `json:"id"`
	Group    string `json:"group"`
	Priority int64  `json:"priority"`
	Content  string `json:"content"`
	Status   string `json:"status"`
}

func (m httpMsg) msg() Msg {
	id, _ := strconv.ParseUint(m.ID, 10, 64)
	return Msg{ID: id, Group: m.Group, Priority: m.Priority, Content: m.Content}
}

// ErrNoAnswer is wrapped into errors of requests that were not answered.
var ErrNoAnswer = errors.New("no answer")

func (s *Server) do(method, path string, in, out any) error {
	st, err := s.Call(method, path, in, out)
	if st == 0 && err != nil {
		return fmt.Errorf("%w: %v", ErrNoAnswer, err)
	}
	return err
}

func qpath(name string) string { return "/API/v1/queues/" + url.PathEscape(name) }
func mpath(name string, id uint64) string {
	return qpath(name) + "/messages/" + strconv.FormatUint(id, 10)
}

func (s *Server) Create(typ, name string) error {
	return s.do("POST", "/API/v1/queues", map[string]any{"name": name, "type": typ}, nil)
}
func (s *Server) Delete(name string) error { return s.do("DELETE", qpath(name), nil, nil) }
func (s *Server) Enqueue(_ uint64, name, group string, prio int64, content string) (Msg, error) {
	in := map[string]any{"priority": prio, "content": content}
	if group != "" {
		in["group"] = group
	}
	var m httpMsg
	err := s.do("POST", qpath(name)+"/messages", in, &m)
	return m.msg(), err
}
func (s *Server) Dequeue(name string, ack bool) (Msg, error) {
	var m httpMsg
	err := s.do("GET", qpath(name)+"/messages?ack="+strconv.FormatBool(ack), nil, &m)
	return m.msg(), err
}
func (s *Server) Ack(name string, id uint64) error {
	return s.do("POST", mpath(name, id)+"/ack", nil, nil)
}
func (s *Server) Nack(name string, id uint64) error {
	return s.do("POST", mpath(name, id)+"/nack", nil, nil)
}
func (s *Server) Update(name string, id uint64, prio int64) error {
	return s.do("PUT", mpath(name, id)+"/priority", map[string]any{"priority": prio}, nil)
}

type httpInfo struct {
	Name    string  `json:"name"`
	Type    string  `json:"type"`
	Enq     float64 `json:"enqueue_rps"`
	Deq     float64 `json:"dequeue_rps"`
	Ack     float64 `json:"ack_rps"`
	Nack    float64 `json:"nack_rps"`
	Ready   int64   `json:"ready"`
	Unacked int64   `json:"unacked"`
	Total   int64   `json:"total"`
}

func (i httpInfo) info() Info {
	return Info{Name: i.Name, Type: i.Type, Ready: i.Ready, Unacked: i.Unacked, Total: i.Total, Enq: i.Enq, Deq: i.Deq, Ack: i.Ack, Nack: i.Nack}
}

func (s *Server) Info(name string) (Info, error) {
	var i httpInfo
	err := s.do("GET", qpath(name), nil, &i)
	return i.info(), err
}
func (s *Server) List() ([]Info, error) {
	var l struct {
		Queues []httpInfo `json:"queues"`
	}
	err := s.do("GET", "/API/v1/queues", nil, &l)
	var out []Info
	for _, i := range l.Queues {
		out = append(out, i.info())
	}
	return out, err
}

// Ready waits until the server answers requests that need a leader.
func (s *Server) Ready(max time.Duration) error {
	var err error
	for t0 := RealNow(); RealNow().Sub(t0) < max; time.Sleep(30 * time.Millisecond) {
		err = s.Delete("no-such-queue-for-readiness")
		if err == nil {
			return V("deleting a queue that does not exist is reported as success")
		}
		// a leader rejects it because the queue does not exist (400), a node without leader answers 503
		if strings.HasPrefix(err.Error(), "400") {
			return nil
		}
		if o, dead := s.Died(); dead {
			return V("the server ended by itself: %.3000s", o)
		}
	}
	return V("the server does not serve requests within %v of its start: %v", max, err)
}

// Reload kills and restarts the server.
func (s *Server) Reload(string) error {
	s.Kill()
	if err := s.Start(); err != nil {
		return err
	}
	return s.Ready(100 * time.Second)
}

var _ Sys = (*Server)(nil)
