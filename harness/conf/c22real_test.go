package conf

import (
	"errors"
	"fmt"
	"io"
	"net"
	nethttp "net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"pgregory.net/rapid"
)

// The real server is started with generated options, and what they do is observed.

type realConf struct {
	Cases []confCase `json:"cases"`
}

func TestC22Real(t *testing.T) {
	Main(t, Check[realConf]{
		ID: "C22", Test: "C22Real",
		Rule:  "a case is a group of real server processes started with generated flags and files; where they listen and store, metrics, profiling, the storage settings they report and the redelivery time are observed; non-trivial: at least one setting from a file and one from a flag in the group",
		Quick: 2, Thorough: 60, QuickSecs: 100, ThoroughSecs: 700,
		Gen: func(t *rapid.T) realConf {
			var r realConf
			for i := 0; i < 3; i++ {
				r.Cases = append(r.Cases, genReal(t))
			}
			return r
		},
		Minimize: func(r realConf, fails func(realConf) bool) realConf {
			r.Cases = DDMin(r.Cases, func(l []confCase) bool { return fails(realConf{l}) })
			return r
		},
		Run: func(r realConf, tr *Trace) error {
			errs := make([]error, len(r.Cases))
			trs := make([]Trace, len(r.Cases))
			var wg sync.WaitGroup
			for i := range r.Cases {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for try := 0; try < 4; try++ {
						trs[i] = Trace{}
						if errs[i] = r.Cases[i].runReal(&trs[i]); !errors.Is(errs[i], ErrBusyPort) {
							return
						}
					}
					trs[i].Discard = "no free ports"
					errs[i] = nil
				}()
			}
			wg.Wait()
			seen := map[string]bool{}
			for i := range r.Cases {
				if errs[i] != nil {
					return errs[i]
				}
				if trs[i].Discard != "" {
					tr.Discard = trs[i].Discard
				}
				for k, n := range trs[i].Counts {
					tr.Count(k, n)
				}
				_, src := r.Cases[i].want()
				for _, s := range src {
					seen[s] = true
				}
			}
			tr.Nontrivial = seen["flag"] && (seen["named file"] || seen["config.yaml"])
			return nil
		},
	})
}

// genReal generates settings a server can run with; addresses are filled in later.
func genReal(t *rapid.T) confCase {
	c := confCase{Eq: Uni(t, 2) == 0}
	c.Named = &confFile{Path: "n.yaml", Fmt: "yaml", Away: Uni(t, 2) == 0}
	if Uni(t, 2) == 0 {
		c.Named = nil
		c.Default = &confFile{Path: "config.yaml", Fmt: "yaml"}
	}
	file := c.Named
	if file == nil {
		file = c.Default
	}
	small := func(lo, hi int) string { return strconv.Itoa(UniRange(t, lo, hi)) }
	add := func(key string, gen func() string, p int) {
		if Uni(t, 100) >= p {
			return
		}
		s := setting{key, gen(), Uni(t, 2) == 0}
		switch Uni(t, 3) {
		case 0:
			c.Flags = append(c.Flags, s)
		case 1:
			file.Set = append(file.Set, s)
		default: // both; the flag counts
			c.Flags = append(c.Flags, s)
			file.Set = append(file.Set, setting{key, gen(), Uni(t, 2) == 0})
		}
	}
	boolean := func() string { return Pick(t, []string{"true", "false"}) }
	// places: filled in by runReal ("@" stands for a free port of its own)
	add("http.port", func() string { return "@" }, 100)
	add("raft.address", func() string { return "127.0.0.1:@" }, 100)
	add("grpc.address", func() string { return Pick(t, []string{"127.0.0.1:@", "127.0.0.1:@", ""}) }, 70)
	add("profiling.port", func() string { return "@" }, 100)
	add("profiling.enabled", boolean, 50)
	add("prometheus.enabled", boolean, 70)
	add("storage.data_dir", func() string { return Pick(t, []string{"d1", "d2/x", "./d 3", "é"}) }, 70)
	add("cluster.node_id", func() string { return Pick(t, []string{"node-7", "a", "n.1", "node-1"}) }, 60)
	add("storage.compression", func() string { return Pick(t, []string{"none", "snappy", "zstd", ""}) }, 50)
	add("storage.zstd_compression_level", func() string { return small(0, 5) }, 40)
	add("storage.block_cache_size", func() string { return small(0, 300) }, 50)
	add("storage.index_cache_size", func() string { return small(0, 100) }, 40)
	add("storage.base_table_size", func() string { return strconv.Itoa(UniRange(t, 1, 4) << 20) }, 40)
	add("storage.num_compactors", func() string { return small(2, 6) }, 40)
	add("storage.num_level_zero_tables", func() string { return small(1, 8) }, 40)
	add("storage.num_level_zero_tables_stall", func() string { return small(10, 20) }, 40)
	add("storage.num_memtables", func() string { return small(1, 6) }, 40)
	add("storage.value_log_file_size", func() string { return strconv.Itoa(UniRange(t, 1, 500) << 20) }, 40)
	add("queue.acknowledgement_timeout", func() string { return Pick(t, []string{"1", "4", "3600"}) }, 80)
	add("queue.acknowledgement_check_interval", func() string { return Pick(t, []string{"1", "2"}) }, 50)
	// always on, so that the storage settings are reported
	c.Flags = append(c.Flags, setting{"logging.level", "debug", true})
	c.At = Uni(t, len(c.Flags)+1)
	return c
}

type outBuf struct {
	mu sync.Mutex
	b  strings.Builder
}

func (o *outBuf) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.b.Len() < 4<<20 {
		o.b.Write(p)
	}
	return len(p), nil
}
func (o *outBuf) String() string { o.mu.Lock(); defer o.mu.Unlock(); return o.b.String() }

func (c confCase) runReal(tr *Trace) error {
	// ports
	fill := func(l []setting) []setting {
		out := append([]setting{}, l...)
		for i := range out {
			if strings.Contains(out[i].Val, "@") {
				out[i].Val = strings.Replace(out[i].Val, "@", strconv.Itoa(FreePort()), 1)
			}
		}
		return out
	}
	c.Flags = fill(c.Flags)
	top := TempDir()
	defer os.RemoveAll(top)
	cwd, away := filepath.Join(top, "work"), filepath.Join(top, "away")
	_ = os.MkdirAll(cwd, 0o700)
	_ = os.MkdirAll(away, 0o700)
	named := ""
	for _, p := range []**confFile{&c.Named, &c.Default} {
		if *p == nil {
			continue
		}
		f := **p
		f.Set = fill(f.Set)
		*p = &f
		dir := cwd
		if f.Away {
			dir = away
		}
		path, err := f.write(dir)
		if err != nil {
			return err
		}
		if *p == c.Named {
			named = path
		}
	}
	val, _ := c.want()
	args := c.args(named)
	describe := func() string {
		s := fmt.Sprintf("arguments %q", args)
		for _, f := range []*confFile{c.Named, c.Default} {
			if f != nil {
				s += "\n" + f.Path + ":\n" + f.text()
			}
		}
		return s
	}
	fail := func(format string, a ...any) error { return V("%s; %s", fmt.Sprintf(format, a...), describe()) }
	cmd := exec.Command(os.Getenv("VERIF_SERVER"), args...)
	cmd.Dir = cwd
	cmd.Env = []string{"HOME=" + top, "TMPDIR=" + top, "PATH=" + os.Getenv("PATH"), "GOMAXPROCS=2", "GOTRACEBACK=all"}
	out := &outBuf{}
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return err
	}
	exited := make(chan struct{})
	go func() { _ = cmd.Wait(); close(exited) }()
	defer func() { _ = cmd.Process.Kill(); <-exited }()
	mine := func(addr string) bool {
		_, ps, _ := net.SplitHostPort(addr)
		port, _ := strconv.Atoi(ps)
		owns, known := OwnsPort(cmd.Process.Pid, port)
		return owns || !known
	}
	up := func(addr string, max time.Duration) error {
		for t0 := RealNow(); RealNow().Sub(t0) < max; time.Sleep(50 * time.Millisecond) {
			select {
			case <-exited:
				o := out.String()
				if strings.Contains(o, "address already in use") {
					return ErrBusyPort
				}
				return fail("the server ended by itself: %.2000s", o)
			default:
			}
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				if !mine(addr) {
					continue // somebody else answered
				}
				return nil
			}
		}
		if strings.Contains(out.String(), "address already in use") {
			return ErrBusyPort
		}
		return fail("nobody listens on %s", addr)
	}
	httpAddr := "127.0.0.1:" + val["http.port"]
	if err := up(httpAddr, 100*time.Second); err != nil {
		return err
	}
	if err := up(val["raft.address"], 20*time.Second); err != nil {
		return err
	}
	if a := val["grpc.address"]; a != "" {
		if err := up(a, 20*time.Second); err != nil {
			return err
		}
		tr.Count("grpc_addresses", 1)
	}
	cli := &nethttp.Client{Timeout: 20 * time.Second}
	get := func(addr, path string) (int, string, error) {
		resp, err := cli.Get("http://" + addr + path)
		if err != nil {
			return 0, "", err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(io.LimitReader(resp.Body, 1<<20))
		return resp.StatusCode, string(b), err
	}
	// metrics
	st, body, err := get(httpAddr, "/metrics")
	has := err == nil && st == 200 && strings.Contains(body, "# TYPE")
	if has != (val["prometheus.enabled"] == "true") {
		return fail("prometheus.enabled is %s but GET /metrics gives %d %.100q %v", val["prometheus.enabled"], st, body, err)
	}
	// profiling
	if val["profiling.enabled"] == "true" {
		if err := up("127.0.0.1:"+val["profiling.port"], 20*time.Second); err != nil {
			return err
		}
		if st, body, err := get("127.0.0.1:"+val["profiling.port"], "/debug/pprof/cmdline"); err != nil || st != 200 || !strings.Contains(body, "debug") {
			return fail("profiling is enabled but the profiling port answers %d %.100q %v", st, body, err)
		}
		tr.Count("profiling_on", 1)
	} else if st, _, err := get("127.0.0.1:"+val["profiling.port"], "/debug/pprof/cmdline"); err == nil && st == 200 && mine("127.0.0.1:"+val["profiling.port"]) {
		return fail("profiling is not enabled but the profiling port answers")
	}
	// files
	store := filepath.Join(val["storage.data_dir"], val["cluster.node_id"], "store")
	if st, err := os.Stat(filepath.Join(cwd, store)); err != nil || !st.IsDir() {
		return fail("there is no storage in %s: %v", store, err)
	}
	// storage settings, where the server reports them
	o := out.String()
	if i := strings.Index(o, "Badger options: "); i >= 0 {
		rep := strings.SplitN(o[i:], "\n", 2)[0]
		d := badger.DefaultOptions("")
		num := func(k string) int64 { n, _ := strconv.ParseInt(val[k], 10, 64); return n }
		pos := func(k string, unit, def int64) int64 {
			if n := num(k); n > 0 {
				return n * unit
			}
			return def
		}
		comp := int64(d.Compression)
		switch val["storage.compression"] {
		case "none":
			comp = 0
		case "snappy":
			comp = 1
		case "zstd":
			comp = 2
		}
		for _, e := range []struct {
			opt, field string
			want       int64
		}{
			{"storage.compression", "Compression", comp},
			{"storage.zstd_compression_level", "ZSTDCompressionLevel", pos("storage.zstd_compression_level", 1, int64(d.ZSTDCompressionLevel))},
			{"storage.block_cache_size", "BlockCacheSize", pos("storage.block_cache_size", 1<<20, d.BlockCacheSize)},
			{"storage.index_cache_size", "IndexCacheSize", pos("storage.index_cache_size", 1<<20, d.IndexCacheSize)},
			{"storage.base_table_size", "BaseTableSize", pos("storage.base_table_size", 1, d.BaseTableSize)},
			{"storage.num_compactors", "NumCompactors", pos("storage.num_compactors", 1, int64(d.NumCompactors))},
			{"storage.num_level_zero_tables", "NumLevelZeroTables", pos("storage.num_level_zero_tables", 1, int64(d.NumLevelZeroTables))},
			{"storage.num_level_zero_tables_stall", "NumLevelZeroTablesStall", pos("storage.num_level_zero_tables_stall", 1, int64(d.NumLevelZeroTablesStall))},
			{"storage.num_memtables", "NumMemtables", pos("storage.num_memtables", 1, int64(d.NumMemtables))},
			{"storage.value_log_file_size", "ValueLogFileSize", pos("storage.value_log_file_size", 1, d.ValueLogFileSize)},
		} {
			m := regexp.MustCompile(`[ {]` + e.field + `:(-?\d+)`).FindStringSubmatch(rep)
			if m == nil {
				continue
			}
			tr.Count("storage_settings_seen", 1)
			if m[1] != fmt.Sprint(e.want) {
				return fail("%s is %q but the storage runs with %s=%s, want %d", e.opt, val[e.opt], e.field, m[1], e.want)
			}
		}
	}
	// redelivery
	s := &Server{Host: "127.0.0.1", Cl: cli}
	s.HTTPPort, _ = strconv.Atoi(val["http.port"])
	for t0 := RealNow(); ; time.Sleep(200 * time.Millisecond) {
		if err = s.Create("delayed", "q"); err == nil {
			break
		}
		if RealNow().Sub(t0) > 100*time.Second {
			return fail("no queue can be created: %v", err)
		}
	}
	m, err := s.Enqueue(0, "q", "default", 1, "x")
	if err != nil {
		return fail("enqueue: %v", err)
	}
	t0 := RealNow()
	if _, err = s.Dequeue("q", false); err != nil {
		return fail("dequeue: %v", err)
	}
	tdeq := RealNow()
	timeout, _ := strconv.Atoi(val["queue.acknowledgement_timeout"])
	limit := 3 * time.Second
	if timeout < 10 {
		limit = 60 * time.Second
	}
	for RealNow().Sub(tdeq) < limit {
		n, err := s.Dequeue("q", true)
		if err != nil {
			time.Sleep(30 * time.Millisecond)
			continue
		}
		after := RealNow().Sub(t0)
		if n.ID != m.ID {
			return fail("another message came back")
		}
		if after < time.Duration(timeout-1)*time.Second { // deadlines are whole seconds
			return fail("the acknowledgement timeout is %d s but the message came back after %v", timeout, after)
		}
		tr.Count("redeliveries", 1)
		tr.Count("servers_observed", 1)
		return nil
	}
	if timeout < 10 {
		return fail("the acknowledgement timeout is %d s but the message did not come back within %v", timeout, limit)
	}
	tr.Count("servers_observed", 1)
	return nil
}
