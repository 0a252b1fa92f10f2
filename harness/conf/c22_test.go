package conf

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/kgantsov/doq/pkg/config"
	. "github.com/kgantsov/doq/pkg/zzverif/core"
	"github.com/spf13/cobra"
	"pgregory.net/rapid"
)

// option is a documented option with its documented default.
type option struct {
	key, kind, def string
	get            func(c *config.Config) any
}

// The documentation (help texts) of the flags.
var options = []option{
	{"profiling.enabled", "bool", "false", func(c *config.Config) any { return c.Profiling.Enabled }},
	{"profiling.port", "int32", "6060", func(c *config.Config) any { return c.Profiling.Port }},
	{"prometheus.enabled", "sbool", "false", func(c *config.Config) any { return c.Prometheus.Enabled }},
	{"logging.level", "string", "warning", func(c *config.Config) any { return c.Logging.LogLevel }},
	{"http.port", "port", "8000", func(c *config.Config) any { return c.Http.Port }},
	{"grpc.address", "string", "", func(c *config.Config) any { return c.Grpc.Address }},
	{"raft.address", "string", "localhost:9000", func(c *config.Config) any { return c.Raft.Address }},
	{"storage.data_dir", "string", "data", func(c *config.Config) any { return c.Storage.DataDir }},
	{"storage.gc_interval", "int64", "300", func(c *config.Config) any { return c.Storage.GCInterval }},
	{"storage.gc_discard_ratio", "float", "0.7", func(c *config.Config) any { return c.Storage.GCDiscardRatio }},
	{"storage.compression", "string", "", func(c *config.Config) any { return c.Storage.Compression }},
	{"storage.zstd_compression_level", "int", "0", func(c *config.Config) any { return c.Storage.ZSTDCompressionLevel }},
	{"storage.block_cache_size", "int64", "0", func(c *config.Config) any { return c.Storage.BlockCacheSize }},
	{"storage.index_cache_size", "int64", "0", func(c *config.Config) any { return c.Storage.IndexCacheSize }},
	{"storage.base_table_size", "int64", "0", func(c *config.Config) any { return c.Storage.BaseTableSize }},
	{"storage.num_compactors", "int", "0", func(c *config.Config) any { return c.Storage.NumCompactors }},
	{"storage.num_level_zero_tables", "int", "0", func(c *config.Config) any { return c.Storage.NumLevelZeroTables }},
	{"storage.num_level_zero_tables_stall", "int", "0", func(c *config.Config) any { return c.Storage.NumLevelZeroTablesStall }},
	{"storage.num_memtables", "int", "0", func(c *config.Config) any { return c.Storage.NumMemtables }},
	{"storage.value_log_file_size", "int64", "0", func(c *config.Config) any { return c.Storage.ValueLogFileSize }},
	{"cluster.node_id", "string", "node-1", func(c *config.Config) any { return c.Cluster.NodeID }},
	{"cluster.service_name", "string", "", func(c *config.Config) any { return c.Cluster.ServiceName }},
	{"cluster.join_addr", "string", "", func(c *config.Config) any { return c.Cluster.JoinAddr }},
	{"queue.acknowledgement_check_interval", "int64", "1", func(c *config.Config) any { return c.Queue.AcknowledgementCheckInterval }},
	{"queue.acknowledgement_timeout", "int64", "60", func(c *config.Config) any { return c.Queue.AcknowledgementTimeout }},
	{"queue.stats.window_side", "int", "10", func(c *config.Config) any { return c.Queue.QueueStats.WindowSide }},
}

func optionOf(key string) *option {
	for i := range options {
		if options[i].key == key {
			return &options[i]
		}
	}
	return nil
}

// setting gives an option a value.
type setting struct {
	Key string `json:"key"`
	Val string `json:"val"`
	Raw bool   `json:"raw,omitempty"` // file: a number without quotes; flag: with "=" instead of a second argument
}

type confFile struct {
	Path string    `json:"path"` // relative to the working directory or to another directory
	Away bool      `json:"away"` // in another directory than the working directory
	Fmt  string    `json:"fmt"`
	Set  []setting `json:"set"`
}

type confCase struct {
	Flags   []setting `json:"flags"`
	Default *confFile `json:"default,omitempty"` // config.yaml in the working directory
	Named   *confFile `json:"named,omitempty"`   // the one named by --config
	At      int       `json:"at"`                // position of --config among the flags
	Eq      bool      `json:"eq"`                // --config=X
}

func genValue(t *rapid.T, o *option) string {
	switch o.kind {
	case "bool", "sbool":
		return Pick(t, []string{"true", "false"})
	case "port":
		return strconv.Itoa(UniRange(t, 1, 65535))
	case "int32":
		return strconv.Itoa(Pick(t, []int{0, 1, 6060, 6061, 65535, 80, -1, 1<<31 - 1}))
	case "int":
		return strconv.Itoa(Pick(t, []int{0, 1, 2, 3, 5, 10, 60, 1000, -1, 1<<31 - 1, 1 << 40, UniRange(t, 0, 1<<20)}))
	case "int64":
		return strconv.FormatInt(Pick(t, []int64{0, 1, 2, 60, 300, 3600, -1, 1 << 31, 1 << 32, 1<<53 - 1, int64(UniRange(t, 0, 1<<30))}), 10)
	case "float":
		return Pick(t, []string{"0", "1", "0.5", "0.7", "0.25", "0.999", "1e-07", "0.1", "0.30000000000000004"})
	}
	switch o.key {
	case "storage.compression":
		return Pick(t, []string{"none", "snappy", "zstd", ""})
	case "logging.level":
		return Pick(t, []string{"debug", "info", "warning", "error", "trace"})
	}
	return Pick(t, []string{"", "a", "node-2", "localhost:9001", "127.0.0.1:12000", "/var/lib/doq", "data dir", "é\u2028", "true", "0123", "1e3", "null", "~", "[]", "{}",
		"a: b", "# no comment", "'", "\"", "-x", "--config", "%s", "${HOME}", "0", "config.yaml", "8000", ":", " x "})
}

func genSettings(t *rapid.T, many bool) (out []setting) {
	for i := range options {
		n := 5
		if many {
			n = 2
		}
		if Uni(t, n) == 0 {
			o := &options[i]
			v := genValue(t, o)
			if Uni(t, 8) == 7 {
				v = o.def // explicitly the default
			}
			out = append(out, setting{o.key, v, Uni(t, 2) == 0})
		}
	}
	for i := len(out) - 1; i > 0; i-- {
		j := Uni(t, i+1)
		out[i], out[j] = out[j], out[i]
	}
	return
}

func genFile(t *rapid.T, named bool) *confFile {
	f := &confFile{Path: "config.yaml", Fmt: "yaml", Set: genSettings(t, Uni(t, 3) == 0)}
	if named {
		f.Away = Uni(t, 2) == 0
		f.Fmt = Pick(t, []string{"yaml", "yaml", "yaml", "json", "toml"})
		ext := f.Fmt
		if ext == "yaml" && Uni(t, 3) == 0 {
			ext = "yml"
		}
		f.Path = Pick(t, []string{"config", "other", "doq.prod", "a b", "é", "sub/config", "config2"}) + "." + ext
		if !f.Away && f.Path == "config.yaml" {
			f.Path = "sub/config.yaml"
		}
	}
	return f
}

// text is the content of the file.
func (f *confFile) text() string {
	quote := func(s string) string { // valid in JSON and YAML (and TOML for what is generated)
		b, _ := json.Marshal(s)
		return strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(string(b))
	}
	val := func(s setting) string {
		switch k := optionOf(s.Key).kind; {
		case k == "string", k == "port" && !s.Raw:
			return quote(s.Val)
		default:
			return s.Val
		}
	}
	type node struct {
		leaves []string
		subs   []string
		at     map[string]*node
	}
	root := &node{at: map[string]*node{}}
	for _, s := range f.Set {
		n := root
		parts := strings.Split(s.Key, ".")
		for _, p := range parts[:len(parts)-1] {
			if n.at[p] == nil {
				n.at[p] = &node{at: map[string]*node{}}
				n.subs = append(n.subs, p)
			}
			n = n.at[p]
		}
		sep := ": "
		key := parts[len(parts)-1]
		if f.Fmt == "json" {
			key = quote(key)
		} else if f.Fmt == "toml" {
			sep = " = "
		}
		n.leaves = append(n.leaves, key+sep+val(s))
	}
	var b strings.Builder
	var emit func(n *node, path string, depth int)
	emit = func(n *node, path string, depth int) {
		in := strings.Repeat("  ", depth)
		switch f.Fmt {
		case "json":
			b.WriteString("{")
			for i, l := range n.leaves {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(l)
			}
			for i, s := range n.subs {
				if i+len(n.leaves) > 0 {
					b.WriteString(", ")
				}
				b.WriteString(quote(s) + ": ")
				emit(n.at[s], "", depth+1)
			}
			b.WriteString("}")
		case "toml":
			if path != "" && len(n.leaves) > 0 {
				b.WriteString("[" + path + "]\n")
			}
			for _, l := range n.leaves {
				b.WriteString(l + "\n")
			}
			for _, s := range n.subs {
				emit(n.at[s], strings.TrimPrefix(path+"."+s, "."), depth+1)
			}
		default:
			for _, l := range n.leaves {
				b.WriteString(in + l + "\n")
			}
			for _, s := range n.subs {
				b.WriteString(in + s + ":\n")
				emit(n.at[s], "", depth+1)
			}
		}
	}
	emit(root, "", 0)
	return b.String()
}

func (f *confFile) write(dir string) (string, error) {
	p := filepath.Join(dir, f.Path)
	if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
		return "", err
	}
	return p, os.WriteFile(p, []byte(f.text()), 0o600)
}

// args is the command line.
func (c confCase) args(named string) (out []string) {
	cfg := func() {
		if named == "" {
			return
		}
		if c.Eq {
			out = append(out, "--config="+named)
		} else {
			out = append(out, "--config", named)
		}
	}
	for i, s := range c.Flags {
		if i == c.At {
			cfg()
		}
		switch {
		case optionOf(s.Key).kind == "bool":
			if s.Raw && s.Val == "true" {
				out = append(out, "--"+s.Key)
			} else {
				out = append(out, "--"+s.Key+"="+s.Val)
			}
		case s.Raw:
			out = append(out, "--"+s.Key+"="+s.Val)
		default:
			out = append(out, "--"+s.Key, s.Val)
		}
	}
	if c.At >= len(c.Flags) {
		cfg()
	}
	return
}

// want is the expected configuration; src says where a value comes from.
func (c confCase) want() (val, src map[string]string) {
	val, src = map[string]string{}, map[string]string{}
	for _, o := range options {
		val[o.key], src[o.key] = o.def, "default"
	}
	put := func(l []setting, from string) {
		for _, s := range l {
			val[s.Key], src[s.Key] = s.Val, from
		}
	}
	if c.Named != nil {
		put(c.Named.Set, "named file")
	} else if c.Default != nil {
		put(c.Default.Set, "config.yaml")
	}
	put(c.Flags, "flag")
	return
}

// norm writes a value in the form the child prints.
func norm(kind, s string) string {
	switch kind {
	case "bool", "sbool":
		return s
	case "float":
		f, _ := strconv.ParseFloat(s, 64)
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return s
}

const childEnv = "VERIF_C22_CHILD"

// TestC22Child loads the configuration as main does and prints it.
func TestC22Child(t *testing.T) {
	f := os.Getenv(childEnv)
	if f == "" {
		t.Skip()
	}
	var args []string
	b, err := os.ReadFile(f)
	if err != nil || json.Unmarshal(b, &args) != nil {
		os.Exit(3)
	}
	root := config.InitCobraCommand(func(cmd *cobra.Command, _ []string) {
		c, err := config.LoadConfig()
		if err != nil {
			fmt.Printf("ERR LoadConfig: %v\n", err)
			os.Exit(0)
		}
		out := map[string]string{}
		for _, o := range options {
			switch v := o.get(c).(type) {
			case float64:
				out[o.key] = strconv.FormatFloat(v, 'g', -1, 64)
			default:
				out[o.key] = fmt.Sprint(v)
			}
		}
		b, _ := json.Marshal(out)
		fmt.Printf("CONF %s\n", b)
		os.Exit(0)
	})
	root.SetArgs(args)
	if err := root.Execute(); err != nil {
		fmt.Printf("ERR Execute: %v\n", err)
	}
	os.Exit(0)
}

func (c confCase) run(tr *Trace) error {
	top := TempDir()
	defer os.RemoveAll(top)
	cwd, away := filepath.Join(top, "work"), filepath.Join(top, "away")
	_ = os.MkdirAll(cwd, 0o700)
	_ = os.MkdirAll(away, 0o700)
	if c.Default != nil {
		if _, err := c.Default.write(cwd); err != nil {
			return err
		}
	}
	named := ""
	if c.Named != nil {
		dir := cwd
		if c.Named.Away {
			dir = away
		}
		p, err := c.Named.write(dir)
		if err != nil {
			return err
		}
		named = p
		if !c.Named.Away {
			named = c.Named.Path
		}
	}
	args := c.args(named)
	b, _ := json.Marshal(args)
	af := filepath.Join(top, "args.json")
	if err := os.WriteFile(af, b, 0o600); err != nil {
		return err
	}
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(exe, "-test.run", "^TestC22Child$")
	cmd.Dir = cwd
	cmd.Env = []string{"HOME=" + top, "PATH=" + os.Getenv("PATH"), "GOMAXPROCS=1", childEnv + "=" + af}
	outb, rerr := cmd.CombinedOutput()
	out := string(outb)
	got := map[string]string{}
	i := strings.Index(out, "CONF ")
	if i < 0 || json.Unmarshal([]byte(strings.SplitN(out[i+5:], "\n", 2)[0]), &got) != nil {
		if strings.Contains(out, "ERR ") || strings.Contains(out, "panic") || strings.Contains(out, "rror") {
			return V("arguments %q: the configuration does not load: %.1500s", args, out)
		}
		tr.Discard = fmt.Sprintf("the child failed: %v %.300s", rerr, out)
		return nil
	}
	val, src := c.want()
	for _, o := range options {
		if w := norm(o.kind, val[o.key]); got[o.key] != w {
			files := ""
			if c.Default != nil {
				files += fmt.Sprintf("\nconfig.yaml:\n%s", c.Default.text())
			}
			if c.Named != nil {
				files += fmt.Sprintf("\n%s:\n%s", named, c.Named.text())
			}
			return V("option %s is %q, want %q (from the %s); arguments %q%s", o.key, got[o.key], w, src[o.key], args, files)
		}
		tr.Count("values_from_"+strings.ReplaceAll(src[o.key], " ", "_"), 1)
	}
	return nil
}

func TestC22(t *testing.T) {
	Main(t, Check[confCase]{
		ID: "C22",
		Rule: "a case is a random subset of the options set by flags, by config.yaml in the working directory and by a file (YAML, JSON, TOML) named with --config; a fresh process loads the configuration as the server does and all 26 values are compared; " +
			"non-trivial: values from at least two sources, one of them a file",
		Quick: 250, Thorough: 10000, QuickSecs: 60, ThoroughSecs: 600,
		Assumptions: []string{"a file named by --config exists and is well-formed, and no environment variable has the name of an option"},
		Gen: func(t *rapid.T) confCase {
			c := confCase{Eq: Uni(t, 2) == 0}
			if Uni(t, 5) > 0 {
				c.Flags = genSettings(t, Uni(t, 3) == 0)
			}
			if Uni(t, 2) == 0 {
				c.Default = genFile(t, false)
			}
			if Uni(t, 2) == 0 {
				c.Named = genFile(t, true)
			}
			c.At = Uni(t, len(c.Flags)+1)
			return c
		},
		Minimize: func(c confCase, fails func(confCase) bool) confCase {
			for _, f := range []func(*confCase){func(d *confCase) { d.Named = nil }, func(d *confCase) { d.Default = nil }} {
				d := c
				f(&d)
				if fails(d) {
					c = d
				}
			}
			c.Flags = DDMin(c.Flags, func(l []setting) bool { d := c; d.Flags = l; return fails(d) })
			for _, p := range []**confFile{&c.Named, &c.Default} {
				if *p != nil {
					keep := *p
					l := DDMin(keep.Set, func(l []setting) bool {
						k := *keep
						k.Set = l
						*p = &k
						r := fails(c)
						*p = keep
						return r
					})
					k := *keep
					k.Set = l
					*p = &k
				}
			}
			return c
		},
		Run: func(c confCase, tr *Trace) error {
			_, src := c.want()
			n := map[string]int{}
			for _, f := range src {
				n[f]++
			}
			tr.Nontrivial = len(n) > 1 && n["named file"]+n["config.yaml"] > 0
			return c.run(tr)
		},
	})
}
