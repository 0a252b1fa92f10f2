// Package core is the property-testing harness shared by all checks: it draws
// JSON-serialisable cases with rapid, runs them against the real code, records
// what was covered, shrinks a failing case and leaves it behind as replay file.
package core

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

// RealNow is the wall clock also inside a synctest bubble.
func RealNow() time.Time {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, int64(tv.Usec)*1000)
}

// Violation is a property violation (as opposed to a harness error).
type Violation struct{ Msg string }

func (v *Violation) Error() string { return v.Msg }

// V builds a violation.
func V(format string, args ...any) error { return &Violation{fmt.Sprintf(format, args...)} }

// Trace is what a run of a case reports about itself.
type Trace struct {
	Nontrivial bool           // by the rule of the check
	Key        string         // what distinguishes the case (defaults to its JSON)
	Counts     map[string]int // free-form counters summed over all cases
	Discard    string         // set when the case could not be decided (environment trouble)
	Known      []string       // known findings reproduced
	Log        []string       // steps, kept for the replay file
	LogOn      bool
}

func (tr *Trace) Count(k string, n int) {
	if tr.Counts == nil {
		tr.Counts = map[string]int{}
	}
	tr.Counts[k] += n
}

func (tr *Trace) Logf(format string, args ...any) {
	if tr.LogOn {
		tr.Log = append(tr.Log, fmt.Sprintf(format, args...))
	}
}

// Check describes one executable property.
type Check[C any] struct {
	ID     string
	Test   string // name of the test function without "Test" (defaults to ID)
	Rule   string
	Gen    func(t *rapid.T) C
	Run    func(c C, tr *Trace) error
	Bubble bool // run under a virtual clock (testing/synctest)
	// Setup runs once, before everything (inside the bubble).
	Setup func() error
	// Cases per shard for the two tiers.
	Quick, Thorough int
	// Fixed cases always run first (regressions, known findings).
	Fixed []C
	// Budget in real seconds per shard; generation stops after it.
	QuickSecs, ThoroughSecs int
	Assumptions             []string
	// Minimize shrinks a failing case further than rapid can (optional).
	Minimize func(c C, fails func(C) bool) C
}

// Uni draws uniformly from 0..n-1 (rapid's own integers prefer small values,
// which starves all but the first alternatives) and shrinks towards 0.
func Uni(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	for try := 0; ; try++ {
		v := 0
		for i := 0; i < k; i++ {
			v <<= 1
			if coin.Draw(t, "b") {
				v |= 1
			}
		}
		if v < n {
			return v
		}
		if try > 20 {
			return 0
		}
	}
}

var coin = rapid.Bool()

// UniRange draws uniformly from lo..hi.
func UniRange(t *rapid.T, lo, hi int) int { return lo + Uni(t, hi-lo+1) }

// Pick draws uniformly from the list.
func Pick[T any](t *rapid.T, l []T) T { return l[Uni(t, len(l))] }

// DDMin removes elements from a failing list while it keeps failing.
func DDMin[T any](l []T, fails func([]T) bool) []T {
	for n := 2; len(l) >= 1; {
		chunk := (len(l) + n - 1) / n
		reduced := false
		for at := 0; at < len(l); at += chunk {
			cand := append(append([]T{}, l[:at]...), l[min(at+chunk, len(l)):]...)
			if fails(cand) {
				l, reduced = cand, true
				n = max(n-1, 2)
				break
			}
		}
		if !reduced {
			if n >= len(l) {
				return l
			}
			n = min(2*n, len(l))
		}
	}
	return l
}

// Result is what a shard writes for the runner.
type Result struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	Keys        []string       `json:"keys"` // hashes of distinct non-trivial cases
	Discarded   int            `json:"discarded"`
	Counts      map[string]int `json:"counts"`
	Samples     []any          `json:"samples"`
	Rule        string         `json:"rule"`
	Assumptions []string       `json:"assumptions"`
	Known       []string       `json:"known"`
	Violation   string         `json:"violation,omitempty"`
	HarnessErr  string         `json:"harness_error,omitempty"`
	Replay      string         `json:"replay,omitempty"`
	WallS       float64        `json:"wall_s"`
	Done        bool           `json:"done"`
	Complete    bool           `json:"complete"` // all planned cases were run
}

type replayFile[C any] struct {
	Property string   `json:"property"`
	Test     string   `json:"test,omitempty"`
	Message  string   `json:"message"`
	Case     C        `json:"case"`
	Log      []string `json:"log,omitempty"`
}

func envInt(k string, d int) int {
	if s := os.Getenv(k); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return d
}

// EnvShard is the number of this process among those of one check.
func EnvShard() int { return envInt("VERIF_SHARD", 0) }

// Scratch is the directory this process may write into.
func Scratch() string {
	if s := os.Getenv("VERIF_SCRATCH"); s != "" {
		return s
	}
	d, _ := os.MkdirTemp("", "verif-scratch-")
	os.Setenv("VERIF_SCRATCH", d)
	return d
}

var origStdout = os.Stdout

// Quiet sends everything the code under test prints to /dev/null.
func Quiet() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if os.Getenv("VERIF_NOISY") != "" {
		return
	}
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

type stopRound struct{}

// tbImpl is the minimal rapid.TB: a *testing.T cannot be used inside a bubble.
type tbImpl struct {
	failed bool
	msgs   []string
}

func (t *tbImpl) Helper()                 {}
func (t *tbImpl) Name() string            { return "check" }
func (t *tbImpl) Logf(f string, a ...any) { t.msgs = append(t.msgs, fmt.Sprintf(f, a...)) }
func (t *tbImpl) Log(a ...any)            { t.msgs = append(t.msgs, fmt.Sprint(a...)) }
func (t *tbImpl) Skipf(string, ...any)    { panic(stopRound{}) }
func (t *tbImpl) Skip(...any)             { panic(stopRound{}) }
func (t *tbImpl) SkipNow()                { panic(stopRound{}) }
func (t *tbImpl) Errorf(f string, a ...any) {
	t.failed = true
	t.msgs = append(t.msgs, fmt.Sprintf(f, a...))
}
func (t *tbImpl) Error(a ...any)            { t.failed = true; t.msgs = append(t.msgs, fmt.Sprint(a...)) }
func (t *tbImpl) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stopRound{}) }
func (t *tbImpl) Fatal(a ...any)            { t.Error(a...); panic(stopRound{}) }
func (t *tbImpl) FailNow()                  { t.failed = true; panic(stopRound{}) }
func (t *tbImpl) Fail()                     { t.failed = true }
func (t *tbImpl) Failed() bool              { return t.failed }

// Main runs a check as the body of a test function.
func Main[C any](t *testing.T, ck Check[C]) {
	if ck.Bubble {
		synctest.Test(t, func(t *testing.T) { runMain(ck) })
	} else {
		runMain(ck)
	}
}

func runMain[C any](ck Check[C]) {
	Quiet()
	start := RealNow()
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	seed := uint64(envInt("VERIF_SEED", 1))
	shard := uint64(envInt("VERIF_SHARD", 0))
	outPath := os.Getenv("VERIF_OUT")
	replayOut := os.Getenv("VERIF_REPLAY_OUT")
	curPath := os.Getenv("VERIF_CURRENT")

	res := &Result{Property: ck.ID, Rule: ck.Rule, Counts: map[string]int{}, Assumptions: ck.Assumptions}
	seen := map[string]bool{}
	finish := func() {
		res.WallS = RealNow().Sub(start).Seconds()
		res.Done = true
		for k := range seen {
			res.Keys = append(res.Keys, k)
		}
		b, _ := json.Marshal(res)
		if outPath != "" {
			_ = os.WriteFile(outPath, b, 0o644)
		} else {
			res.Keys = nil
			b, _ = json.MarshalIndent(res, "", " ")
			fmt.Fprintln(origStdout, string(b))
		}
		if res.Violation != "" {
			os.Exit(1)
		}
		if res.HarnessErr != "" {
			os.Exit(2)
		}
		os.Exit(0)
	}

	if ck.Setup != nil {
		if err := ck.Setup(); err != nil {
			res.HarnessErr = "setup: " + err.Error()
			finish()
		}
	}
	exec := func(c C, logOn bool) (tr *Trace, err error) {
		tr = &Trace{LogOn: logOn}
		defer func() {
			if p := recover(); p != nil {
				err = V("panic: %v\n%s", p, trimStack(debug.Stack()))
			}
		}()
		err = ck.Run(c, tr)
		return tr, err
	}
	var slow bool // the failing case takes long (real processes): it is not run again and again
	saveReplay := func(c C, msg string, again bool) {
		tr := &Trace{}
		if again {
			tr, _ = exec(c, true) // re-run for the log; keep going whatever happens
		}
		b, _ := json.MarshalIndent(replayFile[C]{Property: ck.ID, Test: ck.Test, Message: msg, Case: c, Log: tr.Log}, "", " ")
		if replayOut != "" {
			_ = os.WriteFile(replayOut, b, 0o644)
		}
	}

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		var rf replayFile[C]
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			res.HarnessErr = "replay file: " + err.Error()
			finish()
		}
		tr, err := exec(rf.Case, true)
		for _, l := range tr.Log {
			fmt.Fprintln(origStdout, l)
		}
		res.Evaluations = 1
		if err != nil {
			if _, ok := err.(*Violation); ok {
				res.Violation = err.Error()
			} else {
				res.HarnessErr = err.Error()
			}
			fmt.Fprintln(origStdout, "FAILED:", err)
		} else {
			fmt.Fprintln(origStdout, "held")
		}
		finish()
	}

	total := ck.Quick
	budget := time.Duration(ck.QuickSecs) * time.Second
	if thorough {
		total = ck.Thorough
		budget = time.Duration(ck.ThoroughSecs) * time.Second
	}
	if n := envInt("VERIF_CASES", 0); n > 0 {
		total = n
	}
	if budget == 0 {
		budget = time.Hour
	}

	note := func(c C, tr *Trace, js []byte) {
		res.Evaluations++
		for k, v := range tr.Counts {
			res.Counts[k] += v
		}
		res.Known = append(res.Known, tr.Known...)
		if tr.Discard != "" {
			res.Discarded++
			res.Counts["discarded: "+tr.Discard]++
			return
		}
		if tr.Nontrivial {
			k := tr.Key
			if k == "" {
				k = string(js)
			}
			h := sha256.Sum256([]byte(k))
			seen[hex.EncodeToString(h[:8])] = true
			if len(res.Samples) < 2 && len(js) < 6000 {
				var v any
				_ = json.Unmarshal(js, &v)
				res.Samples = append(res.Samples, v)
			}
		}
	}

	runOne := func(c C) error {
		js, err := json.Marshal(c)
		if err != nil {
			return err
		}
		if curPath != "" {
			b, _ := json.Marshal(replayFile[C]{Property: ck.ID, Test: ck.Test, Message: "the process died while running this case", Case: c})
			_ = os.WriteFile(curPath, b, 0o644)
		}
		tr, err := exec(c, false)
		if err == nil {
			note(c, tr, js)
		}
		return err
	}

	fail := func(c C, err error) {
		if _, ok := err.(*Violation); !ok {
			res.HarnessErr = err.Error()
			finish()
		}
		res.Violation = err.Error()
		saveReplay(c, err.Error(), !slow)
		res.Replay = replayOut
		finish()
	}

	if shard == 0 || os.Getenv("VERIF_FIRST") != "" {
		for _, c := range ck.Fixed {
			if err := runOne(c); err != nil {
				fail(c, err)
			}
			res.Counts["fixed_cases"]++
		}
	}
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")
	if ck.Bubble {
		_ = flag.Set("rapid.shrinktime", "20h") // virtual; the real limit is below
	}
	const perRound = 16 // rapid gives up after 24 hours, which are virtual here
	for done, round := 0, uint64(0); done < total; round++ {
		if RealNow().Sub(start) > budget {
			finish()
		}
		n := perRound
		if total-done < n {
			n = total - done
		}
		done += n
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		_ = flag.Set("rapid.seed", strconv.FormatUint(1+seed*1_000_003+shard*7919*1009+round*104729, 10))
		var failCase C
		var failErr error
		var failedAt time.Time
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stopRound); !ok {
						panic(p)
					}
				}
			}()
			tb := &tbImpl{}
			rapid.Check(tb, func(rt *rapid.T) {
				c := ck.Gen(rt)
				if failErr != nil && (slow || RealNow().Sub(failedAt) > 12*time.Second) {
					return // stop shrinking
				}
				if failErr == nil && RealNow().Sub(start) > budget {
					return
				}
				t0 := RealNow()
				if err := runOne(c); err != nil {
					if failErr == nil {
						failedAt = RealNow()
						slow = failedAt.Sub(t0) > 8*time.Second
						if _, ok := err.(*Violation); ok { // should the rest take too long
							saveReplay(c, err.Error(), false)
						}
					}
					failCase, failErr = c, err
					rt.Fatalf("%v", firstLine(err.Error()))
				}
			})
		}()
		if failErr != nil {
			if ck.Minimize != nil {
				until := RealNow().Add(20 * time.Second)
				failCase = ck.Minimize(failCase, func(c C) bool {
					if RealNow().After(until) {
						return false
					}
					if slow {
						until = RealNow() // one attempt
					}
					err := runOne(c)
					if err == nil {
						return false
					}
					if _, ok := err.(*Violation); !ok {
						return false
					}
					failErr = err
					return true
				})
			}
			fail(failCase, failErr)
		}
	}
	res.Complete = true
	finish()
}

func firstLine(s string) string {
	for i, r := range s {
		if r == '\n' {
			return s[:i]
		}
	}
	return s
}

func trimStack(b []byte) string {
	if len(b) > 4000 {
		b = b[:4000]
	}
	return string(b)
}
