package qm

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	. "github.com/kgantsov/doq/pkg/zzverif/core"
	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"
	"pgregory.net/rapid"
)

// The /metrics page of the real server is scraped after every step.

type realCase struct {
	Hists []realHist `json:"hists"`
}

type realHist struct {
	Case  Case `json:"case"`
	Takes int  `json:"takes"` // messages left unacknowledged until they time out
}

type textGatherer struct{ s *Server }

func (g textGatherer) Gather() ([]*dto.MetricFamily, error) {
	resp, err := g.s.Cl.Get(fmt.Sprintf("http://%s:%d/metrics", g.s.Host, g.s.HTTPPort))
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		return nil, fmt.Errorf("GET /metrics: status %d", resp.StatusCode)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	var p expfmt.TextParser
	fams, err := p.TextToMetricFamilies(strings.NewReader(string(b)))
	if err != nil {
		return nil, err
	}
	var out []*dto.MetricFamily
	for _, f := range fams {
		out = append(out, f)
	}
	return out, nil
}

func (h realHist) run(tr *Trace) error {
	to := "3600"
	if h.Takes > 0 {
		to = "1"
	}
	srv := NewServer("--prometheus.enabled", "true", "--queue.acknowledgement_timeout", to, "--queue.acknowledgement_check_interval", "1")
	defer srv.Close()
	if err := srv.Start(); err != nil {
		return err
	}
	if err := srv.Ready(100 * time.Second); err != nil {
		return err
	}
	c := h.Case
	w := NewWorld(&c, srv, Claims{Counts: true, RealTime: true, NoDrain: true}, tr)
	scrape := func() error {
		s, err := GatherSeries(textGatherer{srv})
		if err != nil {
			return V("scraping /metrics failed: %v", err)
		}
		tr.Count("real_scrapes", 1)
		return w.CheckSeries(s)
	}
	w.After = func(w *World, op *Op) error { return scrape() }
	if err := w.Run(); err != nil {
		return err
	}
	if h.Takes > 0 {
		for _, n := range c.Names {
			if w.Queues[n] == nil {
				continue
			}
			for i := 0; i < h.Takes; i++ {
				if _, err := w.Dequeue(n, false); err != nil {
					return err
				}
			}
		}
		tr.Count("real_redeliveries", w.MsgCount())
		w.ForgetHeld() // they time out
		var err error
		for t0 := RealNow(); RealNow().Sub(t0) < 60*time.Second; time.Sleep(200 * time.Millisecond) {
			if err = scrape(); err == nil {
				break
			}
		}
		if err != nil {
			return V("60 s after the acknowledgement timeout (1 s): %v", err)
		}
	}
	return nil
}

func TestC18Real(t *testing.T) {
	p := Profile{Types: both, Queues: [2]int{1, 3}, Groups: groups[:4], Prio: PastPrio, MaxOps: 40,
		Weights:  map[string]int{"enq": 30, "deq": 24, "ack": 10, "nack": 9, "upd": 3, "delete": 4, "create": 6},
		Timeouts: []int64{3600}, Intervals: []int64{1}, MultiDeq: true, Plain: true}
	Main(t, Check[realCase]{
		ID: "C18", Test: "C18Real",
		Rule:  "a case is a group of random histories, each on its own real server process started with metrics enabled, whose /metrics page is fetched and compared with the model after every step and after unacknowledged messages have timed out; non-trivial: at least one history with 4 deliveries",
		Quick: 1, Thorough: 20, QuickSecs: 60, ThoroughSecs: 600,
		Gen: func(t *rapid.T) realCase {
			var c realCase
			for i := 0; i < 4; i++ {
				h := realHist{Case: p.Gen(t)}
				if i%2 == 1 { // half of the histories let messages time out at their end
					h.Takes = UniRange(t, 1, 4)
					for j := range h.Case.Ops {
						h.Case.Ops[j].A = true
						if k := h.Case.Ops[j].K; k == "upd" {
							h.Case.Ops[j].W = "ready"
						}
					}
				}
				for j := range h.Case.Ops {
					h.Case.Ops[j].P = max(h.Case.Ops[j].P, 0) // HTTP takes no others
					h.Case.Ops[j].R = false
					if h.Case.Ops[j].G == "" {
						h.Case.Ops[j].G = "default"
					}
				}
				c.Hists = append(c.Hists, h)
			}
			return c
		},
		Minimize: func(c realCase, fails func(realCase) bool) realCase {
			for i := range c.Hists {
				if d := (realCase{Hists: c.Hists[i : i+1]}); fails(d) {
					return d
				}
			}
			return c
		},
		Run: func(c realCase, tr *Trace) error {
			errs := make([]error, len(c.Hists))
			trs := make([]*Trace, len(c.Hists))
			var wg sync.WaitGroup
			for i, h := range c.Hists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for try := 0; try < 3; try++ {
						trs[i] = &Trace{LogOn: tr.LogOn}
						errs[i] = h.run(trs[i])
						if !errors.Is(errs[i], ErrBusyPort) {
							return
						}
					}
				}()
			}
			wg.Wait()
			for i := range errs {
				tr.Log = append(tr.Log, trs[i].Log...)
				if errors.Is(errs[i], ErrBusyPort) {
					tr.Discard = "port taken"
					continue
				}
				if errs[i] != nil {
					return errs[i]
				}
				for k, v := range trs[i].Counts {
					tr.Count(k, v)
				}
				tr.Count("real_servers", 1)
			}
			tr.Nontrivial = tr.Counts["real_scrapes"] >= 10
			return nil
		},
	})
}
