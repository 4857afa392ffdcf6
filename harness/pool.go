package main

// Recorded runs of foreach, checked by PoolCheck.tla.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

type PoolParams struct {
	N      int   `json:"n"`
	W      int   `json:"w"`
	Emits  []int `json:"emits"`
	Overl  bool  `json:"overlap"` // evaluations wait for more than w to run
	Slow   int   `json:"slow"`    // microseconds the reader takes for a row
	Cancel int   `json:"cancel"`  // number of the event to cancel at
	Seed   int64 `json:"seed"`
}

type poolRec struct {
	ID     int    `json:"id"`
	Src    string `json:"src"`
	N      int    `json:"n"`
	W      int    `json:"w"`
	Emits  []int  `json:"emits"`
	Events []any  `json:"events"`
	Err    string `json:"err"`
	Leak   int    `json:"leak"`
}

type poolLog struct {
	mu      sync.Mutex
	p       *PoolParams
	events  []any
	running int
	peak    int
	left    int
	cancel  func()
}

func (l *poolLog) add(ev ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.events = append(l.events, ev)
	switch ev[0] {
	case "start":
		l.running++
		l.left--
	case "end":
		l.running--
	}
	if len(l.events) == l.p.Cancel {
		l.events = append(l.events, []any{"cancel"})
		l.cancel()
	}
}

// The plugin ev(i): emits the rows of evaluation i.
type evPlugin struct{ l *poolLog }

func (p evPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "ev"}
}

func (p evPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	i := 0
	if v := norm(ctx, scope, reduceArg(ctx, args, "i")); v[0] == "int" {
		i = asInt(v[1])
	}
	p.l.add("start", i)
	r := rand.New(rand.NewSource(p.l.p.Seed + int64(i)))
	emits := 0
	if i > 0 && i <= len(p.l.p.Emits) {
		emits = p.l.p.Emits[i-1]
	}
	go func() {
		defer close(out)
		defer p.l.add("end", i)
		if p.l.p.Overl {
			// Give an evaluation too many the time to begin.
			for k := 0; k < 30; k++ {
				p.l.mu.Lock()
				stop := p.l.running > p.l.p.W || p.l.left <= 0
				p.l.mu.Unlock()
				if stop || ctx.Err() != nil {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		for k := 1; k <= emits; k++ {
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
			}
			select {
			case <-ctx.Done():
				return
			case out <- ordereddict.NewDict().Set("i", i).Set("k", k):
			}
		}
	}()
	return out
}

func runPool(ctx context.Context, cancel func(), scope types.Scope, vqls []*vfilter.VQL, c *Case, o *Obs, base int) {
	l := &poolLog{p: c.Pool, cancel: cancel, left: c.Pool.N}
	scope.AppendPlugins(evPlugin{l})
	done := make(chan bool)
	go func() {
		defer close(done)
		for _, vql := range vqls {
			for row := range vql.Eval(ctx, scope) {
				l.mu.Lock()
				cancelled := ctx.Err() != nil
				l.mu.Unlock()
				if cancelled {
					// What still arrives now is not promised.
					break
				}
				d, _ := row.(*ordereddict.Dict)
				i, k := int64(0), int64(0)
				if d != nil {
					i, _ = d.GetInt64("i")
					k, _ = d.GetInt64("k")
				}
				l.mu.Lock()
				if ctx.Err() == nil {
					l.events = append(l.events, []any{"recv", i, k})
				}
				l.mu.Unlock()
				if c.Pool.Slow > 0 {
					time.Sleep(time.Duration(c.Pool.Slow) * time.Microsecond)
				}
			}
		}
	}()
	select {
	case <-done:
		scope.Close()
		o.Leak = leaked(base)
		l.mu.Lock()
		o.Log = append(l.events, []any{"close"})
		l.mu.Unlock()
	case <-time.After(5 * time.Second):
		cancel()
		o.Err = "hang"
	}
}

func genPool(seed int64, n int) []*Case {
	r := rand.New(rand.NewSource(seed*613 + 3))
	cases := []*Case{}
	for id := 1; id <= n; id++ {
		p := &PoolParams{N: r.Intn(8), W: []int{1, 1, 2, 2, 3, 4, 7}[r.Intn(7)], Seed: r.Int63(), Emits: []int{}}
		for i := 0; i < p.N; i++ {
			p.Emits = append(p.Emits, []int{0, 1, 1, 2, 3}[r.Intn(5)])
		}
		p.Overl = r.Intn(2) == 0
		if r.Intn(3) == 0 {
			p.Slow = r.Intn(300)
		}
		if r.Intn(4) == 0 {
			p.Cancel = 1 + r.Intn(12)
		}
		ids := []string{}
		for i := 1; i <= p.N; i++ {
			ids = append(ids, fmt.Sprintf("dict(id=%d)", i))
		}
		row := fmt.Sprintf("{ SELECT _value AS id FROM range(start=1, end=%d) }", p.N+1)
		if r.Intn(3) == 0 && p.N > 1 {
			row = "(" + strings.Join(ids, ", ") + ")"
		}
		query := "{ SELECT i, k FROM ev(i=id) }"
		if r.Intn(4) == 0 {
			query = "{ SELECT * FROM ev(i=id) WHERE k > 0 }"
		}
		if r.Intn(5) == 0 {
			query = "{ SELECT * FROM foreach(row={ SELECT * FROM ev(i=id) }) }"
		}
		src := "SELECT * FROM foreach(row=" + row + ", query=" + query
		if p.W > 1 || r.Intn(2) == 0 {
			src += fmt.Sprintf(", workers=%d", p.W)
		}
		src += ")"
		if r.Intn(4) == 0 {
			src = "LET q = " + src + " SELECT * FROM q"
		}
		cases = append(cases, &Case{ID: id, Src: src, Env: []any{}, Mode: "pool", Pool: p})
	}
	return cases
}

func pool(path string, seed int64, n, only int) {
	cases := genPool(seed, n)
	if only > 0 {
		cases = cases[only-1 : only]
		cases[0].ID = 1
	}
	obs := runAll(cases, nil, 8, 12*time.Second)
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	for i, c := range cases {
		die(enc.Encode(&poolRec{ID: c.ID, Src: c.Src, N: c.Pool.N, W: c.Pool.W, Emits: c.Pool.Emits,
			Events: obs[i].Log, Err: obs[i].Err, Leak: obs[i].Leak}))
	}
	die(w.Flush())
	die(f.Close())
}
