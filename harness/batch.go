package main

// Recorded runs of GetResponseChannel, checked by BatchCheck.tla.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

type BatchParams struct {
	N      int    `json:"n"`
	Max    int    `json:"max"`
	Wait   int    `json:"wait"`   // seconds
	Pace   string `json:"pace"`   // of the rows
	Slow   int    `json:"slow"`   // microseconds the reader takes for a batch
	Cancel int    `json:"cancel"` // number of the event to cancel at
	Seed   int64  `json:"seed"`
}

type batchRec struct {
	ID     int        `json:"id"`
	Src    string     `json:"src"`
	N      int        `json:"n"`
	Max    int        `json:"max"`
	Wait   int        `json:"wait"`
	Cols   [][]string `json:"cols"`
	Events []any      `json:"events"`
	Err    string     `json:"err"`
	Leak   int        `json:"leak"`
}

type batchLog struct {
	mu     sync.Mutex
	p      *BatchParams
	events []any
	cancel func()
}

func (l *batchLog) add(ev ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.events = append(l.events, ev)
	if len(l.events) == l.p.Cancel {
		l.events = append(l.events, []any{"cancel"})
		l.cancel()
	}
}

// The rows differ in their columns.
func batchRow(i int) *ordereddict.Dict {
	row := ordereddict.NewDict().Set("id", i)
	if i%3 == 0 {
		row.Set("c", nil)
	}
	if i%4 == 1 {
		row.Set("b d", i)
	}
	return row
}

// How long after the maximum wait a row must have arrived.
const batchSlack = 1300 * time.Millisecond

type rowsPlugin struct{ l *batchLog }

func (p rowsPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "rows"}
}

func (p rowsPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	l := p.l
	r := rand.New(rand.NewSource(l.p.Seed))
	pause := func(d time.Duration) {
		select {
		case <-ctx.Done():
		case <-time.After(d):
		}
	}
	long := time.Duration(l.p.Wait)*time.Second + batchSlack
	silences := map[int]bool{r.Intn(l.p.N + 1): true, r.Intn(l.p.N + 1): true}
	go func() {
		defer close(out)
		defer l.add("end")
		at := []time.Time{}
		for i := 0; ; i++ {
			switch l.p.Pace {
			case "random":
				if r.Intn(3) == 0 {
					pause(time.Duration(r.Intn(200)) * time.Microsecond)
				}
			case "silence":
				if silences[i] {
					pause(long)
					l.add("aged", i)
				}
			case "trickle":
				pause(300 * time.Millisecond)
				k := 0
				for k < len(at) && time.Since(at[k]) > long {
					k++
				}
				if k > 0 {
					l.add("aged", k)
				}
			}
			if i == l.p.N || ctx.Err() != nil {
				return
			}
			l.add("send")
			select {
			case <-ctx.Done():
				return
			case out <- batchRow(i + 1):
			}
			at = append(at, time.Now())
		}
	}()
	return out
}

func runBatch(ctx context.Context, cancel func(), scope types.Scope, vqls []*vfilter.VQL, c *Case, o *Obs, base int) {
	l := &batchLog{p: c.Batch, cancel: cancel}
	scope.AppendPlugins(rowsPlugin{l})
	encoder := func(rows []vfilter.Row) ([]byte, error) {
		ids := []int64{}
		for _, row := range rows {
			id, _ := row.(*ordereddict.Dict).GetInt64("id")
			ids = append(ids, id)
		}
		return json.Marshal(ids)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		for _, vql := range vqls {
			if vql.Type() != "SELECT" {
				for range vql.Eval(ctx, scope) {
				}
				continue
			}
			for b := range vfilter.GetResponseChannel(vql, ctx, scope, encoder, c.Batch.Max, c.Batch.Wait) {
				ids := []int{}
				die(json.Unmarshal(b.Payload, &ids))
				cols := b.Columns
				if cols == nil {
					cols = []string{}
				}
				l.add("batch", b.Part, b.TotalRows, ids, cols)
				if c.Batch.Slow > 0 {
					time.Sleep(time.Duration(c.Batch.Slow) * time.Microsecond)
				}
			}
		}
	}()
	select {
	case <-done:
		scope.Close()
		o.Leak = leaked(base)
		l.mu.Lock()
		o.Log = append(l.events, []any{"close"})
		l.mu.Unlock()
	case <-time.After(20 * time.Second):
		cancel()
		o.Err = "hang"
	}
}

var batchSrcs = []string{
	"SELECT * FROM rows()",
	"SELECT * FROM rows() WHERE id",
	"LET q = SELECT * FROM rows() SELECT * FROM q",
}

// A part of the cases takes seconds each.
func genBatches(seed int64, n, slow int) []*Case {
	r := rand.New(rand.NewSource(seed*419 + 11))
	cases := []*Case{}
	for id := 1; id <= n+slow; id++ {
		p := &BatchParams{N: r.Intn(1 + r.Intn(14)), Max: 1 + r.Intn(5), Wait: []int{0, 100}[r.Intn(2)],
			Pace: []string{"fast", "random"}[r.Intn(2)], Seed: r.Int63()}
		if r.Intn(2) == 0 {
			// The boundaries.
			p.N = p.Max*r.Intn(4) + r.Intn(3) - 1
			if p.N < 0 {
				p.N = 0
			}
		}
		if r.Intn(6) == 0 {
			p.Max = 1000
		}
		if r.Intn(4) == 0 {
			p.Slow = r.Intn(300)
		}
		if r.Intn(5) == 0 {
			p.Cancel = 1 + r.Intn(20)
		}
		if id > n {
			p.Wait, p.Slow = 1, 0
			p.Pace = []string{"silence", "trickle"}[id%2]
			p.N = 3 + r.Intn(6)
			p.Max = []int{1, 2, 4, 20, 1000}[r.Intn(5)]
			if p.Pace == "trickle" {
				p.N = 12 + r.Intn(3)
			}
		}
		src := batchSrcs[r.Intn(3)]
		cases = append(cases, &Case{ID: id, Src: src, Env: []any{}, Mode: "batch", Batch: p})
	}
	return cases
}

func batches(path string, seed int64, n, slow, only int) {
	cases := genBatches(seed, n, slow)
	var obs []*Obs
	if only > 0 {
		cases = cases[only-1 : only]
		cases[0].ID = 1
		obs = runAll(cases, nil, 1, 25*time.Second)
	} else {
		obs = append(runAll(cases[:n], nil, 8, 25*time.Second), runAll(cases[n:], nil, 40, 25*time.Second)...)
	}
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	for i, c := range cases {
		cols := [][]string{}
		for k := 1; k <= c.Batch.N; k++ {
			cols = append(cols, batchRow(k).Keys())
		}
		die(enc.Encode(&batchRec{ID: c.ID, N: c.Batch.N, Max: c.Batch.Max, Wait: c.Batch.Wait, Cols: cols,
			Src:    fmt.Sprintf("%s in batches of %d, %s", c.Src, c.Batch.Max, c.Batch.Pace),
			Events: obs[i].Log, Err: obs[i].Err, Leak: obs[i].Leak}))
	}
	die(w.Flush())
	die(f.Close())
}

// The rows of every SELECT, read in batches or in one piece.
func runResponse(ctx context.Context, scope types.Scope, vqls []*vfilter.VQL, c *Case) []any {
	encoder := func(rows []vfilter.Row) ([]byte, error) {
		out := []V{}
		for _, row := range rows {
			out = append(out, normRow(ctx, scope, row))
		}
		return json.Marshal(out)
	}
	outs := []any{}
	for i, vql := range vqls {
		rows := []any{}
		take := func(b []byte) {
			part := []any{}
			die(json.Unmarshal(b, &part))
			rows = append(rows, part...)
		}
		if (c.ID+i)%3 == 0 {
			b, err := vfilter.OutputJSON(vql, ctx, scope, encoder)
			die(err)
			take(b)
		} else {
			for b := range vfilter.GetResponseChannel(vql, ctx, scope, encoder, 1+c.ID%4, 100*(c.ID%2)) {
				take(b.Payload)
			}
		}
		if vql.Type() == "SELECT" || vql.Type() == "EXPLAIN" {
			outs = append(outs, rows)
		}
	}
	return outs
}
