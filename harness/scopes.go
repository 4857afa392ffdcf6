package main

// Histories of Copy, AddDestructor and Close on trees of scopes, checked by
// ScopeCheck.tla (one thread, destructors doing such operations themselves)
// and ClosingCheck.tla (several threads).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

type scopeRec struct {
	ID     int    `json:"id"`
	Events []any  `json:"events"`
	Err    string `json:"err"`
	Seen   int    `json:"seen"` // runs of the harness which made this history
}

type scopeOp struct {
	kind string
	s    int
	body []*scopeOp
}

func genScopeOps(r *rand.Rand, n, depth int) []*scopeOp {
	ops := []*scopeOp{}
	for i := 0; i < n; i++ {
		o := &scopeOp{kind: []string{"copy", "copy", "copy", "add", "add", "add", "add", "close", "closed", "throttle", "new"}[r.Intn(11)]}
		switch o.s = r.Intn(1000); r.Intn(4) {
		case 0:
			o.s = 0 // the root
		case 1:
			o.s = -1 // the newest
		}
		if o.kind == "new" && r.Intn(4) > 0 {
			o.kind = "copy"
		}
		if (o.kind == "add" || o.kind == "throttle") && depth > 0 && r.Intn(3) == 0 {
			o.body = genScopeOps(r, 1+r.Intn(4), depth-1)
		}
		ops = append(ops, o)
	}
	return ops
}

type scopeTree struct {
	scopes []types.Scope
	nd     int
	events []any
}

type fakeThrottler struct{ close func() }

func (f fakeThrottler) ChargeOp() {}
func (f fakeThrottler) Close()    { f.close() }

func (t *scopeTree) log(ev ...any) { t.events = append(t.events, ev) }

func (t *scopeTree) mark(i int) {
	t.add(i, nil, false)
}

func (t *scopeTree) add(i int, body []*scopeOp, throttle bool) {
	t.nd++
	d := t.nd
	f := func() {
		t.log("run", d)
		t.exec(body)
		t.log("ran", d)
	}
	if throttle {
		// Whether it was accepted is not reported.
		ok := !t.scopes[i].IsClosed()
		t.scopes[i].SetThrottler(fakeThrottler{f})
		t.log("add", i+1, d, ok)
		return
	}
	err := t.scopes[i].AddDestructor(f)
	t.log("add", i+1, d, err == nil)
}

func (t *scopeTree) exec(ops []*scopeOp) {
	for _, o := range ops {
		i := o.s % len(t.scopes)
		if o.s < 0 {
			i = len(t.scopes) - 1
		}
		s := t.scopes[i]
		if len(t.events) > 300 {
			return
		}
		switch o.kind {
		case "copy", "new":
			if o.kind == "new" {
				t.scopes = append(t.scopes, s.NewScope())
				t.log("new", len(t.scopes))
			} else {
				t.scopes = append(t.scopes, s.Copy())
				t.log("copy", i+1, len(t.scopes))
			}
			t.mark(len(t.scopes) - 1)
		case "add", "throttle":
			t.add(i, o.body, o.kind == "throttle")
		case "close":
			t.log("close", i+1)
			s.Close()
			t.log("end", i+1)
		case "closed":
			t.log("closed", i+1, s.IsClosed())
		}
	}
}

func runScopes(seed int64, id int) *scopeRec {
	r := rand.New(rand.NewSource(seed*7907 + int64(id)))
	var ops []*scopeOp
	switch id % 4 {
	case 0: // many children that come and go
		for i := 0; i < 30+r.Intn(30); i++ {
			p := 0
			if r.Intn(6) == 0 {
				p = r.Intn(1000)
			}
			ops = append(ops, &scopeOp{kind: "copy", s: p})
			if r.Intn(4) > 0 {
				k := 1000
				if r.Intn(3) > 0 {
					ops = append(ops, &scopeOp{kind: "close", s: -1})
				} else {
					ops = append(ops, &scopeOp{kind: "close", s: 1 + r.Intn(k)})
				}
			}
		}
	case 1: // destructors registering destructors, several rounds of them
		o := &scopeOp{kind: "closed", s: 0}
		at := r.Intn(2)
		for i := r.Intn(14); i >= 0; i-- {
			body := []*scopeOp{o}
			if r.Intn(4) == 0 {
				body = append(body, genScopeOps(r, 1, 0)...)
			}
			o = &scopeOp{kind: "add", s: at, body: body}
		}
		ops = append(genScopeOps(r, r.Intn(4), 1), o)
		ops = append(ops, genScopeOps(r, r.Intn(4), 1)...)
	default:
		ops = genScopeOps(r, 3+r.Intn(16), 3)
	}
	ops = append(ops, &scopeOp{kind: "close", s: 0}, &scopeOp{kind: "closed", s: 0})
	if r.Intn(3) == 0 {
		ops = append(ops, &scopeOp{kind: "add", s: 0}, &scopeOp{kind: "close", s: 0})
	}
	t := &scopeTree{}
	done := make(chan bool)
	rec := &scopeRec{ID: id, Seen: 1}
	go func() {
		defer close(done)
		t.scopes = []types.Scope{vfilter.NewScope()}
		t.log("new", 1)
		t.mark(0)
		t.exec(ops)
	}()
	select {
	case <-done:
		rec.Events = t.events
	case <-time.After(20 * time.Second):
		rec.Err = "hang"
		rec.Events = []any{}
	}
	return rec
}

func writeScopes(path string, recs []*scopeRec) {
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	for _, r := range recs {
		die(enc.Encode(r))
	}
	die(w.Flush())
	die(f.Close())
}

func scopeHistories(path string, seed int64, n int) {
	recs := make([]*scopeRec, n)
	parallel(n, func(i int) { recs[i] = runScopes(seed, i+1) })
	writeScopes(path, recs)
}

// ---- several threads

type closing struct {
	mu     sync.Mutex
	events []any
	scopes []types.Scope // by number, 1 the root
	nd     int
}

func (c *closing) log(ev ...any) {
	c.mu.Lock()
	c.events = append(c.events, ev)
	c.mu.Unlock()
}

func spin(r *rand.Rand) {
	for i := r.Intn(60); i > 0; i-- {
		spinSink.Add(1)
	}
}

var spinSink atomic.Int64

func (c *closing) add(r *rand.Rand, i int, again int) {
	c.mu.Lock()
	c.nd++
	d := c.nd
	s := c.scopes[i]
	c.events = append(c.events, []any{"add", i + 1, d})
	c.mu.Unlock()
	err := s.AddDestructor(func() {
		c.log("run", d)
		if again > 0 {
			c.add(rand.New(rand.NewSource(int64(d))), i, again-1)
		}
		c.log("ran", d)
	})
	c.log("added", d, err == nil)
}

func (c *closing) op(r *rand.Rand) {
	c.mu.Lock()
	i := r.Intn(len(c.scopes))
	for c.scopes[i] == nil { // still being copied
		i--
	}
	s := c.scopes[i]
	c.mu.Unlock()
	switch k := r.Intn(10); {
	case k < 4:
		c.add(r, i, r.Intn(2)*r.Intn(3))
	case k < 6:
		c.mu.Lock()
		c.scopes = append(c.scopes, nil)
		id := len(c.scopes)
		c.events = append(c.events, []any{"copy", i + 1, id})
		c.mu.Unlock()
		x := s.Copy()
		c.mu.Lock()
		c.scopes[id-1] = x
		c.events = append(c.events, []any{"copied", id})
		c.mu.Unlock()
	case k < 7:
		c.mu.Lock()
		id := len(c.events) + 1
		c.events = append(c.events, []any{"ask", i + 1, id})
		c.mu.Unlock()
		b := s.IsClosed()
		c.log("closed", id, b)
	default:
		c.mu.Lock()
		id := len(c.events) + 1
		c.events = append(c.events, []any{"close", i + 1, id})
		c.mu.Unlock()
		s.Close()
		c.log("end", id)
	}
}

func runClosing(seed int64, id int) []any {
	r := rand.New(rand.NewSource(seed*104729 + int64(id)))
	c := &closing{}
	root := vfilter.NewScope()
	c.scopes = []types.Scope{root}
	for i := r.Intn(3); i > 0; i-- {
		p := r.Intn(len(c.scopes))
		c.scopes = append(c.scopes, c.scopes[p].Copy())
		c.log("copy", p+1, len(c.scopes))
		c.log("copied", len(c.scopes))
	}
	for i := r.Intn(3); i > 0; i-- {
		c.add(r, r.Intn(len(c.scopes)), r.Intn(2))
	}
	threads := 2 + r.Intn(3)
	scripts := make([]*rand.Rand, threads)
	for i := range scripts {
		scripts[i] = rand.New(rand.NewSource(r.Int63()))
	}
	var wg sync.WaitGroup
	var gate atomic.Int32
	for i := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := scripts[i]
			gate.Add(1)
			for gate.Load() < int32(threads) {
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				spin(r)
				c.op(r)
			}
		}()
	}
	wg.Wait()
	n := len(c.events)
	c.log("close", 1, n+1)
	root.Close()
	c.log("end", n+1)
	return c.events
}

func closings(path string, seed int64, n int) {
	var mu sync.Mutex
	seen := map[string]*scopeRec{}
	recs := []*scopeRec{}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < 3; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1))
				if i > n {
					return
				}
				done := make(chan []any, 1)
				go func() { done <- runClosing(seed, i) }()
				rec := &scopeRec{Seen: 1}
				select {
				case rec.Events = <-done:
				case <-time.After(20 * time.Second):
					rec.Err, rec.Events = "hang", []any{}
				}
				b, _ := json.Marshal(rec.Events)
				mu.Lock()
				if old := seen[string(b)]; old != nil {
					old.Seen++
				} else {
					rec.ID = len(recs) + 1
					seen[string(b)] = rec
					recs = append(recs, rec)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	writeScopes(path, recs)
	fmt.Println(len(recs))
}
