package main

// Runs programs on the real engine and records what is observable.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"log"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/reformat"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

type Case struct {
	ID     int            `json:"id"`
	Src    string         `json:"src"`
	Env    []any          `json:"env"`
	Stmts  []Stmt         `json:"stmts,omitempty"`
	Mode   string         `json:"mode"`
	Pool   *PoolParams    `json:"pool,omitempty"`
	Batch  *BatchParams   `json:"batch,omitempty"`
	At     []any          `json:"at,omitempty"` // where mode cancel cancels
	Tables map[string][]V `json:"tables,omitempty"`
}

type Obs struct {
	ID    int      `json:"id"`
	Outs  []any    `json:"outs"`
	Log   []any    `json:"log"`
	Err   string   `json:"err"`
	Leak  int      `json:"leak"`
	Extra []string `json:"extra"`
	More  []*Obs   `json:"more,omitempty"` // mode reuse: other observations of the same case
	Pull  []int    `json:"pull"`           // mode endless: rows pulled at the pause, id read there, rows pulled
}

// ---- specification values to Go values

func toGo(v_ any, rep int) any {
	v := list(v_)
	switch v[0] {
	case "null":
		return types.Null{}
	case "bool":
		return v[1].(bool)
	case "int":
		n := asInt(v[1])
		switch rep % 6 {
		case 1:
			return n
		case 2:
			return int32(n)
		case 3:
			if n >= 0 {
				return uint64(n)
			}
		case 4:
			if n >= 0 && n < 200 {
				return uint8(n)
			}
		}
		return int64(n)
	case "flt":
		f := float64(asInt(v[1])) / 64
		if rep%6 == 5 {
			return float32(f)
		}
		return f
	case "str":
		return v[1].(string)
	case "arr":
		out := []any{}
		for i, x := range list(v[1]) {
			out = append(out, toGo(x, rep+i))
		}
		return out
	case "dict":
		out := ordereddict.NewDict()
		for i, p := range list(v[1]) {
			out.Set(list(p)[0].(string), toGo(list(p)[1], rep+i))
		}
		return out
	}
	panic(fmt.Sprintf("toGo %v", v))
}

// ---- Go values to specification values

func flt(f float64) V {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return V{"fltx", fmt.Sprint(f)}
	}
	x := f * 64
	if x != math.Trunc(x) || math.Abs(x) > 1e9 {
		return V{"fltx", fmt.Sprint(f)}
	}
	return vFlt(int(x))
}

func norm(ctx context.Context, scope types.Scope, x any) V {
	switch t := x.(type) {
	case nil:
		return vNull()
	case types.Null, *types.Null:
		return vNull()
	case bool:
		return vBool(t)
	case string:
		return vStr(t)
	case float64:
		return flt(t)
	case float32:
		return flt(float64(t))
	case types.LazyExpr:
		return norm(ctx, scope, t.Reduce(ctx))
	case types.Materializer:
		return norm(ctx, scope, t.Materialize(ctx, scope))
	case types.StoredQuery, types.StoredExpression:
		return V{"other"}
	case *ordereddict.Dict:
		if t == nil {
			return vNull()
		}
		kv := []any{}
		for _, k := range t.Keys() {
			v, _ := t.Get(k)
			kv = append(kv, []any{k, norm(ctx, scope, v)})
		}
		return V{"dict", kv}
	case types.LazyRow:
		return norm(ctx, scope, dict.RowToDict(ctx, scope, t))
	case types.Scope:
		return V{"other"}
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n := rv.Int(); n > 1000000000 || n < -1000000000 {
			return V{"intx", fmt.Sprint(n)}
		}
		return vInt(int(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n := rv.Uint(); n > 1000000000 {
			return V{"intx", fmt.Sprint(n)}
		}
		return vInt(int(rv.Uint()))
	case reflect.Slice, reflect.Array:
		if rv.Kind() == reflect.Slice && rv.IsNil() {
			return vNull()
		}
		xs := []any{}
		for i := 0; i < rv.Len(); i++ {
			xs = append(xs, norm(ctx, scope, rv.Index(i).Interface()))
		}
		return V{"arr", xs}
	case reflect.Map:
		keys := []string{}
		for _, k := range rv.MapKeys() {
			keys = append(keys, fmt.Sprint(k.Interface()))
		}
		sort.Strings(keys)
		kv := []any{}
		for _, k := range keys {
			kv = append(kv, []any{k, norm(ctx, scope, rv.MapIndex(reflect.ValueOf(k)).Interface())})
		}
		return V{"dict", kv}
	}
	return V{"other"}
}

func normRow(ctx context.Context, scope types.Scope, row any) V {
	if types.IsNil(row) {
		return vNull()
	}
	return norm(ctx, scope, row)
}

// ---- probe function, table plugin

type Recorder struct {
	mu     sync.Mutex
	events []any
	// Called with the number of the event, under the lock.
	hook func(n int) bool
	n    int
	res  *Resources
	// The table inf goes on after its rows.
	endless string
	cut     int // the rows of inf sent in mode stall
	pulled  atomic.Int64
}

// Reports whether this event cancelled the query.
func (r *Recorder) add(id string, v V) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if id != "" {
		r.events = append(r.events, []any{id, v})
	}
	r.n++
	return r.hook != nil && r.hook(r.n)
}

// Destructors registered during a query.
type Resources struct {
	mu   sync.Mutex
	regs []*resource
	root types.Scope
}

type resource struct {
	what    string
	root    bool
	refused bool
	runs    int
}

func (r *Resources) acquire(scope types.Scope, what string) *resource {
	if r == nil {
		return nil
	}
	x := &resource{what: what, root: scope == r.root}
	r.mu.Lock()
	r.regs = append(r.regs, x)
	r.mu.Unlock()
	err := scope.AddDestructor(func() {
		r.mu.Lock()
		x.runs++
		r.mu.Unlock()
	})
	r.mu.Lock()
	x.refused = err != nil
	r.mu.Unlock()
	return x
}

func (r *Resources) released(x *resource) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return x.runs > 0
}

func (r *Resources) refused() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := []string{}
	for _, x := range r.regs {
		if x.refused {
			out = append(out, x.what)
		}
	}
	return out
}

// Destructors that did not run exactly once; those of the root scope run
// when it is closed.
func (r *Resources) check(rootClosed bool) string {
	for _, x := range r.regs {
		want := 1
		if x.refused || x.root && !rootClosed {
			want = 0
		}
		if x.runs != want {
			return fmt.Sprintf("destructor registered by %s ran %d times instead of %d", x.what, x.runs, want)
		}
	}
	return ""
}

func (r *Recorder) take() []any {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := r.events
	if out == nil {
		out = []any{}
	}
	r.events = nil
	return out
}

type probeFn struct{ rec *Recorder }

func (p probeFn) Copy() types.FunctionInterface { return p }
func (p probeFn) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "probe"}
}
func reduceArg(ctx context.Context, args *ordereddict.Dict, name string) any {
	v, _ := args.Get(name)
	if l, ok := v.(types.LazyExpr); ok {
		return l.Reduce(ctx)
	}
	return v
}
func (p probeFn) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	if p.rec == nil {
		p.rec = recOf(scope)
	}
	id := reduceArg(ctx, args, "id").(string)
	v := reduceArg(ctx, args, "v")
	n := norm(ctx, scope, v)
	p.rec.res.acquire(scope, "probe "+id)
	if p.rec.add(id, n) {
		p.rec.awaitCancel(ctx, id)
	}
	return v
}

type tblPlugin struct {
	rec    *Recorder
	tables map[string][]V
}

func (p tblPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "tbl"}
}
func recOf(scope types.Scope) *Recorder {
	v, _ := scope.GetContext("_rec")
	return v.(*Recorder)
}

func (p tblPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	if p.rec == nil {
		p.rec = recOf(scope)
	}
	out := make(chan types.Row)
	name := reduceArg(ctx, args, "name").(string)
	res := p.rec.res.acquire(scope, "tbl "+name)
	if p.rec.add("tbl:"+name, vNull()) {
		p.rec.awaitCancel(ctx, "tbl:"+name)
	}
	go func() {
		defer close(out)
		rows := p.tables[name]
		inf := name == "inf" && p.rec.endless != ""
		sent := int64(0)
		for i := 0; i < len(rows) || inf; i++ {
			var row any
			if inf && p.rec.endless == "stall" && i >= p.rec.cut {
				<-ctx.Done()
				return
			}
			if i < len(rows) {
				row = toGo(rows[i], i)
			} else {
				row = toGo(rows[i%len(rows)], i).(*ordereddict.Dict).Set("id", int64(i+1))
			}
			select {
			case <-ctx.Done():
				return
			case out <- row:
			}
			if res != nil && p.rec.res.released(res) && ctx.Err() == nil {
				p.rec.add("!early", vStr(name))
				return
			}
			if inf {
				sent++
				if sent > p.rec.pulled.Load() {
					p.rec.pulled.Store(sent)
				}
			}
			if p.rec.res != nil {
				p.rec.add("", nil)
			}
		}
	}()
	return out
}

func newEnvScope(c *Case, rec *Recorder, tables map[string][]V, logs *bytes.Buffer) types.Scope {
	scope := vfilter.NewScope()
	if logs != nil {
		scope.SetLogger(log.New(logs, "", 0))
	}
	scope.AppendFunctions(probeFn{rec})
	scope.AppendPlugins(tblPlugin{rec, tables})
	scope.AppendVars(goEnv(c))
	return scope
}

func goEnv(c *Case) *ordereddict.Dict {
	env := ordereddict.NewDict()
	for i, kv := range c.Env {
		env.Set(list(kv)[0].(string), toGo(list(kv)[1], i))
	}
	return env
}

func runStmts(ctx context.Context, scope types.Scope, vqls []*vfilter.VQL) []any {
	outs := []any{}
	for _, vql := range vqls {
		rows := []any{}
		for row := range vql.Eval(ctx, scope) {
			rows = append(rows, normRow(ctx, scope, row))
		}
		if vql.Type() == "SELECT" || vql.Type() == "EXPLAIN" {
			outs = append(outs, rows)
		}
	}
	return outs
}

// After the query was cancelled by this event the context handed to the
// call is cancelled too.
func (r *Recorder) awaitCancel(ctx context.Context, id string) {
	select {
	case <-ctx.Done():
	case <-time.After(2 * time.Second):
		r.mu.Lock()
		r.events = append(r.events, []any{"!notcancelled", vStr(id)})
		r.mu.Unlock()
	}
}

// Runs the statements; the last SELECT is cancelled at c.At: after that many
// rows were read, or when that many events happened in it.
func runCancel(ctx context.Context, scope types.Scope, vqls []*vfilter.VQL, c *Case, rec *Recorder, base int, o *Obs) {
	last := -1
	for i, vql := range vqls {
		if vql.Type() == "SELECT" {
			last = i
		}
	}
	for i, vql := range vqls {
		sctx, cancel := context.WithCancel(ctx)
		defer cancel()
		cancelled := false
		at := asInt(c.At[1])
		if i == last {
			if c.At[0] == "event" {
				rec.mu.Lock()
				rec.n = 0
				rec.hook = func(n int) bool {
					if n == at {
						cancelled = true
						cancel()
						return true
					}
					return false
				}
				rec.mu.Unlock()
			}
		}
		rows := []any{}
		ch := vql.Eval(sctx, scope)
		if i == last && c.At[0] == "row" && at == 0 {
			cancel()
		} else {
			for row := range ch {
				rec.mu.Lock()
				stop := cancelled
				rec.mu.Unlock()
				if stop {
					break
				}
				r := normRow(sctx, scope, row)
				rec.mu.Lock()
				if !cancelled {
					rows = append(rows, r)
				}
				stop = cancelled
				rec.mu.Unlock()
				if stop || i == last && c.At[0] == "row" && len(rows) == at {
					break
				}
			}
			if i == last {
				cancel()
			}
		}
		if vql.Type() == "SELECT" {
			o.Outs = append(o.Outs, rows)
		}
		// Without anyone reading the rows.
		if o.Leak = leaked(base); o.Leak > 0 {
			return
		}
		closed := false
		for k := 0; k < 3 && !closed; k++ {
			select {
			case _, ok := <-ch:
				closed = !ok
			case <-time.After(time.Second):
			}
		}
		if !closed {
			o.Err = "output channel not closed"
			return
		}
		if o.Err = rec.res.check(false); o.Err != "" {
			return
		}
		cancel()
	}
	rec.mu.Lock()
	rec.hook = nil
	rec.mu.Unlock()
	scope.Close()
	o.Err = rec.res.check(true)
	if c.At[0] == "none" {
		for _, what := range rec.res.refused() {
			rec.add("!refused", vStr(what))
		}
	}
	o.Leak = leaked(base)
}

// The same parsed statements on several scopes, one after the other and at
// the same time.
func runReuse(ctx context.Context, vqls []*vfilter.VQL, c *Case, tables map[string][]V, root types.Scope, o *Obs) {
	one := func(tables map[string][]V) *Obs {
		x := &Obs{ID: c.ID, Outs: []any{}, Log: []any{}, Extra: []string{}}
		rec := &Recorder{}
		var scope types.Scope
		if c.ID%2 == 0 {
			scope = newEnvScope(c, nil, tables, nil)
		} else {
			scope = root.NewScope()
			scope.AppendFunctions(probeFn{})
			scope.AppendPlugins(tblPlugin{tables: tables})
			scope.AppendVars(goEnv(c))
		}
		// The functions are the same on all scopes.
		scope.ClearContext()
		scope.SetContext("_rec", rec)
		x.Outs = runStmts(ctx, scope, vqls)
		x.Log = rec.take()
		scope.Close()
		return x
	}
	all := make([]*Obs, 5)
	parallel := func(from, to int) {
		var wg sync.WaitGroup
		for i := from; i < to; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				all[i] = one(tables)
			}()
		}
		wg.Wait()
	}
	// Nothing of a run over other rows may be seen in the ones that follow.
	if c.ID%4 != 0 {
		one(otherTables(tables, c.ID))
	}
	if c.ID%3 == 0 {
		all[0] = one(tables)
		parallel(1, 4)
		all[4] = one(tables)
	} else {
		parallel(0, 4)
		all[4] = one(tables)
	}
	seen := map[string]bool{}
	for i, x := range all {
		b, _ := json.Marshal([]any{x.Outs, x.Log})
		if i == 0 {
			o.Outs, o.Log = x.Outs, x.Log
		} else if !seen[string(b)] {
			o.More = append(o.More, x)
		}
		seen[string(b)] = true
	}
}

// The tables with some rows missing, others twice, in another order.
func otherTables(tables map[string][]V, id int) map[string][]V {
	r := rand.New(rand.NewSource(int64(id)))
	names := []string{}
	for name := range tables {
		names = append(names, name)
	}
	sort.Strings(names)
	res := map[string][]V{}
	for _, name := range names {
		rows := []V{}
		for _, k := range r.Perm(len(tables[name])) {
			for n := r.Intn(4) - 1; n > 0; n-- {
				rows = append(rows, tables[name][k])
			}
		}
		res[name] = rows
	}
	return res
}

// Waits for the goroutines of the case to end.
func leaked(base int) int {
	for i := 0; i < 450; i++ {
		if n := runtime.NumGoroutine() - base; n <= 0 {
			return 0
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(i-49) * 100 * time.Microsecond)
		}
	}
	return runtime.NumGoroutine() - base
}

func runCase(c *Case, tables map[string][]V) (o *Obs) {
	o = &Obs{ID: c.ID, Outs: []any{}, Log: []any{}, Extra: []string{}}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			o.Err = fmt.Sprintf("panic: %v %s", r, buf[:runtime.Stack(buf, false)])
		}
	}()
	rec := &Recorder{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	base := runtime.NumGoroutine()
	scope := newEnvScope(c, rec, tables, nil)
	vqls, err := vfilter.MultiParse(c.Src)
	if err != nil {
		o.Err = "parse: " + err.Error()
		return o
	}
	switch c.Mode {
	case "", "plain", "explain":
		if c.Mode == "explain" {
			observe(ctx, scope, rec)
		}
		o.Outs = runStmts(ctx, scope, vqls)
		o.Log = rec.take()
		scope.Close()
		o.Leak = leaked(base)

	case "recursion":
		for _, out := range runStmts(ctx, scope, vqls) {
			rows := []any{}
			for i, row := range out.([]any) {
				if i < recursionCap {
					rows = append(rows, clip(row, 230))
				}
			}
			o.Outs = append(o.Outs, rows)
		}
		for i, e := range rec.take() {
			if i < recursionCap {
				ev := e.([]any)
				o.Log = append(o.Log, []any{ev[0], clip(ev[1], 230)})
			}
		}
		scope.Close()
		o.Leak = leaked(base)

	case "endless", "stall":
		runEndless(ctx, cancel, scope, vqls, c, tables, rec, o)
		if o.Err == "" {
			scope.Close()
			o.Leak = leaked(base)
		}

	case "reuse":
		runReuse(ctx, vqls, c, tables, scope, o)

	case "pool":
		runPool(ctx, cancel, scope, vqls, c, o, base)

	case "response":
		o.Outs = runResponse(ctx, scope, vqls, c)
		o.Log = rec.take()
		scope.Close()
		o.Leak = leaked(base)

	case "batch":
		runBatch(ctx, cancel, scope, vqls, c, o, base)

	case "cancel":
		rec.res = &Resources{root: scope}
		runCancel(ctx, scope, vqls, c, rec, base, o)
		o.Log = rec.take()

	case "marshal":
		runMarshal(ctx, scope, vqls, c, tables, rec, o)
		o.Log = rec.take()

	case "reformat":
		text, err := reformat.ReFormatVQL(scope, c.Src, vfilter.DefaultFormatOptions)
		if err != nil {
			o.Err = "reformat: " + err.Error()
			return o
		}
		o.Extra = append(o.Extra, text)
		vqls2, err := vfilter.MultiParse(text)
		if err != nil {
			o.Err = "reparse: " + err.Error() + "\n" + text
			return o
		}
		t2, err := reformat.ReFormatVQL(scope, text, vfilter.DefaultFormatOptions)
		if err != nil || t2 != text {
			o.Err = "not idempotent: " + text + "\n----\n" + t2
			return o
		}
		o.Outs = runStmts(ctx, scope, vqls2)
		o.Log = rec.take()
		scope.Close()

	case "format":
		parts := []string{}
		for _, v := range vqls {
			parts = append(parts, vfilter.FormatToString(scope, v))
		}
		text := strings.Join(parts, "\n")
		o.Extra = append(o.Extra, text)
		vqls2, err := vfilter.MultiParse(text)
		if err != nil {
			o.Err = "reparse: " + err.Error() + "\n" + text
			return o
		}
		parts2 := []string{}
		for _, v := range vqls2 {
			parts2 = append(parts2, vfilter.FormatToString(scope, v))
		}
		if t2 := strings.Join(parts2, "\n"); t2 != text {
			o.Err = "not idempotent: " + text + "\n----\n" + t2
			return o
		}
		o.Outs = runStmts(ctx, scope, vqls2)
		o.Log = rec.take()
		scope.Close()
	}
	return o
}
