package main

// Queries with LIMIT over a source that never ends (mode endless) or stops
// sending without ending (mode stall).

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"time"

	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func endlessProgram(r *rand.Rand) []Stmt {
	g := &Gen{r: r}
	inf := func() []any { return fromCall("tbl", argE("name", eStr("inf"))) }
	sel := func(from []any, cols ...[]any) *Select {
		q := newSelect(from)
		for _, c := range cols {
			q.Cols = append(q.Cols, c)
		}
		return q
	}
	id := func() []any { return colAs("id", eSym("id")) }
	where := func(q *Select) *Select {
		if g.p(60) {
			q.Where = []E{
				eCmp("!=", eSym("k"), eInt(g.pick(5))),
				eCmp("!=", eSym("v"), eInt(g.pick(5))),
				eCmp("!=", eSym("id"), eInt(g.pick(30))),
				g.call("probe", argE("id", eStr("w")), argE("v", eCmp("!=", eSym("k"), eInt(g.pick(5))))),
			}[g.pick(4)]
		}
		return q
	}
	base := func() *Select {
		q := sel(inf(), [][]any{id(), colStar()}[g.pick(2)])
		if g.p(40) {
			q.Cols = append(q.Cols, colAs("k", eSym("k")), colAs("v", eSym("v")))
		} else {
			q.Cols = append(q.Cols, colStar())
		}
		if g.p(30) {
			q.Cols = append(q.Cols, colAs("n", g.call("count")))
		}
		return where(q)
	}
	limit := func(q *Select) *Select {
		q.Limit = g.pick(10)
		if g.p(10) {
			q.Limit = 10 + g.pick(8)
		}
		return q
	}
	out := []Stmt{}
	from := inf()
	multiplied := false
	for d := g.pick(3); d >= 0; d-- {
		stage := g.pick(9)
		if stage == 3 || stage == 7 {
			if multiplied {
				stage = 0
			}
			multiplied = true
		}
		switch stage {
		case 0: // through a stored query
			name := g.fresh("L")
			q := base()
			q.From = from
			out = append(out, sLetQ(name, "=", nil, q))
			from = fromSym(name)
		case 1: // called
			name := g.fresh("L")
			q := base()
			q.From = from
			q.Cols = append(q.Cols, colAs("a", eSym("a")))
			out = append(out, sLetQ(name, "=", []any{[]any{"a", false, argE("a", eLit(vNull()))}}, q))
			from = fromCall(name, argE("a", eInt(3)))
		case 2: // rows of foreach
			q := base()
			q.From = from
			from = fromCall("foreach", argQ("row", q), argQ("query", sel(fromCall("scope"), id(), colAs("k", eSym("k")), colAs("v", eSym("v")))))
		case 3: // several rows from each
			q := base()
			q.From = from
			from = fromCall("foreach", argQ("row", q), argQ("query",
				sel(fromCall("range", argE("start", eInt(0)), argE("end", eInt(4+g.pick(3)))), id(), colAs("k", eSym("k")), colAs("v", eSym("_value")))))
		case 4: // an endless query for each row
			q := base()
			q.From = from
			one := sel(fromCall("tbl", argE("name", eStr("t1"))), colAs("o", eSym("k")))
			one.Limit = 1
			from = fromCall("foreach", argQ("row", one), argQ("query", q))
		case 5: // after the rows of another
			q := base()
			q.From = from
			from = fromCall("chain", argQ("a", where(sel(fromCall("tbl", argE("name", eStr("t1"))), colAs("id", eInt(0)), colAs("k", eSym("k")), colAs("v", eInt(1))))), argQ("b", q))
		case 6:
			q := base()
			q.From = from
			from = fromCall("if", argE("condition", eInt(1)), argQ("then", q))
		case 7:
			q := base()
			q.From = from
			q.Cols = append(q.Cols, colAs("v", eArr(eInt(1), eInt(2), eInt(3), eInt(4))))
			from = fromCall("flatten", argQ("query", q))
		case 8:
			q := base()
			q.From = from
			from = fromCall("foreach", argQ("row", q))
		}
	}
	q := limit(base())
	q.From = from
	switch g.pick(6) {
	case 0: // a limited endless query in a column
		q.Cols = append(q.Cols, colSub("u", func() *Select { x := sel(inf(), id()); x.Limit = 1 + g.pick(3); return x }()))
	case 1: // materialized
		name := g.fresh("L")
		out = append(out, sLetQ(name, "<=", nil, q))
		q = sel(fromSym(name), colStar())
	case 2: // sorted above the limit
		name := g.fresh("L")
		out = append(out, sLetQ(name, "=", nil, q))
		q = sel(fromSym(name), colStar())
		q.Order = "id"
		q.Desc = true
		if g.p(50) {
			q.Limit = g.pick(4)
		}
	case 3: // limits within limits
		name := g.fresh("L")
		out = append(out, sLetQ(name, "=", nil, q))
		q = limit(sel(fromSym(name), colStar()))
		if q.Limit > 0 {
			q.Limit = 1 + g.pick(q.Limit)
		}
	}
	return append(out, sSelect(q))
}

func genEndless(seed int64, n int, mode string) ([]*Case, map[string][]V) {
	r := rand.New(rand.NewSource(seed*7919 + 23))
	tables := GenTables(r)
	rows := []V{}
	for i := 0; i < tableInf; i++ {
		rows = append(rows, vDict("id", vInt(i+1), "k", vInt(r.Intn(5)), "v", vInt(r.Intn(5))))
	}
	tables["inf"] = rows
	cases := []*Case{}
	for i := 0; i < n; i++ {
		c := &Case{ID: i + 1, Env: GenEnv(r), Stmts: endlessProgram(r), Mode: []string{"endless", "stall"}[i%2]}
		c.Src = (&Renderer{r: r}).Program(c.Stmts)
		// Where the reader pauses.
		c.At = []any{"pause", 1 + r.Intn(6)}
		cases = append(cases, c)
	}
	return cases, tables
}

const tableInf = 48

var hangs int

func runEndless(ctx context.Context, cancel func(), scope types.Scope, vqls []*vfilter.VQL, c *Case, tables map[string][]V, rec *Recorder, o *Obs) {
	if hangs >= 3 {
		o.Err = "big"
		return
	}
	// How many rows are needed, from a run over the finite table: where the
	// order of the source is kept the result ends with the last one.
	rec.cut = tableInf
	needed := 0
	direct := true
	pre := newEnvScope(c, &Recorder{}, tables, nil)
	defer pre.Close()
	vqls0, err := vfilter.MultiParse(c.Src)
	die(err)
	for _, vql := range vqls0 {
		text := vfilter.FormatToString(scope, vql)
		direct = direct && !strings.Contains(text, "ORDER BY") && !strings.Contains(text, "<=")
		for row := range vql.Eval(ctx, pre) {
			if id := rowID(normRow(ctx, pre, row)); id > needed {
				needed = id
			}
		}
	}
	if direct {
		// A limited query in a column takes up to three rows.
		rec.cut = needed
		if needed < 3 {
			rec.cut = 3
		}
	}
	rec.endless = c.Mode
	done := make(chan bool)
	o.Pull = []int{0, 0, 0}
	outs := []any{}
	go func() {
		defer close(done)
		for i, vql := range vqls {
			rows := []any{}
			for row := range vql.Eval(ctx, scope) {
				v := normRow(ctx, scope, row)
				rows = append(rows, v)
				if i == len(vqls)-1 && len(rows) == asInt(c.At[1]) {
					// Let it run as far as it will.
					last := int64(-1)
					for k := 0; k < 40 && last != rec.pulled.Load(); k++ {
						last = rec.pulled.Load()
						time.Sleep(2 * time.Millisecond)
					}
					o.Pull[0], o.Pull[1] = int(last), rowID(v)
				}
			}
			if vql.Type() == "SELECT" {
				outs = append(outs, rows)
			}
		}
	}()
	select {
	case <-done:
		o.Outs = outs
		o.Pull[2] = int(rec.pulled.Load())
	case <-time.After(3 * time.Second):
		hangs++
		cancel()
		o.Err = fmt.Sprintf("hang: pulled %d rows", rec.pulled.Load())
		o.Pull = []int{0, 0, 0}
	}
}
