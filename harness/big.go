package main

// Programs over tables of more than a thousand rows.

import (
	"fmt"
	"math/rand"
	"strings"
)

func bigTable(r *rand.Rand, n int) []V {
	g := &Gen{r: r}
	rows := []V{}
	for i := 0; i < n; i++ {
		v := vInt(r.Intn(200) - 100)
		if g.p(4) {
			v = vNull()
		}
		kv := []any{"id", vInt(i + 1), "k", vInt(r.Intn(5)), "v", v, "s", g.Value("str", 0)}
		if g.p(3) {
			kv = append(kv, "l", vArr(vInt(r.Intn(4)), vInt(7)))
		}
		rows = append(rows, vDict(kv...))
	}
	return rows
}

func bigProgram(kind string, r *rand.Rand, i int) []Stmt {
	g := &Gen{r: r}
	t4 := func() []any { return fromCall("tbl", argE("name", eStr("t4"))) }
	plus := func(a E, n int) E { return eBin("add", "+", a, eInt(n)) }
	sel := func(from []any, cols ...[]any) *Select {
		q := newSelect(from)
		for _, c := range cols {
			q.Cols = append(q.Cols, c)
		}
		return q
	}
	id := colAs("id", eSym("id"))
	where := func(q *Select) *Select {
		if g.p(50) {
			q.Where = eCmp([]string{"<", ">", "!="}[r.Intn(3)], eSym("v"), eInt(r.Intn(100)-50))
		}
		return q
	}
	switch kind {
	case "select":
		return []Stmt{sSelect(where(sel(t4(), [][]any{id, colStar()}[i%2], colAs("c", plus(eSym("v"), 3)))))}
	case "group":
		q := where(sel(t4(), colAs("k", eSym("k")), colAs("n", g.call("count")), colAs("t", g.call("sum", argE("item", eSym("id"))))))
		q.Group = append(q.Group, []E{eSym("k"), eSym("s"), eSym("id")}[i%3])
		return []Stmt{sSelect(q)}
	case "limit":
		q := where(sel(t4(), id, colAs("k", eSym("k"))))
		q.Limit = []int{3, 1000, 1100, 900, 1300}[i%5]
		return []Stmt{sSelect(q)}
	case "foreach":
		inner := sel(fromCall("scope"), id, colAs("k", eSym("k")))
		args := []any{argQ("row", where(sel(t4(), colStar()))), argQ("query", inner)}
		if i%2 == 1 {
			args = append(args, argE("workers", eInt(2+r.Intn(9))))
		}
		return []Stmt{sSelect(sel(fromCall("foreach", args...), colStar()))}
	case "agg":
		return []Stmt{sSelect(where(sel(t4(), id, colAs("n", g.call("count")), colAs("m", g.call("max", argE("item", eSym("v")))),
			colAs("t", g.call("sum", argE("item", eSym("k")))))))}
	case "let":
		out := []Stmt{sLetQ("L", []string{"<=", "="}[i%2], nil, where(sel(t4(), id, colAs("p", eSym("s"))))),
			sSelect(sel(fromSym("L"), colStar())),
			sSelect(sel(fromCall("scope"), colAs("n", g.call("len", argE("list", E{"mem", eSym("L"), "id"}))),
				colAs("last", E{"idx", E{"mem", eSym("L"), "id"}, eInt(-1)})))}
		return out
	case "letcall":
		params := []any{[]any{"a", false, argE("a", eLit(vNull()))}, []any{"b", true, argE("b", plus(eSym("k"), 1))}}
		return []Stmt{sLetE("F", "=", params, eBin("add", "+", eSym("a"), eSym("b"))),
			sSelect(sel(t4(), id, colAs("c", g.call("F", argE("a", eSym("id"))))))}
	case "rows":
		switch i % 4 {
		case 0:
			return []Stmt{sSelect(sel(fromCall("range", argE("start", eInt(3)), argE("end", eInt(1500))), colStar()))}
		case 1:
			return []Stmt{sSelect(sel(fromCall("chain", argQ("a", sel(t4(), id)), argQ("b", sel(t4(), id))), colStar()))}
		case 2:
			return []Stmt{sSelect(sel(fromCall("flatten", argQ("query", sel(t4(), id, colAs("l", eSym("l"))))), colStar()))}
		default:
			return []Stmt{sSelect(sel(fromCall("if", argE("condition", eInt(1)), argQ("then", sel(t4(), id))), colStar()))}
		}
	}
	die(fmt.Errorf("no big program %s", kind))
	return nil
}

func genBig(kind string, seed int64, n int) ([]*Case, map[string][]V) {
	r := rand.New(rand.NewSource(seed*7919 + 5))
	tables := GenTables(r)
	tables["t4"] = bigTable(r, 1050+r.Intn(300))
	cases := []*Case{}
	for i := 0; i < n; i++ {
		env := GenEnv(r)
		stmts := bigProgram(kind, r, i)
		rd := &Renderer{r: r}
		cases = append(cases, &Case{ID: i + 1, Src: rd.Program(stmts), Env: env, Stmts: stmts})
	}
	return cases, tables
}

func isBig(profile string) (string, bool) { return strings.CutPrefix(profile, "big-") }
