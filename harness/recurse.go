package main

// Definitions which call themselves once per level: mode recursion, with a
// bound, or without one. At is what the model needs to know of the depth.

import (
	"fmt"
	"math/rand"
)

// Rows and events recorded of one query.
const recursionCap = 300

type recGen struct {
	*Gen
	k     int  // the bound
	bound bool // whether there is one
	param bool // the definitions have the parameter n
	names []string
	query []bool
}

func sel(from []any, cols ...[]any) *Select {
	q := newSelect(from)
	for _, c := range cols {
		q.Cols = append(q.Cols, c)
	}
	return q
}

func (g *recGen) n() E { return eSym("n") }

// The argument of the next level.
func (g *recGen) next() []any { return argE("n", eBin("add", "+", g.n(), eInt(1))) }

func (g *recGen) source(i int) []any {
	if g.param {
		return fromCall(g.names[i], g.next())
	}
	return fromSym(g.names[i])
}

// A query which gives the rows of definition i.
func (g *recGen) rowsOf(i int) *Select {
	q := sel(g.source(i))
	switch g.pick(8) {
	case 0:
		q.Cols = append(q.Cols, colStar(), colAs("o", eInt(g.pick(3))))
	case 1:
		q.Cols = append(q.Cols, colAs("m", eBin("add", "+", eSym("n"), eInt(1))))
	case 2:
		q.Cols = append(q.Cols, colStar(), colAs("m", g.probe(eInt(g.pick(5)))))
	default:
		q.Cols = append(q.Cols, colStar())
	}
	switch g.pick(14) {
	case 0:
		q.Where = eCmp("!=", eSym("n"), eInt(g.pick(4)))
	case 1:
		q.Where = eCmp(">", eSym("n"), eInt(g.pick(4)))
	case 2:
		if g.k < 25 { // sorting every level of many takes the model long
			q.Order = "n"
			q.Desc = g.p(50)
		}
	case 3:
		q.Limit = 1 + g.pick(5)
	}
	return q
}

// A row which names the level.
func (g *recGen) levelRow() *Select {
	n := g.n()
	if !g.param {
		n = eInt(g.pick(5))
	}
	q := sel(fromCall("scope"), colAs("n", n))
	if g.p(30) {
		q.Cols = append(q.Cols, colAs("v", g.probe(eInt(g.pick(4)))))
	}
	return q
}

// An expression which refers to definition i once.
func (g *recGen) ref(i int) E {
	name := g.names[i]
	if !g.query[i] {
		if g.param {
			return g.call(name, g.next())
		}
		if g.p(30) {
			return g.call(name)
		}
		return eSym(name)
	}
	q := g.rowsOf(i)
	switch g.pick(4) {
	case 0:
		return g.call("len", argQ("list", q))
	case 1:
		return g.call("dict", argQ("q", q))
	case 2:
		if g.param {
			return eMem(g.call(name, g.next()), "n")
		}
		return eMem(eSym(name), "n")
	default:
		return g.call("probe", argE("id", eStr(fmt.Sprintf("r%d", g.site()))), argQ("v", q))
	}
}

func (g *recGen) small() E {
	if g.param && g.p(60) {
		return g.n()
	}
	return []E{eInt(g.pick(5)), eStr("a"), eSym("x"), eLit(vNull()), eArr(eInt(1), eInt(2))}[g.pick(5)]
}

// An expression in which c is evaluated once.
func (g *recGen) wrap(c E) E {
	switch g.pick(19) {
	case 0, 1:
		return eBin("add", "+", g.small(), c)
	case 2:
		return eArr(g.small(), c)
	case 3:
		return eArr(c, g.small())
	case 4:
		return g.call("dict", argE("a", g.small()), argE("b", c))
	case 5:
		return g.call("if", argE("condition", c), argE("then", eInt(1)), argE("else", eInt(0)))
	case 6:
		return g.call("get", argE("item", c), argE("member", eStr("b")))
	case 7:
		return eMem(c, []string{"a", "b", "n"}[g.pick(3)])
	case 8:
		return eIdx(c, eInt(g.pick(3)-1))
	case 9:
		return eNot(c)
	case 10:
		return eBin("and", "AND", eInt(1), c)
	case 11:
		return eBin("or", "OR", eInt(0), c)
	case 12:
		return eCmp([]string{"=", "<", "!=", ">", "IN"}[g.pick(5)], g.small(), c)
	case 13:
		return g.call("len", argE("list", c))
	case 14:
		return g.probe(c)
	case 15:
		return g.call("get", argE("item", g.call("dict", argQ("z", sel(fromCall("scope"), colAs("b", c))))), argE("member", eStr("z")))
	case 16:
		return g.call("len", argQ("list", sel(fromCall("scope"), colAs("b", c), colAs("i", g.small()))))
	case 17:
		return g.call("if", argE("condition", eInt(g.pick(2))), argE("then", c), argE("else", eBin("add", "+", c, eInt(1))))
	default:
		return c
	}
}

func (g *recGen) atom() E {
	return []E{eInt(g.pick(5)), eStr("z"), eSym("x"), g.call("dict", argE("a", eInt(1)), argE("b", eInt(2))), eArr(eInt(1))}[g.pick(5)]
}

func (g *recGen) exprBody(next int) E {
	c := g.wrap(g.ref(next))
	if g.p(30) {
		c = g.wrap(c)
	}
	if g.bound {
		more := eCmp("<", g.n(), eInt(g.k))
		switch g.pick(4) {
		case 0:
			return eBin("and", "AND", more, c)
		case 1:
			return eBin("or", "OR", eCmp(">=", g.n(), eInt(g.k)), c)
		}
		return g.call("if", argE("condition", more), argE("then", c), argE("else", g.atom()))
	}
	return c
}

func (g *recGen) queryBody(next int) *Select {
	rows := func() *Select {
		if g.query[next] {
			return g.rowsOf(next)
		}
		return sel(fromCall("scope"), colAs("n", g.ref(next)))
	}
	var q *Select
	star := colStar()
	switch g.pick(13) {
	case 0, 1:
		q = rows()
	case 2, 3:
		a, b := g.levelRow(), rows()
		if g.p(50) {
			a, b = b, a
		}
		q = sel(fromCall("chain", argQ("a", a), argQ("b", b)), star)
	case 4:
		q = sel(fromCall("foreach", argQ("row", g.levelRow()), argQ("query", rows())), star)
	case 5:
		q = sel(fromCall("foreach", argQ("row", rows()), argQ("query", g.levelRow())), star, colAs("z", eInt(1)))
	case 6:
		q = g.levelRow()
		q.Cols = append(q.Cols, colSub("s", rows()))
	case 7:
		q = sel(fromCall("flatten", argQ("query", func() *Select {
			x := g.levelRow()
			x.Cols = append(x.Cols, colSub("s", rows()))
			return x
		}())), star)
	case 8:
		q = g.levelRow()
		q.Where = eCmp(">=", g.call("len", argQ("list", rows())), eInt(0))
		if g.p(50) {
			q.Where = eNot(g.ref(next))
		}
	case 9:
		q = rows()
		if g.p(50) {
			q.Cols = []any{colAs("n", eSym("n")), colAs("c", g.call("count"))}
		}
		q.Group = []any{eSym("n")}
		q.Order, q.Limit = "", -1
	case 10:
		q = sel(fromCall("chain", argQ("a", sel(fromCall("if", argE("condition", eInt(1)), argQ("then", rows())), star)), argQ("c", g.levelRow())), star)
	case 11:
		q = g.levelRow()
		q.Cols = append(q.Cols, colAs("r", g.wrap(g.ref(next))))
	case 12:
		q = sel(fromCall("foreach", argQ("row", sel(fromCall("chain", argQ("a", g.levelRow()), argQ("b", rows())), star))), star)
	}
	if g.bound {
		then := q
		args := []any{argE("condition", eCmp("<", g.n(), eInt(g.k))), argQ("then", then)}
		if g.p(60) {
			args = append(args, argQ("else", g.levelRow()))
		}
		q = sel(fromCall("if", args...), colStar())
	}
	return q
}

func (g *recGen) top(i int) E {
	if g.param {
		return g.call(g.names[i], argE("n", eInt(g.pick(3))))
	}
	return eSym(g.names[i])
}

func (g *recGen) topSource(i int) []any {
	if g.param {
		return fromCall(g.names[i], argE("n", eInt(g.pick(3))))
	}
	return fromSym(g.names[i])
}

func (g *recGen) program() []Stmt {
	g.bound = g.p(55)
	g.param = g.bound || g.p(50)
	g.k = 1 + g.pick(4)
	if g.bound {
		g.k = 1 + g.pick(5+g.pick(20))
		if g.p(6) {
			g.k = 25 + g.pick(76)
		}
	}
	m := 1
	if g.p(40) {
		m = 2 + g.pick(2)
	}
	for i := 0; i < m; i++ {
		g.names = append(g.names, g.fresh("L"))
		g.query = append(g.query, g.p(50))
	}
	out := []Stmt{}
	for i := 0; i < m; i++ {
		next := (i + 1) % m
		params := []any{}
		once := false // the only reference is in the default
		if g.param {
			params = []any{[]any{"n", false, argE("n", eLit(vNull()))}}
			if g.p(15) {
				params = []any{[]any{"n", true, argE("n", eInt(1))}}
			}
			// A default which refers to the next definition.
			if !g.bound && g.p(15) {
				once = true
				params = append(params, []any{"d", true, argE("d", g.ref(next))})
			}
		} else if g.p(25) {
			once = true
			params = []any{[]any{"d", true, argE("d", eSym(g.names[next]))}}
		}
		if once && g.query[i] {
			q := g.levelRow()
			q.Cols = append(q.Cols, colAs("d", g.wrap(eSym("d"))))
			out = append(out, sLetQ(g.names[i], "=", params, q))
		} else if once {
			out = append(out, sLetE(g.names[i], "=", params, g.wrap(eSym("d"))))
		} else if g.query[i] {
			out = append(out, sLetQ(g.names[i], "=", params, g.queryBody(next)))
		} else {
			out = append(out, sLetE(g.names[i], "=", params, g.exprBody(next)))
		}
	}
	g.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	start := g.pick(m)
	q := sel(fromCall("tbl", argE("name", eStr([]string{"t1", "t2"}[g.pick(2)]))), colAs("id", eSym("id")))
	if g.query[start] && g.p(60) {
		q.Cols = append(q.Cols, colSub("r", sel(g.topSource(start), colStar())))
	} else if g.query[start] {
		q.Cols = append(q.Cols, colAs("r", g.call("len", argQ("list", sel(g.topSource(start), colStar())))))
	} else {
		q.Cols = append(q.Cols, colAs("r", g.wrap(g.top(start))))
	}
	q.Cols = append(q.Cols, colAs("k", eSym("k")))
	if g.p(30) {
		q.Cols = append(q.Cols, colAs("p", g.probe(eSym("v"))))
	}
	q.Limit = 1 + g.pick(2)
	main := sSelect(q)
	if g.p(50) {
		main = sSelect(sel(g.topSource(start), colStar(), colAs("e", eInt(g.pick(4)))))
		if g.p(20) {
			main.Q.Limit = 1 + g.pick(6)
		}
	}
	after := sel(fromCall("tbl", argE("name", eStr("t1"))), colAs("id", eSym("id")), colAs("p", g.probe(eSym("k"))))
	return append(out, main, sSelect(after))
}

func genRecursion(seed int64, n int) ([]*Case, map[string][]V) {
	r := rand.New(rand.NewSource(seed*7919 + 29))
	tables := GenTables(r)
	cases := []*Case{}
	for i := 0; i < n; i++ {
		g := &recGen{Gen: &Gen{r: r}}
		c := &Case{ID: i + 1, Env: GenEnv(r), Mode: "recursion"}
		c.Stmts = g.program()
		c.Src = (&Renderer{r: r}).Program(c.Stmts)
		c.At = []any{"cut", 12}
		if g.bound {
			c.At = []any{"bound", 4*g.k + 30}
		}
		cases = append(cases, c)
	}
	return cases, tables
}

// The JSON reader of the model checker has a limit on nesting.
func clip(v any, depth int) any {
	l := v.([]any)
	if l[0] != "arr" && l[0] != "dict" {
		return l
	}
	if depth <= 0 {
		return V{"clipped", vNull()}
	}
	out := []any{}
	for _, x := range l[1].([]any) {
		if l[0] == "dict" {
			kv := x.([]any)
			out = append(out, []any{kv[0], clip(kv[1], depth-3)})
		} else {
			out = append(out, clip(x, depth-2))
		}
	}
	return V{l[0], out}
}
