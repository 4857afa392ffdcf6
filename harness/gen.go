package main

// Random VQL programs.  Each profile weights the parts of the language
// one property is about.

import (
	"fmt"
	"math/rand"
)

type Var struct {
	name string
	ty   string // int flt str bool null arr dict rows any
}

type LetFn struct {
	name   string
	params []Var
	dflt   []bool
	ty     string // result type of an expression, "query" for queries
	cols   []Var
}

type Knobs struct {
	probe, agg, where, group, order, limit, sub, let, call, star, noise int // per cent
	illtyped                                                            int
	nested                                                              int
	plugins                                                             int
	mat                                                                 int
	dup                                                                 int
	workers                                                             int
	explain                                                             int
	depth                                                               int
	stmts                                                               int
	ops                                                                 int
}

type Gen struct {
	lines  bool // strings of several lines
	r      *rand.Rand
	k      Knobs
	vars   []Var
	fns    []LetFn
	nsite  int
	nprobe int
	nname  int
	inLet  int // inside a LET body: no aggregates there unless allowed
	aggOK  bool
}

var strPool = []string{"a", "b", "ab", "B", "", "foo", "Foo", "ba", "a.b", "x y", "a b", "b a"}
var patPool = []string{"a", "^a", "b$", "^foo$", "", ".", ".*", "fo", "^$", "A"}

func (g *Gen) p(pc int) bool  { return g.r.Intn(100) < pc }
func (g *Gen) pick(n int) int { return g.r.Intn(n) }
func (g *Gen) site() int      { g.nsite++; return g.nsite }
func (g *Gen) fresh(p string) string {
	g.nname++
	return fmt.Sprintf("%s%d", p, g.nname)
}

func (g *Gen) call(name string, args ...any) E {
	return E{"call", g.site(), name, append([]any{}, args...)}
}

func (g *Gen) Value(ty string, d int) V {
	switch ty {
	case "int":
		return vInt(g.r.Intn(8) - 2)
	case "flt":
		return vFlt((g.r.Intn(16) - 4) * 32)
	case "str":
		if g.lines && g.p(10) {
			return vStr([]string{"a \n  b", "\n", "a  \n"}[g.pick(3)])
		}
		return vStr(strPool[g.pick(len(strPool))])
	case "bool":
		return vBool(g.p(50))
	case "null":
		return vNull()
	case "arr":
		n := g.r.Intn(4)
		xs := []any{}
		t := []string{"int", "str", "any"}[g.pick(3)]
		for i := 0; i < n; i++ {
			xs = append(xs, g.Value(t, d-1))
		}
		return V{"arr", xs}
	case "dict":
		kv := []any{}
		for _, n := range []string{"x", "y", "id", "_value"}[:1+g.pick(4)] {
			kv = append(kv, n, g.Value("any", d-1))
		}
		return vDict(kv...)
	case "rows":
		n := g.r.Intn(4)
		xs := []any{}
		for i := 0; i < n; i++ {
			if g.p(10) {
				xs = append(xs, g.Value("any", 0))
			} else {
				xs = append(xs, vDict("id", vInt(i), "k", g.Value("int", 0), "s", g.Value("str", 0)))
			}
		}
		return V{"arr", xs}
	}
	ts := []string{"int", "flt", "str", "bool", "null"}
	if d > 0 {
		ts = append(ts, "arr", "dict", "int", "str")
	}
	return g.Value(ts[g.pick(len(ts))], d-1)
}

func GenTables(r *rand.Rand) map[string][]V {
	g := &Gen{r: r}
	out := map[string][]V{"t0": {}}
	mk := func(n int) []V {
		rows := []V{}
		for i := 0; i < n; i++ {
			kv := []any{"id", vInt(i + 1)}
			k := vInt(g.pick(3))
			switch {
			case g.p(10):
				k = vNull()
			case g.p(15):
				k = vFlt(64 * g.pick(3))
			}
			kv = append(kv, "k", k, "s", g.Value("str", 0), "f", g.Value("flt", 0))
			if g.p(60) {
				kv = append(kv, "m", g.Value("any", 1))
			}
			kv = append(kv, "l", g.Value("arr", 0),
				"d", vDict("x", g.Value("int", 0), "y", g.Value("str", 0)))
			if g.p(80) {
				kv = append(kv, "n", g.Value([]string{"null", "int", "int"}[g.pick(3)], 0))
			}
			rows = append(rows, vDict(kv...))
		}
		return rows
	}
	out["t1"] = mk(4 + r.Intn(4))
	out["t2"] = mk(2 + r.Intn(2))
	out["t3"] = mk(9 + r.Intn(4))
	return out
}

var tableCols = []Var{{"id", "int"}, {"k", "int"}, {"s", "str"}, {"f", "flt"}, {"m", "any"},
	{"l", "arr"}, {"d", "dict"}, {"n", "int"}}

func GenEnv(r *rand.Rand) []any {
	g := &Gen{r: r}
	return []any{
		[]any{"x", g.Value("int", 0)}, []any{"y", g.Value("int", 0)},
		[]any{"fl", g.Value("flt", 0)}, []any{"st", g.Value("str", 0)},
		[]any{"b1", g.Value("bool", 0)}, []any{"nn", vNull()},
		[]any{"ar", g.Value("arr", 1)}, []any{"di", g.Value("dict", 1)},
		[]any{"rw", g.Value("rows", 0)}, []any{"k", vInt(99)}, []any{"m", vStr("outer")},
		[]any{"we ird", vInt(7)},
	}
}

var envVars = []Var{{"x", "int"}, {"y", "int"}, {"fl", "flt"}, {"st", "str"}, {"b1", "bool"},
	{"nn", "null"}, {"ar", "arr"}, {"di", "dict"}, {"rw", "rows"}, {"k", "int"}, {"m", "any"},
	{"we ird", "int"}, {"nosuch", "any"}}

// ------------------------------------------------------------ expressions

func (g *Gen) varOf(ty string) (E, bool) {
	cands := []Var{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		if g.vars[i].ty == ty || ty == "any" {
			cands = append(cands, g.vars[i])
		}
	}
	if len(cands) == 0 {
		return nil, false
	}
	// Prefer inner names.
	i := g.pick(len(cands))
	if j := g.pick(len(cands)); j < i {
		i = j
	}
	return eSym(cands[i].name), true
}

func (g *Gen) probe(e E) E {
	g.nprobe++
	return g.call("probe", argE("id", eStr(fmt.Sprintf("p%d", g.nprobe))), argE("v", e))
}

func (g *Gen) Expr(ty string, d int) E {
	e := g.expr(ty, d)
	if g.p(g.k.probe) {
		e = g.probe(e)
	}
	return e
}

func (g *Gen) leaf(ty string) E {
	if g.p(65) {
		if e, ok := g.varOf(ty); ok {
			if (ty == "int" || ty == "flt" || ty == "bool") && g.p(12) && !needTick(e[1].(string)) {
				return E{"neg", e}
			}
			return e
		}
	}
	switch ty {
	case "any":
		return g.leaf([]string{"int", "str", "flt", "bool", "null", "arr", "dict"}[g.pick(7)])
	case "arr":
		xs := []any{}
		for i := 0; i < 1+g.pick(3); i++ {
			xs = append(xs, g.leaf([]string{"int", "str", "null"}[g.pick(3)]))
		}
		return E{"arr", xs}
	case "rows":
		xs := []any{}
		for i := 0; i < 1+g.pick(3); i++ {
			xs = append(xs, g.leaf("dict"))
		}
		return E{"arr", xs}
	case "dict":
		return g.call("dict", argE("x", eLit(g.Value("int", 0))), argE("y", eLit(g.Value("str", 0))))
	}
	return eLit(g.Value(ty, 0))
}

var allTypes = []string{"int", "int", "str", "flt", "bool", "null", "arr", "dict"}

func (g *Gen) anyTy() string { return allTypes[g.pick(len(allTypes))] }

func (g *Gen) scalarTy() string {
	return []string{"int", "int", "flt", "str", "bool", "null"}[g.pick(6)]
}

func (g *Gen) callFn(ty string, d int) (E, bool) {
	cands := []LetFn{}
	for _, f := range g.fns {
		if f.ty == ty || ty == "any" && f.ty != "query" {
			cands = append(cands, f)
		}
	}
	if len(cands) == 0 {
		return nil, false
	}
	f := cands[g.pick(len(cands))]
	if len(f.params) == 0 {
		if g.p(70) || f.ty == "query" {
			return eSym(f.name), true
		}
		return g.call(f.name), true
	}
	return g.call(f.name, g.fnArgs(f, d)...), true
}

func (g *Gen) fnArgs(f LetFn, d int) []any {
	args := []any{}
	for i, p := range f.params {
		if f.dflt[i] && g.p(50) || g.p(5) {
			continue
		}
		if p.ty == "query" {
			args = append(args, argQ(p.name, g.SubSelect(d-1)))
		} else if p.ty == "arr" && g.p(30) {
			args = append(args, argA(p.name, g.Expr("int", d-1), g.Expr("int", d-1)))
		} else {
			args = append(args, argE(p.name, g.Expr(p.ty, d-1)))
		}
	}
	return args
}

func (g *Gen) cmpE(d int) E {
	t := g.scalarTy()
	op := []string{"=", "!=", "<>", "<", "<=", ">", ">=", "=", "<", ">"}[g.pick(10)]
	a := g.Expr(t, d-1)
	if g.p(25) {
		t = g.anyTy()
	}
	return eCmp(op, a, g.Expr(t, d-1))
}

func (g *Gen) expr(ty string, d int) E {
	if d <= 0 {
		return g.leaf(ty)
	}
	if g.p(g.k.illtyped) {
		ty = g.anyTy()
	}
	if g.p(g.k.call) {
		if e, ok := g.callFn(ty, d); ok {
			return e
		}
	}
	if g.aggOK && g.p(g.k.agg) {
		switch g.pick(5) {
		case 0:
			return g.call("count")
		case 1:
			return g.call("sum", argE("item", g.Expr("int", d-1)))
		case 2:
			return g.call("min", argE("item", g.Expr([]string{"int", "str"}[g.pick(2)], d-1)))
		case 3:
			return g.call("max", argE("item", g.Expr([]string{"int", "flt"}[g.pick(2)], d-1)))
		case 4:
			return g.call("enumerate", argE("items", g.Expr("any", d-1)))
		}
	}
	switch g.pick(9) {
	case 0, 1:
		return g.leaf(ty)
	case 2:
		then, els := g.Expr(ty, d-1), g.Expr(ty, d-1)
		args := []any{argE("condition", g.Expr("bool", d-1)), argE("then", then)}
		if g.p(80) {
			args = append(args, argE("else", els))
		}
		return g.call("if", args...)
	case 3:
		if g.p(g.k.sub) {
			q := g.SubSelect(d - 1)
			switch ty {
			case "bool":
				if g.p(50) {
					return eNot(g.call("if", argE("condition", eLit(vBool(true))), argQ("then", q)))
				}
			case "arr", "rows", "any":
				return g.call("if", argE("condition", g.Expr("bool", d-1)), argQ("then", q))
			}
		}
	case 4:
		if ty != "dict" && ty != "rows" {
			b := g.Expr("dict", d-1)
			n := []string{"x", "y", "id", "zz"}[g.pick(4)]
			switch g.pick(3) {
			case 0:
				return eIdx(b, eStr(n))
			case 1:
				return g.call("get", argE("item", b), argE("member", eStr(n)))
			}
			return eMem(b, n)
		}
	case 5:
		if ty != "dict" && ty != "rows" {
			return eIdx(g.Expr("arr", d-1), g.leaf("int"))
		}
	}
	switch ty {
	case "int":
		switch g.pick(5) {
		case 0:
			return g.call("len", argE("list", g.Expr([]string{"arr", "str", "dict"}[g.pick(3)], d-1)))
		case 1, 2:
			e := E{"add", g.Expr("int", d-1), []any{[]any{[]string{"+", "-"}[g.pick(2)], g.Expr("int", d-1)}}}
			if g.p(40) {
				e[2] = append(list(e[2]), []any{[]string{"+", "-"}[g.pick(2)], g.Expr("int", d-1)})
			}
			return e
		case 3:
			return E{"mul", g.Expr("int", d-1), []any{[]any{"*", g.Expr("int", d-1)}}}
		}
	case "flt":
		op := []string{"*", "/"}[g.pick(2)]
		if g.p(50) {
			return E{"mul", g.Expr("flt", d-1), []any{[]any{op, g.Expr([]string{"int", "flt"}[g.pick(2)], d-1)}}}
		}
		return E{"add", g.Expr("flt", d-1), []any{[]any{[]string{"+", "-"}[g.pick(2)], g.Expr([]string{"int", "flt"}[g.pick(2)], d-1)}}}
	case "str":
		switch g.pick(3) {
		case 0:
			return eBin("add", "+", g.Expr("str", d-1), g.Expr("str", d-1))
		case 1:
			return eBin("mul", "*", g.Expr("str", d-1), eInt(g.pick(4)))
		case 2:
			return E{"slice", g.Expr("str", d-1), g.p(60), eInt(g.pick(5) - 2), g.p(60), eInt(g.pick(5) - 2)}
		}
	case "bool":
		switch g.pick(8) {
		case 0, 1, 2:
			return g.cmpE(d)
		case 3:
			if g.p(50) {
				return eCmp("IN", g.Expr("int", d-1), g.Expr("arr", d-1))
			}
			return eCmp("IN", g.Expr("str", d-1), g.Expr([]string{"arr", "str", "dict"}[g.pick(3)], d-1))
		case 4:
			return eCmp("=~", g.Expr("str", d-1), eStr(patPool[g.pick(len(patPool))]))
		case 5:
			return eNot(g.Expr("bool", d-1))
		case 6, 7:
			kind := []string{"and", "or"}[g.pick(2)]
			ops := map[string][]string{"and": {"AND", "&&"}, "or": {"OR", "||"}}[kind]
			terms := []any{}
			for i := 0; i < 1+g.pick(2); i++ {
				terms = append(terms, []any{ops[g.pick(2)], g.Expr("bool", d-1)})
			}
			return E{kind, g.Expr("bool", d-1), terms}
		}
	case "arr":
		switch g.pick(3) {
		case 0:
			xs := []any{}
			for i := 0; i < 1+g.pick(3); i++ {
				xs = append(xs, g.Expr(g.scalarTy(), d-1))
			}
			return E{"arr", xs}
		case 1:
			return eBin("add", "+", g.Expr("arr", d-1), g.Expr("arr", d-1))
		case 2:
			return E{"slice", g.Expr("arr", d-1), g.p(60), eInt(g.pick(5) - 2), g.p(60), eInt(g.pick(5) - 2)}
		}
	case "dict":
		args := []any{}
		for _, n := range []string{"x", "y", "id"}[:1+g.pick(3)] {
			args = append(args, argE(n, g.Expr("any", d-1)))
		}
		return g.call("dict", args...)
	case "rows":
		if g.p(30) {
			return E{"arr", []any{g.Expr("dict", d-1), g.Expr("dict", d-1)}}
		}
	case "any":
		return g.expr(g.anyTy(), d)
	}
	return g.leaf(ty)
}

// ---------------------------------------------------------------- queries

func (g *Gen) SubSelect(d int) *Select {
	saved := g.aggOK
	g.aggOK = false
	q, _ := g.Select(d, false)
	g.aggOK = saved
	return q
}

// A FROM clause and the names and types of the columns it gives.
func (g *Gen) From(d int) ([]any, []Var) {
	if g.p(g.k.plugins) && d > 0 {
		switch g.pick(7) {
		case 0:
			return fromCall("range", argE("start", eInt(g.pick(3))), argE("end", eInt(g.pick(6))),
				argE("step", eInt(1+g.pick(2)))), []Var{{"_value", "int"}}
		case 1:
			q1, c := g.Select(d-1, false)
			q2 := g.SubSelect(d - 1)
			args := []any{argQ("a", q1), argQ("b", q2)}
			if g.p(30) {
				args = append(args, argE("c", g.Expr("arr", 1)))
			}
			return fromCall("chain", args...), c
		case 2:
			q1, c := g.Select(d-1, false)
			args := []any{argE("condition", g.Expr("bool", d-1)), argQ("then", q1)}
			if g.p(60) {
				args = append(args, argQ("else", g.SubSelect(d-1)))
			}
			return fromCall("if", args...), c
		case 3:
			q1, c := g.Select(d-1, false)
			return fromCall("flatten", argQ("query", q1)), c
		case 4, 5:
			var args []any
			var inner []Var
			switch g.pick(3) {
			case 0:
				args = append(args, argE("row", g.Expr([]string{"arr", "rows", "dict", "int"}[g.pick(4)], d-1)))
				inner = []Var{{"_value", "any"}, {"id", "any"}, {"k", "any"}}
			default:
				q, c := g.Select(d-1, false)
				args = append(args, argQ("row", q))
				inner = c
			}
			n := len(g.vars)
			g.vars = append(g.vars, inner...)
			col := inner
			if g.p(80) {
				q, c := g.Select(d-1, false)
				args = append(args, argQ("query", q))
				col = c
			}
			g.vars = g.vars[:n]
			if g.p(15) && len(inner) > 0 {
				args = append(args, argE("column", eStr(inner[g.pick(len(inner))].name)))
			}
			if g.p(g.k.workers) {
				args = append(args, argE("workers", eInt(g.pick(8)-1)))
			}
			return fromCall("foreach", args...), col
		case 6:
			return fromCall("scope"), nil
		}
	}
	// LET queries
	cands := []LetFn{}
	for _, f := range g.fns {
		if f.ty == "query" {
			cands = append(cands, f)
		}
	}
	if len(cands) > 0 && g.p(45) {
		f := cands[g.pick(len(cands))]
		if len(f.params) == 0 && g.p(80) {
			return fromSym(f.name), f.cols
		}
		return fromCall(f.name, g.fnArgs(f, 1)...), f.cols
	}
	switch g.pick(12) {
	case 0:
		return fromSym("rw"), []Var{{"id", "int"}, {"k", "int"}, {"s", "str"}}
	case 1:
		return fromSym([]string{"ar", "di", "x", "nn"}[g.pick(4)]), []Var{{"x", "any"}, {"y", "any"}}
	case 2:
		return fromCall("tbl", argE("name", eStr("t0"))), tableCols
	case 3, 4:
		return fromCall("tbl", argE("name", eStr("t2"))), tableCols
	case 5:
		return fromCall("tbl", argE("name", eStr("t3"))), tableCols
	case 6:
		return fromSym("l"), nil
	}
	return fromCall("tbl", argE("name", eStr("t1"))), tableCols
}

func (g *Gen) Select(d int, top bool) (*Select, []Var) {
	nvars := len(g.vars)
	from, cols := g.From(d)
	q := newSelect(from)
	g.vars = append(g.vars, cols...)

	out := []Var{}
	used := map[string]bool{}
	savedAgg := g.aggOK
	g.aggOK = savedAgg && top
	ncols := 1 + g.pick(3)
	// Keep the identity of the row in most outputs.
	if g.p(60) {
		for _, c := range cols {
			if c.name == "id" {
				q.Cols = append(q.Cols, colAs("id", eSym("id")))
				out = append(out, c)
				used["id"] = true
			}
		}
	}
	for i := 0; i < ncols; i++ {
		if g.p(g.k.star) {
			q.Cols = append(q.Cols, colStar())
			out = append(out, cols...)
			for _, c := range cols {
				used[c.name] = true
			}
			continue
		}
		ty := g.anyTy()
		var name string
		if g.p(25) && len(cols) > 0 {
			name = cols[g.pick(len(cols))].name
		} else {
			name = fmt.Sprintf("c%d", i+1)
		}
		if used[name] && !g.p(g.k.dup) {
			name = g.fresh("u")
		}
		used[name] = true
		if g.p(g.k.sub/2) && d > 0 {
			q.Cols = append(q.Cols, colSub(name, g.SubSelect(d-1)))
			out = append(out, Var{name, "any"})
			continue
		}
		q.Cols = append(q.Cols, colAs(name, g.Expr(ty, g.k.depth-1)))
		out = append(out, Var{name, ty})
	}
	if len(q.Cols) == 0 {
		q.Cols = append(q.Cols, colStar())
	}
	g.aggOK = false
	inner := append([]Var{}, out...)
	g.vars = append(g.vars, inner...)
	if g.p(g.k.where) {
		q.Where = g.Expr("bool", g.k.depth)
	}
	if g.p(g.k.group) {
		n := 1
		if g.p(30) {
			n = 2
		}
		for i := 0; i < n; i++ {
			if g.p(60) {
				q.Group = append(q.Group, eSym([]string{"k", "s", "n", "id", "m"}[g.pick(5)]))
			} else {
				q.Group = append(q.Group, g.Expr(g.scalarTy(), 1))
			}
		}
		g.aggOK = savedAgg
		if g.p(80) && g.aggOK {
			name := g.fresh("g")
			k := g.k.agg
			g.k.agg = 100
			q.Cols = append(q.Cols, colAs(name, g.Expr("int", 2)))
			g.k.agg = k
			out = append(out, Var{name, "int"})
		}
	}
	g.aggOK = savedAgg
	if g.p(g.k.order) && len(out) > 0 {
		c := out[g.pick(len(out))]
		for i := 0; i < 4 && c.ty != "int" && c.ty != "str" && c.ty != "flt"; i++ {
			c = out[g.pick(len(out))]
		}
		q.Order = c.name
		q.Desc = g.p(40)
	}
	if g.p(g.k.limit) {
		q.Limit = g.pick(6)
	}
	g.vars = g.vars[:nvars]
	return q, out
}

// ------------------------------------------------------------- statements

func (g *Gen) Params() ([]any, []Var, []bool) {
	n := g.pick(3)
	params := []any{}
	vars := []Var{}
	dflt := []bool{}
	for i := 0; i < n; i++ {
		name := []string{"a", "b", "x", "k", "st"}[g.pick(5)]
		if g.p(12) {
			name = []string{"we ird", "a b", "in", "limit", "a-b"}[g.pick(5)]
		}
		dupe := false
		for _, v := range vars {
			dupe = dupe || v.name == name
		}
		if dupe {
			continue
		}
		ty := []string{"int", "str", "any", "arr"}[g.pick(4)]
		has := g.p(45)
		if has {
			if ty == "any" && g.p(30) {
				q, _ := g.Select(1, false)
				params = append(params, []any{name, true, argQ(name, q)})
			} else if ty == "arr" && g.p(50) {
				params = append(params, []any{name, true, argA(name, g.leaf("int"), g.leaf("int"))})
			} else {
				params = append(params, []any{name, true, argE(name, g.Expr(ty, 1))})
			}
		} else {
			params = append(params, []any{name, false, argE(name, eLit(vNull()))})
		}
		vars = append(vars, Var{name, ty})
		dflt = append(dflt, has)
	}
	return params, vars, dflt
}

func (g *Gen) Let() Stmt {
	op := "="
	if g.p(g.k.mat) {
		op = "<="
	}
	name := g.fresh("L")
	var params []any
	var vars []Var
	var dflt []bool
	saved := g.aggOK
	g.aggOK = false
	defer func() { g.aggOK = saved }()
	if op == "=" && g.p(g.k.call) {
		params, vars, dflt = g.Params()
	}
	n := len(g.vars)
	g.vars = append(g.vars, vars...)
	if len(params) > 0 && g.k.agg > 20 && g.p(40) {
		g.aggOK = true
	}
	defer func() { g.vars = g.vars[:n] }()
	if g.p(55) {
		q, cols := g.Select(2, g.aggOK)
		q.Explain = g.k.explain > 0 && g.p(g.k.explain/3)
		g.fns = append(g.fns, LetFn{name, vars, dflt, "query", cols})
		st := sLetQ(name, op, params, q)
		n0 := n
		n = n0
		return st
	}
	ty := g.anyTy()
	e := g.Expr(ty, g.k.depth)
	g.fns = append(g.fns, LetFn{name, vars, dflt, ty, nil})
	return sLetE(name, op, params, e)
}

func (g *Gen) Program() []Stmt {
	out := []Stmt{}
	n := g.pick(g.k.stmts + 1)
	for i := 0; i < n; i++ {
		if g.p(g.k.let) {
			st := g.Let()
			out = append(out, st)
		} else {
			g.aggOK = true
			q, _ := g.Select(2, true)
			q.Explain = g.k.explain > 0 && g.p(g.k.explain)
			out = append(out, sSelect(q))
		}
	}
	g.aggOK = true
	q, _ := g.Select(2, true)
	q.Explain = g.k.explain > 0 && g.p(g.k.explain)
	out = append(out, sSelect(q))
	return out
}

func baseKnobs() Knobs {
	return Knobs{probe: 6, agg: 0, where: 50, group: 0, order: 0, limit: 0, sub: 8, let: 70, call: 15,
		star: 20, illtyped: 8, plugins: 10, mat: 25, dup: 10, depth: 3, stmts: 2}
}

var profiles = map[string]func() Knobs{
	"select": func() Knobs { k := baseKnobs(); k.where = 75; k.star = 30; k.stmts = 1; return k },
	"group": func() Knobs {
		k := baseKnobs()
		k.group = 85
		k.agg = 25
		k.order = 20
		k.stmts = 1
		return k
	},
	"order": func() Knobs {
		k := baseKnobs()
		k.order = 85
		k.limit = 20
		k.stmts = 1
		k.illtyped = 2
		return k
	},
	"limit": func() Knobs {
		k := baseKnobs()
		k.limit = 65
		k.order = 15
		k.group = 10
		k.probe = 12
		k.sub = 15
		return k
	},
	"agg": func() Knobs {
		k := baseKnobs()
		k.agg = 35
		k.group = 30
		k.call = 30
		k.stmts = 3
		return k
	},
	"let": func() Knobs {
		k := baseKnobs()
		k.let = 90
		k.stmts = 4
		k.mat = 45
		k.probe = 25
		k.call = 40
		return k
	},
	"letcall": func() Knobs {
		k := baseKnobs()
		k.let = 95
		k.stmts = 4
		k.mat = 5
		k.call = 70
		k.probe = 10
		return k
	},
	"names": func() Knobs {
		k := baseKnobs()
		k.let = 60
		k.stmts = 3
		k.call = 45
		k.plugins = 25
		k.sub = 25
		k.dup = 30
		k.star = 35
		return k
	},
	"lazy": func() Knobs {
		k := baseKnobs()
		k.probe = 40
		k.let = 50
		k.call = 25
		k.dup = 25
		return k
	},
	"ops": func() Knobs {
		k := baseKnobs()
		k.illtyped = 20
		k.depth = 4
		k.stmts = 0
		k.plugins = 0
		k.sub = 0
		return k
	},
	"noisy": func() Knobs { k := baseKnobs(); k.noise = 100; k.let = 40; k.probe = 5; return k },
	"rows":  func() Knobs { k := baseKnobs(); k.plugins = 75; k.sub = 25; k.depth = 2; return k },
	"foreach": func() Knobs {
		k := baseKnobs()
		k.plugins = 85
		k.depth = 2
		k.workers = 60
		k.probe = 15
		return k
	},
	"all": func() Knobs {
		k := baseKnobs()
		k.plugins = 25
		k.group = 15
		k.order = 15
		k.limit = 15
		k.agg = 12
		k.call = 30
		k.probe = 12
		k.stmts = 3
		k.sub = 15
		return k
	},
}
