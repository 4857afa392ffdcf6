package main

// Expressions as token sequences, written with random letter case,
// whitespace and comments.  ParseCheck.tla parses the tokens.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
)

type TokRec struct {
	ID   int    `json:"id"`
	Src  string `json:"src"`
	Toks []any  `json:"toks"`
	Env  []any  `json:"env"`
	Res  V      `json:"res"`
	E    string `json:"err"`
}

type tokGen struct {
	r    *rand.Rand
	toks []any
}

var cmpOps = []string{"=", "!=", "<>", "<", "<=", ">", ">=", "IN", "=~"}
var binOps = []string{"AND", "&&", "OR", "||", "=", "!=", "<>", "<", "<=", ">", ">=", "IN", "=~", "+", "-", "*", "/"}

func isCmp(op string) bool {
	for _, c := range cmpOps {
		if c == op {
			return true
		}
	}
	return false
}

func (g *tokGen) p(pc int) bool { return g.r.Intn(100) < pc }
func (g *tokGen) add(kind string, v any) {
	g.toks = append(g.toks, []any{kind, v})
}
func (g *tokGen) op(s string) { g.add("op", s) }

var oddStrings = []string{"a", "-- a", "/* x */", " AND ", "// b", "a b", "=", "(", "ab", "it''s", "NOT"}

func (g *tokGen) operand(d int, hint string) {
	if hint == "=~" {
		g.add("lit", vStr([]string{"a", "b", "^a", "ab"}[g.r.Intn(4)]))
		return
	}
	if d > 0 && g.p(18) {
		g.op("(")
		g.expr(d-1, 1+g.r.Intn(3))
		if g.p(15) {
			for i := 0; i < 1+g.r.Intn(2); i++ {
				g.op(",")
				g.expr(d-1, g.r.Intn(2))
			}
		} else if g.p(8) {
			g.op(",")
		}
		g.op(")")
		g.members(d)
		return
	}
	if hint == "IN" && g.p(70) {
		g.op("(")
		g.add("lit", vInt(g.r.Intn(4)))
		g.op(",")
		g.operand(0, "")
		g.op(")")
		return
	}
	switch g.r.Intn(12) {
	case 0, 1, 2, 3, 4:
		g.add("lit", vInt(g.r.Intn(7)-2))
	case 5:
		g.add("lit", vFlt((g.r.Intn(12)-3)*32))
	case 6:
		g.add("lit", []V{vBool(true), vBool(false), vNull()}[g.r.Intn(3)])
	case 7:
		g.add("lit", vStr(oddStrings[g.r.Intn(len(oddStrings))]))
	case 8:
		g.add("id", []string{"ar", "di", "rows"}[g.r.Intn(3)])
		g.members(d)
	case 9:
		g.add("neg", []string{"x", "y"}[g.r.Intn(2)])
	case 10:
		if d > 0 {
			switch g.r.Intn(3) {
			case 0:
				g.add("id", "len")
				g.op("(")
				g.add("id", "list")
				g.op("=")
				g.expr(d-1, g.r.Intn(2))
				g.op(")")
			case 1:
				g.add("id", "if")
				g.op("(")
				g.add("id", "condition")
				g.op("=")
				g.expr(d-1, 1+g.r.Intn(2))
				g.op(",")
				g.add("id", "then")
				g.op("=")
				g.expr(d-1, g.r.Intn(2))
				g.op(",")
				g.add("id", "else")
				g.op("=")
				g.expr(d-1, g.r.Intn(2))
				g.op(")")
			case 2:
				g.add("id", "dict")
				g.op("(")
				g.add("id", "a")
				g.op("=")
				g.expr(d-1, g.r.Intn(2))
				g.op(")")
				g.op(".")
				g.add("id", "a")
			}
			return
		}
		fallthrough
	default:
		g.add("id", []string{"x", "y", "z", "we ird", "ind", "orx"}[g.r.Intn(6)])
	}
}

func (g *tokGen) members(d int) {
	for i := 0; i < g.r.Intn(3); i++ {
		switch g.r.Intn(4) {
		case 0:
			g.op(".")
			g.add("id", []string{"a", "b", "a b", "zz"}[g.r.Intn(4)])
		case 1:
			g.op("[")
			g.add("lit", vInt(g.r.Intn(4)-1))
			g.op("]")
		case 2:
			g.op("[")
			if g.p(50) {
				g.add("id", "y")
			} else {
				g.op("(")
				g.expr(0, 1)
				g.op(")")
			}
			g.op("]")
		case 3:
			g.op("[")
			if g.p(60) {
				g.add("lit", vInt(g.r.Intn(3)))
			}
			g.op(":")
			if g.p(60) {
				g.add("lit", vInt(g.r.Intn(4)-1))
			}
			g.op("]")
		}
	}
}

func (g *tokGen) chain(d int, ops []string) {
	cmp := false
	if g.p(15) {
		g.op("NOT")
	}
	g.operand(d, "")
	for _, op := range ops {
		if isCmp(op) {
			if cmp {
				op = "AND"
			}
			cmp = true
		}
		g.op(op)
		switch op {
		case "AND", "&&", "OR", "||":
			cmp = false
			if g.p(20) {
				g.op("NOT")
				if g.p(20) {
					g.op("NOT")
				}
			}
		}
		g.operand(d, op)
	}
}

func (g *tokGen) expr(d, n int) {
	ops := []string{}
	for i := 0; i < n; i++ {
		ops = append(ops, binOps[g.r.Intn(len(binOps))])
	}
	g.chain(d, ops)
}

// ---- text

func (g *tokGen) gap(must bool) string {
	s := ""
	if must {
		s = " "
	}
	if g.p(70) {
		return s
	}
	switch g.r.Intn(6) {
	case 0:
		return s + "\n"
	case 1:
		return s + []string{"/* a + 'b */", "/**/", "/***/", "/* 2 * x ** */", "/*/ - */", "/* // -- */"}[g.r.Intn(6)]
	case 2:
		return s + "/* multi\n line */ "
	case 3:
		return []string{"\n-- comment ' AND (\n", "\n--\n", "\n-- /* -- \n"}[g.r.Intn(3)]
	case 4:
		return []string{"\n// comment\n", "\n//\n", "\n// /* // \"\n", "\n//* x */\n"}[g.r.Intn(4)]
	}
	return s + " \t "
}

func (g *tokGen) text() string {
	rd := &Renderer{r: g.r, noise: true}
	out := ""
	prev := ""
	for i, t_ := range g.toks {
		t := list(t_)
		s := ""
		switch t[0] {
		case "lit":
			s, _ = rd.lit(V(list(t[1])))
		case "id":
			s = rd.id(t[1].(string))
		case "neg":
			s = "-" + t[1].(string)
		case "op":
			s = t[1].(string)
			if s[0] >= 'A' && s[0] <= 'Z' {
				s = rd.kw(s)
			}
		}
		word := func(c byte) bool {
			return c == '_' || c == '`' || c == '.' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		}
		// Tokens that would run together need whitespace.
		must := i > 0 && (word(prev[len(prev)-1]) && word(s[0]) || strings.ContainsAny(prev[len(prev)-1:], "<>=!~&|-/*'\"") && strings.ContainsAny(s[:1], "<>=!~&|-/*'\""))
		if i > 0 && (t[0] == "op" && (t[1] == "." || t[1] == "[" || t[1] == "]" || t[1] == ")") || prev == "." || prev == "[" || prev == "(") {
			must = must && !(prev == "." || t[1] == ".")
			if list(g.toks[i-1])[0] == "lit" && t[1] == "." {
				must = true
			}
		}
		if i > 0 {
			gap := g.gap(must)
			if gap != "" && strings.ContainsAny(prev[len(prev)-1:], "/-") {
				gap = " " + gap
			}
			out += gap
		}
		out += s
		prev = s
	}
	return out
}

func runTok(c *TokRec) {
	defer func() {
		if r := recover(); r != nil {
			c.E = fmt.Sprintf("panic: %v", r)
		}
	}()
	if c.ID%4 == 3 {
		runLambda(c)
		return
	}
	vql, err := vfilter.Parse(c.Src)
	if err != nil {
		c.E = "parse: " + err.Error()
		return
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	env := ordereddict.NewDict()
	for _, kv := range c.Env {
		env.Set(list(kv)[0].(string), toGo(list(kv)[1], 0))
	}
	scope.AppendVars(env)
	n := 0
	for row := range vql.Eval(context.Background(), scope) {
		n++
		v := norm(context.Background(), scope, row)
		c.Res = list(list(v[1])[0])[1].(V)
	}
	if n != 1 {
		c.E = fmt.Sprintf("%d rows", n)
	}
}

// The expression as the body of a lambda of the variables.
func runLambda(c *TokRec) {
	names := []string{}
	values := []vfilter.Any{}
	for _, kv := range c.Env {
		name := list(kv)[0].(string)
		if strings.Contains(name, " ") {
			name = "`" + name + "`"
		}
		names = append(names, name)
		values = append(values, toGo(list(kv)[1], 0))
	}
	c.Src = strings.Join(names, ", ") + " => " + strings.TrimSuffix(strings.TrimPrefix(c.Src, "SELECT "), " AS r FROM scope()")
	lambda, err := vfilter.ParseLambda(c.Src)
	if err != nil {
		c.E = "parse: " + err.Error()
		return
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	// The parameters hide what the scope has.
	scope.AppendVars(ordereddict.NewDict().Set("x", "outer").Set("ar", "outer").Set("we ird", "outer"))
	row := ordereddict.NewDict().Set("r", lambda.Reduce(context.Background(), scope, values))
	v := norm(context.Background(), scope, row)
	c.Res = list(list(v[1])[0])[1].(V)
}

func tokens(out string, seed int64, n int, thorough bool) {
	recs := []*TokRec{}
	add := func(r *rand.Rand, gen func(g *tokGen)) {
		g := &tokGen{r: r}
		gen(g)
		env := []any{
			[]any{"x", vInt(r.Intn(6) - 1)}, []any{"y", vInt(r.Intn(4))}, []any{"z", vFlt((r.Intn(8) - 2) * 32)},
			[]any{"we ird", vInt(3)}, []any{"ind", vStr("ab")}, []any{"orx", vBool(true)},
			[]any{"ar", vArr(vInt(1), vArr(vInt(2), vInt(5)), vStr("ab"))},
			[]any{"di", vDict("a", vDict("a", vInt(1), "b", vArr(vInt(4), vInt(6))), "b", vInt(2), "a b", vArr(vInt(7)))},
			[]any{"rows", vArr(vDict("a", vInt(1), "b", vInt(3)), vDict("a", vInt(2), "b", vArr(vInt(1))))},
		}
		if len(g.toks) > 60 {
			return
		}
		recs = append(recs, &TokRec{ID: len(recs) + 1, Toks: g.toks, Env: env, Res: vNull(),
			Src: "SELECT " + g.text() + " AS r FROM scope()"})
	}
	r := rand.New(rand.NewSource(seed))
	reps := 3
	if thorough {
		reps = 12
	}
	// Every pair of operators, and a part of all triples.
	for _, a := range binOps {
		for _, b := range binOps {
			for k := 0; k < reps; k++ {
				add(r, func(g *tokGen) { g.chain(0, []string{a, b}) })
			}
			for _, c := range binOps {
				if thorough || r.Intn(3) == 0 {
					add(r, func(g *tokGen) { g.chain(0, []string{a, b, c}) })
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		add(r, func(g *tokGen) { g.expr(2, 1+r.Intn(6)) })
	}
	parallel(len(recs), func(i int) { runTok(recs[i]) })
	f, err := os.Create(out)
	die(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for _, rec := range recs {
		die(enc.Encode(rec))
	}
	die(w.Flush())
	die(f.Close())
}
