package main

// The AST of the generated programs, in the same shape as the TLA+
// specification (VQL.tla) reads it, and its rendering to VQL text.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

type E = []any // expression
type V = []any // value

func vNull() V         { return V{"null"} }
func vBool(b bool) V   { return V{"bool", b} }
func vInt(n int) V     { return V{"int", n} }
func vFlt(n int) V     { return V{"flt", n} }
func vStr(s string) V  { return V{"str", s} }
func vArr(xs ...any) V { return V{"arr", append([]any{}, xs...)} }
func vDict(kv ...any) V {
	pairs := []any{}
	for i := 0; i+1 < len(kv); i += 2 {
		pairs = append(pairs, []any{kv[i], kv[i+1]})
	}
	return V{"dict", pairs}
}

func eLit(v V) E               { return E{"lit", v} }
func eInt(n int) E             { return eLit(vInt(n)) }
func eStr(s string) E          { return eLit(vStr(s)) }
func eSym(n string) E          { return E{"sym", n} }
func eMem(e E, n string) E     { return E{"mem", e, n} }
func eIdx(e, i E) E            { return E{"idx", e, i} }
func eArr(es ...any) E         { return E{"arr", append([]any{}, es...)} }
func eNot(e E) E               { return E{"not", e} }
func eCmp(op string, a, b E) E { return E{"cmp", op, a, b} }
func eBin(kind, op string, a, b E) E {
	return E{kind, a, []any{[]any{op, b}}}
}

type Select struct {
	Cols  []any  `json:"cols"`
	From  []any  `json:"from"`
	Where E      `json:"where"`
	Group []any  `json:"group"`
	Order string `json:"order"`
	Desc  bool   `json:"desc"`
	Limit int    `json:"limit"`

	Explain bool `json:"explain"`
}

func newSelect(from []any, cols ...any) *Select {
	return &Select{Cols: cols, From: from, Where: E{"none"}, Group: []any{}, Limit: -1}
}

func colStar() []any                   { return []any{"star"} }
func colAs(n string, e E) []any        { return []any{"as", n, e} }
func colSub(n string, q *Select) []any { return []any{"sub", n, q} }
func fromSym(path ...string) []any {
	p := []any{}
	for _, x := range path {
		p = append(p, x)
	}
	return []any{p, false, []any{}}
}
func fromCall(name string, args ...any) []any {
	return []any{[]any{name}, true, append([]any{}, args...)}
}
func argE(n string, e E) []any       { return []any{n, "e", e} }
func argQ(n string, q *Select) []any { return []any{n, "q", q} }
func argA(n string, es ...any) []any { return []any{n, "a", append([]any{}, es...)} }

type Stmt struct {
	K      string  `json:"k"`
	Name   string  `json:"name"`
	Op     string  `json:"op"`
	Params []any   `json:"params"` // [name, hasDefault, arg]
	Q      *Select `json:"q,omitempty"`
	E      E       `json:"e,omitempty"`
}

func sSelect(q *Select) Stmt { return Stmt{K: "select", Q: q, Params: []any{}} }
func sLetQ(n, op string, params []any, q *Select) Stmt {
	if params == nil {
		params = []any{}
	}
	return Stmt{K: "letq", Name: n, Op: op, Params: params, Q: q}
}
func sLetE(n, op string, params []any, e E) Stmt {
	if params == nil {
		params = []any{}
	}
	return Stmt{K: "lete", Name: n, Op: op, Params: params, E: e}
}

// ---------------------------------------------------------------- render

type Renderer struct {
	r     *rand.Rand
	noise bool // random case, whitespace, comments, redundant parentheses
	// Comments only where the parser which keeps them accepts them.
	comments bool
}

func (s *Renderer) kw(w string) string {
	if s.noise {
		switch s.r.Intn(4) {
		case 0:
			return strings.ToLower(w)
		case 1:
			b := []byte(strings.ToLower(w))
			for i := range b {
				if s.r.Intn(2) == 0 {
					b[i] = strings.ToUpper(string(b[i]))[0]
				}
			}
			return string(b)
		}
	}
	return w
}

// Mandatory whitespace.
func (s *Renderer) sp() string {
	if s.noise {
		switch s.r.Intn(8) {
		case 0:
			return "  "
		case 1:
			return "\n"
		case 2:
			if !s.comments {
				return []string{" /* c */ ", " /**/ ", " /* 2 ** 3 */\n", " -- /* '\n", " // */ \"\n"}[s.r.Intn(5)]
			}
		case 3:
			return "\t"
		}
	}
	return " "
}

func (s *Renderer) comment() string {
	if !s.comments || s.r.Intn(12) != 0 {
		return ""
	}
	return []string{"/* c */ ", "-- one -- c\n", "// it's\n", "/* a\n   b */ ", "/* SELECT */\n"}[s.r.Intn(5)]
}

func needTick(n string) bool {
	if n == "" {
		return false
	}
	for i, c := range n {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return true
		}
	}
	switch strings.ToUpper(n) {
	case "EXPLAIN", "SELECT", "WHERE", "AND", "OR", "FROM", "NOT", "AS", "IN", "LIMIT", "NULL", "DESC", "TRUE", "FALSE", "LET", "GROUP", "ORDER", "BY":
		return true
	}
	return false
}

func (s *Renderer) id(n string) string {
	if needTick(n) || s.noise && s.r.Intn(12) == 0 {
		return "`" + n + "`"
	}
	return n
}

func (s *Renderer) str(x string) string {
	esc := func(q byte) string {
		var b strings.Builder
		b.WriteByte(q)
		for i := 0; i < len(x); i++ {
			c := x[i]
			switch {
			case c == q || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\n' && (!s.noise || s.r.Intn(2) == 0):
				b.WriteString("\\n")
			default:
				b.WriteByte(c)
			}
		}
		b.WriteByte(q)
		return b.String()
	}
	if s.noise {
		switch s.r.Intn(4) {
		case 0:
			return esc('"')
		case 1:
			if !strings.Contains(x, "'") {
				return "'''" + x + "'''"
			}
		}
	}
	return esc('\'')
}

func asInt(x any) int {
	switch t := x.(type) {
	case int:
		return t
	case float64:
		return int(t)
	}
	panic(fmt.Sprintf("asInt %T", x))
}

func (s *Renderer) lit(v V) (string, int) {
	switch v[0] {
	case "null":
		return s.kw("NULL"), 0
	case "bool":
		if v[1].(bool) {
			return s.kw("TRUE"), 0
		}
		return s.kw("FALSE"), 0
	case "int":
		n := asInt(v[1])
		if s.noise && n > 0 && s.r.Intn(10) == 0 {
			return fmt.Sprintf("0x%x", n), 0
		}
		return strconv.Itoa(n), neg(n)
	case "flt":
		n := asInt(v[1])
		x := strconv.FormatFloat(float64(n)/64, 'f', -1, 64)
		if !strings.Contains(x, ".") {
			x += ".0"
		}
		return x, neg(n)
	case "str":
		return s.str(v[1].(string)), 0
	}
	panic(fmt.Sprintf("bad literal %v", v))
}

func neg(n int) int {
	if n < 0 {
		return 1
	}
	return 0
}

// Precedence levels, loosest first.
const (
	pComma = iota
	pAnd
	pOr
	pNot
	pAdd
	pMul
	pMember
)

func (s *Renderer) wrap(text string, have, want int) string {
	if have < want || s.noise && s.r.Intn(10) == 0 {
		return "(" + text + ")"
	}
	return text
}

func (s *Renderer) Expr(e E, want int) string {
	text, have := s.expr(e)
	return s.wrap(text, have, want)
}

func list(x any) []any {
	if x == nil {
		return nil
	}
	return x.([]any)
}

func (s *Renderer) chain(e E, lvl int, first, next int, low bool) string {
	out := s.Expr(e[1].(E), first)
	for _, t := range list(e[2]) {
		op := t.([]any)[0].(string)
		if op == "AND" || op == "OR" {
			op = s.kw(op)
		}
		out += s.sp() + op + s.sp() + s.Expr(t.([]any)[1].(E), next)
	}
	return out
}

func (s *Renderer) expr(e E) (string, int) {
	switch e[0] {
	case "lit":
		t, n := s.lit(e[1].(V))
		if n == 1 {
			return t, pMember
		}
		return t, pMember
	case "sym":
		return s.id(e[1].(string)), pMember
	case "neg":
		t, _ := s.expr(e[1].(E))
		return "-" + t, pMember
	case "call":
		return s.id(e[2].(string)) + "(" + s.Args(list(e[3])) + ")", pMember
	case "mem":
		return s.Expr(e[1].(E), pMember) + "." + s.id(e[2].(string)), pMember
	case "idx":
		return s.Expr(e[1].(E), pMember) + "[" + s.index(e[2].(E)) + "]", pMember
	case "slice":
		out := s.Expr(e[1].(E), pMember) + "["
		if e[2].(bool) {
			out += s.index(e[3].(E))
		}
		out += ":"
		if e[4].(bool) {
			out += s.index(e[5].(E))
		}
		return out + "]", pMember
	case "arr":
		es := list(e[1])
		if len(es) == 0 {
			panic("empty array literal")
		}
		parts := []string{}
		for _, x := range es {
			parts = append(parts, s.Expr(x.(E), pAnd))
		}
		out := strings.Join(parts, ","+s.sp())
		if len(es) == 1 {
			out += ","
		}
		return "(" + out + ")", pMember
	case "not":
		return s.kw("NOT") + s.sp() + s.Expr(e[1].(E), pNot), pNot
	case "and":
		return s.chain(e, pAnd, pOr, pOr, false), pAnd
	case "or":
		return s.chain(e, pOr, pNot, pNot, false), pOr
	case "cmp":
		op := e[1].(string)
		if op == "IN" {
			op = s.kw("IN")
		}
		return s.Expr(e[2].(E), pAdd) + s.sp() + op + s.sp() + s.Expr(e[3].(E), pAdd), pNot
	case "add":
		return s.chain(e, pAdd, pMul, pMul, false), pAdd
	case "mul":
		return s.chain(e, pMul, pMember, pMember, false), pMul
	}
	panic(fmt.Sprintf("bad expr %v", e))
}

// Index operands are single values.
func (s *Renderer) index(e E) string {
	switch e[0] {
	case "lit", "sym", "call":
		return s.Expr(e, pMember)
	}
	return "(" + s.Expr(e, pComma) + ")"
}

func (s *Renderer) arg(a []any) string {
	out := s.comment() + s.id(a[0].(string)) + "="
	switch a[1] {
	case "e":
		return out + s.Expr(a[2].(E), pAnd)
	case "q":
		return out + "{" + s.sp() + s.Select(a[2].(*Select)) + s.sp() + "}"
	case "a":
		parts := []string{}
		for _, x := range list(a[2]) {
			parts = append(parts, s.Expr(x.(E), pAnd))
		}
		return out + "[" + strings.Join(parts, ", ") + "]"
	}
	panic("bad arg")
}

func (s *Renderer) Args(args []any) string {
	parts := []string{}
	for _, a := range args {
		parts = append(parts, s.arg(a.([]any)))
	}
	return strings.Join(parts, ","+s.sp())
}

func (s *Renderer) Select(q *Select) string {
	cols := []string{}
	for _, c_ := range q.Cols {
		c := c_.([]any)
		switch c[0] {
		case "star":
			if len(cols) > 0 {
				cols = append(cols, s.comment()+"*")
			} else {
				cols = append(cols, "*")
			}
		case "as":
			t := s.Expr(c[2].(E), pAnd)
			if t == c[1].(string) && s.r.Intn(2) == 0 {
				cols = append(cols, s.comment()+t)
			} else {
				cols = append(cols, s.comment()+t+s.sp()+s.kw("AS")+s.sp()+s.id(c[1].(string)))
			}
		case "sub":
			cols = append(cols, "{ "+s.Select(c[2].(*Select))+" }"+s.sp()+s.kw("AS")+s.sp()+s.id(c[1].(string)))
		}
	}
	out := ""
	if q.Explain {
		out = s.kw("EXPLAIN") + s.sp()
	}
	out += s.kw("SELECT") + s.sp() + strings.Join(cols, ","+s.sp()) + s.sp() + s.kw("FROM") + s.sp()
	path := []string{}
	for _, p := range list(q.From[0]) {
		path = append(path, s.id(p.(string)))
	}
	out += strings.Join(path, ".")
	if q.From[1].(bool) {
		out += "(" + s.Args(list(q.From[2])) + ")"
	}
	if q.Where[0] != "none" {
		out += s.sp() + s.kw("WHERE") + s.sp() + s.comment() + s.Expr(q.Where, pAnd)
	}
	if len(q.Group) > 0 {
		parts := []string{}
		for _, g := range q.Group {
			parts = append(parts, s.Expr(g.(E), pAnd))
		}
		out += s.sp() + s.kw("GROUP BY") + s.sp() + strings.Join(parts, ", ")
	}
	if q.Order != "" {
		out += s.sp() + s.kw("ORDER BY") + s.sp() + s.id(q.Order)
		if q.Desc {
			out += s.sp() + s.kw("DESC")
		}
	}
	if q.Limit >= 0 {
		out += s.sp() + s.kw("LIMIT") + s.sp() + strconv.Itoa(q.Limit)
	}
	return s.comment() + out
}

func (s *Renderer) Stmt(st Stmt) string {
	switch st.K {
	case "select":
		return s.Select(st.Q)
	}
	out := s.comment() + s.kw("LET") + s.sp() + s.id(st.Name)
	if len(st.Params) > 0 {
		parts := []string{}
		for _, p_ := range st.Params {
			p := p_.([]any)
			if p[1].(bool) {
				parts = append(parts, s.arg(p[2].([]any)))
			} else {
				parts = append(parts, s.id(p[0].(string)))
			}
		}
		out += "(" + strings.Join(parts, ", ") + ")"
	} else if s.noise && s.r.Intn(6) == 0 {
		out += "()"
	}
	out += s.sp() + st.Op + s.sp()
	if st.K == "letq" {
		return out + s.Select(st.Q)
	}
	return out + s.comment() + s.Expr(st.E, pAnd)
}

func (s *Renderer) Program(stmts []Stmt) string {
	parts := []string{}
	for _, st := range stmts {
		parts = append(parts, s.Stmt(st))
	}
	return strings.Join(parts, "\n")
}
