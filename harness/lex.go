package main

// Sources as characters, with the tokens the lexer makes of them, and
// literals with the values they have as written and when formatted.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"

	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/reformat"
	"www.velocidex.com/golang/vfilter/types"
)

type lexRec struct {
	ID      int      `json:"id"`
	Kind    string   `json:"kind"`
	Src     string   `json:"src"`
	S       []string `json:"s"`
	W       []int    `json:"w"`
	Refused bool     `json:"refused"`
	Parsed  bool     `json:"parsed"`
	Toks    []any    `json:"toks"`
	B       [][]int  `json:"b"`
	Vals    []any    `json:"vals"`
}

func charsOf(s string) []string {
	res := []string{}
	for _, c := range s {
		res = append(res, string(c))
	}
	return res
}

func bytesOf(s string) []int {
	res := []int{}
	for _, c := range []byte(s) {
		res = append(res, int(c))
	}
	return res
}

func recase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		out := []rune(s)
		for i := range out {
			if r.Intn(2) == 0 {
				out[i] = []rune(strings.ToLower(string(out[i])))[0]
			}
		}
		return string(out)
	}
	return s
}

var lexWords = []string{"EXPLAIN", "SELECT", "WHERE", "AND", "OR", "FROM", "NOT", "AS", "IN", "LIMIT", "NULL",
	"DESC", "LET", "TRUE", "FALSE", "GROUP", "ORDER", "BY", "GROUP BY", "ORDER \n BY", "GROUP\t\tBY"}
var lexChars = []string{"a", "Z", "_", "0", "7", "x", "e", "E", " ", "\n", "\t", "\r", "\f", ".", ",", ":", "-", "+",
	"*", "/", "%", "(", ")", "[", "]", "{", "}", "<", ">", "=", "~", "!", "|", "&", "'", "\"", "`", "\\", "#", "$",
	"é", "日", "\U0001F600", ";", "@", "^", "?", "\v", "\x00"}
var lexOps = []string{"<>", "!=", "<=", ">=", "=>", "=~", "||", "|", "|||", "&&", "&", "--", "//", "/*", "*/", "'''", "''"}

func pick(r *rand.Rand, list []string) string { return list[r.Intn(len(list))] }

func digitsText(r *rand.Rand, n int, base string) string {
	res := ""
	for i := 0; i < n; i++ {
		res += string(base[r.Intn(len(base))])
	}
	return res
}

func numberText(r *rand.Rand) string {
	sign := ""
	if r.Intn(3) == 0 {
		sign = "-"
	}
	whole := digitsText(r, r.Intn(3)+1, "0123456789")
	switch r.Intn(10) {
	case 0:
		return sign + "0x" + digitsText(r, 1+r.Intn(18), "0123456789abcdefABCDEF")
	case 1:
		return sign + strings.TrimLeft(digitsText(r, 15+r.Intn(8), "0123456789"), "0")
	case 2:
		return sign + pick(r, []string{"0", "1", "9223372036854775807", "9223372036854775808",
			"9007199254740993", "4294967296", "2147483648", "100", "0.0", "0.000001", "0.0000001", "1e6", "1e-7", "1e21",
			"123456789012345", "0.1", "0.10", "1.0", "2.5e-3", "1E+5", "7e0", "00", "010", "08", "1e400", "5e-324"})
	case 3:
		return sign + "." + digitsText(r, 1+r.Intn(12), "0123456789")
	case 4, 5:
		return sign + whole + "." + digitsText(r, 1+r.Intn(14), "0123456789")
	case 6:
		return sign + whole + "." + digitsText(r, 1+r.Intn(16), "0123456789") + pick(r, []string{"e", "E"}) +
			pick(r, []string{"", "+", "-"}) + strconv.Itoa(r.Intn(290))
	case 7:
		return sign + whole + pick(r, []string{"e", "E"}) + pick(r, []string{"", "+", "-"}) + strconv.Itoa(r.Intn(30))
	}
	return sign + whole
}

func stringText(r *rand.Rand) string {
	n := r.Intn(7)
	body := ""
	if r.Intn(4) == 0 {
		for i := 0; i < n; i++ {
			body += pick(r, append([]string{"--x", "//y", "/*", "*/", "''", "\\n", "\\"}, lexChars...))
		}
		return "'''" + strings.ReplaceAll(body, "'''", "x") + "'''"
	}
	quote := pick(r, []string{"'", "\""})
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			body += "\\" + pick(r, []string{"n", "r", "t", "\\", "'", "\"", "a", "0", "N", " ", "é", "\n", "`", "x"})
		case 1:
			body += "\\" + pick(r, []string{"x", "X"}) + digitsText(r, 2, "0123456789abcdefABCDEFg")
		default:
			c := pick(r, lexChars)
			if c != quote && c != "\\" {
				body += c
			}
		}
	}
	return quote + body + quote
}

func lexPiece(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0, 1, 2:
		return recase(r, pick(r, lexWords))
	case 3:
		return recase(r, pick(r, lexWords)) + pick(r, []string{"x", "_", "1", "s", "-", "."})
	case 4:
		return pick(r, []string{"a", "abc", "_x", "A1", "x.y", "`a b`", "`é日`", "`", "``", "`a\nb`", "-a", "-`b c`", "-_", "--a"})
	case 5, 6:
		return numberText(r)
	case 7, 8:
		return stringText(r)
	case 9:
		return pick(r, []string{"-- c\n", "-- é'\n", "--\n", "--", "// c\n", "// \"日\n", "//", "/* c */", "/**/", "/* '\n */",
			"/* é\n\n日 */", "/*/", "/* ** / */", "/***/", "--/*\n", "/*--*/"})
	case 10, 11:
		return pick(r, lexOps)
	case 12:
		return pick(r, []string{" ", "\n", "  \n\t", "\r\n"})
	}
	return pick(r, lexChars)
}

func sourceRec(r *rand.Rand, id int) *lexRec {
	src := ""
	spaced := r.Intn(3)
	for n := r.Intn(9); n >= 0; n-- {
		src += lexPiece(r)
		if spaced == 1 || spaced == 2 && r.Intn(2) == 0 {
			src += pick(r, []string{" ", "\n", " ", "\t"})
		}
	}
	rec := &lexRec{ID: id, Kind: "src", Src: src, S: charsOf(src), Toks: []any{}, B: [][]int{}, Vals: []any{}, W: []int{}}
	for _, c := range rec.S {
		rec.W = append(rec.W, len(c))
	}
	toks, err := vfilter.Tokenize(src)
	rec.Refused = err != nil
	for _, t := range toks {
		rec.Toks = append(rec.Toks, []any{t.Type, charsOf(t.Value), []int{t.Pos.Offset, t.Pos.Line, t.Pos.Column,
			t.EndPos.Offset, t.EndPos.Line, t.EndPos.Column}})
	}
	_, err = vfilter.MultiParse(src)
	rec.Parsed = err == nil
	return rec
}

func literalValue(v any) []any {
	switch t := v.(type) {
	case nil, types.Null, *types.Null:
		return []any{"null"}
	case bool:
		return []any{"bool", t}
	case int64:
		return []any{"int", charsOf(strconv.FormatInt(t, 10)), charsOf(strings.ToUpper(strconv.FormatInt(t, 16)))}
	case float64:
		return []any{"flt", charsOf(strconv.FormatFloat(t, 'e', -1, 64)), math.Signbit(t)}
	case string:
		return []any{"str", bytesOf(t)}
	}
	return []any{"other", fmt.Sprintf("%T %v", v, v)}
}

func evalLiteral(src string) []any {
	vqls, err := vfilter.MultiParse(src)
	if err != nil {
		return []any{"err", err.Error()}
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res := []any{"none"}
	for _, vql := range vqls {
		for row := range vql.Eval(ctx, scope) {
			v, _ := vfilter.RowToDict(ctx, scope, row).Get("v")
			res = literalValue(v)
		}
	}
	return res
}

func literalRec(r *rand.Rand, id int) *lexRec {
	text := ""
	switch r.Intn(8) {
	case 0:
		text = recase(r, pick(r, []string{"TRUE", "FALSE", "NULL"}))
	case 1, 2, 3:
		text = stringText(r)
	default:
		text = numberText(r)
	}
	rec := &lexRec{ID: id, Kind: "lit", S: charsOf(text), W: []int{}, Toks: []any{}, B: [][]int{}}
	for _, c := range rec.S {
		rec.B = append(rec.B, bytesOf(c))
	}
	rec.Src = fmt.Sprintf(pick(r, []string{
		"SELECT %s AS v FROM scope()", "SELECT (%s) AS v FROM scope()", "LET X = %s SELECT X AS v FROM scope()",
		"LET X <= %s SELECT X AS v FROM scope()", "SELECT dict(x=%s).x AS v FROM scope()",
		"SELECT if(condition=TRUE, then=%s) AS v FROM scope()", "LET F(a=%s) = a SELECT F() AS v FROM scope()",
		"SELECT (0, %s)[1] AS v FROM scope()", "SELECT * FROM foreach(row=dict(v=%s))",
		"SELECT v FROM foreach(row={ SELECT %s AS v FROM scope() })",
		"LET F(a) = SELECT a AS v FROM scope() SELECT * FROM F(a=%s)",
		"SELECT dict(x=1, yy=dict(a='some text', b='more of it', c=%s, d='and more')).yy.c AS v FROM scope()",
	}), text)
	rec.Vals = []any{evalLiteral(rec.Src)}
	scope := vfilter.NewScope()
	defer scope.Close()
	if vqls, err := vfilter.MultiParse(rec.Src); err == nil {
		parts := []string{}
		for _, vql := range vqls {
			parts = append(parts, vfilter.FormatToString(scope, vql))
		}
		rec.Vals = append(rec.Vals, evalLiteral(strings.Join(parts, "\n")))
	}
	text, err := reformat.ReFormatVQL(scope, rec.Src, vfilter.DefaultFormatOptions)
	if err != nil {
		rec.Vals = append(rec.Vals, []any{"err", err.Error()})
	} else {
		rec.Vals = append(rec.Vals, evalLiteral(text))
	}
	return rec
}

func lexTable(out string, seed int64, n int, kind string) {
	f, err := os.Create(out)
	if err != nil {
		die(err)
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	enc := json.NewEncoder(w)
	r := rand.New(rand.NewSource(seed))
	for id := 1; id <= n; id++ {
		var rec *lexRec
		if kind == "lit" || kind != "src" && id%2 == 0 {
			rec = literalRec(r, id)
		} else {
			rec = sourceRec(r, id)
		}
		if err := enc.Encode(rec); err != nil {
			die(err)
		}
	}
}
