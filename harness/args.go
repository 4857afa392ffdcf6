package main

// Calls with generated arguments, extracted into generated structs.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

type argField struct {
	Name, Type string
	Required   bool
}

// One evaluation of the call.
type argCall struct {
	Err   string         `json:"err"`
	Named []string       `json:"named"` // arguments the error names
	Same  []string       `json:"same"`  // fields which kept their value
	Set   []any          `json:"set"`   // name, value of the others
	Kw    V              `json:"kw"`
	Evals map[string]int `json:"evals"`
}

type argRec struct {
	ID     int       `json:"id"`
	Src    string    `json:"src"`
	Kw     bool      `json:"kw"` // other arguments are allowed
	Star   bool      `json:"star"`
	Plugin bool      `json:"plugin"`
	Fields []any     `json:"fields"` // name, type, required
	Args   []any     `json:"args"`   // name, kind, value
	Calls  []argCall `json:"calls"`
	Err    string    `json:"err"`
}

type namedString string

var argTypes = map[string]reflect.Type{
	"any":      reflect.TypeOf((*types.Any)(nil)).Elem(),
	"lazyany":  reflect.TypeOf((*types.LazyAny)(nil)).Elem(),
	"lazy":     reflect.TypeOf((*types.LazyExpr)(nil)).Elem(),
	"query":    reflect.TypeOf((*types.StoredQuery)(nil)).Elem(),
	"dict":     reflect.TypeOf((*ordereddict.Dict)(nil)),
	"[]string": reflect.TypeOf([]string{}),
	"[]any":    reflect.TypeOf([]types.Any{}),
	"[]dict":   reflect.TypeOf([]*ordereddict.Dict{}),
	"string":   reflect.TypeOf(""),
	"named":    reflect.TypeOf(namedString("")),
	"bool":     reflect.TypeOf(false),
	"float64":  reflect.TypeOf(float64(0)),
	"float32":  reflect.TypeOf(float32(0)),
	"int64":    reflect.TypeOf(int64(0)),
	"uint64":   reflect.TypeOf(uint64(0)),
	"int":      reflect.TypeOf(int(0)),
}
var argTypeNames = []string{"any", "any", "lazyany", "lazy", "query", "query", "dict", "[]string", "[]string", "[]any", "[]dict",
	"string", "string", "named", "bool", "float64", "float32", "int64", "uint64", "int", "int64"}

// The values a target has before.
var argInitial = map[string]any{
	"any": "initial", "lazyany": "initial", "lazy": (types.LazyExpr)(nil), "query": (types.StoredQuery)(nil),
	"dict": ordereddict.NewDict().Set("initial", 1), "[]string": []string{"initial"}, "[]any": []types.Any{"initial"},
	"[]dict": []*ordereddict.Dict{nil}, "string": "initial", "named": namedString("initial"), "bool": false,
	"float64": 12345.5, "float32": float32(12345.5), "int64": int64(12345), "uint64": uint64(12345), "int": 12345,
}

type argFn struct {
	rec    *argRec
	fields []argField
	t      reflect.Type
	probes *Recorder
	mu     *sync.Mutex
}

func (f argFn) Copy() types.FunctionInterface { return f }
func (f argFn) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "ext"}
}

func (f argFn) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	f.extract(ctx, scope, args)
	return int64(1)
}

type argPlugin struct{ argFn }

func (p argPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "ext"}
}
func (p argPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		p.extract(ctx, scope, args)
		select {
		case <-ctx.Done():
		case out <- ordereddict.NewDict().Set("r", int64(1)):
		}
	}()
	return out
}

func (f argFn) extract(ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	f.mu.Lock()
	defer f.mu.Unlock()
	defer f.probes.take()
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 3000)
			f.rec.Err = fmt.Sprintf("panic: %v %s", r, buf[:runtime.Stack(buf, false)])
		}
	}()
	c := argCall{Named: []string{}, Same: []string{}, Set: []any{}, Kw: V{"dict", []any{}}, Evals: map[string]int{}}
	target := reflect.New(f.t)
	initial := reflect.New(f.t)
	for i, x := range f.fields {
		v := argInitial[x.Type]
		if v == nil || x.Type == "lazy" || x.Type == "query" {
			continue
		}
		target.Elem().Field(i).Set(reflect.ValueOf(v))
		initial.Elem().Field(i).Set(reflect.ValueOf(v))
	}
	var err error
	var kw *ordereddict.Dict
	if f.rec.Kw {
		kw, err = arg_parser.ExtractKWArgsWithContext(ctx, scope, args, target.Interface())
	} else {
		err = arg_parser.ExtractArgsWithContext(ctx, scope, args, target.Interface())
	}
	for _, e := range f.probes.take() {
		c.Evals[e.([]any)[0].(string)]++
	}
	for _, a := range f.rec.Args {
		name := list(a)[0].(string)
		c.Evals[name] += 0
		if err != nil && strings.Contains(err.Error(), name) {
			c.Named = append(c.Named, name)
		}
	}
	if err != nil {
		c.Err = err.Error()
		for _, x := range f.fields {
			if strings.Contains(c.Err, x.Name) {
				c.Named = append(c.Named, x.Name)
			}
		}
		f.rec.Calls = append(f.rec.Calls, c)
		return
	}
	if kw != nil {
		c.Kw = argNorm(ctx, scope, kw)
	}
	for i, x := range f.fields {
		got := target.Elem().Field(i)
		if reflect.DeepEqual(got.Interface(), initial.Elem().Field(i).Interface()) {
			c.Same = append(c.Same, x.Name)
		}
		c.Set = append(c.Set, []any{x.Name, argNorm(ctx, scope, got.Interface())})
	}
	f.rec.Calls = append(f.rec.Calls, c)
}

// Queries are run.
func argNorm(ctx context.Context, scope types.Scope, x any) V {
	switch t := x.(type) {
	case types.LazyExpr:
		return argNorm(ctx, scope, t.Reduce(ctx))
	case types.StoredQuery:
		rows := []any{}
		for row := range t.Eval(ctx, scope) {
			rows = append(rows, normRow(ctx, scope, row))
		}
		return V{"arr", rows}
	case *ordereddict.Dict:
		if t == nil {
			return vNull()
		}
		kv := []any{}
		for _, k := range t.Keys() {
			v, _ := t.Get(k)
			kv = append(kv, []any{k, argNorm(ctx, scope, v)})
		}
		return V{"dict", kv}
	case []string:
		out := []any{}
		for _, s := range t {
			out = append(out, vStr(s))
		}
		return V{"arr", out}
	case []types.Any:
		out := []any{}
		for _, s := range t {
			out = append(out, argNorm(ctx, scope, s))
		}
		return V{"arr", out}
	}
	if rv := reflect.ValueOf(x); rv.IsValid() && rv.Kind() == reflect.String {
		return vStr(rv.String())
	}
	return norm(ctx, scope, x)
}

func argValue(r *rand.Rand, depth int) V {
	switch r.Intn(12) {
	case 0:
		return vNull()
	case 1:
		return vBool(r.Intn(2) == 0)
	case 2, 3:
		return vInt(r.Intn(9) - 2)
	case 4:
		return vFlt((r.Intn(9) - 2) * 32)
	case 5, 6, 7:
		return vStr([]string{"", "a", "5", "x y", "true"}[r.Intn(5)])
	case 8, 9:
		if depth > 0 {
			out := []any{}
			for i := r.Intn(4); i > 0; i-- {
				out = append(out, argValue(r, depth-1))
			}
			return V{"arr", out}
		}
	default:
		if depth > 0 {
			kv := []any{}
			for i := r.Intn(3); i >= 0; i-- {
				kv = append(kv, []any{fmt.Sprintf("m%d", i), argValue(r, depth-1)})
			}
			return V{"dict", kv}
		}
	}
	return vInt(1)
}

// A value the type converts, often.
func argFor(r *rand.Rand, t string) V {
	if r.Intn(100) < 55 {
		switch t {
		case "dict", "[]dict":
			for i := 0; i < 20; i++ {
				if v := argValue(r, 2); v[0] == "dict" {
					return v
				}
			}
		case "float64", "float32", "int64", "uint64", "int":
			return []V{vInt(r.Intn(20)), vFlt(r.Intn(640)), vBool(true), vInt(-1)}[r.Intn(4)]
		case "[]string":
			return []V{vArr(vStr("a"), vStr("b")), vArr(vDict("m", vStr("z")), vStr("b")), vStr("q"), vArr(vInt(5)), vArr()}[r.Intn(5)]
		}
	}
	return argValue(r, 2)
}

func genArgs(r *rand.Rand, id int) *argRec {
	rec := &argRec{ID: id, Fields: []any{}, Args: []any{}, Calls: []argCall{}}
	fields := []argField{}
	sfs := []reflect.StructField{}
	names := []string{"Alpha", "beta_b", "gamma", "delta", "epsilon", "zeta"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		f := argField{names[i], argTypeNames[r.Intn(len(argTypeNames))], r.Intn(3) == 0}
		tag := []string{}
		if f.Required {
			tag = append(tag, "required")
		} else if r.Intn(2) == 0 {
			tag = append(tag, "optional")
		}
		goName := fmt.Sprintf("F%d", i)
		if f.Name == "Alpha" && len(tag) > 0 && r.Intn(2) == 0 {
			goName = "Alpha"
		} else {
			tag = append(tag, "field="+f.Name)
		}
		if r.Intn(3) == 0 {
			tag = append(tag, "doc=words")
		}
		r.Shuffle(len(tag), func(i, j int) { tag[i], tag[j] = tag[j], tag[i] })
		sf := reflect.StructField{Name: goName, Type: argTypes[f.Type],
			Tag: reflect.StructTag(fmt.Sprintf(`json:"x%d" vfilter:"%s"`, i, strings.Join(tag, ",")))}
		if r.Intn(12) == 0 {
			// Not an argument.
			sf.Tag = reflect.StructTag([]string{``, `vfilter:"-"`, `json:"a"`}[r.Intn(3)])
			f.Name = "F" + fmt.Sprint(i)
			sf.Name = f.Name
			f.Required = false
			fields = append(fields, f)
			sfs = append(sfs, sf)
			rec.Fields = append(rec.Fields, []any{f.Name, "untagged", false})
			continue
		}
		fields = append(fields, f)
		sfs = append(sfs, sf)
		rec.Fields = append(rec.Fields, []any{f.Name, f.Type, f.Required})
	}
	rec.Kw = r.Intn(4) == 0
	rec.Star = r.Intn(5) == 0
	env := ordereddict.NewDict()
	text := []string{}
	lets := []string{}
	arg := func(name string, v V) {
		kind := "value"
		sym := "v" + fmt.Sprint(len(rec.Args))
		rep := r.Intn(6)
		x := toGo(v, rep)
		if v[0] == "null" {
			x = []any{nil, types.Null{}, &types.Null{}}[r.Intn(3)]
		}
		env.Set(sym, x)
		e := sym
		probe := fmt.Sprintf("probe(id='%s', v=%s)", name, sym)
		rows := []any{}
		for i := r.Intn(4); i > 0; i-- {
			rows = append(rows, vDict("c", v))
		}
		env.Set("n"+sym, len(rows))
		query := fmt.Sprintf("SELECT probe(id='%s', v=%s) AS c FROM range(start=0, end=n%s)", name, sym, sym)
		switch k := r.Intn(12); {
		case k < 1:
			kind = "value"
		case k < 7:
			e = probe
		case k < 8 && v[0] == "arr" && len(list(v[1])) != 1:
			xs := []string{}
			for j, y := range list(v[1]) {
				env.Set(fmt.Sprintf("%se%d", sym, j), toGo(y, r.Intn(6)))
				xs = append(xs, fmt.Sprintf("%se%d", sym, j))
			}
			e = "[" + strings.Join(xs, ", ") + "]"
		case k < 9 && !rec.Star:
			kind = "query"
			e = "{ " + query + " }"
			v = V{"arr", rows}
		case k < 10:
			kind = "lazyquery"
			lets = append(lets, fmt.Sprintf("LET Q%s = %s", sym, query))
			e = "Q" + sym
			v = V{"arr", rows}
		case k < 11:
			lets = append(lets, fmt.Sprintf("LET X%s = %s", sym, probe))
			e = "X" + sym
		}
		counted := kind == "query" || kind == "lazyquery" || strings.HasPrefix(e, "probe") || strings.HasPrefix(e, "X")
		rec.Args = append(rec.Args, []any{name, kind, v, counted})
		text = append(text, name+"="+e)
	}
	drop := r.Intn(3) == 0
	for i, f := range fields {
		if list(rec.Fields[i])[1] == "untagged" {
			if r.Intn(3) == 0 {
				arg(f.Name, vInt(1))
			}
			continue
		}
		if r.Intn(100) < 70 || f.Required && !drop {
			arg(f.Name, argFor(r, f.Type))
		}
	}
	if r.Intn(5) == 0 || rec.Kw && r.Intn(2) == 0 {
		arg("other", argValue(r, 1))
		if r.Intn(3) == 0 {
			arg("Another", argValue(r, 1))
		}
	}
	order := r.Perm(len(text))
	shuffled := []string{}
	args := []any{}
	for _, i := range order {
		shuffled = append(shuffled, text[i])
		args = append(args, rec.Args[i])
	}
	rec.Args = args
	call := "ext(" + strings.Join(shuffled, ", ") + ")"
	if rec.Star {
		call = "ext(`**`=dict(" + strings.Join(shuffled, ", ") + "))"
	}
	src := "SELECT " + call + " AS r FROM scope()"
	if r.Intn(2) == 0 {
		rec.Plugin = true
		src = "SELECT * FROM " + call
	}
	rec.Src = strings.Join(append(lets, src), "\n")

	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 3000)
			rec.Err = fmt.Sprintf("panic: %v %s", p, buf[:runtime.Stack(buf, false)])
		}
	}()
	fn := argFn{rec: rec, fields: fields, t: reflect.StructOf(sfs), probes: &Recorder{}, mu: &sync.Mutex{}}
	scope := vfilter.NewScope()
	scope.AppendFunctions(probeFn{fn.probes})
	scope.AppendFunctions(fn)
	scope.AppendPlugins(argPlugin{fn})
	scope.AppendVars(env)
	defer scope.Close()
	vqls, err := vfilter.MultiParse(rec.Src)
	if err != nil {
		rec.Err = "parse: " + err.Error()
		return rec
	}
	// Twice: what the parser remembers of the type.
	for i := 0; i < 2; i++ {
		for _, vql := range vqls {
			for range vql.Eval(context.Background(), scope) {
			}
		}
	}
	return rec
}

func argTable(path string, seed int64, n int) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	r := rand.New(rand.NewSource(seed*7919 + 41))
	for i := 1; i <= n; i++ {
		rec := genArgs(rand.New(rand.NewSource(r.Int63())), i)
		b, err := json.Marshal(rec)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
}
