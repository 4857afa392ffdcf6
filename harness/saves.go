package main

// Scopes of plain data which are saved and restored.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/marshal"
	"www.velocidex.com/golang/vfilter/types"
)

type saveRec struct {
	ID     int      `json:"id"`
	Frames [][]any  `json:"frames"` // the innermost last: [name, value]
	Ignore []string `json:"ignore"`
	Res    []any    `json:"res"` // [name, value or <<"none">>]
	Err    string   `json:"err"`
}

// Values as text, whatever Go type holds them.
func textOf(v any) []any {
	switch t := v.(type) {
	case nil:
		return vNull()
	case types.Null, *types.Null:
		return vNull()
	case bool:
		return []any{"bool", t}
	case string:
		return []any{"str", t}
	case *ordereddict.Dict:
		pairs := []any{}
		for _, item := range t.Items() {
			pairs = append(pairs, []any{item.Key, textOf(item.Value)})
		}
		return []any{"dict", pairs}
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return []any{"int", strconv.FormatInt(rv.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return []any{"int", strconv.FormatUint(rv.Uint(), 10)}
	case reflect.Float64:
		return []any{"flt", strconv.FormatFloat(rv.Float(), 'x', -1, 64)}
	case reflect.Float32:
		// As it is written.
		f, _ := strconv.ParseFloat(strconv.FormatFloat(rv.Float(), 'g', -1, 32), 64)
		return []any{"flt", strconv.FormatFloat(f, 'x', -1, 64)}
	case reflect.Slice, reflect.Array:
		out := []any{}
		for i := 0; i < rv.Len(); i++ {
			out = append(out, textOf(rv.Index(i).Interface()))
		}
		return []any{"arr", out}
	}
	return []any{"other", fmt.Sprintf("%T", v)}
}

var saveNames = []string{"a", "b", "c", "a.b", "we ird", "tick`", "Ä", "select", "", "config", "Artifact", "$x", "_b", "a-b"}

func saveValue(r *rand.Rand, depth int) any {
	n := 14
	if depth <= 0 {
		n = 9
	}
	switch r.Intn(n) {
	case 0:
		return []any{nil, types.Null{}, &types.Null{}}[r.Intn(3)]
	case 1:
		return r.Intn(2) == 0
	case 2:
		return []any{int64(math.MaxInt64), int64(math.MinInt64), int64(1<<53 + 1), uint64(math.MaxUint64),
			uint64(1 << 63), int64(-1 << 60), 7, 0, -1}[r.Intn(9)]
	case 3:
		return []any{int8(-5), uint8(200), int16(300), uint16(65535), int32(-70000), uint32(4000000000),
			uint(5), int64(r.Intn(100))}[r.Intn(8)]
	case 4:
		return []any{0.0, 2.0, -3.0, 1e20, 1e21, 1e300, 1e-7, 5e-324, 0.1, 123456789.25, -0.5, math.MaxFloat64,
			float64(1 << 53), float32(0.1), float32(2), math.Copysign(0, -1)}[r.Intn(16)]
	case 5, 6, 7:
		return []string{"", "a", "2020-01-02T03:04:05Z", "<&>", "a\nb\t\"'\\", "\u2028 é 日本", "null", "12", "1.5",
			"{\"a\":1}", "\x00\x01", "true"}[r.Intn(12)]
	case 8:
		return []any{int64(r.Intn(5)), "b", 1.5}[r.Intn(3)]
	case 9, 10:
		out := []any{}
		for i := r.Intn(4); i > 0; i-- {
			out = append(out, saveValue(r, depth-1))
		}
		return out
	case 11:
		return []any{[]string{"a", ""}, []int64{1, 1 << 62}, []float64{1, 2.5}, []types.Row{int64(1), "a"},
			[]*ordereddict.Dict{ordereddict.NewDict().Set("z", 1.0).Set("a", nil)}, []bool{true}}[r.Intn(6)]
	default:
		out := ordereddict.NewDict()
		for i := r.Intn(4); i > 0; i-- {
			out.Set([]string{"z", "a", "B", "", "a.b", "<>", "1"}[r.Intn(7)], saveValue(r, depth-1))
		}
		return out
	}
}

func saveOne(r *rand.Rand, id int) (rec *saveRec) {
	rec = &saveRec{ID: id, Frames: [][]any{}, Ignore: []string{}, Res: []any{}}
	defer func() {
		if p := recover(); p != nil {
			rec.Err = fmt.Sprintf("panic: %v", p)
		}
	}()
	scope := vfilter.NewScope()
	var s types.Scope = scope
	for i := 1 + r.Intn(3); i > 0; i-- {
		frame := []any{}
		env := ordereddict.NewDict()
		for _, k := range r.Perm(len(saveNames))[:r.Intn(6)] {
			v := saveValue(r, 3)
			frame = append(frame, []any{saveNames[k], textOf(v)})
			env.Set(saveNames[k], v)
		}
		if r.Intn(3) == 0 {
			s = s.Copy()
		}
		s.AppendVars(env)
		rec.Frames = append(rec.Frames, frame)
	}
	if r.Intn(3) == 0 {
		rec.Ignore = append(rec.Ignore, saveNames[r.Intn(len(saveNames))], "b")
	}
	rounds := 1 + r.Intn(2)
	for i := 0; i < rounds; i++ {
		item, err := marshal.Marshal(s, s)
		if err != nil {
			rec.Err = "save: " + err.Error()
			return rec
		}
		text, _ := json.Marshal(item)
		read := &types.MarshalItem{}
		if err := json.Unmarshal(text, &read); err != nil {
			rec.Err = "read: " + err.Error()
			return rec
		}
		u := vfilter.NewUnmarshaller(rec.Ignore)
		res, err := u.Unmarshal(u, vfilter.NewScope(), read)
		if err != nil {
			rec.Err = "restore: " + err.Error()
			return rec
		}
		s = res.(types.Scope)
	}
	for _, n := range saveNames {
		v, pres := s.Resolve(n)
		if !pres {
			rec.Res = append(rec.Res, []any{n, []any{"none"}})
		} else {
			rec.Res = append(rec.Res, []any{n, textOf(v)})
		}
	}
	return rec
}

func saveTable(path string, seed int64, n int) {
	f, err := os.Create(path)
	die(err)
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	r := rand.New(rand.NewSource(seed*7919 + 43))
	for i := 1; i <= n; i++ {
		die(enc.Encode(saveOne(rand.New(rand.NewSource(r.Int63())), i)))
	}
}
