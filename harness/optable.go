package main

// All pairs of a universe of values, in several Go representations,
// through every operator.  The records are checked by OpCheck.tla.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"time"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

type opVal struct {
	v    V      // specification value; kind "other" when not modelled
	kind string // num str null arr dict time other
	num  *big.Rat
	rank int
	mk   func() any
	name string
}

type opStruct struct {
	X int64
	y int64
}

func (self opStruct) M() string { return "m" }

type opLazy struct{ v any }

func (self *opLazy) Reduce(ctx context.Context) types.Any { return self.v }
func (self *opLazy) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	return self.v
}

func opUniverse(r *rand.Rand, thorough bool) []*opVal {
	out := []*opVal{}
	add := func(kind string, v V, name string, mk func() any) *opVal {
		o := &opVal{v: v, kind: kind, mk: mk, name: name, rank: -1}
		out = append(out, o)
		return o
	}
	addNum := func(x any, rep string) {
		o := add("num", norm(context.Background(), nil, x), rep, func() any { return x })
		o.num = new(big.Rat)
		switch t := x.(type) {
		case float64:
			o.num.SetFloat64(t)
		case float32:
			o.num.SetFloat64(float64(t))
		case bool:
			if t {
				o.num.SetInt64(1)
			}
		default:
			o.num.SetString(fmt.Sprint(t))
		}
	}
	addNum(true, "bool")
	addNum(false, "bool")
	ints := []int64{-3, -1, 0, 1, 2, 7}
	if thorough {
		ints = append(ints, -128, 5, 100, 255, int64(r.Intn(1000)))
	}
	for _, n := range ints {
		addNum(n, "int64")
		addNum(int(n), "int")
		addNum(int32(n), "int32")
		if n >= -128 && n <= 127 {
			addNum(int8(n), "int8")
		}
		addNum(int16(n), "int16")
		if n >= 0 {
			addNum(uint64(n), "uint64")
			addNum(uint32(n), "uint32")
			addNum(uint16(n), "uint16")
			addNum(uint(n), "uint")
			if n < 256 {
				addNum(uint8(n), "uint8")
			}
		}
	}
	for _, f := range []float64{-2.5, -1, 0, 0.5, 1, 1.5, 2, 7} {
		addNum(f, "float64")
		addNum(float32(f), "float32")
	}
	// Outside the range TLC calculates in: only their order is modelled.
	addNum(int64(math.MaxInt64), "int64")
	addNum(int64(math.MinInt64), "int64")
	addNum(int64(1)<<40, "int64")
	addNum(int64(1)<<40+1, "int64")
	addNum(float64(int64(1)<<40)+0.5, "float64")
	addNum(1e300, "float64")
	addNum(-1e300, "float64")
	addNum(0.1, "float64")
	for _, s := range []string{"", "a", "ab", "b", "B", "1", "1.5", "true", "a b", "zz", "~"} {
		s := s
		add("str", vStr(s), "string", func() any { return s })
	}
	add("str", V{"other"}, "bytes above ascii", func() any { return "\xc3\xa9" })
	add("null", vNull(), "Null", func() any { return types.Null{} })
	add("null", vNull(), "*Null", func() any { return &types.Null{} })
	add("null", vNull(), "nil", func() any { return nil })
	arrs := []V{vArr(), vArr(vInt(1)), vArr(vInt(1), vInt(2)), vArr(vInt(2), vInt(1)),
		vArr(vFlt(64), vInt(2)), vArr(vStr("a")), vArr(vStr("a"), vStr("b")), vArr(vNull()),
		vArr(vArr(vInt(1)), vStr("a")), vArr(vDict("x", vInt(1)))}
	for _, a := range arrs {
		a := a
		add("arr", a, "[]Any", func() any { return toGo(a, 0) })
	}
	add("arr", vArr(vInt(1), vInt(2)), "[]int64", func() any { return []int64{1, 2} })
	add("arr", vArr(vStr("a"), vStr("b")), "[]string", func() any { return []string{"a", "b"} })
	add("arr", vArr(vDict("x", vInt(1))), "[]*Dict", func() any {
		return []*ordereddict.Dict{ordereddict.NewDict().Set("x", 1)}
	})
	dicts := []V{vDict(), vDict("x", vInt(1)), vDict("x", vFlt(64)), vDict("x", vInt(2)), vDict("y", vInt(1)),
		vDict("x", vInt(1), "y", vStr("a")), vDict("y", vStr("a"), "x", vInt(1)),
		vDict("x", vDict("z", vInt(1))), vDict("x", vArr(vInt(1))), vDict("x", vNull()), vDict("a", vInt(1))}
	for _, d := range dicts {
		d := d
		add("dict", d, "*Dict", func() any { return toGo(d, 0) })
	}
	// Kinds the specification does not give a meaning to: the laws hold all the same.
	t0 := time.Unix(1, 0)
	add("other", V{"other"}, "time", func() any { return t0 })
	add("other", V{"other"}, "time", func() any { return time.Unix(2, 500000000) })
	add("other", V{"other"}, "*time", func() any { return &t0 })
	add("other", V{"other"}, "struct", func() any { return opStruct{1, 2} })
	add("other", V{"other"}, "*struct", func() any { return &opStruct{1, 2} })
	add("other", V{"other"}, "map", func() any { return map[string]any{"x": 1} })
	add("other", V{"other"}, "*string", func() any { s := "a"; return &s })
	add("other", V{"other"}, "func", func() any { return func() {} })
	add("other", V{"other"}, "chan", func() any { return make(chan int) })
	add("num", vInt(2), "lazy int", func() any { return &opLazy{int64(2)} }).num = big.NewRat(2, 1)
	add("str", vStr("a"), "lazy string", func() any { return &opLazy{"a"} })
	add("arr", vArr(vInt(1), vInt(2)), "lazy array", func() any { return &opLazy{[]any{int64(1), int64(2)}} })
	add("dict", vDict("x", vInt(1)), "lazy dict", func() any {
		return &opLazy{ordereddict.NewDict().Set("x", int64(1))}
	})
	add("null", vNull(), "lazy null", func() any { return &opLazy{types.Null{}} })

	ranks := []*opVal{}
	for _, o := range out {
		if o.num != nil {
			ranks = append(ranks, o)
		}
	}
	sort.SliceStable(ranks, func(i, j int) bool { return ranks[i].num.Cmp(ranks[j].num) < 0 })
	n := 0
	for i, o := range ranks {
		if i > 0 && ranks[i-1].num.Cmp(o.num) != 0 {
			n++
		}
		o.rank = n
	}
	return out
}

const opProgram = "SELECT a = b AS eq, a != b AS ne, a <> b AS nn, a < b AS lt, a <= b AS le, a > b AS gt, a >= b AS ge, " +
	"a IN b AS `in`, a =~ b AS re, a + b AS add, a - b AS sub, a * b AS mul, a / b AS div, " +
	"a && b AS `and`, a || b AS `or`, NOT a AS `not`, -a AS neg, a[b] AS idx, a[b:] AS lo, a[:b] AS hi, " +
	"(a AND b) AS and2, (a OR b) AS or2, if(condition=a, then=1, else=0) AS truth, (a < b OR a = b OR a > b) AS tri, " +
	"(a[b:-3], a[b:-1], a[b:0], a[b:1], a[b:2], a[b:4]) AS sl, a.x AS mx, a.nosuch.y[b] AS mm, " +
	"(a, b) AS lst FROM scope()"

type OpRec struct {
	ID int    `json:"id"`
	A  V      `json:"a"`
	B  V      `json:"b"`
	KA string `json:"ka"`
	KB string `json:"kb"`
	RA int    `json:"ra"`
	RB int    `json:"rb"`
	TA string `json:"ta"`
	TB string `json:"tb"`
	AB any    `json:"ab"`
	BA any    `json:"ba"`
	E  string `json:"err"`
}

func runOps(vql *vfilter.VQL, a, b any) (res map[string]any, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprintf("panic: %v", r)
			res = map[string]any{}
		}
	}()
	res = map[string]any{}
	scope := vfilter.NewScope()
	defer scope.Close()
	scope.AppendVars(ordereddict.NewDict().Set("a", a).Set("b", b))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for row := range vql.Eval(ctx, scope) {
		v := norm(ctx, scope, row)
		for _, kv := range list(v[1]) {
			res[list(kv)[0].(string)] = list(kv)[1]
		}
	}
	return res, ""
}

func optable(out string, seed int64, thorough bool) {
	r := rand.New(rand.NewSource(seed))
	u := opUniverse(r, thorough)
	vql, err := vfilter.Parse(opProgram)
	die(err)
	f, err := os.Create(out)
	die(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	n := 0
	recs := []*OpRec{}
	todo := [][2]*opVal{}
	for _, a := range u {
		for _, b := range u {
			// Every pair of representations of small numbers is much the same:
			// sample those.
			if a.kind == "num" && b.kind == "num" && !thorough && r.Intn(4) != 0 {
				continue
			}
			n++
			recs = append(recs, &OpRec{ID: n, A: a.v, B: b.v, KA: a.kind, KB: b.kind, RA: a.rank, RB: b.rank,
				TA: a.name, TB: b.name})
			todo = append(todo, [2]*opVal{a, b})
		}
	}
	parallel(len(recs), func(i int) {
		var e1, e2 string
		recs[i].AB, e1 = runOps(vql, todo[i][0].mk(), todo[i][1].mk())
		recs[i].BA, e2 = runOps(vql, todo[i][1].mk(), todo[i][0].mk())
		recs[i].E = e1 + e2
	})
	for _, rec := range recs {
		die(enc.Encode(rec))
	}
	die(w.Flush())
	die(f.Close())
}
