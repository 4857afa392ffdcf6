package main

// Sorting of tables of up to thousands of rows; checked by SortCheck.tla.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"time"
)

type sortRec struct {
	ID    int    `json:"id"`
	Src   string `json:"src"`
	Keys  []V    `json:"keys"`
	Desc  bool   `json:"desc"`
	Limit int    `json:"limit"`
	Out   []int  `json:"out"`
	Err   string `json:"err"`
}

func sortKeys(r *rand.Rand, n int, kind int) []V {
	out := []V{}
	for i := 0; i < n; i++ {
		var v V
		switch kind % 8 {
		case 0: // many different numbers
			v = vInt(r.Intn(2*n+1) - n)
		case 1: // few different numbers
			v = vInt(r.Intn(5))
		case 2: // numbers of both kinds, NULL and missing
			switch r.Intn(8) {
			case 0:
				v = vNull()
			case 1:
				v = V{"missing"}
			case 2, 3:
				v = vFlt(r.Intn(1000) - 500)
			default:
				v = vInt(r.Intn(20) - 10)
			}
		case 3: // strings
			v = vStr([]string{"", "a", "b", "ab", "B", "zz", "10", "9"}[r.Intn(8)] + fmt.Sprint(r.Intn(20)))
		case 4: // already in order
			v = vInt(i)
		case 5: // in reverse order
			v = vInt(n - i)
		case 6: // strings, NULL and missing
			v = []V{vStr("a"), vStr("b"), vStr("B"), vStr(""), vNull(), {"missing"}}[r.Intn(6)]
		case 7: // runs, one displaced at the end
			v = vInt(i % 97)
			if i == n-1 {
				v = vInt(-1)
			}
		}
		out = append(out, v)
	}
	return out
}

func sorts(path string, seed int64, n int) {
	r := rand.New(rand.NewSource(seed*31 + 5))
	tables := map[string][]V{"t4": {}}
	recs := []*sortRec{}
	cases := []*Case{}
	sizes := []int{0, 1, 2, 3, 5, 8, 11, 12, 13, 20, 33, 64, 100, 255, 257, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2048, 2600}
	for i := 0; i < n; i++ {
		size := sizes[i%len(sizes)]
		if i >= len(sizes) && size > 64 && r.Intn(3) > 0 {
			size = r.Intn(size)
		}
		rec := &sortRec{ID: i + 1, Keys: sortKeys(r, size, r.Intn(8)), Limit: -1, Out: []int{}}
		name := fmt.Sprintf("s%d", i)
		rows := []V{}
		for j, k := range rec.Keys {
			kv := []any{"id", vInt(j + 1)}
			if k[0] != "missing" {
				kv = append(kv, "k", k)
			}
			rows = append(rows, vDict(kv...))
		}
		tables[name] = rows
		src := "SELECT id, k FROM tbl(name='" + name + "')"
		key := "k"
		// Missing keys are looked up in the row, not in the select list.
		switch r.Intn(5) {
		case 0:
			src = "SELECT * FROM tbl(name='" + name + "')"
		case 1:
			src = "SELECT id, k AS `sort key` FROM tbl(name='" + name + "')"
			key = "`sort key`"
		case 2:
			src = "LET q = SELECT id, k FROM tbl(name='" + name + "') SELECT * FROM q"
		case 3:
			src += " GROUP BY id"
		}
		src += " ORDER BY " + key
		if r.Intn(2) == 0 {
			src += " DESC"
			rec.Desc = true
		}
		if r.Intn(3) == 0 {
			rec.Limit = r.Intn(size + 3)
			src += fmt.Sprintf(" LIMIT %d", rec.Limit)
		}
		rec.Src = src
		recs = append(recs, rec)
		cases = append(cases, &Case{ID: i + 1, Src: src, Env: []any{}, Mode: "plain"})
	}
	obs := runAll(cases, tables, 8, 20*time.Second)
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	for i, rec := range recs {
		rec.Err = obs[i].Err
		if rec.Err == "" {
			if len(obs[i].Outs) != 1 {
				rec.Err = "no result"
			} else {
				for _, row := range list(obs[i].Outs[0]) {
					rec.Out = append(rec.Out, rowID(row))
				}
			}
		}
		die(enc.Encode(rec))
	}
	die(w.Flush())
	die(f.Close())
}

// The id column of a row; 0 when there is none.
func rowID(row any) int {
	v := list(row)
	if v[0] == "dict" {
		for _, p := range list(v[1]) {
			if list(p)[0] == "id" && list(list(p)[1])[0] == "int" {
				return asInt(list(list(p)[1])[1])
			}
		}
	}
	return 0
}
