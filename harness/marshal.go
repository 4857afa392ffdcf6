package main

// The scope is saved and restored between the statements of the program.

import (
	"context"
	"encoding/json"
	"math/rand"

	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/marshal"
	"www.velocidex.com/golang/vfilter/types"
)

// What a process which starts later has: the functions and plugins.
func restored(scope types.Scope, rec *Recorder, tables map[string][]V) (types.Scope, []byte, error) {
	item, err := marshal.Marshal(scope, scope)
	if err != nil {
		return nil, nil, err
	}
	text, err := json.Marshal(item)
	if err != nil {
		return nil, nil, err
	}
	fresh := newEnvScope(&Case{}, rec, tables, nil)
	read := &types.MarshalItem{}
	if err := json.Unmarshal(text, &read); err != nil {
		return nil, text, err
	}
	u := vfilter.NewUnmarshaller(nil)
	res, err := u.Unmarshal(u, fresh, read)
	if err != nil {
		return nil, text, err
	}
	return res.(types.Scope), text, nil
}

func runMarshal(ctx context.Context, scope types.Scope, vqls []*vfilter.VQL, c *Case,
	tables map[string][]V, rec *Recorder, o *Obs) {
	r := rand.New(rand.NewSource(int64(c.ID)))
	every := r.Intn(2) == 0
	first := true
	for _, vql := range vqls {
		// At least once, before the first query.
		if vql.Type() == "SELECT" && first || every {
			first = first && vql.Type() != "SELECT"
			before := len(rec.events)
			next, text, err := restored(scope, rec, tables)
			if err != nil {
				o.Err = "restore: " + err.Error() + "\n" + string(text)
				return
			}
			if len(rec.events) != before {
				rec.add("!evaluated", vNull())
			}
			scope = next
		}
		rows := []any{}
		for row := range vql.Eval(ctx, scope) {
			rows = append(rows, normRow(ctx, scope, row))
		}
		if vql.Type() == "SELECT" || vql.Type() == "EXPLAIN" {
			o.Outs = append(o.Outs, rows)
		}
	}
}
