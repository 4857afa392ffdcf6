package main

import (
	"context"
	"log"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/explain"
	"www.velocidex.com/golang/vfilter/types"
)

// An explainer which records what it is told of the rows, and what the
// logging explainer makes of it.
type observer struct {
	mu    sync.Mutex
	rec   *Recorder
	scope types.Scope
	ctx   context.Context
	log   *explain.LoggingExplainer
}

type lineCounter struct {
	mu sync.Mutex
	n  map[string]int
}

var explainLines = []string{"DEBUG: plugin ", "DEBUG: SELECT: emitting row", "DEBUG: REJECTED by "}

func (l *lineCounter) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, p := range explainLines {
		if strings.HasPrefix(string(b), p) {
			l.n[p]++
		}
	}
	return len(b), nil
}

func (l *lineCounter) get(p string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.n[p]
}

type observed struct {
	*observer
	lines *lineCounter
}

func observe(ctx context.Context, scope types.Scope, rec *Recorder) {
	lines := &lineCounter{n: map[string]int{}}
	scope.SetLogger(log.New(lines, "", 0))
	scope.SetExplainer(&observed{&observer{rec: rec, scope: scope, ctx: ctx, log: explain.NewLoggingExplainer(scope)}, lines})
}

// The event has another name when it is not logged once.
func (o *observed) told(what, line string, v V, f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	n := o.lines.get(line)
	f()
	if o.lines.get(line) != n+1 {
		what += " not logged"
	}
	o.rec.add(what, v)
}

func (o *observed) StartQuery(node any) { o.log.StartQuery(node) }
func (o *observed) PluginOutput(node any, row types.Row) {
	v := V{"dict", []any{}}
	if _, ok := row.(types.Scope); !ok {
		v = normRow(o.ctx, o.scope, row)
	}
	o.told("#src", explainLines[0], v, func() { o.log.PluginOutput(node, row) })
}
func (o *observed) SelectOutput(row types.Row) {
	o.told("#out", explainLines[1], normRow(o.ctx, o.scope, row), func() { o.log.SelectOutput(row) })
}
func (o *observed) RejectRow(node any) {
	o.told("#rej", explainLines[2], vNull(), func() { o.log.RejectRow(node) })
}
func (o *observed) ParseArgs(args *ordereddict.Dict, result any, err error) {
	o.log.ParseArgs(args, result, err)
}
func (o *observed) Log(message string) { o.log.Log(message) }
