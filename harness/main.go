package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// The worker reads cases from stdin, writes observations to stdout.
func worker() {
	var tables map[string][]V
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	enc := json.NewEncoder(os.Stdout)
	os.Stdout = os.Stderr
	for {
		c := &Case{}
		err := dec.Decode(c)
		if err == io.EOF {
			return
		}
		die(err)
		if c.Tables != nil {
			tables = c.Tables
			continue
		}
		die(enc.Encode(runCase(c, tables)))
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan []byte
	enc *json.Encoder
	err *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 8000 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func startWorker(tables map[string][]V) *proc {
	cmd := exec.Command(os.Args[0], "worker")
	in, err := cmd.StdinPipe()
	die(err)
	out, err := cmd.StdoutPipe()
	die(err)
	p := &proc{cmd: cmd, in: in, out: make(chan []byte), enc: json.NewEncoder(in), err: &tailBuf{}}
	cmd.Stderr = p.err
	die(cmd.Start())
	go func() {
		defer close(p.out)
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			line, err := r.ReadBytes('\n')
			if err != nil {
				return
			}
			p.out <- line
		}
	}()
	if tables != nil {
		p.enc.Encode(&Case{Tables: tables})
	}
	return p
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
	for range p.out {
	}
	p.cmd.Wait()
}

// Runs one case; ok is false when the worker must be replaced.
func (p *proc) run(c *Case, timeout time.Duration) (*Obs, bool) {
	slim := *c
	slim.Stmts = nil
	if err := p.enc.Encode(&slim); err != nil {
		return &Obs{ID: c.ID, Outs: []any{}, Log: []any{}, Err: "crash: " + string(p.err.b)}, false
	}
	select {
	case line, ok := <-p.out:
		if !ok {
			p.cmd.Wait()
			return &Obs{ID: c.ID, Outs: []any{}, Log: []any{}, Err: "crash: " + string(p.err.b)}, false
		}
		o := &Obs{}
		if err := json.Unmarshal(line, o); err != nil {
			return &Obs{ID: c.ID, Outs: []any{}, Log: []any{}, Err: "crash: garbage " + string(line)}, false
		}
		return o, true
	case <-time.After(timeout):
		p.kill()
		return &Obs{ID: c.ID, Outs: []any{}, Log: []any{}, Err: "hang"}, false
	}
}

// Runs the cases on n worker processes.
func runAll(cases []*Case, tables map[string][]V, n int, timeout time.Duration) []*Obs {
	out := make([]*Obs, len(cases))
	next := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := startWorker(tables)
			for i := range next {
				o, ok := p.run(cases[i], timeout)
				if !ok {
					p.kill()
					p = startWorker(tables)
					if o.Err == "hang" {
						// On its own, with more time.
						o, ok = p.run(cases[i], 4*timeout)
						if !ok {
							p.kill()
							p = startWorker(tables)
						}
					}
				}
				out[i] = o
			}
			p.kill()
		}()
	}
	for i := range cases {
		next <- i
	}
	close(next)
	wg.Wait()
	return out
}

func genCases(profile string, seed int64, n int, mode string) ([]*Case, map[string][]V) {
	if kind, ok := isBig(profile); ok {
		return genBig(kind, seed, n)
	}
	if profile == "endless" {
		return genEndless(seed, n, mode)
	}
	if profile == "recursion" {
		return genRecursion(seed, n)
	}
	mk, ok := profiles[profile]
	if !ok {
		die(fmt.Errorf("no profile %s", profile))
	}
	tables := GenTables(rand.New(rand.NewSource(seed*7919 + 17)))
	cases := []*Case{}
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)*101 + int64(len(profile))*7))
		g := &Gen{r: r, k: mk(), lines: strings.HasSuffix(mode, "format")}
		if mode == "explain" {
			g.k.explain = 60
		}
		g.vars = append(g.vars, envVars...)
		env := GenEnv(r)
		stmts := g.Program()
		rd := &Renderer{r: r, noise: g.k.noise > 0 && g.p(g.k.noise), comments: mode == "reformat"}
		c := &Case{ID: i + 1, Src: rd.Program(stmts), Env: env, Stmts: stmts, Mode: mode}
		if mode == "cancel" {
			c.At = []any{[]string{"row", "event", "event", "none"}[i%4], r.Intn(1 + r.Intn(12))}
		}
		cases = append(cases, c)
	}
	return cases, tables
}

const maxEvents = 400

type Record struct {
	*Case
	Pull []int  `json:"pull"`
	Outs []any  `json:"outs"`
	Log  []any  `json:"log"`
	Err  string `json:"err"`
	Leak int    `json:"leak"`
}

func writeRecords(path string, cases []*Case, obs []*Obs, tables map[string][]V) {
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	add := func(c *Case, o *Obs) { cases, obs = append(cases, c), append(obs, o) }
	for i, c := range cases {
		for _, o := range obs[i].More {
			other := *c
			other.ID = len(cases) + 1
			add(&other, o)
		}
	}
	for i, c := range cases {
		// Too big for the model checker.
		size := len(obs[i].Log)
		for _, o := range obs[i].Outs {
			size += len(o.([]any))
		}
		if size > maxEvents && tables["t4"] == nil && c.Mode != "recursion" {
			obs[i] = &Obs{Outs: []any{}, Log: []any{}, Err: "big"}
		}
		pull := obs[i].Pull
		if pull == nil {
			pull = []int{}
		}
		die(enc.Encode(&Record{Case: c, Pull: pull, Outs: obs[i].Outs, Log: obs[i].Log, Err: obs[i].Err, Leak: obs[i].Leak}))
	}
	die(w.Flush())
	die(f.Close())
	f, err = os.Create(path + ".tables")
	die(err)
	die(json.NewEncoder(f).Encode(tables))
	die(f.Close())
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	var next atomic.Int64
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func readCases(path string) ([]*Case, map[string][]V) {
	b, err := os.ReadFile(path + ".tables")
	die(err)
	tables := map[string][]V{}
	die(json.Unmarshal(b, &tables))
	f, err := os.Open(path)
	die(err)
	defer f.Close()
	cases := []*Case{}
	dec := json.NewDecoder(f)
	for {
		c := &Case{}
		err := dec.Decode(c)
		if err == io.EOF {
			return cases, tables
		}
		die(err)
		cases = append(cases, c)
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		worker()
		return
	}
	if len(os.Args) < 2 {
		die(fmt.Errorf("usage: vqlh command"))
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	profile := fs.String("profile", "all", "")
	mode := fs.String("mode", "plain", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 200, "")
	out := fs.String("out", "", "")
	workers := fs.Int("workers", 8, "")
	thorough := fs.Bool("thorough", false, "")
	caseFile := fs.String("cases", "", "run these records again")
	slow := fs.Int("slow", 0, "")
	only := fs.Int("only", 0, "run only this one of the generated cases")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "drive":
		var cases []*Case
		var tables map[string][]V
		if *caseFile != "" {
			cases, tables = readCases(*caseFile)
		} else {
			cases, tables = genCases(*profile, *seed, *n, *mode)
		}
		obs := runAll(cases, tables, *workers, 10*time.Second)
		writeRecords(*out, cases, obs, tables)
	case "tokens":
		tokens(*out, *seed, *n, *thorough)
	case "pool":
		pool(*out, *seed, *n, *only)
	case "batches":
		batches(*out, *seed, *n, *slow, *only)
	case "scopes":
		scopeHistories(*out, *seed, *n)
	case "closings":
		closings(*out, *seed, *n)
	case "sorts":
		sorts(*out, *seed, *n)
	case "saves":
		saveTable(*out, *seed, *n)
	case "lex":
		lexTable(*out, *seed, *n, *profile)
	case "args":
		argTable(*out, *seed, *n)
	case "optable":
		optable(*out, *seed, *thorough)
	default:
		die(fmt.Errorf("unknown command %s", os.Args[1]))
	}
}
