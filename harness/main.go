// Command harness drives the real logicng-go API and records what happened as
// ndjson traces, which TLC then checks against the TLA+ specifications.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	f "github.com/booleworks/logicng-go/formula"
)

// driver runs one episode.
type driver func(e *Ep)

var drivers = map[string]driver{}

// Ep is one episode: a fresh factory, its variables and the trace writer.
type Ep struct {
	states A // what handlers and computations said since the last event
	*rand.Rand
	id     int64
	tier   string
	fac    f.Factory
	n      int
	vars   []f.Variable
	names  map[f.Variable]int
	aux    map[f.Variable]int
	out    []byte
	nev    int
	spec   any // a behaviour generated by TLC, if any
	big    bool
	called []string // names of the variables, if not the usual ones
	dups   bool     // constraints may contain a literal more than once
}

func (e *Ep) fresh(n int, conserve ...bool) {
	e.fac = f.NewFactory(conserve...)
	e.bind(n)
}

func (e *Ep) bind(n int) {
	e.n = n
	e.vars = make([]f.Variable, n)
	e.names = map[f.Variable]int{}
	e.aux = map[f.Variable]int{}
	for i := 0; i < n; i++ {
		e.vars[i] = e.fac.Var(vname(i + 1))
		e.names[e.vars[i]] = i + 1
	}
}

func vname(i int) string { return fmt.Sprintf("v%02d", i) }

func (e *Ep) vname(i int) string {
	if e.called != nil {
		return e.called[i-1]
	}
	return vname(i)
}

type M = map[string]any
type A = []any

func (e *Ep) ev(op string, m M) {
	if m == nil {
		m = M{}
	}
	m["op"] = op
	if len(e.states) > 0 {
		m["states"] = e.states
		e.states = nil
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	e.out = append(e.out, b...)
	e.out = append(e.out, '\n')
	e.nev++
}

func (e *Ep) begin(m M) {
	if m == nil {
		m = M{}
	}
	if _, ok := m["n"]; !ok {
		m["n"] = e.n
	}
	m["ep"] = e.id
	e.ev("begin", m)
}

// try runs fn and reports a panic of the code under test as an event no
// specification has an action for.
func (e *Ep) try(what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
			e.ev("panic", M{"in": what, "msg": fmt.Sprint(r), "at": where()})
			ok = false
		}
	}()
	fn()
	return true
}

// where names the functions of the library on the stack of a panic
func where() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var r []string
	for _, l := range lines {
		if i := strings.Index(l, "logicng-go/"); i >= 0 && !strings.HasPrefix(l, "\t") {
			l = l[i+len("logicng-go/"):]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			if r = append(r, l); len(r) == 6 {
				break
			}
		}
	}
	return strings.Join(r, " < ")
}

func seedFor(seed, ep int64, name string) int64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(fmt.Sprintf("%d/%d/%s", seed, ep, name)) {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return int64(h >> 1)
}

func main() {
	name := flag.String("driver", "", "driver")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int64("from", 0, "first episode")
	to := flag.Int64("to", 10, "last episode (exclusive)")
	step := flag.Int64("step", 1, "episode step")
	out := flag.String("out", "", "trace file")
	specs := flag.String("specs", "", "ndjson of spec generated behaviours")
	tier := flag.String("tier", "quick", "tier")
	epTimeout := flag.Int("eptimeout", 120, "seconds per episode")
	flag.Parse()
	d, ok := drivers[*name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown driver", *name)
		os.Exit(3)
	}
	var behaviours []any
	if *specs != "" {
		fh, err := os.Open(*specs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var v any
			if err := json.Unmarshal(sc.Bytes(), &v); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			behaviours = append(behaviours, v)
		}
		fh.Close()
	}
	fh, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriterSize(fh, 1<<20)
	cur, _ := os.Create(*out + ".cur")
	for i := *from; i < *to; i += *step {
		cur.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		e := &Ep{Rand: rand.New(rand.NewSource(seedFor(*seed, i, *name))), id: i, tier: *tier}
		if behaviours != nil {
			e.spec = behaviours[int(i)%len(behaviours)]
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			e.try("driver", func() { d(e) })
		}()
		select {
		case <-done:
		case <-time.After(time.Duration(*epTimeout) * time.Second):
			if os.Getenv("VERIF_STACK") != "" {
				w.Write(e.out)
				pprof.Lookup("goroutine").WriteTo(os.Stderr, 2)
			}
			w.Flush()
			fh.Close()
			fmt.Fprintf(os.Stderr, "TIMEOUT episode %d\n", i)
			os.Exit(4)
		}
		w.Write(e.out)
	}
	w.Flush()
	fh.Close()
	cur.Close()
	os.Remove(*out + ".cur")
}
