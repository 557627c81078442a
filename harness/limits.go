package main

import (
	"time"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/normalform"
)

// counter counts the events that handlers with limits react to
type counter struct{ dist, clauses, refs, all int }

func (c *counter) ShouldResume(ev event.Event) bool {
	c.all++
	switch ev {
	case event.DistributionPerformed:
		c.dist++
	case event.FactorizationCreatedClause:
		c.clauses++
	case event.BddNewRefAdded:
		c.refs++
	}
	return c.all < 4000
}

// limits: a handler with limits cancels exactly the computations that exceed
// them, also if it is used for several computations
func (e *formulaEp) limits() {
	type outcome struct {
		ok bool
		g  AST
		c  *counter
	}
	kind := []string{"cnf", "dnf", "bdd"}[e.Intn(3)]
	run := func(a AST, hdl handler.Handler) outcome {
		fac := f.NewFactory(e.conserve)
		names := map[f.Variable]int{}
		for i := 1; i <= e.n; i++ {
			names[fac.Var(e.vname(i))] = i
		}
		x := e.buildF(fac, a)
		old := e.names
		e.names = names
		defer func() { e.names = old }()
		switch kind {
		case "bdd":
			b, st := bdd.CompileWithHandler(fac, x, hdl)
			if !st.Success {
				return outcome{}
			}
			return outcome{ok: true, g: e.dumpF(fac, b.DNF())}
		case "cnf":
			g, st := normalform.FactorizedCNFWithHandler(fac, x, hdl)
			if !st.Success {
				return outcome{}
			}
			return outcome{ok: true, g: e.dumpF(fac, g)}
		}
		g, st := normalform.FactorizedDNFWithHandler(fac, x, hdl)
		if !st.Success {
			return outcome{}
		}
		return outcome{ok: true, g: e.dumpF(fac, g)}
	}
	o := e.o
	o.cc, o.pbc = false, false
	as := []AST{}
	cs := []*counter{}
	top := counter{}
	for i := e.Intn(3) + 1; i > 0; i-- {
		a := e.rform(o)
		c := &counter{}
		if r := run(a, c); !r.ok {
			continue
		}
		as, cs = append(as, a), append(cs, c)
		top.dist, top.clauses, top.refs = max(top.dist, c.dist), max(top.clauses, c.clauses), max(top.refs, c.refs)
	}
	limit := func(m int) int {
		if e.pct(20) && kind != "bdd" {
			return -1
		}
		if e.pct(50) {
			return max(0, m-2+e.Intn(4))
		}
		return e.Intn(m + 2)
	}
	d, c, r := limit(top.dist), limit(top.clauses), limit(top.refs)
	var h handler.Handler = normalform.NewFactorizationHandler(d, c)
	if kind == "bdd" {
		h = bdd.HandlerWithNodes(r)
	}
	end := "none"
	if e.pct(15) {
		end = "past"
		h = handler.NewTimeoutWithEnd(time.Now().Add(-time.Millisecond))
		if e.pct(50) {
			h = handler.NewTimeoutWithDuration(-time.Millisecond)
		}
	} else if e.pct(15) {
		end = "future"
		h = handler.NewTimeoutWithEnd(time.Now().Add(time.Hour))
		if e.pct(50) {
			h = handler.NewTimeoutWithDuration(time.Hour)
		}
	}
	for i, a := range as {
		x := run(a, h)
		m := M{"kind": kind, "f": a, "g": x.g, "ok": x.ok, "ld": d, "lc": c, "lr": r, "dist": cs[i].dist, "clauses": cs[i].clauses, "refs": cs[i].refs, "end": end, "all": cs[i].all}
		if x.g == nil {
			m["g"] = AST{tFalse}
		}
		e.emit("limits", m)
	}
}
