package main

import (
	"fmt"
)

// MaxSAT problems over many variables in independent blocks (LargeMaxSat.tla).
func maxsatLarge(cancel int) driver {
	return func(e *Ep) {
		tables, w := e.Intn(5)+2, e.Intn(3)+3
		syms, m := 0, 0
		if e.pct(50) {
			syms, m = e.Intn(2)+1, e.Intn(6)+5
		}
		if e.pct(10) {
			tables, syms, m = e.Intn(2), 1, e.Intn(12)+8
		}
		alg := e.Intn(numAlgs)
		if alg == 4 || alg == 5 { // many cores of equal weight are hard for these
			m = min(m, 7)
			syms = min(syms, 1)
		}
		bs := e.rblocks(tables, w, syms, m)
		e.fresh(tables*w+syms*m, e.pct(10))
		if e.pct(30) {
			_ = e.fac.PutConfiguration(e.encConfig())
		}
		x := &maxsatEp{Ep: e, alg: alg, cancel: cancel, weighty: e.pct(75), bmo: e.pct(30)}
		cfg := e.maxsatConfig(x.alg)
		if e.pct(30) {
			cfg = nil
		}
		x.s = newMaxSat(e.fac, x.alg, cfg)
		e.begin(M{"alg": x.alg, "cfg": fmt.Sprintf("%+v", cfg), "blocks": e.blockEvent(bs)})
		local := func(b block) AST {
			return e.inBlock(b, func() AST {
				switch e.Intn(6) {
				case 0:
					return e.rform(Opts{n: e.n, depth: e.Intn(3), ops: 3, consts: e.pct(5), cc: e.pct(40), pbc: e.pct(30), impl: true})
				case 1:
					return e.rcc(e.n)
				case 2:
					return e.rlit(e.n)
				}
				return e.rclauses(e.n, 1, 3)[0]
			})
		}
		counts := func(b block) AST {
			k := len(b.vars)
			r := []int{0, 1, 2, k - 1, k - 2, k, e.Intn(k + 1)}[e.Intn(7)]
			if k > 8 && r > 2 && r < k-2 {
				r = e.Intn(3)
			}
			vs := []int{}
			for _, i := range e.Perm(k) {
				vs = append(vs, b.vars[i])
			}
			return AST{tPbc, []int{1, 3, 1, 3, 0, 2, 4}[e.Intn(7)], r, vs, ones(k)}
		}
		hard := func() {
			b := bs[e.Intn(len(bs))]
			if b.sym {
				if e.pct(40) {
					x.hard(e.build(counts(b)))
				}
				return
			}
			x.hard(e.build(local(b)))
		}
		soft := func(b block, v, w int) {
			if b.sym || v >= 0 {
				if v < 0 {
					v = e.Intn(len(b.vars))
				}
				x.soft(e.build(AST{tPos + e.Intn(2), b.vars[v]}), w)
				return
			}
			x.soft(e.build(local(b)), w)
		}
		for i := e.Intn(2*len(bs)) + 1; i > 0; i-- {
			e.try("hard", hard)
		}
		// a weight for each variable of some blocks
		for _, b := range bs {
			if e.pct(50) {
				t, w, one := tPos+e.Intn(2), x.weight(), e.pct(50)
				for _, v := range b.vars {
					if !one {
						w = x.weight()
					}
					e.try("soft", func() { x.soft(e.build(AST{t, v}), w) })
				}
			}
		}
		for i := e.Intn(14) + 4; i > 0; i-- {
			ok := e.try("maxsat", func() {
				switch y := e.Intn(20); {
				case y < 3:
					hard()
				case y < 13:
					soft(bs[e.Intn(len(bs))], -1, x.weight())
				case y < 16:
					if x.solvable() {
						k := 0
						if e.pct(x.cancel) {
							k = e.Intn(60) + 1
						}
						x.solve(k)
					}
				case y < 18 || len(x.saved) == 0:
					x.save()
				default:
					x.load(e.Intn(len(x.saved)))
				}
			})
			if !ok {
				return
			}
		}
		if x.solvable() {
			e.try("maxsat", func() { x.solve(0); x.solve(0) })
		}
	}
}

func init() {
	drivers["maxsat_large"] = maxsatLarge(0)
	drivers["maxsat_large_cancel"] = maxsatLarge(60)
}
