package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/randomizer"
)

func (e *Ep) randCfg(plain bool) (*randomizer.Config, M) {
	w := func(p int) float64 {
		if e.pct(p) {
			return 0
		}
		return []float64{0.1, 0.5, 1, 3, 30}[e.Intn(5)]
	}
	c := randomizer.DefaultConfig()
	c.Seed = e.Int63()
	c.NumVars = 3 + e.Intn(7)
	c.WeightConstant = w(50)
	c.WeightPosLit, c.WeightNegLit = w(25), w(25)
	if c.WeightPosLit+c.WeightNegLit == 0 {
		c.WeightPosLit = 1
	}
	c.WeightOr, c.WeightAnd = w(25), w(25)
	if c.WeightOr+c.WeightAnd == 0 {
		c.WeightOr = 1
	}
	c.WeightNot, c.WeightImpl, c.WeightEquiv = w(50), w(50), w(50)
	c.MaximumOpsAnd, c.MaximumOpsOr = 2+e.Intn(4), 2+e.Intn(4)
	c.WeightPBC, c.WeightCC, c.WeightAMO, c.WeightEXO = w(60), w(60), w(60), w(60)
	c.WeightPBCCoeffPos, c.WeightPBCCoeffNeg = w(30), w(30)
	if c.WeightPBCCoeffPos+c.WeightPBCCoeffNeg == 0 {
		c.WeightPBCCoeffPos = 1
	}
	c.WeightPBCLE, c.WeightPBCLT, c.WeightPBCGE, c.WeightPBCGT, c.WeightPBCEQ = w(40), w(40), w(40), w(40), w(40)
	if c.WeightPBCLE+c.WeightPBCLT+c.WeightPBCGE+c.WeightPBCGT+c.WeightPBCEQ == 0 {
		c.WeightPBCLE = 1
	}
	c.MaximumOpsPBC, c.MaximumCoeffPBC, c.MaximumOpsCC = 2+e.Intn(5), 1+e.Intn(8), 2+e.Intn(5)
	if e.pct(20) {
		c.NumVars = 3 + e.Intn(40)
		c.MaximumOpsPBC, c.MaximumCoeffPBC, c.MaximumOpsCC = 2+e.Intn(20), 1+e.Intn(300), 2+e.Intn(20)
	}
	if plain { // only the seed is given
		seed := c.Seed
		c = randomizer.DefaultConfig()
		c.Seed = seed
	}
	cmps := []int{}
	for i, x := range []float64{c.WeightPBCEQ, c.WeightPBCLE, c.WeightPBCLT, c.WeightPBCGE, c.WeightPBCGT} {
		if x > 0 {
			cmps = append(cmps, i)
		}
	}
	return c, M{"nv": c.NumVars, "constant": c.WeightConstant > 0, "pos": c.WeightPosLit > 0, "neg": c.WeightNegLit > 0,
		"or": c.WeightOr > 0, "and": c.WeightAnd > 0, "not": c.WeightNot > 0, "impl": c.WeightImpl > 0, "equiv": c.WeightEquiv > 0,
		"pbc": c.WeightPBC > 0, "cc": c.WeightCC > 0, "amo": c.WeightAMO > 0, "exo": c.WeightEXO > 0, "cmps": cmps,
		"coefpos": c.WeightPBCCoeffPos > 0, "coefneg": c.WeightPBCCoeffNeg > 0, "maxand": c.MaximumOpsAnd, "maxor": c.MaximumOpsOr,
		"maxpbc": c.MaximumOpsPBC, "maxcc": c.MaximumOpsCC, "maxcoeff": c.MaximumCoeffPBC}
}

func init() {
	drivers["randomizer"] = func(e *Ep) {
		plain := e.pct(12)
		c, m := e.randCfg(plain)
		own := e.pct(30) && !plain
		conserve := e.pct(30)
		side := func() (*Ep, *randomizer.FormulaRandomizer) {
			cfg := *c
			o := &Ep{Rand: e.Rand, fac: f.NewFactory(conserve), n: c.NumVars, names: map[f.Variable]int{}, aux: map[f.Variable]int{}}
			if own {
				cfg.Variables = []f.Variable{}
				for i := 0; i < c.NumVars; i++ {
					v := o.fac.Var(fmt.Sprintf("w%d", i))
					cfg.Variables = append(cfg.Variables, v)
					o.names[v] = i + 1
				}
			} else {
				// the variables are named by the randomizer, in a fixed order
				for i := 0; i < c.NumVars; i++ {
					o.names[o.fac.Var(fmt.Sprintf("v%0*d", len(fmt.Sprint(c.NumVars-1)), i))] = i + 1
				}
			}
			if plain && e.pct(60) {
				return o, randomizer.NewWithSeed(o.fac, c.Seed)
			}
			if e.pct(50) {
				_ = o.fac.PutConfiguration(&cfg)
				return o, randomizer.New(o.fac)
			}
			return o, randomizer.New(o.fac, &cfg)
		}
		a, ra := side()
		b, rb := side()
		e.n = c.NumVars
		e.begin(M{"cfg": m})
		kinds := []string{"constant", "variable", "literal", "atom", "not", "and", "or", "impl", "equiv", "cc", "amo", "exo", "pbc", "formula", "formula", "formula"}
		draw := func(r *randomizer.FormulaRandomizer, kind string, d int) f.Formula {
			switch kind {
			case "constant":
				return r.Constant()
			case "variable":
				return r.Variable().AsFormula()
			case "literal":
				return r.Literal().AsFormula()
			case "atom":
				return r.Atom()
			case "not":
				return r.Not(d)
			case "and":
				return r.And(d)
			case "or":
				return r.Or(d)
			case "impl":
				return r.Impl(d)
			case "equiv":
				return r.Equiv(d)
			case "cc":
				return r.CC()
			case "amo":
				return r.AMO()
			case "exo":
				return r.EXO()
			case "pbc":
				return r.PBC()
			}
			return r.Formula(d)
		}
		for i := 0; i < 16; i++ {
			if !e.try("draw", func() {
				d := e.Intn(4)
				if e.pct(10) {
					k := e.Intn(4)
					xs, ys := A{}, A{}
					for _, x := range ra.ConstraintSet(k, d) {
						xs = append(xs, a.dump(x))
					}
					for _, x := range rb.ConstraintSet(k, d) {
						ys = append(ys, b.dump(x))
					}
					e.ev("set", M{"fs": xs, "again": ys, "d": d, "k": k})
					return
				}
				kind := kinds[e.Intn(len(kinds))]
				e.ev("draw", M{"kind": kind, "d": d, "f": a.dump(draw(ra, kind, d)), "again": b.dump(draw(rb, kind, d))})
			}) {
				return
			}
		}
	}
}
