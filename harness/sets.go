package main

import (
	"slices"

	f "github.com/booleworks/logicng-go/formula"
)

// sets of variables, literals or formulas; elements are numbered by ascending id

type immSet[T, S any] interface {
	Empty() bool
	Size() int
	Contains(T) bool
	ContainsAll(S) bool
	Content() []T
}

type mutSet[T, S any] interface {
	immSet[T, S]
	Add(T)
	AddAll(S)
	AddAllElements(*[]T)
	Remove(T)
	RemoveAll(S)
	RemoveAllElements(*[]T)
	AsImmutable() S
}

type setObj[T comparable, S immSet[T, S], W mutSet[T, S]] struct {
	imm   S
	mut   W
	isMut bool
	of    int // the mutable set it is a view of, or -1
	stale bool
}

func (o *setObj[T, S, W]) any() immSet[T, S] {
	if o.isMut {
		return o.mut
	}
	return o.imm
}

func (o *setObj[T, S, W]) value() S {
	if o.isMut {
		return o.mut.AsImmutable()
	}
	return o.imm
}

func runSets[T comparable, S immSet[T, S], W mutSet[T, S]](e *Ep, u []T, newImm func(...T) S, newMut func(...T) W, copyImm func(...S) S, copyMut func(...S) W) {
	e.n = len(u)
	e.begin(nil)
	num := map[T]int{}
	for i, x := range u {
		num[x] = i + 1
	}
	var objs []*setObj[T, S, W]
	type kept struct{ got, was []T }
	var held []kept
	many := 6
	if e.pct(30) {
		many = 40
	}
	some := func() ([]T, []int) {
		ts, is := []T{}, []int{}
		for i := e.Intn(many); i > 0; i-- {
			k := e.Intn(len(u))
			ts, is = append(ts, u[k]), append(is, k+1)
		}
		return ts, is
	}
	usable := func(mut bool) int {
		c := []int{}
		for i, o := range objs {
			if (o.isMut || !mut) && !o.stale {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		return c[e.Intn(len(c))]
	}
	changed := func(i int) {
		for _, o := range objs {
			if o.of == i {
				o.stale = true
			}
		}
	}
	nums := func(ts []T) []int {
		r := []int{}
		for _, x := range ts {
			r = append(r, num[x])
		}
		return r
	}
	make1 := func() {
		ts, is := some()
		in := slices.Clone(ts)
		o := &setObj[T, S, W]{isMut: e.pct(60), of: -1}
		if o.isMut {
			o.mut = newMut(ts...)
		} else {
			o.imm = newImm(ts...)
		}
		objs = append(objs, o)
		e.ev("make", M{"mut": o.isMut, "xs": is})
		if !slices.Equal(in, ts) {
			e.ev("panic", M{"msg": "elements of the caller were changed"})
		}
	}
	for s := e.Intn(40) + 5; s > 0; s-- {
		if len(objs) == 0 || e.pct(10) {
			make1()
			continue
		}
		i, j, w := usable(false), usable(false), usable(true)
		ts, is := some()
		in := slices.Clone(ts)
		switch e.Intn(13) {
		case 0:
			if copyImm == nil {
				continue
			}
			var from []S
			id := []int{}
			for c := e.Intn(4); c > 0; c-- {
				k := usable(false)
				from, id = append(from, objs[k].value()), append(id, k+1)
			}
			o := &setObj[T, S, W]{isMut: e.pct(50), of: -1}
			if o.isMut {
				o.mut = copyMut(from...)
			} else {
				o.imm = copyImm(from...)
			}
			objs = append(objs, o)
			e.ev("copy", M{"mut": o.isMut, "is": id})
		case 1:
			if w >= 0 {
				objs = append(objs, &setObj[T, S, W]{imm: objs[w].mut.AsImmutable(), of: w})
				e.ev("view", M{"i": w + 1})
			}
		case 2:
			if w >= 0 {
				changed(w)
				k := e.Intn(len(u))
				objs[w].mut.Add(u[k])
				e.ev("add", M{"i": w + 1, "xs": []int{k + 1}})
			}
		case 3:
			if w >= 0 {
				changed(w)
				objs[w].mut.AddAllElements(&ts)
				e.ev("add", M{"i": w + 1, "xs": is})
			}
		case 4:
			if w >= 0 {
				objs[w].mut.AddAll(objs[j].value())
				changed(w)
				e.ev("addall", M{"i": w + 1, "j": j + 1})
			}
		case 5:
			if w >= 0 {
				changed(w)
				k := e.Intn(len(u))
				objs[w].mut.Remove(u[k])
				e.ev("remove", M{"i": w + 1, "xs": []int{k + 1}})
			}
		case 6:
			if w >= 0 {
				changed(w)
				objs[w].mut.RemoveAllElements(&ts)
				e.ev("remove", M{"i": w + 1, "xs": is})
			}
		case 7:
			if w >= 0 {
				objs[w].mut.RemoveAll(objs[j].value())
				changed(w)
				e.ev("removeall", M{"i": w + 1, "j": j + 1})
			}
		case 8:
			e.ev("size", M{"i": i + 1, "m": objs[i].any().Size(), "empty": objs[i].any().Empty()})
		case 9:
			k := e.Intn(len(u))
			e.ev("contains", M{"i": i + 1, "x": k + 1, "b": objs[i].any().Contains(u[k])})
		case 10:
			e.ev("containsall", M{"i": i + 1, "j": j + 1, "b": objs[i].any().ContainsAll(objs[j].value())})
		default:
			c := objs[i].any().Content()
			held = append(held, kept{c, slices.Clone(c)})
			e.ev("content", M{"i": i + 1, "xs": nums(c)})
		}
		if !slices.Equal(in, ts) {
			e.ev("panic", M{"msg": "elements of the caller were changed"})
		}
	}
	// nothing that was handed out has changed, and nothing was forgotten
	for _, h := range held {
		if !slices.Equal(h.got, h.was) {
			e.ev("panic", M{"msg": "content handed out earlier has changed"})
		}
	}
	for i, o := range objs {
		if !o.stale {
			e.ev("content", M{"i": i + 1, "xs": nums(o.any().Content())})
		}
	}
}

func setsDriver(e *Ep) {
	n := e.Intn(9) + 1
	if e.pct(20) {
		n = e.Intn(50) + 10
	}
	e.fresh(n, false)
	e.try("sets", func() {
		switch e.Intn(3) {
		case 0:
			vs := slices.Clone(e.vars)
			slices.Sort(vs)
			runSets(e, vs, f.NewVarSet, f.NewMutableVarSet, f.NewVarSetCopy, f.NewMutableVarSetCopy)
		case 1:
			ls := []f.Literal{}
			for _, v := range e.vars {
				ls = append(ls, v.AsLiteral(), v.Negate(e.fac))
			}
			slices.Sort(ls)
			runSets[f.Literal, *f.LitSet, *f.MutableLitSet](e, ls, f.NewLitSet, f.NewMutableLitSet, nil, nil)
		case 2:
			fs := []f.Formula{}
			for i := e.Intn(12) + 1 + n/2; i > 0; i-- {
				fs = append(fs, e.build(e.rform(Opts{n: e.n, depth: e.Intn(3), ops: 3, consts: true, cc: true, pbc: true, impl: true})))
			}
			slices.Sort(fs)
			runSets[f.Formula, *f.FormulaSet, *f.MutableFormulaSet](e, slices.Compact(fs), f.NewFormulaSet, f.NewMutableFormulaSet, nil, nil)
		}
	})
}

func init() { drivers["sets"] = setsDriver }
