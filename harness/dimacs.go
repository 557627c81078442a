package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/normalform"
)

type dimacsEp struct {
	*formulaEp
	prefix string
}

func newDimacsEp(e *Ep, n int) *dimacsEp {
	e.n = n
	e.fac = f.NewFactory(e.pct(25))
	x := &dimacsEp{&formulaEp{Ep: e, known: map[f.Formula]bool{}, max: 30}, []string{"v", "x", "", "A_"}[e.Intn(4)]}
	e.called = []string{}
	e.names, e.aux = map[f.Variable]int{}, map[f.Variable]int{}
	for i := 1; i <= n; i++ {
		w := fmt.Sprintf("%s%d", x.prefix, i)
		e.called = append(e.called, w)
		v := e.fac.Var(w)
		e.vars = append(e.vars, v)
		e.names[v] = i
	}
	x.o = Opts{n: n, depth: 2, ops: 4, consts: e.pct(30), cc: true, impl: true}
	e.begin(nil)
	return x
}

func (e *dimacsEp) temp(use func(dir string)) {
	dir, err := os.MkdirTemp("", "lng")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	use(dir)
}

// pad makes one run of blanks in a line much longer (and a long comment);
// what the line means does not depend on the length of a run.
func (e *dimacsEp) pad(lines []string) string {
	ls := slices.Clone(lines)
	if e.pct(8) && len(ls) > 0 {
		i := e.Intn(len(ls))
		ls[i] = strings.Replace(ls[i], " ", strings.Repeat(" ", 70000), 1)
	}
	return strings.Join(ls, "\n") + "\n"
}

func linesOf(data []byte) []string {
	if len(data) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
}

func charLines(ls []string) A {
	r := A{}
	for _, l := range ls {
		r = append(r, chars(l))
	}
	return r
}

// numbered dumps formulas of another factory over the variables prefix1, ...
func (e *dimacsEp) numbered(fac f.Factory, prefix string, fs []f.Formula, name func(i int) int) A {
	o := &Ep{Rand: e.Rand, fac: fac, n: e.n, names: map[f.Variable]int{}, aux: map[f.Variable]int{}}
	for i := 1; i <= e.n; i++ {
		o.names[fac.Var(fmt.Sprintf("%s%d", prefix, i))] = name(i)
	}
	r := A{}
	for _, x := range fs {
		r = append(r, o.dump(x))
	}
	return r
}

func (e *dimacsEp) wide() string {
	if e.n > 8 {
		return "wide"
	}
	return ""
}

// wideCNF has more variables and clauses than can be enumerated.
func (e *dimacsEp) wideCNF() f.Formula {
	cs := []f.Formula{}
	for k := e.Intn(30); k >= 0; k-- {
		ls, seen := []f.Formula{}, map[int]bool{}
		for j := 1 + e.Intn([]int{3, 10, e.n}[e.Intn(3)]); j > 0; j-- {
			x := e.rlitI(e.n)
			if v := max(x, -x); !seen[v] {
				seen[v] = true
				ls = append(ls, e.mkLit(x).AsFormula())
			}
		}
		cs = append(cs, e.fac.Or(ls...))
	}
	return e.fac.And(cs...)
}

func same(i int) int { return i }

// writeDimacs writes to the file name (which ends up in full)
func (e *dimacsEp) writeDimacs(name, full string, x f.Formula) (map[f.Variable]int, error) {
	switch e.Intn(4) {
	case 0:
		var b strings.Builder
		m, err := lio.WriteDimacsToWriter(e.fac, &b, x)
		os.WriteFile(full, []byte(b.String()), 0o600)
		return m, err
	case 1:
		file, err := os.Create(full)
		if err != nil {
			panic(err)
		}
		defer file.Close()
		return lio.WriteDimacsToFile(e.fac, file, x)
	}
	return lio.WriteDimacs(e.fac, name, x)
}

func (e *dimacsEp) readDimacs(fac f.Factory, name string, prefix ...string) (*[]f.Formula, error) {
	if e.pct(70) {
		return lio.ReadDimacs(fac, name, prefix...)
	}
	file, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	return lio.ReadDimacsFile(fac, file, prefix...)
}

func (e *dimacsEp) write(x f.Formula) {
	e.temp(func(dir string) {
		name := filepath.Join(dir, "f")
		if e.pct(50) {
			name += ".cnf"
		}
		m, err := e.writeDimacs(name, filepath.Join(dir, "f.cnf"), x)
		data, _ := os.ReadFile(filepath.Join(dir, "f.cnf"))
		pairs := A{}
		for v, i := range m {
			pairs = append(pairs, A{e.idx(v), i})
		}
		slices.SortFunc(pairs, func(a, b any) int { return a.(A)[0].(int) - b.(A)[0].(int) })
		ev := M{"f": e.dump(x), "err": err != nil, "map": pairs, "lines": charLines(linesOf(data)), "back": A{}, "rerr": false}
		if err == nil {
			fac := f.NewFactory(e.pct(25))
			var fs *[]f.Formula
			prefix := []string{"v", "q", ""}[e.Intn(3)]
			if prefix == "v" && e.pct(50) {
				fs, err = e.readDimacs(fac, filepath.Join(dir, "f.cnf"))
			} else {
				fs, err = e.readDimacs(fac, filepath.Join(dir, "f.cnf"), prefix)
			}
			ev["rerr"] = err != nil
			if err == nil {
				ev["back"] = e.numbered(fac, prefix, *fs, same)
			}
		}
		e.ev("write"+e.wide(), ev)
	})
}

func (e *dimacsEp) cnf() f.Formula {
	if len(e.pool) == 0 {
		e.fill(3)
	}
	switch e.Intn(8) {
	case 0:
		return e.bigger()
	case 1:
		return e.fac.Constant(e.pct(50))
	case 2:
		return e.mkLit(e.rlitI(e.n)).AsFormula()
	case 3, 4:
		x := normalform.CNF(e.fac, e.bigger())
		if f.Variables(e.fac, x).Size() <= e.n {
			return x
		}
	}
	ops := []f.Formula{}
	for k := e.Intn(5); k >= 0; k-- {
		ls := []f.Literal{}
		for j := 1 + e.Intn(3); j > 0; j-- {
			l := e.mkLit(e.rlitI(e.n))
			if !slices.Contains(ls, l) && !slices.Contains(ls, l.Negate(e.fac)) {
				ls = append(ls, l)
			}
		}
		ops = append(ops, e.fac.Clause(ls...))
	}
	return e.fac.And(ops...)
}

// layout puts words into lines
type layout struct {
	sep        func() string
	lead, tail func() string
}

func (e *dimacsEp) clauseLine(words []string, l layout) string {
	var b strings.Builder
	b.WriteString(l.lead())
	for i, w := range words {
		if i > 0 {
			b.WriteString(l.sep())
		}
		b.WriteString(w)
	}
	b.WriteString(l.tail())
	return b.String()
}

func (e *dimacsEp) randomLayout() layout {
	plain := e.pct(30)
	pickOne := func(p int, xs ...string) func() string {
		return func() string {
			if plain || !e.pct(p) {
				return xs[0]
			}
			return xs[e.Intn(len(xs))]
		}
	}
	return layout{pickOne(40, " ", "  ", "\t", "   "), pickOne(20, "", " ", "  "), pickOne(20, "", " ", "\t", "\r")}
}

func (e *dimacsEp) comments(ls []string) []string {
	if e.pct(50) {
		return ls
	}
	r := []string{}
	for i := 0; i <= len(ls); i++ {
		for e.pct(15) {
			r = append(r, []string{"c", "c a comment", "c p cnf 1 1", "", " ", "c 1 2 0"}[e.Intn(6)])
		}
		if i < len(ls) {
			r = append(r, ls[i])
		}
	}
	return r
}

// file makes a random clause file.
func (e *dimacsEp) file(weighted int, bad bool) []string {
	l := e.randomLayout()
	k, width := e.Intn(6), 4
	if e.n > 8 {
		k, width = e.Intn(40), []int{4, 12, 30}[e.Intn(3)]
	}
	top := e.Intn(4) + 10
	head := []string{"p", "cnf", fmt.Sprint(e.n), fmt.Sprint(k)}
	if weighted > 0 {
		head[1] = "wcnf"
		if weighted > 1 {
			head = append(head, fmt.Sprint(top))
		}
	}
	ls := []string{}
	for i := 0; i < k; i++ {
		words := []string{}
		if weighted > 0 {
			w := e.Intn(9) + 1
			if e.pct(40) {
				w = top
			}
			words = append(words, fmt.Sprint(w))
		}
		for j := e.Intn(width); j > 0 || len(words) == 0 && e.pct(90); j-- {
			words = append(words, fmt.Sprint(e.rlitI(e.n)))
		}
		if !bad || !e.pct(40) {
			words = append(words, "0")
		}
		if len(words) > 0 {
			ls = append(ls, e.clauseLine(words, l))
		}
	}
	l.lead = func() string { return "" }
	return e.comments(append([]string{e.clauseLine(head, l)}, ls...))
}

func (e *dimacsEp) read(lines []string) {
	e.temp(func(dir string) {
		name := filepath.Join(dir, "in.cnf")
		if err := os.WriteFile(name, []byte(e.pad(lines)), 0o600); err != nil {
			panic(err)
		}
		fs, err := e.readDimacs(e.fac, name, e.prefix)
		ev := M{"lines": charLines(lines), "err": err != nil, "fs": A{}}
		if err == nil {
			ev["fs"] = e.numbered(e.fac, e.prefix, *fs, same)
		}
		e.ev("read"+e.wide(), ev)
	})
}

// max reads the file into MaxSAT solvers and asks for the costs of assignments.
func (e *dimacsEp) maxread(lines []string) {
	e.temp(func(dir string) {
		name := filepath.Join(dir, "in.wcnf")
		if err := os.WriteFile(name, []byte(e.pad(lines)), 0o600); err != nil {
			panic(err)
		}
		bad := false
		costs := A{}
		as := []int{}
		if e.n <= 8 {
			as = e.Perm(1 << e.n)
		}
		for len(as) < 5 {
			as = append(as, e.Intn(1<<e.n))
		}
		for _, a := range as[:min(len(as), 5)] {
			fac := f.NewFactory(e.pct(25))
			s := maxsat.OLL(fac)
			if err := maxsat.ReadDimacsToSolver(fac, s, name); err != nil {
				bad = true
				break
			}
			for i := 1; i <= e.n; i++ {
				s.AddHardFormula(fac.Literal(fmt.Sprintf("v%d", i), a>>(i-1)&1 == 1))
			}
			r := s.Solve()
			costs = append(costs, A{a, r.Satisfiable, r.Optimum})
		}
		e.ev("max", M{"lines": charLines(lines), "err": bad, "costs": costs})
	})
}

func init() {
	drivers["dimacs"] = func(e *Ep) {
		x := newDimacsEp(e, 2+e.Intn(4))
		at, k := len(e.out), e.nev
		x.fill(4)
		e.out, e.nev = e.out[:at], k
		for i := 0; i < 8; i++ {
			if !e.try("write", func() {
				y := x.cnf()
				x.write(y)
			}) || !e.try("read", func() { x.read(x.file(0, e.pct(15))) }) {
				return
			}
		}
	}
	drivers["dimacs_max"] = func(e *Ep) {
		x := newDimacsEp(e, 2+e.Intn(3))
		for i := 0; i < 6; i++ {
			if !e.try("max", func() { x.maxread(x.file(e.Intn(3), e.pct(8))) }) {
				return
			}
		}
	}
	// problems with many variables and long clauses
	drivers["dimacs_wide"] = func(e *Ep) {
		n := 9 + e.Intn(22)
		x := newDimacsEp(e, n)
		for i := 0; i < 3; i++ {
			if !e.try("write", func() { x.write(x.wideCNF()) }) || !e.try("read", func() { x.read(x.file(0, e.pct(5))) }) {
				return
			}
		}
		if n <= 25 {
			e.try("max", func() { x.maxread(x.file(e.Intn(3), e.pct(5))) })
		}
	}
	drivers["dimacs_gen"] = func(e *Ep) {
		x := newDimacsEp(e, 3)
		words := func(v any) []string {
			r := []string{}
			for _, w := range v.([]any) {
				r = append(r, w.(string))
			}
			return r
		}
		sp := e.spec.(map[string]any)
		lead := ""
		if sp["lead"].(bool) {
			lead = " "
		}
		l := layout{func() string { return sp["sep"].(string) }, func() string { return lead }, func() string { return "" }}
		add := func(ls []string, where string) []string {
			for kind, text := range map[string]string{"com": "c 1 0", "blank": ""} {
				if sp[kind].(string) == where {
					ls = append(ls, text)
				}
			}
			return ls
		}
		ls := add(nil, "before")
		ls = append(ls, strings.Join(words(sp["head"]), sp["sep"].(string)))
		for _, w := range sp["lines"].([]any) {
			ls = add(ls, "between")
			ls = append(ls, x.clauseLine(words(w), l))
		}
		ls = add(ls, "after")
		if sp["kind"] == "cnf" {
			e.try("read", func() { x.read(ls) })
		}
		e.try("max", func() { x.maxread(ls) })
	}
}
