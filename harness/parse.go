package main

import (
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/parser"
)

// chars splits a text into its characters (for the specification, which reads
// sequences of characters).
func chars(s string) []string {
	r := []string{}
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

var namePool = []string{"a", "b", "c", "x1", "A_b", "#c", "@d", "300", "7", "0", "v#", "_", "aa", "5x", "true", "0_", "@", "#", "ab", "E12", "_a", "00", "Zz"}

type parseEp struct {
	*formulaEp
	words  []string
	parser *parser.PropositionalParser
}

func newParseEp(e *Ep, max int) *parseEp {
	n := 2 + e.Intn(5)
	perm := e.Perm(len(namePool))[:n]
	conserve := e.pct(25)
	e.fac = f.NewFactory(conserve)
	e.bind(0)
	e.n = n
	words := []string{}
	lists := A{}
	e.called = []string{}
	for i, k := range perm {
		v := e.fac.Var(namePool[k])
		e.vars = append(e.vars, v)
		e.names[v] = i + 1
		words = append(words, namePool[k])
		e.called = append(e.called, namePool[k])
		lists = append(lists, chars(namePool[k]))
	}
	x := &formulaEp{Ep: e, known: map[f.Formula]bool{}, max: max, conserve: conserve}
	x.o = Opts{n: n, depth: 4, ops: 4, consts: e.pct(50), cc: e.pct(60), pbc: e.pct(60), impl: e.pct(80)}
	e.begin(M{"names": lists})
	return &parseEp{formulaEp: x, words: words}
}

// ---- texts ----------------------------------------------------------------------

// word is a name, usually one of the episode
func (e *parseEp) word() string {
	if e.pct(3) {
		return namePool[e.Intn(len(namePool))]
	}
	return e.words[e.Intn(len(e.words))]
}

func (e *parseEp) literal() string {
	w := e.word()
	if e.pct(35) && !strings.HasPrefix(w, "-") {
		return "~" + w
	}
	return w
}

var numbers = []string{"0", "1", "2", "3", "-1", "-2", "7", "10", "-13", "007", "-0", "300"}

func (e *parseEp) number() string { return numbers[e.Intn(len(numbers))] }

// derive makes a random token sequence of the grammar.
func (e *parseEp) derive(rule, depth int) []string {
	join := func(op string, rule int, p int) []string {
		r := e.derive(rule, depth)
		for e.pct(p) && len(r) < 40 {
			r = append(append(r, op), e.derive(rule, depth)...)
		}
		return r
	}
	switch rule {
	case 0: // equiv
		return join("<=>", 1, 18)
	case 1:
		return join("=>", 2, 22)
	case 2:
		return join("|", 3, 35)
	case 3:
		return join("&", 4, 35)
	case 4: // lit
		if e.pct(15) {
			return append([]string{"~"}, e.derive(4, depth)...)
		}
	}
	switch k := e.Intn(10); {
	case k < 3 && depth > 0:
		return append(append([]string{"("}, e.derive(0, depth-1)...), ")")
	case k == 3:
		return []string{"$true"}
	case k == 4:
		return []string{"$false"}
	case k == 5:
		r := []string{}
		for i := 1 + e.Intn(3); i > 0; i-- {
			if len(r) > 0 {
				r = append(r, "+")
			}
			if e.pct(60) {
				r = append(r, e.number(), "*")
			}
			r = append(r, e.literal())
		}
		return append(r, []string{"=", "<=", "<", ">=", ">"}[e.Intn(5)], e.number())
	case k == 6 && e.pct(20):
		return []string{e.number()}
	}
	return []string{e.literal()}
}

var marks = []string{"(", ")", "&", "|", "~", "=>", "<=>", "=", "<", "<=", ">", ">=", "*", "+", "$true", "$false", "-", "$", "!", "/", "."}

func (e *parseEp) token() string {
	switch e.Intn(5) {
	case 0:
		return e.number()
	case 1, 2:
		return e.literal()
	}
	return marks[e.Intn(len(marks))]
}

func (e *parseEp) mutate(ts []string) []string {
	ts = slices.Clone(ts)
	for k := 1 + e.Intn(2); k > 0 && len(ts) > 0; k-- {
		i := e.Intn(len(ts))
		switch e.Intn(4) {
		case 0:
			ts = slices.Delete(ts, i, i+1)
		case 1:
			ts = slices.Insert(ts, e.Intn(len(ts)+1), e.token())
		case 2:
			ts[i] = e.token()
		case 3:
			j := e.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		}
	}
	return ts
}

// text joins tokens with random white space; tight leaves out what it can (and
// sometimes more than that, which gives another text).
func (e *parseEp) text(ts []string) string {
	style := e.Intn(4)
	var b strings.Builder
	blank := func() string { return []string{" ", "  ", "\t", "\n", " \r\n"}[e.Intn(5)] }
	if style == 3 && e.pct(50) {
		b.WriteString(blank())
	}
	for i, t := range ts {
		if i > 0 {
			switch {
			case style == 0:
				b.WriteString(" ")
			case style == 3:
				b.WriteString(blank())
			case style == 1 && e.pct(50):
				b.WriteString(" ")
			case wordy(ts[i-1]) && wordy(t) && !e.pct(10):
				b.WriteString(" ")
			}
		}
		b.WriteString(t)
	}
	if style == 3 && e.pct(50) {
		b.WriteString(blank())
	}
	return b.String()
}

func wordy(t string) bool {
	c := t[len(t)-1]
	return c == '_' || c == '#' || c == '@' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (e *parseEp) soup() string {
	alpha := []string{"a", "3", "-", "~", "$", "<", "=", ">", "&", "|", "(", ")", "*", "+", " ", "@", "#", "_", "t", "$true", "b", "<=", "!", "?"}
	var b strings.Builder
	for k := e.Intn(7); k >= 0; k-- {
		b.WriteString(alpha[e.Intn(len(alpha))])
	}
	return b.String()
}

func (e *parseEp) parse(text string) { e.parseAs("text", text) }

func (e *parseEp) parseAs(op, text string) {
	if len(text) > 160 {
		return
	}
	e.aux = map[f.Variable]int{}
	x, err := e.read(e.fac, text)
	m := M{"text": chars(text), "ok": err == nil, "f": AST{1}, "ext": A{}}
	if err == nil {
		m["f"] = e.dump(x)
		ext := make([]A, len(e.aux))
		for v, i := range e.aux {
			name, _ := e.fac.VarName(v)
			l := A{}
			for _, c := range chars(name) {
				l = append(l, c)
			}
			ext[i-e.n-1] = l
		}
		m["ext"] = ext
	}
	e.ev(op, m)
}

// read parses a text with a new parser or with one that was used before.
func (e *parseEp) read(fac f.Factory, text string) (x f.Formula, err error) {
	if e.parser == nil || e.pct(40) {
		e.parser = parser.New(fac)
	}
	if e.pct(80) {
		return e.parser.Parse(text)
	}
	defer func() {
		if r := recover(); r != nil {
			var is bool
			if err, is = r.(error); !is {
				panic(r)
			}
			if _, is = r.(runtime.Error); is {
				panic(r)
			}
		}
	}()
	return e.parser.ParseUnsafe(text), nil
}

func (e *parseEp) some() string {
	switch k := e.Intn(10); {
	case k < 5:
		return e.text(e.derive(0, 3))
	case k < 8:
		return e.text(e.mutate(e.derive(0, 2)))
	case k < 9:
		ts := []string{}
		for j := e.Intn(6); j >= 0; j-- {
			ts = append(ts, e.token())
		}
		return e.text(ts)
	}
	return e.soup()
}

// formulas makes formulas without recording how.
func (e *parseEp) formulas(k int) {
	at, n := len(e.out), e.nev
	e.fill(k)
	e.out, e.nev = e.out[:at], n
	e.hs = nil
}

func (e *parseEp) print(x f.Formula) {
	s := x.Sprint(e.fac)
	if len(s) > 300 {
		return
	}
	y, err := e.read(e.fac, s)
	m := M{"f": e.dump(x), "text": chars(s), "same": err == nil && x == y}
	like := e.pct(75)
	other := f.NewFactory(like == e.conserve) // of the same kind or not
	m["like"] = like
	if e.pct(50) { // in another order
		for _, i := range e.Perm(e.n) {
			other.Var(e.words[i])
		}
	}
	z, err := parser.New(other).Parse(s)
	if err != nil {
		z = other.Falsum()
	}
	o := &Ep{Rand: e.Rand, fac: other, n: e.n, names: map[f.Variable]int{}, aux: map[f.Variable]int{}}
	for i, w := range e.words {
		o.names[other.Var(w)] = i + 1
	}
	m["text2"], m["f2"] = chars(z.Sprint(other)), o.dump(z)
	e.ev("print", m)
}

// scratch gives the name of a file in a directory of its own.
func (e *parseEp) scratch(use func(file string)) {
	dir, err := os.MkdirTemp("", "lng")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	use(filepath.Join(dir, "f.txt"))
}

func (e *parseEp) readFormulas(name string) ([]f.Formula, error) {
	if e.pct(60) {
		return lio.ReadFormulas(e.fac, name)
	}
	file, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	return lio.ReadFormulasFile(e.fac, file)
}

func (e *parseEp) readFormula(name string) (f.Formula, error) {
	if e.pct(60) {
		return lio.ReadFormula(e.fac, name)
	}
	file, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	return lio.ReadFormulaFile(e.fac, file)
}

// files writes a formula and reads it.
func (e *parseEp) files(x f.Formula) {
	e.scratch(func(file string) {
		split := e.pct(60)
		var err error
		if e.pct(40) {
			var out *os.File
			if out, err = os.Create(file); err != nil {
				panic(err)
			}
			if e.pct(50) {
				err = lio.WriteFormulaToFile(e.fac, out, x, split)
			} else {
				err = lio.WriteFormulaToWriter(e.fac, out, x, split)
			}
			out.Close()
		} else if split || e.pct(50) {
			err = lio.WriteFormula(e.fac, file, x, split)
		} else {
			err = lio.WriteFormula(e.fac, file, x)
		}
		if err != nil {
			panic(err)
		}
		data, _ := os.ReadFile(file)
		lines := A{}
		for _, l := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
			lines = append(lines, chars(l))
		}
		fs, err := e.readFormulas(file)
		if err != nil {
			panic(err)
		}
		g, err := e.readFormula(file)
		if err != nil {
			panic(err)
		}
		parts := A{}
		for _, y := range fs {
			parts = append(parts, e.dump(y))
		}
		e.ev("file", M{"f": e.dump(x), "split": split, "lines": lines, "back": parts, "same": g == x})
	})
}

// lists writes texts line by line and reads them.
func (e *parseEp) lists() {
	e.scratch(func(file string) {
		lines, recs := []string{}, A{}
		for k := 1 + e.Intn(4); k > 0; k-- {
			var s string
			if e.pct(90) {
				s = e.text(e.derive(0, 1))
			} else {
				s = e.some()
			}
			s = strings.NewReplacer("\n", " ", "\r", " ").Replace(s)
			if len(s) <= 80 {
				lines = append(lines, s)
				recs = append(recs, chars(s))
			}
		}
		end := "\n"
		if e.pct(20) {
			end = "\r\n"
		}
		if err := os.WriteFile(file, []byte(strings.Join(lines, end)+end), 0o600); err != nil {
			panic(err)
		}
		if len(lines) == 0 {
			return
		}
		e.aux = map[f.Variable]int{}
		fs, err := e.readFormulas(file)
		_, err2 := e.readFormula(file)
		parts := A{}
		for _, y := range fs {
			if a := e.dump(y); len(e.aux) > 0 {
				return // names from outside
			} else {
				parts = append(parts, a)
			}
		}
		e.ev("read", M{"lines": recs, "err": err != nil, "err2": err2 != nil, "back": parts})
	})
}

func init() {
	drivers["known_trailing"] = func(e *Ep) {
		e.fac = f.NewFactory()
		e.bind(0)
		e.names[e.fac.Var("a")] = 1
		e.n = 1
		e.begin(M{"names": A{chars("a")}})
		x := &parseEp{formulaEp: &formulaEp{Ep: e, known: map[f.Formula]bool{}, max: 30}}
		x.parseAs("text1", "a b")
	}
	drivers["parse"] = func(e *Ep) {
		x := newParseEp(e, 30)
		for i := 0; i < 20; i++ {
			if !e.try("parse", func() { x.parse(x.some()) }) {
				return
			}
		}
	}
	drivers["print"] = func(e *Ep) {
		x := newParseEp(e, 40)
		for i := 0; i < 3; i++ {
			x.formulas(6)
			for j := 0; j < 6; j++ {
				if !e.try("print", func() { x.print(x.bigger()) }) {
					return
				}
			}
			if !e.try("file", func() { x.files(x.bigger()) }) || !e.try("list", x.lists) {
				return
			}
		}
	}
	// texts made by the specification
	drivers["parse_gen"] = func(e *Ep) {
		e.fac = f.NewFactory(e.id%2 == 1)
		e.bind(0)
		e.begin(M{"names": A{}})
		x := &parseEp{formulaEp: &formulaEp{Ep: e, known: map[f.Formula]bool{}, max: 30}}
		for _, t := range sub(e.spec, "texts").([]any) {
			ts := []string{}
			for _, w := range t.([]any) {
				ts = append(ts, w.(string))
			}
			if !e.try("parse", func() { x.parse(x.text(ts)) }) {
				return
			}
		}
	}
}
