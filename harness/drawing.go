package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
)

// pictures, read back from the text that was written

type pnode struct {
	id, label          string
	shape              int
	stroke, text, back string
	term               bool
}

type pedge struct {
	s, d, label string
	typ         int
	color       string
}

type picture struct {
	nodes    []*pnode
	edges    []*pedge
	directed bool
	aligned  bool
	back     string
	bad      int
}

var (
	dotNode  = regexp.MustCompile(`^  (id\d+) \[label="([^"]*)"((?:, .*)?)\]$`)
	dotEdge  = regexp.MustCompile(`^  (id\d+) (->|--) (id\d+)((?: \[.*\])?)$`)
	dotBack  = regexp.MustCompile(`^  bgcolor="(.*)"$`)
	dotAttr  = regexp.MustCompile(`(\w+)=("[^"]*"|\w+)`)
	merNode  = regexp.MustCompile(`^  (id\d+)(\[|\(\[|\(\()"([^"]*)"(\]|\]\)|\)\))$`)
	merStyle = regexp.MustCompile(`^    style (id\d+) (.*)$`)
	merEdge  = regexp.MustCompile(`^  (id\d+) (-->|---)(?:\|"([^"]*)"\|)? (id\d+)$`)
	merLink  = regexp.MustCompile(`^    linkStyle (\d+) (.*)$`)
	edgeType = map[string]int{"": 0, "solid": 1, "dotted": 2, "bold": 3}
	ascii    = strings.NewReplacer("¬", "~", "∧", "&", "∨", "|", "⇒", "=>", "⇔", "<=>")
)

func attrs(s string) map[string]string {
	r := map[string]string{}
	for _, m := range dotAttr.FindAllStringSubmatch(s, -1) {
		r[m[1]] = strings.Trim(m[2], `"`)
	}
	return r
}

func readDot(s string) *picture {
	p := &picture{}
	group, closed := false, false
	for i, ln := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		switch {
		case i == 0 && ln == "digraph G {":
			p.directed = true
		case i == 0 && ln == "strict graph {":
		case ln == "":
		case ln == "{ rank = same;" && !p.aligned:
			p.aligned, group = true, true
		case ln == "}" && group:
			group = false
		case ln == "}" && !closed:
			closed = true
		case dotBack.MatchString(ln):
			p.back = dotBack.FindStringSubmatch(ln)[1]
		case dotNode.MatchString(ln):
			m := dotNode.FindStringSubmatch(ln)
			a := attrs(m[3])
			sh, ok := map[string]int{"": 0, "box": 1, "ellipse": 2, "circle": 3}[a["shape"]]
			if !ok || (a["fillcolor"] != "") != (a["style"] == "filled") {
				p.bad++
			}
			p.nodes = append(p.nodes, &pnode{m[1], m[2], sh, a["color"], a["fontcolor"], a["fillcolor"], group})
		case dotEdge.MatchString(ln):
			m := dotEdge.FindStringSubmatch(ln)
			a := attrs(m[4])
			t, ok := edgeType[a["style"]]
			if !ok || a["color"] != a["fontcolor"] || (m[2] == "->") != p.directed {
				p.bad++
			}
			p.edges = append(p.edges, &pedge{m[1], m[3], a["label"], t, a["color"]})
		default:
			p.bad++
		}
	}
	if !closed {
		p.bad++
	}
	return p
}

func readMermaid(s string) *picture {
	p := &picture{directed: true}
	byID := map[string]*pnode{}
	css := func(s string) map[string]string {
		r := map[string]string{}
		for _, x := range strings.Split(s, ",") {
			k, v, ok := strings.Cut(x, ":")
			if _, dup := r[k]; !ok || dup {
				p.bad++
			}
			r[k] = v
		}
		return r
	}
	for i, ln := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		switch {
		case i == 0 && ln == "graph TD":
		case ln == "":
		case merNode.MatchString(ln):
			m := merNode.FindStringSubmatch(ln)
			sh := map[string]int{"[]": 1, "([])": 2, "(())": 3}[m[2]+m[4]]
			n := &pnode{id: m[1], label: m[3], shape: sh}
			byID[n.id] = n
			p.nodes = append(p.nodes, n)
		case merStyle.MatchString(ln):
			m := merStyle.FindStringSubmatch(ln)
			n := byID[m[1]]
			if n == nil {
				p.bad++
				continue
			}
			a := css(m[2])
			n.stroke, n.text, n.back = a["stroke"], a["color"], a["fill"]
		case merEdge.MatchString(ln):
			m := merEdge.FindStringSubmatch(ln)
			dir := m[2] == "-->"
			if len(p.edges) > 0 && dir != p.directed {
				p.bad++
			}
			p.directed = dir
			p.edges = append(p.edges, &pedge{s: m[1], d: m[4], label: m[3]})
		case merLink.MatchString(ln):
			m := merLink.FindStringSubmatch(ln)
			i, _ := strconv.Atoi(m[1])
			if i >= len(p.edges) {
				p.bad++
				continue
			}
			a := css(m[2])
			p.edges[i].color = a["stroke"]
			switch {
			case a["stroke-width"] == "4":
				p.edges[i].typ = 3
			case a["stroke-dasharray"] != "":
				p.edges[i].typ = 2
			case a["stroke-width"] != "":
				p.edges[i].typ = 1
			}
		default:
			p.bad++
		}
	}
	return p
}

var drawColors = []graphical.Color{"", graphical.ColorRed, graphical.ColorGreen}

// write draws in one of the formats, to a string, a writer or a file
func (e *Ep) write(r *graphical.Representation) (*picture, M) {
	dot := e.pct(50)
	var s, t string
	var err error
	dir, e0 := os.MkdirTemp("", "lngdraw")
	if e0 != nil {
		panic(e0)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "g")
	read := func() {
		b, _ := os.ReadFile(name)
		t = string(b)
	}
	how := e.Intn(12)
	var buf bytes.Buffer
	if dot {
		s, t = graphical.WriteDotToString(r), ""
		switch how {
		case 0:
			err = graphical.WriteDotToFileName(name, r)
			read()
		case 1:
			fh, _ := os.Create(name)
			err = graphical.WriteDotToFile(fh, r)
			read()
		case 2:
			err = graphical.WriteDotToWriter(&buf, r)
			t = buf.String()
		default:
			t = s
		}
	} else {
		s, t = graphical.WriteMermaidToString(r), ""
		switch how {
		case 0:
			err = graphical.WriteMermaidToFileName(name, r)
			read()
		case 1:
			fh, _ := os.Create(name)
			err = graphical.WriteMermaidToFile(fh, r)
			read()
		case 2:
			err = graphical.WriteMermaidToWriter(&buf, r)
			t = buf.String()
		default:
			t = s
		}
	}
	p := readMermaid
	fm := "mermaid"
	if dot {
		p, fm = readDot, "dot"
	}
	pic := p(s)
	if len(pic.edges) == 0 && !dot {
		pic.directed = false // not visible
	}
	nodes, edges := A{}, A{}
	for _, n := range pic.nodes {
		nodes = append(nodes, M{"id": n.id, "label": ascii.Replace(n.label), "shape": n.shape, "stroke": n.stroke, "text": n.text, "back": n.back, "term": n.term})
	}
	for _, x := range pic.edges {
		edges = append(edges, M{"s": x.s, "d": x.d, "label": x.label, "type": x.typ, "color": x.color})
	}
	return pic, M{"fmt": fm, "nodes": nodes, "edges": edges, "directed": pic.directed, "nodirection": len(pic.edges) == 0 && !dot,
		"aligned": pic.aligned, "back": pic.back, "bad": pic.bad, "same": s == t && err == nil}
}

func nodeStyle(sh int, a, b, c graphical.Color, e *Ep) *graphical.NodeStyle {
	if e.pct(50) {
		switch sh {
		case 1:
			return graphical.Rectangle(a, b, c)
		case 2:
			return graphical.Ellipse(a, b, c)
		case 3:
			return graphical.Circle(a, b, c)
		}
	}
	return graphical.NewNodeStyle(graphical.Shape(sh), a, b, c)
}

func edgeStyle(t int, c graphical.Color, e *Ep) *graphical.EdgeStyle {
	if e.pct(50) {
		switch t {
		case 1:
			return graphical.Solid(c)
		case 2:
			return graphical.Dotted(c)
		case 3:
			return graphical.Bold(c)
		}
	}
	return graphical.NewEdgeStyle(graphical.EdgeType(t), c)
}

func (e *formulaEp) generator() (*graphical.Generator[f.Formula], M) {
	g := f.DefaultFormulaGraphicalGenerator()
	st := M{"mode": "none", "node": A{0, "", "", ""}, "edge": A{0, ""}}
	col := func() graphical.Color { return drawColors[e.Intn(3)] }
	tag := func(x f.Formula) int { return toInt(e.ast(x)[0]) }
	switch e.Intn(4) {
	case 0:
		st["mode"] = "fixed"
		sh, a, b, c, t, d := e.Intn(4), col(), col(), col(), e.Intn(4), col()
		st["node"], st["edge"] = A{sh, string(a), string(b), string(c)}, A{t, string(d)}
		g.DefaultNodeStyle, g.DefaultEdgeStyle = nodeStyle(sh, a, b, c, e.Ep), edgeStyle(t, d, e.Ep)
	case 1:
		st["mode"] = "own"
		g.ComputeNodeStyle = func(x f.Formula) *graphical.NodeStyle {
			t := tag(x)
			return nodeStyle(t%4, drawColors[t%3], drawColors[(t+1)%3], drawColors[(t+2)%3], e.Ep)
		}
		g.ComputeEdgeStyle = func(x, y f.Formula) *graphical.EdgeStyle {
			a, b := tag(x), tag(y)
			return edgeStyle((a+2*b)%4, drawColors[(a+b)%3], e.Ep)
		}
	case 2:
		g.DefaultNodeStyle, g.DefaultEdgeStyle = nil, nil
	}
	lab := "default"
	if e.pct(30) {
		lab = "own"
		g.ComputeLabel = func(x f.Formula) string {
			a := e.ast(x)
			s := fmt.Sprintf("n%d", toInt(a[0]))
			if l, ok := x.AsLiteral(); ok == nil {
				k := e.lit(l)
				if k < 0 {
					s += "~"
				}
				s += fmt.Sprintf("v%02d", abs(k))
			}
			return s
		}
	}
	g.AlignTerminals = e.pct(40)
	if e.pct(30) {
		g.BackgroundColor = drawColors[1+e.Intn(2)]
	}
	return g, M{"st": st, "lab": lab, "wantback": string(g.BackgroundColor), "wantaligned": g.AlignTerminals, "prints": A{}}
}

func (e *formulaEp) ast(x f.Formula) AST { return e.dump(x) }

func with(a, b M) M {
	for k, v := range b {
		a[k] = v
	}
	return a
}

func (e *formulaEp) draw() {
	x := e.bigger()
	g, m := e.generator()
	prints := A{}
	for _, s := range f.SubNodes(e.fac, x) {
		if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
			prints = append(prints, A{e.dump(s), ascii.Replace(s.Sprint(e.fac))})
		}
	}
	var r *graphical.Representation
	kind := "tree"
	if e.pct(50) {
		r = f.GenerateGraphicalFormulaAST(e.fac, x, g)
	} else {
		kind = "shared"
		r = f.GenerateGraphicalFormulaDAG(e.fac, x, g)
	}
	_, p := e.write(r)
	m = with(m, p)
	m["prints"], m["kind"], m["f"] = prints, kind, e.t(x)
	e.emit("draw", m)
}

func (e *formulaEp) drawGraph() {
	fs := []f.Formula{}
	for i := e.Intn(5); i > 0; i-- {
		if e.pct(60) {
			fs = append(fs, e.build(e.rclauses(e.n, 1, 3)[0]))
		} else {
			fs = append(fs, e.pick())
		}
	}
	g, m := e.generator()
	m["wantaligned"] = false
	_, p := e.write(graph.GenerateGraphicalFormulaGraph(e.fac, graph.GenerateConstraintGraph(e.fac, fs...), g))
	m = with(m, p)
	m["fs"] = e.ts(fs)
	e.emit("drawgraph", m)
}

// draw of a decision diagram: nodes are numbered as in graph
func (e *bddEp) draw(i int) {
	g := bdd.DefaultGenerator()
	lo, hi := [2]any{2, string(graphical.ColorRed)}, [2]any{1, string(graphical.ColorGreen)}
	labels := [2]string{"false", "true"}
	b := e.ds[i].b
	st := e.Intn(4)
	if st == 0 {
		g.DefaultNegativeEdgeStyle, g.DefaultEdgeStyle = graphical.Bold(graphical.ColorBlue), graphical.NoEdgeStyle()
		lo, hi = [2]any{3, string(graphical.ColorBlue)}, [2]any{0, ""}
	} else if st == 1 {
		g.DefaultNegativeEdgeStyle = nil
		lo = [2]any{0, ""}
	} else if st == 2 {
		g.ComputeNegativeEdgeStyle = func(src, dst int32) *graphical.EdgeStyle {
			return graphical.NewEdgeStyle(graphical.EdgeSolid, graphical.ColorBlue)
		}
		lo = [2]any{1, string(graphical.ColorBlue)}
	}
	g.AlignTerminals = e.pct(40)
	pic, m := e.write(bdd.GenerateGraphical(b, g))
	byName := map[string]int{}
	for v, i := range e.names {
		byName[v.Sprint(e.fac)] = i
	}
	num := map[string]int{}
	bad := pic.bad
	zero, one := false, false
	ns := []*pnode{}
	for _, n := range pic.nodes {
		switch {
		case n.label == labels[0] && !zero:
			zero = true
			num[n.id] = 0
		case n.label == labels[1] && !one:
			one = true
			num[n.id] = 1
		default:
			if byName[n.label] == 0 || num[n.id] != 0 {
				bad++
			}
			ns = append(ns, n)
			num[n.id] = len(ns) + 1
		}
		if pic.aligned && n.term != (n.label == labels[0] || n.label == labels[1]) {
			bad++
		}
	}
	if pic.aligned != (g.AlignTerminals && m["fmt"] == "dot") {
		bad++
	}
	out := A{}
	into := map[string]bool{}
	for _, n := range ns {
		k := []int{byName[n.label], -1, -1}
		for _, x := range pic.edges {
			if x.s == n.id {
				at := 0
				switch [2]any{x.typ, x.color} {
				case lo:
					at = 1
				case hi:
					at = 2
				}
				c, ok := num[x.d]
				if at == 0 || !ok || k[at] != -1 || x.label != "" {
					bad++
				} else {
					k[at] = c
				}
				into[x.d] = true
			}
		}
		if k[1] < 0 || k[2] < 0 {
			bad++
			k[1], k[2] = 0, 0
		}
		out = append(out, k)
	}
	if len(pic.edges) != 2*len(ns) {
		bad++
	}
	root := -1
	for i, n := range ns {
		if !into[n.id] {
			if root != -1 {
				bad++
			}
			root = i + 2
		}
	}
	if root == -1 {
		root = 0
		if one {
			root = 1
		}
	}
	if m["nodirection"] != true && !pic.directed {
		bad++
	}
	e.ev("draw", M{"i": i + 1, "g": out, "root": root, "zero": zero, "one": one, "bad": bad, "same": m["same"]})
}
