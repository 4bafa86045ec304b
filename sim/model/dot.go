package model

import (
	"fmt"
	"sort"
	"strings"
)

// DotNode is a declared node of a graph.
type DotNode struct {
	ID    string
	Label []string // lines
	Best  bool     // highlighted
}

// DotGraph is a parsed graph.
type DotGraph struct {
	Nodes []*DotNode
	ByID  map[string]*DotNode
	Edges [][2]string
	Bold  [][2]string
	Costs []string // labels of the edges
}

type dotLex struct {
	s string
	i int
}

type dotTok struct {
	kind byte // 'i' identifier, 'q' quoted, 'p' punctuation, 0 end
	text string
}

func (l *dotLex) next() (dotTok, error) {
	for l.i < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.i]) >= 0 {
		l.i++
	}
	if l.i >= len(l.s) {
		return dotTok{}, nil
	}
	c := l.s[l.i]
	switch {
	case c == '"':
		j := l.i + 1
		for j < len(l.s) && l.s[j] != '"' {
			if l.s[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(l.s) {
			return dotTok{}, fmt.Errorf("string not closed at %d", l.i)
		}
		t := dotTok{'q', l.s[l.i+1 : j]}
		l.i = j + 1
		return t, nil
	case c == '-' && strings.HasPrefix(l.s[l.i:], "--"), c == '-' && strings.HasPrefix(l.s[l.i:], "->"):
		l.i += 2
		return dotTok{'p', l.s[l.i-2 : l.i]}, nil
	case strings.IndexByte("{}[]=;,", c) >= 0:
		l.i++
		return dotTok{'p', string(c)}, nil
	case c == '_' || c == '.' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
		j := l.i
		for j < len(l.s) {
			c := l.s[j]
			if c == '_' || c == '.' || c == '-' && j == l.i || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 {
				j++
				continue
			}
			break
		}
		t := dotTok{'i', l.s[l.i:j]}
		l.i = j
		return t, nil
	}
	return dotTok{}, fmt.Errorf("unexpected %q at %d", c, l.i)
}

// ParseDot parses one undirected or directed graph without subgraphs.
func ParseDot(s string) (*DotGraph, error) {
	l := &dotLex{s: s}
	var err error
	var t dotTok
	adv := func() {
		if err == nil {
			t, err = l.next()
			if err != nil {
				t = dotTok{}
			}
		}
	}
	g := &DotGraph{ByID: map[string]*DotNode{}}
	adv()
	if t.kind == 'i' && t.text == "strict" {
		adv()
	}
	if t.kind != 'i' || t.text != "graph" && t.text != "digraph" {
		return nil, fmt.Errorf("no graph: %q", t.text)
	}
	adv()
	if t.kind == 'i' || t.kind == 'q' {
		adv()
	}
	if t.text != "{" {
		return nil, fmt.Errorf("no body: %q", t.text)
	}
	adv()
	attrs := func() (map[string]string, error) {
		ret := map[string]string{}
		for t.kind == 'p' && t.text == "[" {
			adv()
			for !(t.kind == 'p' && t.text == "]") {
				if t.kind != 'i' && t.kind != 'q' {
					return nil, fmt.Errorf("attribute expected, got %q at %d (%v)", t.text, l.i, err)
				}
				k := t.text
				adv()
				if t.kind != 'p' || t.text != "=" {
					return nil, fmt.Errorf("= expected, got %q at %d (%v)", t.text, l.i, err)
				}
				adv()
				if t.kind != 'i' && t.kind != 'q' {
					return nil, fmt.Errorf("value expected, got %q at %d (%v)", t.text, l.i, err)
				}
				ret[k] = t.text
				adv()
				if t.kind == 'p' && (t.text == "," || t.text == ";") {
					adv()
				}
			}
			adv()
		}
		return ret, nil
	}
	for {
		if err != nil {
			return nil, err
		}
		if t.kind == 0 {
			return nil, fmt.Errorf("graph not closed")
		}
		if t.kind == 'p' && t.text == "}" {
			adv()
			if err != nil || t.kind != 0 {
				return nil, fmt.Errorf("something after the graph: %q (%v)", t.text, err)
			}
			return g, nil
		}
		if t.kind == 'p' && t.text == ";" {
			adv()
			continue
		}
		if t.kind != 'i' && t.kind != 'q' {
			return nil, fmt.Errorf("statement expected, got %q at %d", t.text, l.i)
		}
		id, kind := t.text, t.kind
		adv()
		switch {
		case t.kind == 'p' && t.text == "=":
			adv()
			if t.kind != 'i' && t.kind != 'q' {
				return nil, fmt.Errorf("value expected, got %q (%v)", t.text, err)
			}
			adv()
		case t.kind == 'p' && (t.text == "--" || t.text == "->"):
			adv()
			if t.kind != 'i' && t.kind != 'q' {
				return nil, fmt.Errorf("node expected, got %q (%v)", t.text, err)
			}
			to := t.text
			adv()
			a, e := attrs()
			if e != nil {
				return nil, e
			}
			g.Edges = append(g.Edges, [2]string{id, to})
			g.Costs = append(g.Costs, a["label"])
			if strings.Contains(a["style"], "bold") {
				g.Bold = append(g.Bold, [2]string{id, to})
			}
		default:
			a, e := attrs()
			if e != nil {
				return nil, e
			}
			if kind == 'i' && (id == "graph" || id == "node" || id == "edge") {
				continue
			}
			if g.ByID[id] != nil {
				return nil, fmt.Errorf("node %s declared twice", id)
			}
			n := &DotNode{ID: id, Label: dotLabel(a["label"]), Best: a["peripheries"] == "2"}
			g.Nodes = append(g.Nodes, n)
			g.ByID[id] = n
		}
	}
}

// dotLabel splits a label into its lines and undoes the escapes.
func dotLabel(s string) []string {
	var ret []string
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n', 'l', 'r':
				ret = append(ret, b.String())
				b.Reset()
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return append(ret, b.String())
}

// CheckDot tells what is wrong with an exported lattice. words are the tokens
// between BOS and EOS; with path set they must be the highlighted path.
func CheckDot(out string, words []string, path bool) error {
	g, err := ParseDot(out)
	if err != nil {
		return err
	}
	for _, e := range g.Edges {
		for _, id := range e {
			if g.ByID[id] == nil {
				return fmt.Errorf("edge to undeclared node %s", id)
			}
		}
	}
	if !path {
		return nil
	}
	want := append(append([]string{"BOS"}, words...), "EOS")
	next := map[string]string{}
	into := map[string]bool{}
	for _, e := range g.Bold {
		if next[e[0]] != "" {
			return fmt.Errorf("highlighted path forks")
		}
		next[e[0]] = e[1]
		into[e[1]] = true
	}
	var at *DotNode
	best := 0
	for _, n := range g.Nodes {
		if n.Best {
			best++
			if !into[n.ID] {
				if at != nil {
					return fmt.Errorf("several highlighted paths")
				}
				at = n
			}
		}
	}
	if at == nil {
		return fmt.Errorf("no highlighted path")
	}
	if best != len(want) {
		return fmt.Errorf("%d highlighted nodes for %d tokens", best, len(want))
	}
	for i, w := range want {
		if at == nil {
			return fmt.Errorf("highlighted path ends before token %d (%q)", i, w)
		}
		if at.Label[0] != w {
			return fmt.Errorf("highlighted path has %q where token %d is %q", at.Label[0], i, w)
		}
		id := next[at.ID]
		at = nil
		if id != "" {
			at = g.ByID[id]
		}
	}
	if at != nil {
		return fmt.Errorf("highlighted path goes on after EOS")
	}
	return nil
}

// graph lists what an exported lattice must hold: its nodes and its edges.
func (t Tk) graph(text string, mode int) (nodes, edges []string) {
	path, lists := t.solve(text, mode)
	best := map[*node]bool{}
	for _, n := range path {
		best[n] = true
	}
	name := map[*node]string{}
	show := func(n *node) bool { return n.class != Unknown || best[n] }
	for i, list := range lists {
		for _, n := range list {
			s := n.surface
			if n.id == -1 {
				s = "EOS"
				if i == 0 {
					s = "BOS"
				}
			}
			var f []string
			switch n.class {
			case Known, Unknown:
				for _, p := range t.POS(Tok{ID: n.id, Class: n.class}) {
					if p != "*" {
						f = append(f, p)
					}
				}
			case User:
				f = []string{t.U.D.Contents[n.id].Pos}
			}
			if len(f) == 0 {
				f = []string{"---"}
			}
			name[n] = fmt.Sprintf("%q %q %d %v", s, strings.Join(f, "/"), n.weight, best[n])
			if show(n) {
				nodes = append(nodes, name[n])
			}
		}
	}
	for i, list := range lists {
		for _, to := range list {
			if i == 0 || !show(to) {
				continue
			}
			for _, from := range lists[to.start] {
				if !show(from) {
					continue
				}
				c := 0
				if from.class != User && to.class != User {
					c = int(t.D.D.Connection.At(from.right, to.left))
				}
				edges = append(edges, fmt.Sprintf("%s -- %s %d", name[from], name[to], c))
			}
		}
	}
	return nodes, edges
}

// CheckGraph tells what is wrong with an exported lattice of a text.
func (t Tk) CheckGraph(out, text string, mode int) error {
	var words []string
	bare := t
	bare.Omit = false
	for _, k := range bare.Analyze(text, mode) {
		if k.ID != -1 {
			words = append(words, k.Surface)
		}
	}
	if err := CheckDot(out, words, mode != Extended); err != nil {
		return err
	}
	g, err := ParseDot(out)
	if err != nil {
		return err
	}
	nodes, edges := t.graph(text, mode)
	var gotN, gotE []string
	name := func(n *DotNode) string {
		if len(n.Label) != 3 {
			return fmt.Sprintf("%q", n.Label)
		}
		return fmt.Sprintf("%q %q %s %v", n.Label[0], n.Label[1], n.Label[2], n.Best)
	}
	for _, n := range g.Nodes {
		gotN = append(gotN, name(n))
	}
	for i, e := range g.Edges {
		gotE = append(gotE, fmt.Sprintf("%s -- %s %s", name(g.ByID[e[0]]), name(g.ByID[e[1]]), g.Costs[i]))
	}
	if d := diffBag(gotN, nodes); d != "" {
		return fmt.Errorf("node %s", d)
	}
	if d := diffBag(gotE, edges); d != "" {
		return fmt.Errorf("edge %s", d)
	}
	return nil
}

// diffBag finds a difference of two bags.
func diffBag(got, want []string) string {
	sort.Strings(got)
	sort.Strings(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got) || i < len(want) && want[i] < got[i]:
			return "missing: " + want[i]
		case i >= len(want) || got[i] < want[i]:
			return "not expected: " + got[i]
		}
	}
	return ""
}
