package lib

import (
	"errors"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
)

// Name says what the mapping answers for a name: text, or a refusal.
type Name struct {
	N  B    `json:"n"`
	To B    `json:"to"`
	No bool `json:"no"`
}

// IdentArg is the mapping; Other is what it does with all other names: "same"
// or "refuse".
type IdentArg struct {
	Ver   int    `json:"ver"`
	Map   []Name `json:"map"`
	Other string `json:"other"`
}

var errRefused = errors.New("refused")

// Check is the mapping; a refusal comes with a name, which must not be used.
func (a *IdentArg) Check(asked *[]B) func(string) (string, error) {
	return func(s string) (string, error) {
		*asked = append(*asked, B(s))
		for _, m := range a.Map {
			if string(m.N) == s {
				if m.No {
					return string(m.To), errRefused
				}
				return string(m.To), nil
			}
		}
		if a.Other == "refuse" {
			return s, errRefused
		}
		return s, nil
	}
}

// DotArg says how to draw.
type DotArg struct {
	Ver    int  `json:"ver"`
	ID     B    `json:"id"`
	Before B    `json:"before"`
}

func names(n tsl.Node) (l []string) {
	seen := map[string]bool{}
	for _, m := range Tree(n) {
		if m["k"] == "ident" && !seen[string(m["v"].(B))] {
			s := string(m["v"].(B))
			seen[s] = true
			l = append(l, s)
		}
	}
	return l
}

// IdentCase renames what a tree names.
func IdentCase(n tsl.Node, a *IdentArg) M {
	before := treeText(n)
	asked := []B{}
	var r tsl.Node
	var err error
	e := M{}
	p := Guard(func() { r, err = ident.Walk(n, a.Check(&asked)) })
	switch {
	case p != "":
		e["out"], e["why"] = "panic", p
	case err != nil:
		e["out"], e["own"] = "err", errors.Is(err, errRefused)
	default:
		e["out"], e["tree"] = "tree", Tree(r)
	}
	e["asked"], e["same"] = asked, treeText(n) == before
	return e
}

// DotCase draws a tree.
func DotCase(n tsl.Node, a *DotArg) M {
	before := treeText(n)
	in, out := string(a.Before), ""
	var err error
	p := Guard(func() { out, err = graphviz.Walk(in, n, string(a.ID)) })
	e := M{"out": "value", "tree": Tree(n), "dot": B("digraph {\n" + out + "\n}\n"), "same": treeText(n) == before}
	if p != "" {
		e["out"] = "panic"
	} else if err != nil {
		e["out"] = "err"
	}
	return e
}

func init() {
	Exec["ident"] = func(c *Case) M {
		var a IdentArg
		c.Get(&a)
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		return IdentCase(n, &a)
	}
	Exec["dot"] = func(c *Case) M {
		var a DotArg
		c.Get(&a)
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		return DotCase(n, &a)
	}
	texts := func(o *Options, g *G, one func(string)) {
		for i, s := range append(examples, big45(g)...) {
			if o.Share(i) && len(s) < 1500 {
				one(s)
				one(s)
			}
		}
		o.bulky(g, func(s string, _ []Field) { one(s) })
		for i := 0; i < o.N/o.Of; i++ {
			size := 1 + g.Intn(7)
			if g.Chance(5) {
				size = 25
			}
			one(g.Filter(size))
		}
	}
	Modes["ident"] = func(o *Options, do func(Case)) {
		g := o.G()
		texts(o, g, func(s string) {
			n, bad := parse(&Case{S: B(s)})
			if bad != nil {
				return
			}
			a := IdentArg{Ver: Ver, Map: []Name{}, Other: g.Pick("same", "same", "refuse")}
			all := names(n)
			no := g.Chance(20)
			for _, k := range all {
				to := g.Pick(all[g.Intn(len(all))], k, k+"_", "t."+k, "", "a b", "'", "x", "é", "a", "b")
				if g.Chance(85) {
					a.Map = append(a.Map, Name{B(k), B(to), no && g.Chance(40)})
				}
			}
			do(Case{Op: "ident", S: B(s)}.With(a))
		})
	}
	Modes["dot"] = func(o *Options, do func(Case)) {
		g := o.G()
		texts(o, g, func(s string) {
			do(Case{Op: "dot", S: B(s)}.With(DotArg{Ver, B(g.Pick("", "", "root", "a1")), g.DotBefore()}))
		})
	}
}

// DotBefore is a text that a drawing is to follow.
func (g *G) DotBefore() B {
	return B(g.Pick("", "", "", "before [label=\"before\"]", "before", "before [label=\"before\" color=red]\n"))
}
