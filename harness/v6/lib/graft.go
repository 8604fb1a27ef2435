package lib

import "github.com/yaacov/tree-search-language/v6/pkg/tsl"

// Graft puts the part of another filter's tree at a place of the tree.
type Graft struct {
	At   []int `json:"at"`   // the place, from the root
	S    B     `json:"s"`    // the other filter
	From []int `json:"from"` // the part of its tree
}

// GraftArg says what is put where, and what the tree is used for.
type GraftArg struct {
	Steps []Graft `json:"steps"`
	Rec   []Field `json:"rec"`
	IdentArg
}

func at(n *tsl.TSLNode, path []int) *tsl.TSLNode {
	for _, p := range path {
		k := kids(n)
		if p > len(k) {
			return nil
		}
		n = k[p-1]
	}
	return n
}

func put(o *tsl.TSLNode, i int, x *tsl.TSLNode) bool {
	switch {
	case o == nil:
		return false
	case o.Type() == tsl.KindArrayLiteral:
		return o.AttachElement(i-1, x)
	case o.Type() == tsl.KindUnaryExpr:
		return o.AttachChild(x)
	case i == 1:
		return o.AttachLeft(x)
	}
	return o.AttachRight(x)
}

func walks(n *tsl.TSLNode, a *GraftArg, e M) {
	e["eval"] = EvalCase(n, makeRec(a.Rec))
	e["sql"] = SQLCase(n)
	e["ident"] = IdentCase(n, &a.IdentArg)
	e["dot"] = DotCase(n, DotArg{})
	e["doc"] = DocCase(n)
}

// graft takes the steps; the other filters' trees are freed where free says.
func graft(n *tsl.TSLNode, steps []Graft) string {
	for j, g := range steps {
		m, err := tsl.ParseTSL(string(g.S))
		if err != nil {
			return "noparse"
		}
		var x *tsl.TSLNode
		o, i := owner(m, g.From)
		if j%2 == 0 && o != nil && o.Type() != tsl.KindArrayLiteral {
			wrong := false
			x = detach(o, i, &wrong)
		} else {
			x = at(m, g.From).Clone()
		}
		if j%3 != 1 {
			m.Free()
		}
		o, i = owner(n, g.At)
		if !put(o, i, x) {
			return "refused"
		}
		if j%3 == 1 {
			m.Free()
		}
	}
	return "done"
}

func init() {
	Exec["graft"] = func(c *Case) M {
		var a GraftArg
		c.Get(&a)
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		e := M{}
		p := Guard(func() {
			e["out"] = graft(n, a.Steps)
			e["tree"] = Tree(n)
			walks(n, &a, e)
			e["clone"] = Tree(n.Clone())
			// with the last part taken out again
			g := a.Steps[len(a.Steps)-1]
			wrong := false
			o, i := owner(n, g.At)
			h := M{}
			detach(o, i, &wrong).Free()
			h["tree"] = Tree(n)
			walks(n, &a, h)
			h["after"] = Tree(n)
			e["hole"] = h
			n.Free()
		})
		if p != "" {
			e["out"], e["why"] = "panic", p
		}
		return e
	}
	Modes["graft"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i := 0; i < o.N/o.Of; i++ {
			t := &TGen{Gen: g, Arrays: g.Chance(30), Bad: 4}
			if g.Chance(60) {
				t.Bad = 0
			}
			t.Record()
			text := func(top bool) string {
				switch g.Intn(8) {
				case 0, 1, 2:
					return t.Bool(1 + g.Intn(3))
				case 3:
					return t.ArrayFilter(1 + g.Intn(2))
				case 4:
					return g.Sentence(2 + g.Intn(8))
				case 5:
					if !top {
						return t.Leaf()
					}
				case 6:
					if !top {
						return t.Num(1 + g.Intn(2))
					}
				}
				return g.SQLFilter(2 + g.Intn(8))
			}
			s := text(true)
			n, err := tsl.ParseTSL(s)
			if err != nil {
				continue
			}
			a := GraftArg{Rec: t.Rec, Steps: []Graft{}}
			for j := 1 + g.Intn(3); j > 0; j-- {
				q := text(false)
				m, err := tsl.ParseTSL(q)
				if err != nil {
					continue
				}
				from := g.way(m)
				if g.Chance(40) {
					from = []int{}
				}
				to := g.way(n)
				for k := 0; k < 5 && len(to) == 0; k++ {
					to = g.way(n)
				}
				if len(to) == 0 {
					m.Free()
					continue
				}
				a.Steps = append(a.Steps, Graft{to, B(q), from})
				x := at(m, from).Clone()
				m.Free()
				ow, i := owner(n, to)
				put(ow, i, x)
			}
			if len(a.Steps) > 0 {
				a.Map, a.Other = g.Mapping(idNames(n)), g.Pick("same", "same", "refuse")
				do(Case{Op: "graft", S: B(s)}.With(a))
			}
			n.Free()
		}
	}
}
