package lib

import "github.com/yaacov/tree-search-language/v6/pkg/tsl"

// CloneArg is the way from the root to the part taken out and put back.
type CloneArg struct {
	Path []int `json:"path"`
}

// kids gives borrowed handles of the children.
func kids(n *tsl.TSLNode) []*tsl.TSLNode {
	if n == nil {
		return nil
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if n.Type() == tsl.KindUnaryExpr {
			return []*tsl.TSLNode{v.Right}
		}
		return []*tsl.TSLNode{v.Left, v.Right}
	case tsl.TSLArrayLiteral:
		return v.Values
	}
	return nil
}

// owner gives the node above the end of the way, and the last step.
func owner(n *tsl.TSLNode, path []int) (*tsl.TSLNode, int) {
	if len(path) == 0 {
		return nil, 0
	}
	for _, p := range path[:len(path)-1] {
		k := kids(n)
		if p > len(k) {
			return nil, 0
		}
		n = k[p-1]
	}
	return n, path[len(path)-1]
}

// detach takes the i-th child out; the calls that do not fit must refuse and
// are made first.
func detach(n *tsl.TSLNode, i int, wrong *bool) *tsl.TSLNode {
	if n == nil {
		return nil
	}
	refused := func(x *tsl.TSLNode) {
		if x != nil && x.Type() >= 0 {
			*wrong = true
		}
	}
	switch n.Type() {
	case tsl.KindBinaryExpr:
		refused(n.DetachChild())
		if i == 1 {
			return n.DetachLeft()
		}
		return n.DetachRight()
	case tsl.KindUnaryExpr:
		refused(n.DetachLeft())
		refused(n.DetachRight())
		return n.DetachChild()
	}
	refused(n.DetachChild())
	refused(n.DetachLeft())
	refused(n.DetachRight())
	return nil
}

func attach(n *tsl.TSLNode, i int, x *tsl.TSLNode, wrong *bool) bool {
	if n == nil {
		return false
	}
	refused := func(did bool) {
		if did {
			*wrong = true
		}
	}
	switch n.Type() {
	case tsl.KindBinaryExpr:
		refused(n.AttachChild(x))
		if i == 1 {
			return n.AttachLeft(x)
		}
		return n.AttachRight(x)
	case tsl.KindUnaryExpr:
		refused(n.AttachLeft(x))
		refused(n.AttachRight(x))
		return n.AttachChild(x)
	}
	refused(n.AttachChild(x))
	refused(n.AttachLeft(x))
	refused(n.AttachRight(x))
	return false
}

func (g *Gen) way(n *tsl.TSLNode) []int {
	p := []int{}
	for {
		k := kids(n)
		if len(k) == 0 || (len(p) > 0 && g.Chance(25)) {
			return p
		}
		i := g.Intn(len(k))
		p = append(p, i+1)
		n = k[i]
	}
}

func init() {
	Exec["clone"] = func(c *Case) M {
		var a CloneArg
		c.Get(&a)
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		e, got := M{"out": "done"}, M{}
		wrong := false
		attached := false
		p := Guard(func() {
			c1 := n.Clone()
			got["clone"], got["source"] = Tree(c1), Tree(n)
			o, i := owner(n, a.Path)
			part := detach(o, i, &wrong)
			got["part"], got["rest"], got["clone2"] = Tree(part), Tree(n), Tree(c1)
			n.Free()
			part.Free()
			part.Free()
			got["clone3"] = Tree(c1)
			// a part of a clone of the clone moves into the clone
			c2 := c1.Clone()
			o, i = owner(c2, a.Path)
			part = detach(o, i, &wrong)
			got["rest2"] = Tree(c2)
			o, i = owner(c1, a.Path)
			if part != nil {
				attached = attach(o, i, part, &wrong)
			} else if o != nil && o.Type() != tsl.KindArrayLiteral {
				wrong = true
			} else if o != nil {
				attached = attach(o, i, c2, &wrong)
			}
			got["joined"] = Tree(c1)
			c2.Free()
			got["joined2"] = Tree(c1)
			// a whole tree in place of the part
			c3 := c1.Clone()
			if len(a.Path) == 0 {
				got["deep"] = Tree(c3)
				c3.Free()
			} else {
				o, i = owner(c1, a.Path)
				if o.Type() == tsl.KindArrayLiteral {
					if !o.AttachElement(i-1, c3) {
						wrong = true
					}
				} else if !attach(o, i, c3, &wrong) {
					wrong = true
				}
				got["deep"] = Tree(c1)
			}
			c1.Free()
		})
		if p != "" {
			e["out"], e["why"] = "panic", p
		}
		e["got"], e["wrong"], e["attached"] = got, wrong, attached
		return e
	}
	Modes["clone"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		one := func(s string) {
			if n, err := tsl.ParseTSL(s); err == nil {
				w := g.way(n)
				n.Free()
				do(Case{Op: "clone", S: B(s)}.With(CloneArg{w}))
			}
		}
		for i, s := range append(append([]string{}, Corpus...), places()...) {
			if o.Share(i) {
				one(s)
			}
		}
		for i, s := range huge(g) {
			if o.Share(i) && len(s) < 2000 {
				one(s)
			}
		}
		o.bulky(g, one)
		for i := 0; i < o.N/o.Of; i++ {
			if g.Chance(50) {
				t := &TGen{Gen: g, Arrays: true}
				t.Record()
				one(t.ArrayFilter(2))
			} else {
				one(g.Sentence(1 + g.Intn(12)))
			}
		}
	}
}
