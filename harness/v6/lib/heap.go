package lib

import (
	"fmt"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// Operations on trees: what Heap6 specifies.

// HeapOp is an operation of a behaviour of MCHeap6.
type HeapOp struct {
	O   string `json:"o"`
	X   int    `json:"x"`
	W   string `json:"w"`
	P   int    `json:"p"`
	Y   int    `json:"y"`
	T   int    `json:"t"`
	See []int  `json:"see"`
}

type HeapArg struct {
	Ops []HeapOp `json:"ops"`
	Own []int    `json:"own"` // a handle for each tree left: freed at the end
}

// HeapTexts are the filters that Heap6!Trees are the trees of.
var HeapTexts = []string{"a = 1", "not a", "a in [1, a]", "'s'", "- a and not 1", "[[a], 1]"}

// Reads is what a node reads as.
func Reads(n *tsl.TSLNode) M {
	m := M{"k": "none", "c": "", "kids": []M{}}
	if n == nil || n.Type() < 0 {
		return m
	}
	m["k"] = "leaf"
	v := n.Value()
	switch n.Type() {
	case tsl.KindBinaryExpr:
		op := v.(tsl.TSLExpressionOp)
		m["k"], m["c"], m["kids"] = "bin", op.Operator.String(), []M{Reads(op.Left), Reads(op.Right)}
	case tsl.KindUnaryExpr:
		op := v.(tsl.TSLExpressionOp)
		m["k"], m["c"], m["kids"] = "un", op.Operator.String(), []M{Reads(op.Right)}
	case tsl.KindArrayLiteral:
		kids := []M{}
		for _, x := range v.(tsl.TSLArrayLiteral).Values {
			kids = append(kids, Reads(x))
		}
		m["k"], m["kids"] = "arr", kids
	case tsl.KindIdentifier:
		m["c"] = fmt.Sprintf("ident %v", v)
	case tsl.KindNumericLiteral:
		m["c"] = fmt.Sprintf("num %v", v)
	case tsl.KindStringLiteral:
		m["c"] = fmt.Sprintf("str %v", v)
	default:
		m["k"] = fmt.Sprint("odd ", n.Type())
	}
	return m
}

// Borrow gives the p-th child of a node.
func Borrow(n *tsl.TSLNode, p int) *tsl.TSLNode {
	if n == nil {
		return nil
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		kids := []*tsl.TSLNode{v.Left, v.Right}
		if n.Type() == tsl.KindUnaryExpr {
			kids = kids[1:]
		}
		if p <= len(kids) {
			return kids[p-1]
		}
	case tsl.TSLArrayLiteral:
		if p <= len(v.Values) {
			return v.Values[p-1]
		}
	}
	return nil
}

// Handles are the nodes a program holds.
type Handles []*tsl.TSLNode

// Do does one operation and says how it came out.
func (h *Handles) Do(o *HeapOp) string {
	hold := func(n *tsl.TSLNode) string {
		*h = append(*h, n)
		if n == nil || n.Type() < 0 {
			return "nil"
		}
		return "ok"
	}
	at := func(i int) *tsl.TSLNode { return (*h)[i-1] }
	yes := map[bool]string{true: "yes", false: "no"}
	switch o.O {
	case "parse":
		n, err := tsl.ParseTSL(HeapTexts[o.T-1])
		if err != nil {
			return "error " + err.Error()
		}
		return hold(n)
	case "clone":
		return hold(at(o.X).Clone())
	case "borrow":
		return hold(Borrow(at(o.X), o.P))
	case "detach":
		switch o.W {
		case "left":
			return hold(at(o.X).DetachLeft())
		case "right":
			return hold(at(o.X).DetachRight())
		default:
			return hold(at(o.X).DetachChild())
		}
	case "attach":
		switch o.W {
		case "left":
			return yes[at(o.X).AttachLeft(at(o.Y))]
		case "right":
			return yes[at(o.X).AttachRight(at(o.Y))]
		case "element":
			return yes[at(o.X).AttachElement(o.P-1, at(o.Y))]
		default:
			return yes[at(o.X).AttachChild(at(o.Y))]
		}
	case "free":
		at(o.X).Free()
		return "ok"
	}
	return "unknown operation"
}

func init() {
	Exec["heap"] = func(c *Case) M {
		var a HeapArg
		c.Get(&a)
		h := Handles{}
		steps := []M{}
		e := M{"out": "done"}
		if p := Guard(func() {
			for i := range a.Ops {
				o := &a.Ops[i]
				s := M{"r": h.Do(o), "see": o.See}
				trees := []M{}
				for _, x := range o.See {
					if x > len(h) {
						trees = append(trees, M{"k": "missing"})
						continue
					}
					trees = append(trees, Reads(h[x-1]))
				}
				s["trees"] = trees
				steps = append(steps, s)
			}
			for _, x := range a.Own {
				h[x-1].Free()
			}
		}); p != "" {
			e["out"], e["why"] = "panic", p
		}
		e["steps"] = steps
		return e
	}
}
