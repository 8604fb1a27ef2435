package lib

import (
	"encoding/json"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
)

// Made is a tree put together by hand: of two trees, of the negation of one,
// or the tree of a text.
type Made struct {
	Op   string `json:"op"` // $and, $or, $not, or nothing
	L    *Made  `json:"l,omitempty"`
	R    *Made  `json:"r,omitempty"`
	S    B      `json:"s"`
	Used bool   `json:"used,omitempty"` // walk it before
	Copy bool   `json:"copy,omitempty"` // take what renaming nothing gives
	Same bool   `json:"same,omitempty"` // the right is the very same tree as the left
}

// Text is the filter the tree reads as.
func (m *Made) Text() string {
	switch m.Op {
	case tsl.AndOp:
		return "(" + m.L.Text() + ") and (" + m.R.Text() + ")"
	case tsl.OrOp:
		return "(" + m.L.Text() + ") or (" + m.R.Text() + ")"
	case tsl.NotOp:
		return "not (" + m.L.Text() + ")"
	}
	return string(m.S)
}

// Tree puts the tree together.
func (m *Made) Tree() (n tsl.Node, err error) {
	if m.Op == "" {
		n, err = tsl.ParseTSL(string(m.S))
	} else {
		n.Func = m.Op
		var l, r tsl.Node
		if l, err = m.L.Tree(); err != nil {
			return
		}
		n.Left = l
		if m.Op != tsl.NotOp {
			r = l
			if !m.Same {
				if r, err = m.R.Tree(); err != nil {
					return
				}
			}
			n.Right = r
		}
	}
	if err == nil && m.Used {
		SQL(n)
	}
	if err == nil && m.Copy {
		n, err = ident.Walk(n, func(s string) (string, error) { return s, nil })
	}
	return
}

// made gives the cases, with trees put together of those of several.
func made(o *Options, do func(Case)) func(Case) {
	g := o.G()
	var last []*Made
	return func(c Case) {
		if c.Made != nil || len(c.S) > 1500 {
			return
		}
		if _, bad := parse(&c); bad != nil {
			return
		}
		m := &Made{S: c.S, Used: g.Chance(20), Copy: g.Chance(20)}
		if len(last) < 40 {
			last = append(last, m)
		} else {
			last[g.Intn(len(last))] = m
		}
		for i := 1 + g.Intn(4); i > 0; i-- {
			m = &Made{Op: g.Pick(tsl.AndOp, tsl.AndOp, tsl.OrOp, tsl.OrOp, tsl.NotOp), L: m, Used: g.Chance(20), Copy: g.Chance(20)}
			if m.Op != tsl.NotOp {
				if m.Same = g.Chance(15); m.Same {
					m.R = m.L
				} else if m.R = last[g.Intn(len(last))]; g.Chance(50) {
					m.L, m.R = m.R, m.L
				}
			}
		}
		if s := m.Text(); len(s) < 2500 {
			c.S = B(s)
			c.Made, _ = json.Marshal(m)
			do(c)
		}
	}
}

func init() {
	Wrappers["made"] = made
}
