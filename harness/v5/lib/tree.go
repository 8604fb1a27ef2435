package lib

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

var binary = map[string]string{"$eq": "EQ", "$ne": "NE", "$lt": "LT", "$lte": "LE", "$gt": "GT", "$gte": "GE", "$regex": "REQ",
	"$nregex": "RNE", "$like": "LIKE", "$ilike": "ILIKE", "$in": "IN", "$nin": "NOT IN", "$between": "BETWEEN",
	"$nbetween": "NOT BETWEEN", "$and": "AND", "$or": "OR", "$add": "ADD", "$subtract": "SUB", "$multiply": "MUL",
	"$divide": "DIV", "$modulo": "MOD"}
var unary = map[string]string{"$not": "NOT", "$nexists": "IS NULL", "$exists": "IS NOT NULL"}

// Tree lists the nodes of a tree, the root first; nodes name their children by
// their places (from 1) in the list.
func Tree(n interface{}) []M {
	var l []M
	tree(n, &l)
	return l
}

func tree(x interface{}, l *[]M) int {
	m := M{}
	*l = append(*l, m)
	at := len(*l)
	m["k"], m["what"] = "odd", fmt.Sprintf("%T", x)
	n, ok := x.(tsl.Node)
	if !ok {
		return at
	}
	m["what"] = fmt.Sprintf("%s %T %T", n.Func, n.Left, n.Right)
	switch n.Func {
	case "$ident", "$string":
		if s, ok := n.Left.(string); ok && n.Right == nil {
			m["k"], m["v"] = map[string]string{"$ident": "ident", "$string": "str"}[n.Func], B(s)
		}
	case "$number":
		if f, ok := n.Left.(float64); ok && n.Right == nil {
			m["k"], m["f"] = "num", Float(f)
		}
	case "$boolean":
		if b, ok := n.Left.(bool); ok && n.Right == nil {
			m["k"], m["v"] = "bool", b
		}
	case "$date":
		if t, ok := n.Left.(time.Time); ok && n.Right == nil {
			m["k"], m["t"] = "date", Instant(t)
		}
	case "$array":
		if a, ok := n.Right.([]tsl.Node); ok && n.Left == nil {
			e := make([]int, len(a))
			for i := range a {
				e[i] = tree(a[i], l)
			}
			m["k"], m["e"] = "arr", e
		}
	default:
		if op := binary[n.Func]; op != "" {
			m["k"], m["op"] = "bin", op
			m["l"] = tree(n.Left, l)
			m["r"] = tree(n.Right, l)
		}
		if op := unary[n.Func]; op != "" && n.Right == nil {
			m["k"], m["op"] = "un", op
			m["r"] = tree(n.Left, l)
		}
	}
	if m["k"] != "odd" {
		delete(m, "what")
	}
	return at
}

// Outcome adds the projection of a parse result to e.
func Outcome(e M, n tsl.Node, err error) {
	if err != nil {
		e["out"] = "err"
		var text string
		if p := Guard(func() { text = err.Error() }); p != "" {
			e["out"], e["why"] = "panic", "Error(): "+p
			return
		}
		e["text"], e["msg"] = B(text), len(text)
		return
	}
	e["out"] = "tree"
	var t []M
	if p := Guard(func() { t = Tree(n) }); p != "" {
		e["out"], e["why"] = "panic", "reading the tree: "+p
		return
	}
	e["tree"] = t
}

// parse reads a filter, or puts its tree together; the outcome is nil if it is a filter.
func parse(c *Case) (n tsl.Node, e M) {
	var err error
	p := Guard(func() {
		if c.Made != nil {
			var m Made
			if err = json.Unmarshal(c.Made, &m); err == nil {
				n, err = m.Tree()
			}
		} else {
			n, err = tsl.ParseTSL(string(c.S))
		}
	})
	if p != "" {
		return n, M{"out": "panic", "why": p}
	}
	if err != nil {
		return n, M{"out": "noparse"}
	}
	return n, nil
}

// VerArg tells the specification which version this is.
type VerArg struct {
	Ver int `json:"ver"`
}

func init() {
	Exec["parse"] = func(c *Case) M {
		e := M{}
		var n tsl.Node
		var err error
		if p := Guard(func() { n, err = tsl.ParseTSL(string(c.S)) }); p != "" {
			return M{"out": "panic", "why": p}
		}
		Outcome(e, n, err)
		return e
	}
}
