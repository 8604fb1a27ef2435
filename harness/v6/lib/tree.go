package lib

import (
	"fmt"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// Tree projects a tree through the public API: the list of its nodes, the
// root first, that name their children by their places (from 1) in the list.
func Tree(n *tsl.TSLNode) []M {
	var l []M
	tree(n, &l)
	return l
}

func tree(n *tsl.TSLNode, l *[]M) int {
	m := M{}
	*l = append(*l, m)
	at := len(*l)
	if n == nil {
		m["k"] = "none"
		return at
	}
	v := n.Value()
	m["k"], m["what"] = "odd", fmt.Sprintf("%s %T", n.Type(), v)
	switch n.Type() {
	case tsl.KindNumericLiteral:
		if f, ok := v.(float64); ok {
			m["k"], m["f"] = "num", Float(f)
		}
	case tsl.KindStringLiteral, tsl.KindIdentifier, tsl.KindDateLiteral, tsl.KindTimestampLiteral:
		switch x := v.(type) {
		case string:
			m["k"], m["v"] = kinds[n.Type()], B(x)
		case time.Time:
			m["k"], m["t"] = kinds[n.Type()], Instant(x)
		}
	case tsl.KindBooleanLiteral:
		if b, ok := v.(bool); ok {
			m["k"], m["v"] = "bool", b
		}
	case tsl.KindNullLiteral:
		m["k"] = "null"
	case tsl.KindBinaryExpr:
		if op, ok := v.(tsl.TSLExpressionOp); ok {
			m["k"], m["op"] = "bin", op.Operator.String()
			m["l"] = tree(op.Left, l)
			m["r"] = tree(op.Right, l)
		}
	case tsl.KindUnaryExpr:
		if op, ok := v.(tsl.TSLExpressionOp); ok && op.Left == nil {
			m["k"], m["op"] = "un", op.Operator.String()
			m["r"] = tree(op.Right, l)
		}
	case tsl.KindArrayLiteral:
		if a, ok := v.(tsl.TSLArrayLiteral); ok {
			e := make([]int, len(a.Values))
			for i, x := range a.Values {
				e[i] = tree(x, l)
			}
			m["k"], m["e"] = "arr", e
		}
	}
	if m["k"] != "odd" {
		delete(m, "what")
	}
	return at
}

var kinds = map[tsl.Kind]string{
	tsl.KindStringLiteral: "str", tsl.KindIdentifier: "ident", tsl.KindDateLiteral: "date",
	tsl.KindTimestampLiteral: "ts",
}

// Outcome adds the projection of a parse result to e.
func Outcome(e M, n *tsl.TSLNode, err error) {
	switch {
	case n != nil && err != nil:
		e["out"] = "both"
	case n == nil && err == nil:
		e["out"] = "neither"
	case err != nil:
		e["out"] = "err"
		var text string
		if p := Guard(func() { text = err.Error() }); p != "" {
			e["out"] = "panic"
			e["why"] = "Error(): " + p
			return
		}
		se, ok := err.(*tsl.SyntaxError)
		e["syn"] = ok
		if ok {
			e["msg"] = B(se.Message)
			e["pos"] = se.Position
			e["ctx"] = B(se.Context)
			e["input"] = B(se.Input)
			e["text"] = B(text)
		}
	default:
		e["out"] = "tree"
		var t []M
		if p := Guard(func() { t = Tree(n) }); p != "" {
			e["out"] = "panic"
			e["why"] = "reading the tree: " + p
			return
		}
		e["tree"] = t
	}
}
