package lib

import (
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

// SQLCase is the outcome of making SQL of a tree.
func SQLCase(n *tsl.TSLNode) M {
	e := M{}
	var text string
	var args []interface{}
	var err error
	p := Guard(func() {
		s, e := sql.Walk(n)
		if err = e; err == nil {
			text, args, err = s.ToSql()
		}
	})
	switch {
	case p != "":
		e["out"], e["why"] = "panic", p
	case err != nil:
		e["out"] = "err"
	default:
		a := make([]M, len(args))
		for i, v := range args {
			a[i] = Val(v, true)
		}
		e["out"], e["sql"], e["args"] = "value", B(text), a
	}
	return e
}

// rawSQL gives the arguments as they are.
func rawSQL(n *tsl.TSLNode) (text string, args []interface{}) {
	if s, err := sql.Walk(n); err == nil {
		text, args, _ = s.ToSql()
	}
	return text, args
}

func init() {
	Exec["sql"] = func(c *Case) M {
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		defer n.Free()
		return SQLCase(n)
	}
	sqlText := func(g *Gen) string {
		switch g.Intn(10) {
		case 0:
			return g.Sentence(3 + g.Intn(20)) // often without SQL
		case 1, 2, 3:
			t := &TGen{Gen: g}
			t.Record()
			return t.Bool(1 + g.Intn(3))
		}
		return g.SQLFilter(1 + g.Intn(12))
	}
	Modes["sql"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i, s := range append(append([]string{}, Corpus...), nestings()...) {
			if o.Share(i) {
				do(Case{Op: "sql", S: B(s)})
			}
		}
		o.bulky(g, func(s string) { do(Case{Op: "sql", S: B(s)}) })
		for i := 0; i < o.N/o.Of; i++ {
			do(Case{Op: "sql", S: B(sqlText(g))})
		}
	}
	Modes["sqlargs"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i, s := range Literals() {
			if n, err := tsl.ParseTSL(s); err == nil {
				n.Free()
				if o.Share(i) {
					do(Case{Op: "sql", S: B(s)})
				}
			}
		}
		o.bulky(g, func(s string) { do(Case{Op: "sql", S: B(s)}) })
		g.hot = 80
		for i := 0; i < o.N/o.Of; i++ {
			s := sqlText(g)
			if g.Chance(40) {
				// hostile texts
				v := g.Quote(g.Pick("' OR '1'='1", "?", "??", "$1", ":a", "%s", "'; DROP TABLE x; --", "\\", "\x00a"[1:], "/*", "a'b", "?, ?", "\"", "`", ")", "@p1", "{0}", "", "NULL", "1=1", g.Unquoted()))
				s = g.Pick("a = "+v, "a in ["+v+", "+g.Leaf()+", "+v+"]", "a like "+v+" and ("+s+")", v+" = b", "a between "+v+" and "+v, "not (a ~= "+v+" or b ~! "+v+")", "- (a + "+v+") * "+g.Leaf()+" < 1")
			}
			if n, err := tsl.ParseTSL(s); err == nil {
				n.Free()
				do(Case{Op: "sql", S: B(s)})
			}
		}
	}
}

// nestings puts every operator under every operator, on both sides.
func nestings() []string {
	ops := []string{"X = Y", "X != Y", "X < Y", "X <= Y", "X > Y", "X >= Y", "X ~= Y", "X ~! Y", "X like Y", "X ilike Y", "X not like Y", "X in [Y, Z]",
		"X not in [Y]", "X in []", "X between Y and Z", "X not between Y and Z", "X is null", "X is not null", "X and Y", "X or Y", "not X", "- X", "X + Y", "X - Y",
		"X * Y", "X / Y", "X % Y"}
	fill := func(f, x, y, z string) string {
		return strings.NewReplacer("X", x, "Y", y, "Z", z).Replace(f)
	}
	var r []string
	for _, f := range ops {
		for _, h := range ops {
			in := "(" + fill(h, "a", "1", "'u'") + ")"
			in2 := "(" + fill(h, "2", "b", "true") + ")"
			r = append(r, fill(f, in, "c", "3"), fill(f, "d", in, in2), fill(f, in2, in, "e"))
		}
	}
	return r
}

// SQLFilter is a filter without arrays but as lists.
func (g *Gen) SQLFilter(size int) string {
	g.budget = size
	return g.sqlExpr()
}

func (g *Gen) sqlExpr() string {
	g.budget--
	if g.budget <= 0 {
		return g.Leaf()
	}
	sub := func() string {
		s := g.sqlExpr()
		if strings.ContainsAny(s, " ") && g.Chance(90) {
			return "(" + s + ")"
		}
		return s
	}
	switch g.Intn(14) {
	case 0, 1:
		return sub() + g.Pick(" and ", " and ", " AND ") + sub()
	case 2, 3:
		return sub() + " or " + sub()
	case 4:
		return "not (" + g.sqlExpr() + ")"
	case 5:
		return sub() + g.Pick(" is null", " is not null")
	case 6, 7:
		n := g.Intn(4)
		e := make([]string, n)
		for i := range e {
			e[i] = sub()
		}
		return sub() + g.Pick(" in [", " not in [") + strings.Join(e, ", ") + "]"
	case 8:
		return sub() + g.Pick(" between ", " not between ") + sub() + " and " + sub()
	case 9:
		return sub() + g.Pick(" like ", " ilike ", " not like ", " not ilike ", " ~= ", " ~! ") + sub()
	case 10:
		return "- (" + g.sqlExpr() + ")"
	case 11, 12:
		return sub() + g.Pick(" + ", " - ", " * ", " / ", " % ") + sub()
	}
	return sub() + g.Pick(" = ", " != ", " <> ", " < ", " <= ", " > ", " >= ") + sub()
}
