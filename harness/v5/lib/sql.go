package lib

import (
	"fmt"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

// SQL is the outcome of making SQL of a tree.
func SQL(n tsl.Node) M {
	var text string
	var args []interface{}
	var err error
	p := Guard(func() {
		s, e := sql.Walk(n)
		if err = e; err == nil {
			text, args, err = s.ToSql()
		}
	})
	switch {
	case p != "":
		return M{"out": "panic", "why": p}
	case err != nil:
		if t := Guard(func() { _ = err.Error() }); t != "" {
			return M{"out": "panic", "why": "Error(): " + t}
		}
		return M{"out": "err"}
	}
	a := make([]M, len(args))
	for i, v := range args {
		a[i] = Val(v, true)
	}
	return M{"out": "value", "sql": B(text), "args": a}
}

// SQLCase makes SQL of a tree, twice.
func SQLCase(n tsl.Node) M {
	before := treeText(n)
	e := SQL(n)
	e["same"] = fmt.Sprint(e) == fmt.Sprint(SQL(n)) && treeText(n) == before
	e["tree"] = Tree(n)
	return e
}

func init() {
	Exec["sql"] = func(c *Case) M {
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		return SQLCase(n)
	}
	Modes["sql"] = func(o *Options, do func(Case)) {
		g := o.G()
		one := func(s string) { do(Case{Op: "sql", S: B(s)}.With(VerArg{Ver})) }
		for i, s := range append(examples, big45(g)...) {
			if o.Share(i) {
				one(s)
			}
		}
		o.bulky(g, func(s string, _ []Field) { one(s) })
		for i := 0; i < o.N/o.Of; i++ {
			if g.Chance(70) {
				one(g.Filter(1 + g.Intn(6)))
			} else {
				t := NewT45(g)
				one(t.Filter(1 + g.Intn(5)))
			}
		}
	}
}
