package lib

import (
	"fmt"
	"math/rand"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// ShareArg says who reads a tree at the same time: G goroutines, N times each.
type ShareArg struct {
	Recs [][]Field `json:"recs"`
	IdentArg
	G    int   `json:"g"`
	N    int   `json:"n"`
	Seed int64 `json:"seed"`
}

func init() {
	Exec["share"] = func(c *Case) M {
		var a ShareArg
		c.Get(&a)
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		recs := make([]map[string]interface{}, len(a.Recs))
		for i := range recs {
			recs[i] = makeRec(a.Recs[i])
		}
		e := M{"out": "done", "tree": Tree(n)}
		if Yield != nil {
			Yield(true)
			defer Yield(false)
		}
		e["outs"] = together(a.G, func(g int, s seen) {
			r := rand.New(rand.NewSource(a.Seed*100 + int64(g)))
			for i := 0; i < a.N; i++ {
				var k string
				var o M
				p := Guard(func() {
					switch x := r.Intn(10); x {
					case 0:
						k, o = "sql1", SQLCase(n)
					case 1:
						k, o = "doc1", DocCase(n)
					case 2:
						k, o = "dot1", DotCase(n, DotArg{})
					case 3:
						k, o = "ident1", IdentCase(n, &a.IdentArg)
					case 4:
						m := n.Clone()
						k, o = "tree1", M{"tree": Tree(m)}
						m.Free()
					case 5:
						k, o = "tree1", M{"tree": Tree(n)}
					default:
						j := x % len(recs)
						k, o = fmt.Sprintf("eval%d", j+1), EvalCase(n, recs[j])
					}
				})
				if p != "" {
					k, o = "panic1", M{"why": p}
				}
				s.add(k, 3, o)
			}
		})
		e["after"] = Tree(n)
		n.Free()
		return e
	}
	Modes["share"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i := 0; i < o.N/o.Of; i++ {
			t := &TGen{Gen: g, Arrays: g.Chance(30)}
			a := ShareArg{G: 4 + g.Intn(13), N: 40, Seed: g.Int63()}
			for j := 0; j < 3; j++ {
				t.Rec = nil
				t.Record()
				a.Recs = append(a.Recs, t.Rec)
			}
			s := ""
			switch g.Intn(5) {
			case 0:
				s = t.ArrayFilter(1 + g.Intn(2))
			case 1:
				s = g.SQLFilter(2 + g.Intn(10))
			default:
				s = t.Bool(1 + g.Intn(3))
			}
			n, err := tsl.ParseTSL(s)
			if err != nil {
				continue
			}
			a.Map, a.Other = g.Mapping(idNames(n)), g.Pick("same", "same", "refuse")
			n.Free()
			do(Case{Op: "share", S: B(s)}.With(a))
		}
	}
}
