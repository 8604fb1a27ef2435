package lib

import (
	"fmt"
	"math/rand"
)

// ShareArg says who reads a tree at the same time: G goroutines, N times each.
type ShareArg struct {
	Ver   int       `json:"ver"`
	Recs  [][]Field `json:"recs"`
	Ident IdentArg  `json:"ident"`
	Dot   DotArg    `json:"dot"`
	G     int       `json:"g"`
	N     int       `json:"n"`
	Seed  int64     `json:"seed"`
}

func init() {
	Exec["share"] = func(c *Case) M {
		var a ShareArg
		c.Get(&a)
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		e := M{"out": "done", "tree": Tree(n)}
		e["outs"] = together(a.G, func(g int, s seen) {
			r := rand.New(rand.NewSource(a.Seed*100 + int64(g)))
			for i := 0; i < a.N; i++ {
				var k string
				var o M
				p := Guard(func() {
					switch x := r.Intn(10); x {
					case 0, 9:
						k, o = "sql1", SQLCase(n)
					case 1:
						k, o = "mongo1", MongoCase(n)
					case 2:
						k, o = "dot1", DotCase(n, &a.Dot)
					case 3:
						k, o = "ident1", IdentCase(n, &a.Ident)
					case 4:
						k, o = "tree1", M{"tree": Tree(n)}
					default:
						j := x % len(a.Recs)
						k, o = fmt.Sprintf("eval%d", j+1), EvalCase(n, makeRec(a.Recs[j]))
					}
				})
				if p != "" {
					k, o = "panic1", M{"why": p}
				}
				s.add(k, 3, o)
			}
		})
		e["after"] = Tree(n)
		return e
	}
	Modes["share"] = func(o *Options, do func(Case)) {
		g := o.G()
		for i := 0; i < o.N/o.Of; i++ {
			t := NewT45(g)
			if g.Chance(50) {
				t.Bad = 0
			}
			s := t.Filter(1 + g.Intn(6))
			if g.Chance(25) {
				s = g.Filter(1 + g.Intn(6))
			}
			n, bad := parse(&Case{S: B(s)})
			if bad != nil {
				continue
			}
			a := ShareArg{Ver: Ver, G: 4 + g.Intn(13), N: 30, Seed: g.Int63(), Recs: [][]Field{t.Rec}}
			a.Dot = DotArg{Ver, B(g.Pick("", "", "root")), g.DotBefore()}
			a.Ident = IdentArg{Ver: Ver, Map: []Name{}, Other: g.Pick("same", "same", "refuse")}
			for j := 0; j < 2; j++ {
				r := append([]Field{}, t.Rec...)
				for k := range r {
					if g.Chance(40) {
						r[k] = F(string(r[k].N), t.anyFV(false))
					}
				}
				a.Recs = append(a.Recs, r)
			}
			for _, k := range names(n) {
				if g.Chance(80) {
					a.Ident.Map = append(a.Ident.Map, Name{B(k), B(g.Pick(k, k+"_", "a", "x y")), g.Chance(5)})
				}
			}
			do(Case{Op: "share", S: B(s)}.With(a))
		}
	}
}
