package lib

import (
	"fmt"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
)

// bsonOf reads a query document back from the bytes a server would get.
func bsonOf(v interface{}) M {
	list := func(a []interface{}) M {
		e := make([]M, len(a))
		for i := range a {
			e[i] = bsonOf(a[i])
		}
		return M{"t": "arr", "e": e}
	}
	switch v := v.(type) {
	case bson.D:
		e := make([]M, len(v))
		for i := range v {
			e[i] = M{"k": B(v[i].Key), "v": bsonOf(v[i].Value)}
		}
		return M{"t": "doc", "e": e}
	case bson.A:
		return list(v)
	case primitive.Regex:
		return M{"t": "re", "p": B(v.Pattern), "o": B(v.Options)}
	case primitive.DateTime:
		return Val(v.Time().UTC(), true)
	}
	return Val(v, true)
}

// Mongo is the outcome of making a query document of a tree.
func Mongo(n tsl.Node) M {
	var d bson.D
	var err error
	p := Guard(func() { d, err = mongo.Walk(n) })
	switch {
	case p != "":
		return M{"out": "panic", "why": p}
	case err != nil:
		if t := Guard(func() { _ = err.Error() }); t != "" {
			return M{"out": "panic", "why": "Error(): " + t}
		}
		return M{"out": "err"}
	}
	var back bson.D
	p = Guard(func() {
		var b []byte
		if b, err = bson.Marshal(d); err == nil {
			err = bson.Unmarshal(b, &back)
		}
	})
	if p != "" || err != nil {
		return M{"out": "refused", "why": fmt.Sprint(p, err)}
	}
	return M{"out": "value", "doc": bsonOf(back)}
}

// RowsArg holds records.
type RowsArg struct {
	Ver  int       `json:"ver"`
	Rows [][]Field `json:"rows"`
}

// MongoCase makes a query document of a tree, twice.
func MongoCase(n tsl.Node) M {
	before := treeText(n)
	e := Mongo(n)
	e["same"] = fmt.Sprint(e) == fmt.Sprint(Mongo(n)) && treeText(n) == before
	return e
}

func init() {
	Exec["mongo"] = func(c *Case) M {
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		return MongoCase(n)
	}
	Modes["mongo"] = func(o *Options, do func(Case)) {
		g := o.G()
		one := func(s string, rows [][]Field) { do(Case{Op: "mongo", S: B(s)}.With(RowsArg{Ver, rows})) }
		for i, s := range append(examples, "[$or] = 1", "\"$where\" = 'x'", "`$a` is null", "[$a] in (1)", "[$a] between 1 and 2", "[$a] ~= 'x'", "a.$b = 1") {
			if o.Share(i) {
				one(s, [][]Field{})
			}
		}
		o.bulky(g, func(s string, row []Field) {
			if strings.Count(s, " or ")+strings.Count(s, " and ") < 50 { // TLC reads documents of up to 255 levels
				one(s, [][]Field{row})
			}
		})
		for i := 0; i < o.N/o.Of; i++ {
			t := NewT45(g)
			t.Table(g.Chance(20))
			t.Query = true
			if g.Chance(25) {
				one(g.Filter(1+g.Intn(4)), [][]Field{})
				continue
			}
			s := t.Filter(1 + g.Intn(4))
			rows := [][]Field{}
			for k := 0; k < 4; k++ {
				r := t.Row()
				for j := range r {
					if t.empty && r[j].V.Go == "nil" && g.Chance(50) {
						r[j].N = B("gone")
					}
				}
				if strings.Contains(s, "w") {
					r = append(r, F("w", t.strsFV()), F("x", t.strsFV()))
				}
				rows = append(rows, r)
			}
			one(s, rows)
		}
	}
}
