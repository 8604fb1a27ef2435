package lib

import (
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// LawArg is a record, the second filter and the operands of both.
type LawArg struct {
	Law   string  `json:"law"`
	S2    B       `json:"s2"`
	Parts []B     `json:"parts"`
	Rec   []Field `json:"rec"`
}

type law struct {
	name, a, b string
	n          int
	kind       string // operands: any, bool, ord (number or date), num, str, alike
}

var laws = []law{
	{"ne", "X != Y", "not (X = Y)", 2, "any"}, {"nenot", "not (X <> Y)", "X = Y", 2, "any"},
	{"notin", "X not in [Y, Z]", "X != Y and X != Z", 3, "any"}, {"in0", "X in []", "X != X", 1, "any"},
	{"in1", "X in [Y]", "X = Y", 2, "any"}, {"in2", "X in [Y, Z]", "X = Y or X = Z", 3, "any"},
	{"in3", "X in [Y, Z, W]", "X = Y or X = Z or X = W", 4, "any"}, {"in-order", "X in [Y, Z]", "X in [Z, Y, Z]", 3, "any"},
	{"between", "X between Y and Z", "X >= Y and X <= Z", 3, "ord"}, {"notbetween", "X not between Y and Z", "X < Y or X > Z", 3, "ord"},
	{"lt-gt", "X < Y", "Y > X", 2, "ord"}, {"le-ge", "X <= Y", "Y >= X", 2, "ord"}, {"le", "X <= Y", "X < Y or X = Y", 2, "ord"},
	{"ge", "X >= Y", "X > Y or X = Y", 2, "ord"}, {"not-lt", "not (X < Y)", "X >= Y", 2, "ord"}, {"not-gt", "not (X > Y)", "X <= Y", 2, "ord"},
	{"not-eq", "not (X = Y)", "X < Y or X > Y", 2, "ord"},
	{"not-and", "not (X and Y)", "(not X) or (not Y)", 2, "bool"}, {"not-or", "not (X or Y)", "(not X) and (not Y)", 2, "bool"},
	{"not-not", "not not X", "X", 1, "bool"}, {"and", "X and Y", "Y and X", 2, "bool"}, {"or", "X or Y", "Y or X", 2, "bool"},
	{"eq", "X = Y", "Y = X", 2, "any"}, {"plus", "X + Y", "Y + X", 2, "num"}, {"times", "X * Y", "Y * X", 2, "num"},
	{"not-match", "X ~! Y", "not (X ~= Y)", 2, "str"}, {"and-assoc", "X and (Y and Z)", "X and Y and Z", 3, "bool"},
	{"or-assoc", "X or (Y or Z)", "X or Y or Z", 3, "bool"}, {"and-or", "X and (Y or Z)", "(X and Y) or (X and Z)", 3, "bool"},
	{"or-and", "X or (Y and Z)", "(X or Y) and (X or Z)", 3, "bool"}, {"minus", "X - Y", "X + - Y", 2, "num"}, {"negate", "- - X", "X * 1", 1, "num"},
	{"not-null", "X is not null", "(- - X) is not null", 1, "num"}, {"like", "X like Y", "X like Y and X ilike Y", 2, "str"},
	{"and-same", "X and X", "X", 1, "bool"}, {"or-same", "X or X", "X", 1, "bool"},
}

func lawCase(l law, parts []string, rec []Field) Case {
	fill := func(f string) string {
		var b strings.Builder
		for _, c := range f {
			if i := strings.IndexRune("XYZW", c); i >= 0 {
				b.WriteString("(" + parts[i] + ")")
			} else {
				b.WriteRune(c)
			}
		}
		return b.String()
	}
	a := LawArg{Law: l.name, S2: B(fill(l.b)), Rec: rec}
	for i := 0; i < 4; i++ {
		a.Parts = append(a.Parts, B(parts[i%len(parts)]))
	}
	return Case{Op: "law", S: B(fill(l.a))}.With(a)
}

// the values of the exhaustive part; MCLaws6 has the same kinds
var lawDomain = []FV{Numb("int8", "0"), Numb("float64", "1"), Numb("int64", "-2"), Numb("float32", "0.5"), Numb("uint32", "2147483648"), Numb("uint8", "1"),
	Str(""), Str("a"), Str("A%"), Str("b"), Str("2020-01-02"), Str("2020-01-02T02:00:00+02:00"), Str("2020-01-01T19:00:00-05:00"),
	Str("2020-01-02T00:00:00.5Z"), Str("2020-13-02"), TimeV("2020-01-02T00:00:00Z"), TimeV("2020-01-02T01:00:00+01:00"), TimeV("2020-01-01T23:59:59.999999999Z"), Boolean(true), Boolean(false), {Go: "nan"}, {Go: "inf"}}

func init() {
	Exec["law"] = func(c *Case) M {
		var a LawArg
		c.Get(&a)
		one := func(s B) M {
			n, err := tsl.ParseTSL(string(s))
			if err != nil {
				return M{"out": "noparse"}
			}
			defer n.Free()
			return Evaluate(n, makeRec(a.Rec), nil)
		}
		return M{"r1": one(c.S), "r2": one(a.S2)}
	}
	Modes["lawall"] = func(o *Options, do func(Case)) {
		n := len(lawDomain)
		k := 0
		for _, l := range laws {
			arity := l.n
			if arity == 4 {
				arity = 3
			}
			for i := 0; i < Pow(n, arity); i++ {
				if k++; !o.Share(k) {
					continue
				}
				var rec []Field
				ok := true
				for j, x := 0, i; j < arity; j++ {
					v := lawDomain[x%n]
					x /= n
					rec = append(rec, F([]string{"x", "y", "z"}[j], v))
					// operands on which the law is not defined are left out
					switch l.kind {
					case "bool":
						ok = ok && v.Go == "bool"
					case "num":
						ok = ok && (v.Lit != "" && v.Go != "time" && v.Go != "bool" || v.Go == "nan" || v.Go == "inf")
					case "ord":
						ok = ok && v.Go != "bool"
					case "str":
						ok = ok && v.Go == "string"
					}
				}
				if ok {
					do(lawCase(l, []string{"x", "y", "z", "x"}[:], rec))
				}
			}
		}
	}
	Modes["law"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i := 0; i < o.N/o.Of; i++ {
			t := &TGen{Gen: g, Bad: 0}
			t.Record()
			t.by["null"] = nil
			for j := range t.Rec {
				// not a number, or infinite, which arithmetic brings forth too
				if v := &t.Rec[j].V; v.Lit != "" && v.Go != "time" && v.Go != "bool" && g.Chance(8) {
					*v = FV{Go: g.Pick("nan", "nan", "nan32", "inf", "-inf")}
				}
			}
			l := laws[g.Intn(len(laws))]
			num := func() string { return t.Num(g.Intn(2)) }
			str := func() string { return t.strLeaf() }
			date := func() string { return t.dateLeaf() }
			bl := func() string { return t.Bool(g.Intn(3)) }
			f := []func() string{num, num, str, date, date, bl}[g.Intn(6)]
			switch l.kind {
			case "bool":
				f = bl
			case "num":
				f = num
			case "str":
				f = str
			case "ord":
				f = []func() string{num, date}[g.Intn(2)]
			}
			parts := []string{f(), f(), f(), f()}
			if l.kind == "any" && g.Chance(20) {
				parts[g.Intn(4)] = []func() string{num, str, date, bl}[g.Intn(4)]()
			}
			if g.Chance(25) {
				parts[1+g.Intn(3)] = parts[0]
			}
			if l.name == "like" || l.name == "not-match" {
				t2 := &TGen{Gen: g}
				t2.PatternCase()
				v := string(t2.Rec[0].V.Raw)
				parts[0] = g.Quote(v)
				parts[1] = g.Quote(g.Pick("%", "_%", "a%", "%a%", "[ab]+", ".", v))
			}
			do(lawCase(l, parts, t.Rec))
		}
	}
}
