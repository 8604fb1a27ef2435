package lib

import (
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// family gives calls that have a text in common: see familyTexts.
func (g *Gen) family() (s string, sibling func() (string, []Field)) {
	s = g.Pick(familyTexts...)
	if g.Chance(25) {
		s += g.Pick(familyTexts...)
	}
	lit := func() string {
		switch g.Intn(16) {
		case 0:
			return s // whatever it reads as
		case 1:
			return "[" + strings.Map(func(r rune) rune {
				if r == '[' || r == ']' {
					return '_'
				}
				return r
			}, s) + "]"
		}
		return g.Quote(s)
	}
	value := func() FV {
		t := &TGen{Gen: g, Odd: false}
		switch g.Intn(9) {
		case 0:
			return Numb("int", g.Pick("1", "0", "10", "-1"))
		case 1:
			return Numb("float64", g.Pick("1", "1.5", "1000"))
		case 2:
			return TimeV(g.Pick("2020-01-01T00:00:00Z", "2020-01-01T10:00:00Z"))
		case 3:
			return Boolean(g.Chance(50))
		case 4:
			return Nil()
		case 5:
			return ArrayV(Str(s), t.strFV())
		case 6:
			return Str(g.Pick(familyTexts...))
		}
		return Str(g.Pick(s, strings.ToLower(s), strings.ToUpper(s), s+"x", "x"+s, strings.ReplaceAll(s, "%", "bc")))
	}
	sibling = func() (string, []Field) {
		op := g.Pick("like", "ilike", "~=", "~!", "=", "!=", "<", ">=", "in", "between", "+", "not like", "LIKE")
		l, r := g.Pick("name", "name", "name", "name", "age", lit()), lit()
		switch op {
		case "in":
			r = "[" + r + ", " + lit() + "]"
		case "between":
			r = r + " and " + lit()
		case "+":
			op = g.Pick("+", "-", "*", "/", "%")
			r += " > 1"
		}
		f := l + " " + op + " " + r
		if g.Chance(15) {
			f = g.Pick("not (", "any (", "sum (", "len (") + f + ")"
		}
		return f, []Field{F("name", value()), F("age", value()), F(s, value())}
	}
	return
}

func init() {
	Modes["family"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i := 0; i < o.N/o.Of; {
			_, sibling := g.family()
			for j := 4 + g.Intn(12); j > 0; j-- {
				f, rec := sibling()
				i++
				n, err := tsl.ParseTSL(f)
				if err != nil && g.Chance(60) {
					continue
				}
				if err != nil {
					do(Case{Op: "parse", S: B(f)})
					continue
				}
				ids := idNames(n)
				n.Free()
				switch g.Intn(12) {
				case 0:
					do(Case{Op: "sql", S: B(f)})
				case 1:
					do(Case{Op: "doc", S: B(f)})
				case 2:
					do(Case{Op: "ident", S: B(f)}.With(IdentArg{g.Mapping(ids), g.Pick("same", "refuse")}))
				case 3:
					do(Case{Op: "parse", S: B(f)})
				default:
					do(Case{Op: "eval", S: B(f)}.With(EvalArg{rec}))
				}
			}
		}
	}
}
