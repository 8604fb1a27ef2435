package lib

import "strings"

// family gives calls that have a text in common: see familyTexts.
func (g *G) family() (s string, sibling func() (string, []Field)) {
	s = g.Pick(familyTexts...)
	if g.Chance(25) {
		s += g.Pick(familyTexts...)
	}
	lit := func() string {
		switch g.Intn(16) {
		case 0:
			return s // whatever it reads as
		case 1:
			return "[" + s + "]"
		}
		return quote(s)
	}
	value := func() FV {
		switch g.Intn(9) {
		case 0:
			return Numb("int", g.Pick("1", "0", "10", "-1"))
		case 1:
			return Numb("float64", g.Pick("1", "1.5", "1000"))
		case 2:
			return TimeV(g.Pick("2020-01-01T00:00:00Z", "2020-01-01T10:00:00Z"))
		case 3:
			return Boolean(g.Chance(50))
		case 4:
			return Nil()
		case 5:
			return FV{Go: "strs", Kids: []FV{Str(s), Str("x"), Str(strings.ToLower(s))}}
		case 6:
			return Str(g.Pick(familyTexts...))
		}
		return Str(g.Pick(s, strings.ToLower(s), strings.ToUpper(s), s+"x", "x"+s, strings.ReplaceAll(s, "%", "bc")))
	}
	sibling = func() (string, []Field) {
		op := g.Pick("like", "ilike", "~=", "~!", "=", "!=", "<", ">=", "in", "between", "+", "not like", "like", "ilike", "~=")
		l, r := g.Pick("name", "name", "name", "name", "age", lit()), lit()
		switch op {
		case "in":
			r = "[" + r + ", " + lit() + "]"
		case "between":
			r = r + " and " + lit()
		case "+":
			op = g.Pick("+", "-", "*", "/", "%")
			r += " > 1"
		}
		f := l + " " + op + " " + r
		if g.Chance(15) {
			f = "not (" + f + ")"
		}
		return f, []Field{F("name", value()), F("age", value()), F(s, value())}
	}
	return
}

func init() {
	Modes["family"] = func(o *Options, do func(Case)) {
		g := o.G()
		for i := 0; i < o.N/o.Of; {
			_, sibling := g.family()
			for j := 4 + g.Intn(12); j > 0; j-- {
				f, rec := sibling()
				i++
				n, bad := parse(&Case{S: B(f)})
				if bad != nil && g.Chance(60) {
					continue
				}
				if bad != nil {
					do(Case{Op: "parse", S: B(f)}.With(VerArg{Ver}))
					continue
				}
				switch g.Intn(12) {
				case 0:
					do(Case{Op: "sql", S: B(f)}.With(VerArg{Ver}))
				case 1:
					do(Case{Op: "mongo", S: B(f)}.With(RowsArg{Ver, [][]Field{rec}}))
				case 2:
					a := IdentArg{Ver: Ver, Map: []Name{}, Other: g.Pick("same", "refuse")}
					for _, k := range names(n) {
						if g.Chance(70) {
							a.Map = append(a.Map, Name{B(k), B(g.Pick(k, k+"_", "a")), g.Chance(10)})
						}
					}
					do(Case{Op: "ident", S: B(f)}.With(a))
				case 3:
					do(Case{Op: "parse", S: B(f)}.With(VerArg{Ver}))
				default:
					do(Case{Op: "eval", S: B(f)}.With(RecArg{Ver, rec}))
				}
			}
		}
	}
}
