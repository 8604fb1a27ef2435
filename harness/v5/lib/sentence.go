package lib

import (
	"fmt"
	"strings"
)

// G makes filters of v4 and v5.
type G struct {
	*Gen
	left int // conditions left
}

func (o *Options) G() *G { return &G{Gen: o.Gen()} }

var plain = []string{"a", "b", "c", "name", "x1", "_id", "pages", "inn", "android", "orx", "notx", "nulls", "is_", "T", "Z", "e1", "K"}

// Column is the name of a column.
func (g *G) Column() string {
	if Ver == 5 {
		switch g.Intn(12) {
		case 0:
			return g.Pick("spec.pages", "a.b.c", "a/b", "a..b", "x/", "x.", "T1.Z2", "true.x", "a.b/c.d")
		case 1:
			return g.Pick(`"a"`, "`a`", "[a]", `"a b"`, "[a b]", "[a-b]", `"and"`, `""`, "[]", "``", `"a""b"`, "[a[b]", "`it's`", "[1]", "\"a\nb\"", "[é]", `"a`+"`b`"+`"`)
		}
		return plain[g.Intn(len(plain))]
	}
	part := func() string {
		if g.Chance(8) {
			return g.Pick(`"a"`, "`a`", "[a]", `"a b"`, "[a.b]", `"and"`, `""`, "[]")
		}
		return plain[g.Intn(len(plain))]
	}
	s := part()
	for n := g.Intn(8) - 5; n > 0; n-- {
		s += g.Pick(".", ".", ".", ".", " . ") + part()
	}
	return s
}

// Num45 is the text of a number.
func (g *G) Num45(sign bool) string {
	s := ""
	if sign && g.Chance(20) {
		s = g.Pick("-", "-", "+", "- ")
	}
	n := 1 + g.Intn(3)
	if g.Chance(8) {
		n = 1 + g.Intn(25)
	}
	d := g.Digits(n)
	switch g.Intn(10) {
	case 0, 1:
		d += "." + g.Digits(1+g.Intn(3))
	case 2:
		d += "."
	case 3:
		d = "." + d
	}
	if g.Chance(12) {
		d += g.Pick("e", "E") + g.Pick("", "+", "-") + fmt.Sprint(g.Intn(25))
		if g.Chance(10) {
			d += fmt.Sprint(g.Intn(9))
		}
	} else if Ver == 5 && g.Chance(20) && !strings.Contains(d, ".") || g.Chance(2) {
		d += g.Pick("K", "M", "G", "T", "P") + g.Pick("", "i")
	}
	return s + d
}

// Text is a text literal.
func (g *G) Text() string {
	switch g.Intn(9) {
	case 0:
		return "'" + g.DateText() + "'"
	case 1:
		return "'" + g.StampText() + "'"
	case 2:
		return "'" + g.Pick("t", "T", "true", "TRUE", "f", "false", "100", "1.5", "null", "") + "'"
	case 3:
		return "'" + strings.ReplaceAll(g.RawString(), "'", "''") + "'"
	}
	return "'" + g.Pick("a", "joe", "x y", "%", "a%b", "_", "it''s", "''", "a''", "''''", "x\ny", "é", `\`, `a\n`, `\'''`, `"`, "a\x00b", "^a.*b$", "[a-c]+") + "'"
}

// Lit is a literal.
func (g *G) Lit() string {
	if Ver == 5 {
		switch g.Intn(12) {
		case 0:
			return g.DateText()
		case 1, 2:
			return g.StampText()
		case 3:
			return g.Kw(g.Pick("true", "false"))
		}
	}
	if g.Chance(50) {
		return g.Num45(true)
	}
	return g.Text()
}

// Math is arithmetic; lead: it begins with a column or a parenthesis.
func (g *G) Math(depth int, lead bool, t []string) []string {
	atom := func(lead bool) {
		switch {
		case depth > 0 && g.Chance(20):
			t = append(g.Math(depth-1, true, append(t, "(")), ")")
		case lead || g.Chance(45):
			t = append(t, g.Column())
		case g.Chance(92):
			t = append(t, g.Num45(true))
		default:
			t = append(t, g.Lit())
		}
	}
	atom(lead)
	for n := g.Intn(4); n > 0; n-- {
		t = append(t, g.Pick("+", "-", "*", "/", "%"))
		atom(false)
	}
	return t
}

func (g *G) left_(t []string) []string {
	if g.Chance(75) {
		return append(t, g.Column())
	}
	return g.Math(2, true, t)
}

func (g *G) right(t []string) []string {
	if Ver == 5 && g.Chance(30) {
		if g.Chance(50) {
			return append(t, g.Column())
		}
		return g.Math(2, true, t)
	}
	return append(t, g.Lit())
}

func (g *G) maybeNot(t []string) []string {
	if g.Chance(35) {
		return append(t, g.Kw("not"))
	}
	return t
}

// Cond is a condition.
func (g *G) Cond(t []string) []string {
	t = g.left_(t)
	switch g.Intn(14) {
	case 0:
		t = append(t, g.Kw("is"))
		t = g.maybeNot(t)
		if g.Chance(70) {
			return append(t, g.Kw("null"))
		}
		return append(t, g.Lit())
	case 1, 2:
		t = append(g.maybeNot(t), g.Kw("between"), g.Lit(), g.Kw("and"))
		return append(t, g.Lit())
	case 3, 4, 5:
		t = append(g.maybeNot(t), g.Kw("in"), "(")
		n := g.Intn(5)
		if g.Chance(3) {
			n = 10 + g.Intn(80)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				t = append(t, ",")
			}
			t = append(t, g.Lit())
		}
		return append(t, ")")
	case 6, 7:
		t = append(g.maybeNot(t), g.Kw(g.Pick("like", "ilike")))
		if g.Chance(93) {
			return append(t, g.Text())
		}
		return append(t, g.Lit())
	case 8:
		t = append(t, g.Pick("~=", "~!"))
		if g.Chance(85) {
			return append(t, g.Text())
		}
		return g.right(t)
	}
	return g.right(append(t, g.Pick("=", "!=", "<>", "<", "<=", ">", ">=")))
}

// Bool is a filter of at least the given level (0 or, 1 and, 2 not).
func (g *G) Bool(level int, t []string) []string {
	g.left--
	if g.left <= 0 {
		return g.Cond(t)
	}
	switch g.Intn(6) {
	case 0:
		if level <= 0 {
			t = append(g.Bool(0, t), g.Kw("or"))
			return g.Bool(1, t)
		}
	case 1:
		if level <= 1 {
			t = append(g.Bool(1, t), g.Kw("and"))
			return g.Bool(2, t)
		}
	case 2:
		return g.Bool(2, append(t, g.Kw("not")))
	case 3:
		return append(g.Bool(0, append(t, "(")), ")")
	case 4:
		op := g.Kw(g.Pick("and", "or"))
		if level <= 0 {
			t = g.Cond(t)
			for n := 1 + g.Intn(4); n > 0; n-- {
				if g.Chance(40) {
					op = g.Kw(g.Pick("and", "or"))
				}
				t = g.Cond(append(t, op))
			}
			return t
		}
	}
	return g.Cond(t)
}

// Filter is a sentence of the grammar.
func (g *G) Filter(size int) string {
	g.left = size
	return g.join(g.Bool(0, nil))
}

var examples = []string{
	"name = 'joe' or name = 'jane'", "city in ('paris', 'rome', 'milan') and state != 'spane'", "pages between 100 and 200 and author.name ~= 'Hilbert'",
	"name like '%joe%' and (city = 'paris' or city = 'milan')", "a is null", "a is not null", "not a is null", "not (a = 1)", "a not in (1,2,3)",
	"a in ()", "a not in ( )", "a + b * c = 1", "(a + b) * c = 1", "a - b - c = 1", "a - (b - c) = 1", "a / b / c = 1", "a % b * c = 1", "a * b + c = 1", "a * b + c * d = 1",
	"a + b * c - d / e % f = 1", "a * (b + c) * d = 1", "((a)) = 1", "((a) = 1)", "((a + b)) * ((c)) = 1", "(((a = 1)))", "a = b", "a = b + 1", "a = (b + 1) * 2", "a = (b)", "a = (b + 1",
	"a + 1 > b - 2", "a = 1 + b", "1 = a", "1 + a = 2", "(1 + a) = 2", "(1) = 1", "a = (1)", "a = (1 + b)", "a + 'x' = 1", "a + true = 1", "a + 2020-01-01 > 1", "a = -1", "a = +1", "a = - 1", "a = -b", "a + -1 = 2", "a -1 = 2",
	"a-1 = 2", "a = 1-1", "a between 1 and 2 and b = 3", "a not between 1 and 2 or b = 3", "a between b and c", "a in (b)", "a in (1,)", "a in (,1)", "a in 1", "a like b", "a like 5", "a not like 'x'", "a not ilike 'x'", "a not = 1",
	"a ~= b", "a ~= 5", "a ~= b + 1", "a ~! 'x'", "a is 1", "a is not 1", "a is 'x'", "a is true", "a is b", "not not a = 1", "not not not (a = 1)", "a = 1 and b = 2 or c = 3 and d = 4", "a = 1 or b = 2 and c = 3", "(a = 1 or b = 2) and c = 3",
	"not a = 1 and b = 2", "not (a = 1 and b = 2)", "a", "not a", "(a)", "a and b", "", " ", "()", "a = 1 b", "a = 1)", "(a = 1", "a == 1", "a = 'x", "a = 'x''", "a = ''", "a = ''''", "a = 'it''s'", "\"a\" = 1", "[a] = 1", "`a` = 1", "\"a\"\"b\" = 1",
	"[a = 1", "a.b = 1", "a.b.c = 1", "a.b.c.d = 1", "a . b = 1", "a. = 1", ".a = 1", "a/b = 1", "a.1 = 1", "a.[b] = 1", "a = 1.", "a = .5", "a = 1e3", "a = 1e", "a = 1e+", "a = 1.5e-3", "a = 1K", "a = 1Ki", "a = 1k", "a = 1.5K", "a = 1KB", "a = 5Mi", "a = 1e3K",
	"a = 99999999999999999999999999999999P", "a = 1e309", "a = 1e400", "a = -1e400", "a = 2020-01-02", "a = 2020-13-02", "a = 2020-02-30", "a = 2020-01-02T03:04:05Z", "a = 2020-01-02T03:04:05.123Z", "a = 2020-01-02T03:04:05+01:00", "a = 2020-01-02T03:04:05",
	"a = 2020-01-02T25:04:05Z", "a = 2020-01-02T03:04:05+24:00", "a = 03:04:05", "a = +01:00", "a = 2020-01-021", "a = 2020-1-2", "a > 2020-01-02 and b < 2020-01-03", "a = true", "a = TRUE and b = False", "true = a", "a = null", "a != null", "a is not not null",
	"a ; b", "a = 1;", "a = 1 -- x", "a = 1 /* x */", "a = $1", "a = ?", "a = @b", "a = #", "a = {1}", "a = 1 \x00", "a\x00 = 1", "a = 'x\x00'", "\ufeffa = 1", "a\u00a0= 1", "é = 1", "a = 'é'", "a = '\xff'", "a = \xff", "a = '\ufffd'",
	"a\f= 1", "a\v= 1", "\ta\n=\r\n1", "a<1", "a<=1", "a<>1", "a!=1", "a>=1", "a~='x'", "a~!'x'", "a=1and b=2", "a=1 and(b=2)", "not(a=1)", "a in(1)", "a between 1and 2", "a = 1 and not b = 2 or not (c = 3)", "a = 'x' and a = 'x'",
}

var words = []string{"a", "1", "'s'", "2020-01-02", "2020-01-02T03:04:05Z", "true", "null", "and", "or", "not", "=", "<", "like", "between", "in", "is", "+", "-", "*",
	"(", ")", ",", ".", "~=", "[b]"}

func seq(i, n int) string {
	w := make([]string, n)
	for k := n - 1; k >= 0; k-- {
		w[k] = words[i%len(words)]
		i /= len(words)
	}
	return strings.Join(w, " ")
}

func big45(g *G) []string {
	rep := strings.Repeat
	return []string{
		rep("(", 12) + "a = 1" + rep(")", 12), rep("not ", 60) + "a = 1", "a" + rep(" + 1", 60) + " = 1", "a" + rep(" * b - 1", 40) + " = 1", "a = 1" + rep(" and b = 2", 60),
		"a = 1" + rep(" or b = 2 and c = 3", 40), "a in (" + rep("1,", 120) + "2)", "a in (" + rep("'x',", 120) + "'y')", "a = '" + rep("x", 2000) + "'",
		"a = '" + rep("''", 300) + "'", rep("a", 1000) + " = 1", "a = " + rep("1", 90), "a = 0." + rep("0", 60) + rep("7", 30), "a" + rep("\n", 300) + "= 1",
		rep("(a = 1 and ", 10) + "b = 2" + rep(")", 10), rep("(", 8) + "a" + rep(" + 1)", 8) + " = 1", rep("(", 8) + "a" + rep(" + 1)", 8) + " * 2 = 1",
	}
}

func init() {
	one := func(do func(Case), s string) { do(Case{Op: "parse", S: B(s)}.With(VerArg{Ver})) }
	Modes["parse"] = func(o *Options, do func(Case)) {
		g := o.G()
		for i, s := range append(examples, big45(g)...) {
			if o.Share(i) {
				one(do, s)
			}
		}
		o.bulky(g, func(s string, _ []Field) { one(do, s) })
		for i := 0; i < o.N/o.Of; i++ {
			one(do, g.Filter(1+g.Intn(7)))
		}
	}
	Modes["reject"] = func(o *Options, do func(Case)) {
		g := o.G()
		k := 0
		for n := 0; n <= 3; n++ {
			if n == 3 && !o.Deep {
				break
			}
			for i := 0; i < Pow(len(words), n); i++ {
				if k++; o.Share(k) {
					one(do, seq(i, n))
				}
			}
		}
		for c := 0; c < 256; c++ {
			if o.Share(c) {
				b := string([]byte{byte(c)})
				for _, s := range []string{b, "a = 1" + b, "a = 1 " + b, b + "a = 1", "a " + b + " 1", "a = 1 " + b + " and b = 2", "a = '" + b + "'", "a" + b + "b = 1", "[" + b + "] = 1"} {
					one(do, s)
				}
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			s := ""
			switch {
			case g.Chance(25):
				n := 3 + g.Intn(4)
				s = seq(g.Intn(Pow(len(words), n)), n)
			case g.Chance(30):
				s = "a " + g.Pick("= ", "in (", "+ ", "is not ", "between ") + g.Pick(g.Lit(), g.Lit()+g.Lit(), g.Num45(true)+g.Pick("", "K", "Ki", "e", "1", "."), g.Damage(g.StampText()),
					g.Damage(g.Text())) + g.Pick("", ")", " = 1", " and 5", " ")
			default:
				s = g.Damage(g.Filter(1 + g.Intn(5)))
				for g.Chance(30) {
					s = g.Damage(s)
				}
			}
			one(do, s)
		}
	}
}
