package lib

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
)

func init() {
	Special = func(v interface{}) M {
		if a, ok := v.([]string); ok {
			e := make([]B, len(a))
			for i := range a {
				e[i] = B(a[i])
			}
			return M{"t": "strs", "e": e}
		}
		return nil
	}
}

// RecArg is the record a filter is evaluated on.
type RecArg struct {
	Ver int     `json:"ver"`
	Rec []Field `json:"rec"`
}

func makeRec(fs []Field) map[string]interface{} {
	r := map[string]interface{}{}
	for _, f := range fs {
		if _, dup := r[string(f.N)]; !dup {
			r[string(f.N)] = f.V.Make()
		}
	}
	return r
}

func treeText(n tsl.Node) string {
	b, _ := json.Marshal(Tree(n))
	return string(b)
}

func recText(r map[string]interface{}) string {
	var k []string
	for n := range r {
		k = append(k, n)
	}
	sort.Strings(k)
	var b strings.Builder
	for _, n := range k {
		fmt.Fprintf(&b, "%q=%#v;", n, r[n])
	}
	return b.String()
}

// Evaluate gives the outcome of evaluating a tree on a record.
func Evaluate(n tsl.Node, rec map[string]interface{}, reads *[]B) M {
	var v bool
	var err error
	p := Guard(func() {
		v, err = semantics.Walk(n, func(k string) (interface{}, bool) {
			if reads != nil {
				*reads = append(*reads, B(k))
			}
			x, ok := rec[k]
			return x, ok
		})
	})
	switch {
	case p != "":
		return M{"out": "panic", "why": p}
	case err != nil:
		if t := Guard(func() { _ = err.Error() }); t != "" {
			return M{"out": "panic", "why": "Error(): " + t}
		}
		return M{"out": "err"}
	}
	return M{"out": "value", "v": v}
}

// EvalCase evaluates a tree on a record, twice.
func EvalCase(n tsl.Node, rec map[string]interface{}) M {
	tree, before := treeText(n), recText(rec)
	reads := []B{}
	e := Evaluate(n, rec, &reads)
	e["reads"] = reads
	e["same"] = treeText(n) == tree && recText(rec) == before
	f := Evaluate(n, rec, nil)
	e["again"] = e["out"] == f["out"] && e["v"] == f["v"]
	return e
}

func init() {
	Exec["eval"] = func(c *Case) M {
		var a RecArg
		c.Get(&a)
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		return EvalCase(n, makeRec(a.Rec))
	}
	ev := func(do func(Case), t *T45, s string) { do(Case{Op: "eval", S: B(s)}.With(RecArg{Ver, t.Rec})) }
	Modes["eval"] = func(o *Options, do func(Case)) {
		g := o.G()
		o.bulky(g, func(s string, row []Field) { do(Case{Op: "eval", S: B(s)}.With(RecArg{Ver, row})) })
		for i := 0; i < o.N/o.Of; i++ {
			t := NewT45(g)
			if g.Chance(40) {
				t.Bad = 0
			}
			ev(do, t, t.Filter(1+g.Intn(4)))
		}
	}
	// any Go value in the record, any filter
	Modes["odd"] = func(o *Options, do func(Case)) {
		for i, g := 0, o.G(); i < o.N/o.Of; i++ {
			t := NewT45(g)
			t.Bad = 25
			for j := range t.Rec {
				if g.Chance(40) {
					t.Rec[j] = F(string(t.Rec[j].N), t.anyFV(true))
				}
			}
			s := t.Filter(1 + g.Intn(4))
			if g.Chance(40) {
				s = g.Filter(1 + g.Intn(4))
				if n, bad := parse(&Case{S: B(s)}); bad == nil {
					t.Rec = []Field{}
					for _, m := range Tree(n) {
						if m["k"] == "ident" && g.Chance(90) {
							t.Rec = append(t.Rec, F(string(m["v"].(B)), t.anyFV(g.Chance(50))))
						}
					}
				}
			}
			ev(do, t, s)
		}
	}
	Modes["pattern"] = func(o *Options, do func(Case)) {
		g := o.G()
		for i, p := range patternCases() {
			if o.Share(i) {
				do(Case{Op: "eval", S: B("s " + p[0] + " " + quote(p[2]))}.With(RecArg{Ver, []Field{F("s", Str(p[1]))}}))
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			t := NewT45(g)
			t.Bad = 2
			ev(do, t, t.Pattern())
		}
	}
}

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func patternCases() (r [][3]string) {
	for c := 33; c < 127; c++ {
		b := string(rune(c))
		for _, op := range []string{"like", "ilike", "not like"} {
			r = append(r, [3]string{op, b, b}, [3]string{op, "x" + b + "y", "x" + b + "_"}, [3]string{op, "xzy", "x" + b + "y"}, [3]string{op, "a" + b + b, "a" + b + "%"},
				[3]string{op, "a", b + "a" + b}, [3]string{op, "\\" + b, "\\" + b}, [3]string{op, "q", b + "q"})
		}
	}
	for _, op := range []string{"like", "ilike", "~=", "~!", "not like", "not ilike"} {
		for _, t := range []string{"", "a", "A", "ab", "AB", "a\nb", "abc", "xabcx", "aab", "é", "É", "日本", "a.b", "a%b", "a_b"} {
			for _, p := range []string{"", "%", "_", "a%", "%b", "a_", "A%", "%a%", "a%b", "a_b", "__", "%%", "a.b", "^a", "b$", "^a.b$", "a*", "[ab]+", "é", "É", "%本", "(", "[", "a|b", "(?i)A", "^$", "a{2}", "\\."} {
				r = append(r, [3]string{op, t, p})
			}
		}
	}
	return r
}

// T45 makes filters on a record, whose operands mostly have a fitting type.
type T45 struct {
	G *G
	*Gen
	Rec []Field
	by  map[string][]string
	Bad int

	Query bool    // what a query document can say
	Days  bool    // dates are whole seconds of UTC
	empty bool    // rows may lack values
	some  [3][]FV // numbers, texts and dates
}

func NewT45(g *G) *T45 {
	t := &T45{G: g, Gen: g.Gen, Bad: 5, by: map[string][]string{}}
	for _, n := range []string{"n", "m", "k"} {
		t.add("num", n, t.numFV())
	}
	for _, n := range []string{"s", "t", "u"} {
		t.add("str", n, t.strFV())
	}
	t.add("bool", "b", Boolean(true))
	t.add("bool", "c", Boolean(false))
	if Ver == 5 || g.Chance(10) {
		for _, n := range []string{"d", "e"} {
			t.add("date", n, t.dateFV())
		}
		for _, n := range []string{"w", "x"} {
			t.add("strs", n, t.strsFV())
		}
	}
	t.add("null", "z", Nil())
	return t
}

func (t *T45) add(kind, name string, v FV) {
	t.by[kind] = append(t.by[kind], name)
	t.Rec = append(t.Rec, F(name, v))
}

var nums45 = []string{"0", "1", "2", "3", "5", "10", "100", "0.5", "1.5", "2.25", "7", "8", "255", "256", "65536", "2147483648", "1024", "0.1", "0.25", "1e3", "16777217", "33554433"}

func (t *T45) numText() string {
	if t.Chance(85) {
		return nums45[t.Intn(8+t.Intn(len(nums45)-8))]
	}
	return strconv.Itoa(t.Intn(1 << uint(1+t.Intn(40))))
}

func (t *T45) numFV() FV {
	s := t.numText()
	x, _ := strconv.ParseFloat(s, 64)
	neg := ""
	if t.Chance(20) {
		neg = "-"
	}
	switch {
	case t.Chance(4):
		w := [][2]string{{"int32", "-2147483648"}, {"int32", "2147483647"}, {"uint32", "4294967295"}, {"uint32", "2147483648"}, {"int64", "-9223372036854775808"},
			{"int64", "9223372036854775807"}, {"int64", "4294967296"}, {"int", "-5000000000"}, {"int", "5000000007"}, {"uint64", "18446744073709551615"},
			{"uint64", "9223372036854775808"}, {"uint", "18446744073709551615"}, {"uint", "5"}, {"float32", "16777216"}, {"float64", "123456789012.75"}}
		k := w[t.Intn(len(w))]
		return Numb(k[0], k[1])
	case x == float64(int64(x)) && x < 1<<31 && t.Chance(75):
		if neg == "" {
			return Numb(t.Pick("int", "int32", "int64", "uint", "uint32", "uint64"), s)
		}
		return Numb(t.Pick("int", "int32", "int64"), neg+s)
	case float64(float32(x)) == x && t.Chance(30):
		return Numb("float32", neg+s)
	}
	return Numb("float64", neg+s)
}

var strs45 = []string{"", "a", "b", "joe", "Joe", "jane", "x y", "%", "a%b", "a_b", "abc", "aXc", "true", "t", "10", "it's", "a\nb", "é", "日本", "false", "2020-01-02", "T"}

func (t *T45) strText() string {
	if t.Chance(6) {
		return strings.ReplaceAll(t.RawString(), "\xff", "")
	}
	return strs45[t.Intn(8+t.Intn(len(strs45)-8))]
}
func (t *T45) strFV() FV { return Str(t.strText()) }

var stamps45 = []string{"2020-01-02T00:00:00Z", "2020-01-02T03:04:05Z", "2020-01-02T04:04:05+01:00", "2020-01-01T22:04:05-05:00", "2020-01-02T03:04:05.5Z", "2020-01-02T02:00:00+02:00",
	"2020-01-01T19:00:00-05:00", "2020-01-03T00:00:00Z", "1969-12-31T23:59:59Z", "2020-01-02T03:04:05.000000001Z"}

func (t *T45) dateText() string {
	switch t.Intn(9) {
	case 0, 1, 2:
		return t.Pick("2020-01-01", "2020-01-02", "2020-01-03", "1970-01-01")
	case 3:
		return fmt.Sprintf("20%02d-%02d-%02d", t.Intn(100), 1+t.Intn(12), 1+t.Intn(28))
	}
	if t.Days {
		return t.Pick(stamps45[0], stamps45[1], "2020-01-02T03:04:06Z")
	}
	return stamps45[t.Intn(len(stamps45))]
}

func (t *T45) dateFV() FV {
	s := t.dateText()
	if len(s) == 10 {
		s += "T00:00:00Z"
	}
	return TimeV(s)
}

func (t *T45) strsFV() FV {
	var k []FV
	for n := t.Intn(4); n > 0; n-- {
		k = append(k, t.strFV())
	}
	return FV{Go: "strs", Kids: k}
}

func (t *T45) anyFV(odd bool) FV {
	switch t.Intn(9) {
	case 0:
		return Nil()
	case 1:
		return Boolean(t.Chance(50))
	case 2:
		return t.strFV()
	case 3:
		return t.dateFV()
	case 4:
		return t.strsFV()
	case 5, 6, 7:
		if odd {
			if t.Chance(25) {
				return Numb(t.Pick("int8", "int16", "uint8", "uint16"), t.Pick("1", "2", "100"))
			}
			return FV{Go: OddKinds[t.Intn(len(OddKinds))]}
		}
	}
	return t.numFV()
}

func (t *T45) field(kind string) string {
	f := t.by[kind]
	if t.Days && (len(f) == 0 || t.Chance(3)) {
		return "z"
	}
	if len(f) == 0 || t.Chance(3) {
		return t.Pick("missing", "z")
	}
	return f[t.Intn(len(f))]
}

var kinds45 = []string{"num", "num", "str", "str", "bool", "date", "strs"}

func (t *T45) kind() string {
	if t.Days {
		if Ver == 4 {
			return t.Pick("num", "str", "num", "str")
		}
		return t.Pick("num", "num", "str", "str", "bool", "date")
	}
	if Ver == 4 && t.Chance(85) {
		return t.Pick("num", "str", "bool")
	}
	return kinds45[t.Intn(len(kinds45))]
}

// lit is a literal of a kind.
func (t *T45) lit(kind string) string {
	if t.Chance(t.Bad) {
		kind = t.kind()
	}
	if at := map[string]int{"num": 0, "str": 1, "date": 2}; t.Days && t.Chance(70) {
		switch i, ok := at[kind]; {
		case ok && i == 1:
			return quote(string(t.some[1][t.Intn(4)].Raw))
		case ok && i == 0:
			if s := t.some[0][t.Intn(4)].Lit; s != "" {
				return s
			}
		}
	}
	switch kind {
	case "num":
		s := t.numText()
		if t.Chance(15) {
			return "-" + s
		}
		if Ver == 5 && t.Chance(4) {
			return t.Pick("1K", "1Ki", "2Mi", "1M")
		}
		return s
	case "bool":
		if Ver == 4 {
			return t.Pick("'true'", "'false'")
		}
		return t.Pick("true", "false", "true", "false", "'true'", "'f'", "'t'", "1", "0", "'false'", "'T'")
	case "date":
		if Ver == 5 {
			return t.dateText()
		}
	}
	return quote(t.strText())
}

func (t *T45) operand(kind string, lead bool) string {
	if t.Chance(t.Bad) {
		kind = t.kind()
	}
	if lead || t.Chance(30) {
		return t.field(kind)
	}
	return t.lit(kind)
}

// num is a numeric expression.
func (t *T45) num(depth int, lead bool) string {
	if depth <= 0 || t.Chance(30) {
		return t.operand("num", lead)
	}
	if t.Chance(25) {
		return "(" + t.num(depth-1, true) + ")"
	}
	s := t.num(depth-1, lead)
	for n := 1 + t.Intn(2); n > 0; n-- {
		op := t.Pick(" + ", " - ", " * ", " / ", " % ")
		if t.Days && op == " % " {
			op = " - "
		}
		s += op + t.num(depth-1, false)
	}
	return s
}

// left is the left side of a condition on a kind.
func (t *T45) left(kind string) string {
	if t.Query && t.Chance(97) {
		return t.field(kind)
	}
	if kind == "num" && (Ver == 5 && t.Chance(40) || t.Chance(3)) {
		return t.num(2, true)
	}
	return t.operand(kind, true)
}

func (t *T45) right(kind string) string {
	if t.Query && t.Chance(97) {
		return t.lit(kind)
	}
	if Ver == 5 && kind == "num" && t.Chance(25) {
		return t.num(2, true)
	}
	if Ver == 5 && t.Chance(25) {
		return t.operand(kind, true)
	}
	return t.lit(kind)
}

func (t *T45) list(kind string) string {
	n := t.Intn(4)
	if t.Chance(5) {
		n = 4 + t.Intn(20)
	}
	w := make([]string, n)
	for i := range w {
		w[i] = t.lit(kind)
	}
	return "(" + strings.Join(w, ", ") + ")"
}

// Cond is a condition.
func (t *T45) Cond() string {
	k := t.kind()
	if t.Query && Ver == 5 && t.Chance(6) {
		return t.Pick("w", "x") + t.Pick(" in ", " not in ") + t.list("str")
	}
	if k == "strs" {
		return t.left(k) + t.Pick(" in ", " in ", " not in ") + t.list("str")
	}
	switch t.Intn(12) {
	case 0:
		if t.Days {
			return t.left(k) + t.Pick(" is null", " is not null")
		}
		return t.Pick(t.left(k), "missing", "z") + t.Pick(" is null", " is not null")
	case 1:
		return t.left(k) + t.Pick(" is ", " is not ") + t.lit(k)
	case 2, 3:
		if k != "bool" || t.Chance(10) {
			return t.left(k) + t.Pick(" in ", " not in ") + t.list(k)
		}
	case 4, 5, 6:
		if k != "bool" || t.Chance(10) {
			return t.left(k) + t.Pick(" between ", " not between ") + t.lit(k) + " and " + t.lit(k)
		}
	case 7:
		if k == "str" || t.Chance(10) {
			return t.Pattern()
		}
	}
	if k == "bool" && t.Chance(90) {
		return t.left(k) + t.Pick(" = ", " != ") + t.right(k)
	}
	return t.left(k) + t.Pick(" = ", " != ", " < ", " <= ", " > ", " >= ", " <> ") + t.right(k)
}

// Pattern is a condition with a pattern, mostly made from the text.
func (t *T45) Pattern() string {
	name := t.operand("str", true)
	text := t.strText()
	for _, f := range t.Rec {
		if string(f.N) == name && t.Chance(85) {
			text = string(f.V.Raw)
		}
	}
	if t.Chance(t.Bad) {
		return name + t.Pick(" like ", " ~= ", " ~! ", " ilike ") + t.lit(t.kind())
	}
	if t.Chance(40) || t.Query {
		r := t.Pick("^", "", "") + text + t.Pick("$", "", "", ".*", "+", "?")
		switch t.Intn(6) {
		case 0:
			r = t.Pick("[a-z]+", "^[a-c]*$", "a|b", "(a|j)", "o?e", "^.$", "[", "(", "*", "a{1,2}", "\\d+", "^$", "^a", "c$", "(?s).", "j.e")
		case 1:
			if len(text) > 1 {
				k := t.Intn(len(text))
				r = text[:k] + "." + text[k+1:]
			}
		}
		if Ver == 5 && t.Chance(10) {
			return name + t.Pick(" ~= ", " ~! ") + t.field("str")
		}
		return name + t.Pick(" ~= ", " ~! ") + quote(r)
	}
	p := []rune(text)
	for n := t.Intn(3); n > 0; n-- {
		k := t.Intn(len(p) + 1)
		switch t.Intn(5) {
		case 0:
			p = append(p[:k:k], append([]rune("%"), p[k:]...)...)
		case 1, 2:
			if k < len(p) {
				p[k] = '_'
			}
		case 3:
			if k < len(p) {
				p = append(p[:k:k], append([]rune("%"), p[k+t.Intn(len(p)-k):]...)...)
			}
		default:
			p = append(p[:k:k], append([]rune(t.Pick("a", ".", "*", "%", "_", "\n", "\\", "(", "A")), p[k:]...)...)
		}
	}
	s := string(p)
	if t.Chance(15) {
		s = strings.ToUpper(s)
	}
	return name + t.Pick(" like ", " ilike ", " not like ", " not ilike ", " like ") + quote(s)
}

// Filter combines conditions.
func (t *T45) Filter(n int) string {
	not := 10
	if t.Query {
		not = 1
	}
	if n <= 1 {
		if t.Chance(not) {
			return t.Pick("not ", "NOT ") + t.Cond()
		}
		return t.Cond()
	}
	k := 1 + t.Intn(n-1)
	s := t.Filter(k) + t.Pick(" and ", " or ", " AND ", " OR ") + t.Filter(n-k)
	switch t.Intn(6) {
	case 0:
		return "(" + s + ")"
	case 1:
		if !t.Query {
			return "not (" + s + ")"
		}
	}
	return s
}

// Table prepares for rows of a table: no lists, dates in whole seconds of UTC,
// values from a few; empty: rows may lack values.
func (t *T45) Table(empty bool) {
	t.Bad = 1
	t.by = map[string][]string{"num": {"n", "m", "k"}, "str": {"s", "t", "u"}}
	if Ver == 5 {
		t.by["bool"], t.by["date"] = []string{"b", "c"}, []string{"d", "e"}
	}
	t.Days = true
	for i := 0; i < 4; i++ {
		t.some[0] = append(t.some[0], t.numFV())
		t.some[1] = append(t.some[1], t.plainFV())
		t.some[2] = append(t.some[2], t.dateFV())
	}
	t.empty = empty
}

func (t *T45) plainFV() FV {
	for {
		if f := t.strFV(); utf8.ValidString(string(f.Raw)) && !strings.Contains(string(f.Raw), "\x00") {
			return f
		}
	}
}

// Row is a row of the table.
func (t *T45) Row() (r []Field) {
	for kind, names := range [][]string{t.by["num"], t.by["str"], t.by["date"], t.by["bool"]} {
		for _, n := range names {
			var v FV
			switch {
			case t.empty && t.Chance(25):
				v = Nil()
			case kind == 3:
				v = Boolean(t.Chance(50))
			default:
				v = t.some[kind][t.Intn(4)]
			}
			r = append(r, F(n, v))
		}
	}
	return append(r, F("z", Nil()))
}
