package lib

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

// EvalArg is the record a filter is evaluated on.
type EvalArg struct {
	Rec []Field `json:"rec"`
}

func treeText(n *tsl.TSLNode) string {
	b, _ := json.Marshal(Tree(n))
	return string(b)
}

func recText(r map[string]interface{}) string {
	var k []string
	for n := range r {
		k = append(k, n)
	}
	sort.Strings(k)
	var b strings.Builder
	for _, n := range k {
		fmt.Fprintf(&b, "%q=%#v;", n, r[n])
	}
	return b.String()
}

// Evaluate gives the outcome of evaluating a tree on a record.
func Evaluate(n *tsl.TSLNode, rec map[string]interface{}, reads *[]B) M {
	e := M{}
	var v interface{}
	var err error
	p := Guard(func() {
		v, err = semantics.Walk(n, func(k string) (interface{}, bool) {
			if reads != nil {
				*reads = append(*reads, B(k))
			}
			x, ok := rec[k]
			return x, ok
		})
	})
	switch {
	case p != "":
		e["out"], e["why"] = "panic", p
	case err != nil:
		e["out"], e["why"] = "err", fmt.Sprintf("%T", err)
		e["kind"], e["key"] = errKind(err)
		if t := Guard(func() { _ = err.Error() }); t != "" {
			e["out"], e["why"] = "panic", "Error(): "+t
		}
	default:
		e["out"], e["v"] = "value", Val(v, true)
	}
	return e
}

// errKind tells what an error says is wrong, and with which field.
func errKind(err error) (string, B) {
	for _, k := range []struct {
		kind string
		as   []interface{}
	}{
		{"zero", []interface{}{&tsl.DivisionByZeroError{}, new(*tsl.DivisionByZeroError)}},
		{"type", []interface{}{&tsl.TypeMismatchError{}, new(*tsl.TypeMismatchError), &tsl.UnexpectedOperatorError{},
			new(*tsl.UnexpectedOperatorError), &tsl.UnexpectedTypeError{}, new(*tsl.UnexpectedTypeError),
			&tsl.UnexpectedLiteralError{}, new(*tsl.UnexpectedLiteralError), &tsl.BetweenOperatorError{}, new(*tsl.BetweenOperatorError)}},
	} {
		for _, a := range k.as {
			if errors.As(err, a) {
				return k.kind, B("")
			}
		}
	}
	var v tsl.KeyNotFoundError
	var p *tsl.KeyNotFoundError
	if errors.As(err, &v) {
		return "key", B(v.Key)
	} else if errors.As(err, &p) {
		return "key", B(p.Key)
	}
	return "other", B("")
}

func makeRec(fs []Field) map[string]interface{} {
	r := map[string]interface{}{}
	for _, f := range fs {
		if _, dup := r[string(f.N)]; !dup {
			r[string(f.N)] = f.V.Make()
		}
	}
	return r
}

// EvalCase evaluates twice and looks at what was read and changed.
func EvalCase(n *tsl.TSLNode, rec map[string]interface{}) M {
	tree, before := treeText(n), recText(rec)
	reads := []B{}
	e := Evaluate(n, rec, &reads)
	e["reads"] = reads
	e["same"] = treeText(n) == tree && recText(rec) == before
	a1, _ := json.Marshal(e["v"])
	f := Evaluate(n, rec, nil)
	a2, _ := json.Marshal(f["v"])
	e["again"] = e["out"] == f["out"] && string(a1) == string(a2)
	return e
}

func init() {
	Exec["eval"] = func(c *Case) M {
		var a EvalArg
		c.Get(&a)
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		defer n.Free()
		rec := makeRec(a.Rec)
		return EvalCase(n, rec)
	}
	ev := func(do func(Case), t *TGen, s string) { do(Case{Op: "eval", S: B(s)}.With(EvalArg{t.Rec})) }
	bulk := func(o *Options, g *Gen, make func(bool, func(string, []Field)), do func(Case)) {
		k := 0
		make(o.Deep, func(s string, rec []Field) {
			if k++; o.Share(k) {
				ev(do, &TGen{Rec: rec}, s)
			}
		})
	}
	mode := func(f func(t *TGen, g *Gen) string, tune func(t *TGen), big func(g *Gen) func(bool, func(string, []Field))) func(o *Options, do func(Case)) {
		return func(o *Options, do func(Case)) {
			g := o.Gen()
			bulk(o, g, big(g), do)
			for i := 0; i < o.N/o.Of; i++ {
				t := &TGen{Gen: g, Bad: 4}
				if tune != nil {
					tune(t)
				}
				t.Record()
				ev(do, t, f(t, g))
			}
		}
	}
	depth := func(g *Gen) int {
		if g.Chance(15) {
			return 4
		}
		return 1 + g.Intn(3)
	}
	Modes["scalar"] = mode(func(t *TGen, g *Gen) string {
		switch g.Intn(10) {
		case 0:
			return t.Num(depth(g))
		case 1:
			return t.Leaf()
		}
		return t.Bool(depth(g))
	}, func(t *TGen) {
		if t.Chance(40) {
			t.Bad = 0
		}
	}, func(g *Gen) func(bool, func(string, []Field)) { return g.BulkyScalar })
	Modes["array"] = mode(func(t *TGen, g *Gen) string { return t.ArrayFilter(depth(g)) }, func(t *TGen) {
		t.Arrays = true
		if t.Chance(40) {
			t.Bad = 0
		}
	}, func(g *Gen) func(bool, func(string, []Field)) { return g.BulkyArray })
	Modes["odd"] = mode(func(t *TGen, g *Gen) string {
		if g.Chance(30) {
			// any filter on fields of any type
			s := g.Sentence(2 + g.Intn(8))
			if n, err := tsl.ParseTSL(s); err == nil {
				for _, id := range idNames(n) {
					if g.Chance(95) {
						t.Rec = append(t.Rec, F(id, t.anyFV(2)))
					}
				}
				n.Free()
				return s
			}
		}
		switch g.Intn(6) {
		case 0, 1:
			return t.ArrayFilter(depth(g))
		case 2:
			return t.PatternCase()
		case 3:
			return t.DateFilter()
		}
		return t.Bool(depth(g))
	}, func(t *TGen) { t.Arrays, t.Odd, t.Bad = true, true, 15 }, func(g *Gen) func(bool, func(string, []Field)) { return g.BulkyArray })
	// filters that often fail: fields that are missing, zeros, any types
	Modes["cause"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i := 0; i < o.N/o.Of; i++ {
			t := &TGen{Gen: g, Arrays: g.Chance(40), Odd: g.Chance(15), Bad: []int{0, 5, 20}[g.Intn(3)]}
			t.Record()
			s := t.Bool(depth(g))
			switch {
			case t.Arrays && g.Chance(50):
				s = t.ArrayFilter(depth(g))
			case g.Chance(10):
				s = t.PatternCase()
			case g.Chance(30):
				s = t.Num(depth(g))
			}
			if g.Chance(5) {
				s = t.strLeaf() + g.Pick(" ~= ", " ~! ") + g.Pick("'('", "'['", "'a**'", "'*'", "'a)'", "'ok'") + g.Pick("", " and "+t.Bool(1))
			}
			gone, zero := g.Intn(20), g.Intn(40)
			rec := []Field{}
			for _, f := range t.Rec {
				if g.Chance(zero) {
					f.V = Numb("int", "0")
				}
				if !g.Chance(gone) {
					rec = append(rec, f)
				}
			}
			t.Rec = rec
			ev(do, t, s)
		}
	}
	Modes["pattern"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		bulk(o, g, g.BulkyPattern, do)
		for i, p := range patternCases() {
			if o.Share(i) {
				t := &TGen{Gen: g, Rec: []Field{F("s", Str(p[1]))}}
				ev(do, t, "s "+p[0]+" "+g.Quote(p[2]))
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			t := &TGen{Gen: g, Bad: 2}
			ev(do, t, t.PatternCase())
		}
	}
	Modes["date"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		for i := 0; i < o.N/o.Of; i++ {
			t := &TGen{Gen: g, Bad: 2}
			t.Record()
			ev(do, t, t.DateFilter())
		}
	}
}

func idNames(n *tsl.TSLNode) []string {
	var out []string
	seen := map[string]bool{}
	for _, m := range Tree(n) {
		if m["k"] == "ident" {
			if s := string(m["v"].(B)); !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

// TGen makes filters whose operands mostly have the type the operator wants.
type TGen struct {
	*Gen
	Rec    []Field
	by     map[string][]string // fields by type
	Bad    int                 // per cent of operands of any type
	Arrays bool
	Odd    bool
}

func (t *TGen) add(kind, name string, v FV) {
	if t.by == nil {
		t.by = map[string][]string{}
	}
	t.by[kind] = append(t.by[kind], name)
	t.Rec = append(t.Rec, F(name, v))
}

var smallNums = []string{"0", "1", "2", "3", "5", "10", "100", "0.5", "1.5", "2.25", "-1", "-2", "-3", "7", "8", "-0.5"}
var largeNums = []string{"255", "256", "-128", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967296", "1e3", "1024", "2048",
	"123456789012", "0.1", "0.2", "0.3", "2.7", "1e15", "999999999999", "33554433", "16777217", "-0.1", "3.14", "1e-3", "1e20", "9007199254740993", "3000000000",
	"6e18", "4611686018427387904", "1000000000000000000", "9007199254740994", "36028797018963968", "-6000000000000000000", "1152921504606846976"}

var intKinds = map[string][2]float64{"int8": {-128, 127}, "int16": {-32768, 32767}, "int32": {-1 << 31, 1<<31 - 1}, "int": {-1 << 62, 1 << 62},
	"int64": {-1 << 62, 1 << 62}, "uint8": {0, 255}, "uint16": {0, 65535}, "uint32": {0, 1<<32 - 1}, "uint": {0, 1 << 62}, "uint64": {0, 1 << 62}}
var kindNames = []string{"int8", "int16", "int32", "int", "int64", "uint8", "uint16", "uint32", "uint", "uint64"}

// the ends of the integer types
var wideNums = [][2]string{{"int8", "-128"}, {"int8", "127"}, {"uint8", "255"}, {"uint8", "128"}, {"int16", "-32768"}, {"uint16", "65535"}, {"uint16", "32768"},
	{"int32", "-2147483648"}, {"int32", "2147483647"}, {"uint32", "4294967295"}, {"uint32", "2147483648"}, {"int64", "-9223372036854775808"},
	{"int64", "9223372036854775807"}, {"int64", "4294967296"}, {"int64", "-5000000000"}, {"int", "5000000007"}, {"int", "-9223372036854775808"},
	{"uint64", "18446744073709551615"}, {"uint64", "9223372036854775808"}, {"uint", "9223372036854775808"}, {"uint", "18446744073709551615"},
	{"uint64", "9007199254740992"}, {"float64", "4503599627370496"}, {"float32", "16777216"}, {"float64", "123456789012.75"}}

func (t *TGen) numText() string {
	if t.Chance(2) {
		return t.Pick("5000000000", "10000000019", "-7000000001", "999999999989", "4294967297", "2147483649")
	}
	if t.Chance(75) {
		return smallNums[t.Intn(len(smallNums))]
	}
	if t.Chance(20) {
		return strconv.Itoa(t.Intn(1 << uint(1+t.Intn(40))))
	}
	return largeNums[t.Intn(len(largeNums))]
}

// numFV is a number of some Go type.
func (t *TGen) numFV() FV {
	s := t.numText()
	if t.Odd && t.Chance(20) {
		return Numb(t.Pick("int64", "uint64", "float64"), t.Pick("9223372036854775807", "1e300", "0", "18446744073709551615"))
	}
	if t.Chance(4) {
		x := wideNums[t.Intn(len(wideNums))]
		return Numb(x[0], x[1])
	}
	x, _ := strconv.ParseFloat(s, 64)
	if x == math.Trunc(x) && t.Chance(70) && math.Abs(x) < 1<<62 {
		for i := 0; i < 20; i++ {
			k := kindNames[t.Intn(len(kindNames))]
			if r := intKinds[k]; x >= r[0] && x <= r[1] {
				return Numb(k, s)
			}
		}
	}
	if float64(float32(x)) == x && t.Chance(30) {
		return Numb("float32", s)
	}
	return Numb("float64", s)
}

var strVals = []string{"", "a", "b", "joe", "Joe", "JOE", "jane", "x y", "%", "a%b", "a_b", "abc", "aXc", "日本", "é", "10", "true", "it's", "a\nb", "2020-13-01", "2020-01", "T+Z", "null"}

func (t *TGen) strFV() FV {
	if t.Chance(6) {
		return Str(t.Pick(t.DateText(), t.StampText()))
	}
	if t.Chance(5) {
		return Str(t.Unquoted())
	}
	return Str(strVals[t.Intn(len(strVals))])
}

// Unquoted is any text.
func (g *Gen) Unquoted() string { return strings.ReplaceAll(g.RawString(), "\\", "") }

var instants = []string{"2020-01-02T00:00:00Z", "2020-01-02T03:04:05Z", "2020-01-02T04:04:05+01:00", "2020-01-01T22:04:05-05:00", "2020-01-02T03:04:05.000000001Z",
	"2020-01-02T03:04:05.5Z", "2020-01-02T02:00:00+02:00", "2019-12-31T23:59:59.999999999Z", "2020-01-01T19:00:00-05:00", "2020-01-03T00:00:00Z", "1969-12-31T23:59:59Z",
	"2020-02-29T12:00:00Z", "2020-01-02T00:00:00.000Z", "2020-01-02T05:45:00+05:45"}
var days = []string{"2020-01-01", "2020-01-02", "2020-01-03", "2019-12-31", "2020-02-29", "1970-01-01"}

func (t *TGen) dateText() string {
	switch t.Intn(12) {
	case 0:
		return t.DateText()
	case 1:
		return t.StampText()
	case 2, 3, 4, 5:
		return days[t.Intn(len(days))]
	}
	return instants[t.Intn(len(instants))]
}

func (t *TGen) dateFV() FV {
	s := t.dateText()
	if t.Chance(60) {
		if len(s) > 10 {
			if f := TimeV(s); Guard(func() { mustTime(s) }) == "" {
				return f
			}
		} else if Guard(func() { mustTime(s + "T00:00:00Z") }) == "" {
			return TimeV(s + "T00:00:00Z")
		}
	}
	return Str(s)
}

func (t *TGen) anyFV(d int) FV {
	switch t.Intn(8) {
	case 0:
		return Nil()
	case 1:
		return Boolean(t.Chance(50))
	case 2:
		return t.strFV()
	case 3:
		return t.dateFV()
	case 4:
		if (t.Arrays || t.Odd) && d > 0 {
			return t.arrFV(func() FV { return t.anyFV(d - 1) })
		}
	case 5, 6:
		if t.Odd {
			return FV{Go: OddKinds[t.Intn(len(OddKinds))]}
		}
	}
	return t.numFV()
}

func (t *TGen) arrFV(elem func() FV) FV {
	n := t.Intn(4)
	if t.Chance(5) {
		n = 4 + t.Intn(20)
	}
	k := make([]FV, n)
	for i := range k {
		k[i] = elem()
	}
	if n == 0 && t.Chance(30) {
		return FV{Go: "nilarray"}
	}
	return ArrayV(k...)
}

// Record makes the record.
func (t *TGen) Record() {
	for _, n := range []string{"n", "m", "x.n"} {
		t.add("num", n, t.numFV())
	}
	for _, n := range []string{"s", "t", "x.s[0]"} {
		t.add("str", n, t.strFV())
	}
	t.add("bool", "b", Boolean(true))
	t.add("bool", "c", Boolean(t.Chance(50)))
	for _, n := range []string{"d", "e", "x/d"} {
		t.add("date", n, t.dateFV())
	}
	t.add("null", "z", Nil())
	if t.Odd {
		for _, n := range []string{"o", "p", "q"} {
			f := FV{Go: OddKinds[t.Intn(len(OddKinds))]}
			for _, k := range []string{"num", "str", "date", "bool"} {
				if t.Chance(40) {
					t.by[k] = append(t.by[k], n)
				}
			}
			t.add("odd", n, f)
		}
	}
	if t.Arrays {
		t.add("anum", "an", t.arrFV(t.numFV))
		t.add("anum", "am", t.arrFV(t.numFV))
		t.add("astr", "as", t.arrFV(t.strFV))
		t.add("abool", "ab", t.arrFV(func() FV { return Boolean(t.Chance(60)) }))
		t.add("adate", "ad", t.arrFV(t.dateFV))
		t.add("amix", "ax", t.arrFV(func() FV { return t.anyFV(0) }))
		t.add("amix", "ay", t.arrFV(func() FV { return t.anyFV(2) }))
	}
}

func (t *TGen) field(kind string) string {
	f := t.by[kind]
	if len(f) == 0 {
		return "missing"
	}
	return f[t.Intn(len(f))]
}

func (t *TGen) wrap(s string) string {
	if t.Chance(75) {
		return "(" + s + ")"
	}
	return s
}

// Leaf is an operand of any type.
func (t *TGen) Leaf() string {
	switch t.Intn(12) {
	case 0:
		return "missing"
	case 1:
		return "z"
	case 2:
		return t.boolLeaf()
	case 3, 4:
		return t.strLeaf()
	case 5, 6:
		return t.dateLeaf()
	case 7:
		if t.Arrays {
			return t.Arr(0)
		}
	case 8:
		if t.Odd {
			return t.field("odd")
		}
	}
	return t.numLeaf()
}

func (t *TGen) bad() bool { return t.Chance(t.Bad) }

func (t *TGen) numLeaf() string {
	if t.Chance(60) {
		return t.field("num")
	}
	s := t.numText()
	if t.Chance(5) {
		s = t.Pick("1k", "2Ki", "1.5k", "1M", "0.5Ki", "1Gi")
	}
	return s
}

func (t *TGen) strLeaf() string {
	if t.Chance(55) {
		return t.field("str")
	}
	return t.Quote(strVals[t.Intn(len(strVals))])
}

func (t *TGen) boolLeaf() string {
	if t.Chance(50) {
		return t.field("bool")
	}
	return t.Kw(t.Pick("true", "false"))
}

func (t *TGen) dateLeaf() string {
	if t.Chance(55) {
		return t.field("date")
	}
	s := t.dateText()
	if t.Chance(50) {
		return t.Quote(s)
	}
	return s
}

// Num is a number expression.
func (t *TGen) Num(d int) string {
	if t.bad() {
		return t.Leaf()
	}
	if d <= 0 || t.Chance(30) {
		return t.numLeaf()
	}
	switch t.Intn(8) {
	case 0:
		return "-" + t.wrap(" "+t.Num(d-1))
	case 1:
		if t.Arrays {
			return "(" + t.Kw(t.Pick("len", "sum")) + " (" + t.Arr(d-1) + "))"
		}
	}
	return t.wrap(t.Num(d-1) + " " + t.Pick("+", "-", "*", "/", "%") + " " + t.Num(d-1))
}

func (t *TGen) cmp() string { return t.Pick("=", "!=", "<>", "<", "<=", ">", ">=") }

func (t *TGen) not(op string) string {
	if t.Chance(30) {
		return t.Kw("not") + " " + t.Kw(op)
	}
	return t.Kw(op)
}

func (t *TGen) list(f func() string) string {
	n := 1 + t.Intn(4)
	if t.Chance(5) {
		n = 0
	}
	if t.Chance(3) {
		n = 5 + t.Intn(30)
	}
	e := make([]string, n)
	for i := range e {
		e[i] = f()
	}
	return "[" + strings.Join(e, ", ") + "]"
}

// Bool is a condition.
func (t *TGen) Bool(d int) string {
	if t.bad() {
		return t.Leaf()
	}
	if d <= 0 {
		return t.boolLeaf()
	}
	num := func() string { return t.Num(d - 1) }
	str := func() string {
		if t.bad() {
			return t.Leaf()
		}
		return t.strLeaf()
	}
	date := func() string {
		if t.bad() {
			return t.Leaf()
		}
		return t.dateLeaf()
	}
	bl := func() string { return t.Bool(d - 1) }
	f := []func() string{num, num, str, date, bl}[t.Intn(5)]
	switch t.Intn(13) {
	case 0, 1:
		return t.wrap(bl() + " " + t.Kw("and") + " " + bl())
	case 2, 3:
		return t.wrap(bl() + " " + t.Kw("or") + " " + bl())
	case 4:
		return t.Kw("not") + " " + t.wrap(bl())
	case 5:
		return t.wrap(t.Pick(f(), t.Leaf(), "z") + " " + t.Pick("is null", "is not null"))
	case 6:
		return t.wrap(f() + " " + t.not("in") + " " + t.list(f))
	case 7:
		if t.Chance(50) {
			f = num
		} else {
			f = date
		}
		return t.wrap(f() + " " + t.not("between") + " " + f() + " and " + f())
	case 8:
		return t.wrap(str() + " " + t.Pick("=", "!=", "=", t.not("like"), t.not("ilike"), "~=", "~!") + " " + str())
	case 9:
		if t.Arrays {
			return t.wrap(t.Kw(t.Pick("any", "all")) + " (" + t.Arr(d-1) + " " + t.cmp() + " " + t.numLeaf() + ")")
		}
	}
	if t.Chance(20) {
		return t.wrap(f() + " " + t.Pick("=", "!=") + " " + f())
	}
	if t.Chance(60) {
		f = num
	} else {
		f = date
	}
	return t.wrap(f() + " " + t.cmp() + " " + f())
}

// Arr is an array expression.
func (t *TGen) Arr(d int) string {
	switch t.Intn(7) {
	case 0:
		return t.field("anum")
	case 1:
		return t.field("astr")
	case 2:
		return t.field("abool")
	case 3:
		return t.field("adate")
	case 4:
		return t.field("amix")
	case 5:
		if d > 0 {
			return t.wrap(t.Arr(d-1) + " " + t.Pick("+", "-", "*", "=", "<", ">=", "!=", "/") + " " + t.numLeaf())
		}
	}
	f := []func() string{t.numLeaf, t.strLeaf, t.boolLeaf, t.dateLeaf}[t.Intn(4)]
	return t.list(func() string {
		if t.bad() {
			return t.Leaf()
		}
		return f()
	})
}

// ArrayFilter has an array operand, mostly with operators that suit its elements.
func (t *TGen) ArrayFilter(d int) string {
	s := ""
	e := d - 1
	switch t.Intn(8) {
	case 0, 1: // numbers
		a := t.Pick(t.field("anum"), t.list(t.numLeaf), t.wrap(t.field("anum")+" "+t.Pick("+", "-", "*", "/", "%")+" "+t.Num(e)))
		s = t.Pick(a+" "+t.cmp()+" "+t.Num(e), a+" "+t.not("in")+" "+t.list(t.numLeaf), a+" "+t.not("between")+" "+t.numLeaf()+" and "+t.numLeaf(),
			a+" "+t.not("in")+" "+t.field("anum"))
		if t.Chance(30) {
			return t.Kw(t.Pick("len", "sum")) + " " + t.wrap(a) + " " + t.cmp() + " " + t.numLeaf()
		}
	case 2: // texts
		a := t.Pick(t.field("astr"), t.list(t.strLeaf))
		s = t.Pick(a+" "+t.Pick("=", "!=", "like", "ilike", "~=", "~!")+" "+t.strLeaf(), a+" "+t.not("in")+" "+t.list(t.strLeaf), a+" "+t.not("like")+" "+t.Pick("'%a%'", "'j_e'", "'a%'"))
	case 3: // dates
		a := t.Pick(t.field("adate"), t.list(t.dateLeaf))
		s = t.Pick(a+" "+t.cmp()+" "+t.dateLeaf(), a+" "+t.not("in")+" "+t.list(t.dateLeaf), a+" "+t.not("between")+" "+t.dateLeaf()+" and "+t.dateLeaf())
	case 4: // conditions
		a := t.Pick(t.field("abool"), t.list(func() string { return t.Bool(e) }))
		s = t.Pick(a+" "+t.Kw(t.Pick("and", "or"))+" "+t.Bool(e), t.Kw("not")+" "+t.wrap(a), a+" "+t.Pick("=", "!=")+" "+t.boolLeaf(), a)
	case 5: // anything
		s = t.Arr(e) + " " + t.Pick(t.cmp(), "like", "in", "+", "and", "~=") + " " + t.Pick(t.Leaf(), t.Arr(e))
	case 6:
		l := t.Pick(t.numLeaf(), t.strLeaf(), t.dateLeaf(), t.boolLeaf())
		s = l + " " + t.not("in") + " " + t.Arr(e)
	case 7:
		return t.Kw(t.Pick("len", "any", "all", "sum", "not", "-")) + " " + t.wrap(t.Arr(e))
	}
	if t.Chance(35) {
		s = t.Kw(t.Pick("any", "all", "len", "not")) + " (" + s + ")"
	}
	return s
}

// DateFilter compares dates in all spellings.
func (t *TGen) DateFilter() string {
	l := func() string {
		if t.Chance(8) {
			return t.Quote(t.Pick("2020-13-45", "2020-01-32", "2020-1-002", "2020-02-30", "2020-01-02T03:04:05", "2020-01-02 03:04:05Z", "2020-01-02T25:00:00Z", "x2020-01-02", "2020-01-02x",
				"2020-01-02T03:04:05ZZ", "2020-01-02T03:04:05+0100", "0000-00-00", "T Z"))
		}
		return t.dateLeaf()
	}
	switch t.Intn(6) {
	case 0:
		return l() + " " + t.not("in") + " " + t.list(l)
	case 1:
		return l() + " " + t.not("between") + " " + l() + " and " + l()
	case 2:
		// one instant in two spellings
		i := t.Intn(len(twins))
		return t.Quote(twins[i][t.Intn(len(twins[i]))]) + " " + t.cmp() + " " + t.Quote(twins[i][t.Intn(len(twins[i]))])
	}
	return l() + " " + t.cmp() + " " + l()
}

var twins = [][]string{
	{"2020-01-02", "2020-01-02T00:00:00Z", "2020-01-02T02:00:00+02:00", "2020-01-01T19:00:00-05:00", "2020-01-02T00:00:00.000Z", "2020-01-02T05:45:00+05:45"},
	{"2020-01-02T03:04:05Z", "2020-01-02T04:04:05+01:00", "2020-01-01T22:04:05-05:00", "2020-01-02T03:04:05.0Z"},
	{"2020-03-01", "2020-02-29T24:00:00Z", "2020-02-29T23:00:00-01:00", "2020-03-01T14:00:00+14:00"},
	{"1970-01-01", "1969-12-31T23:00:00-01:00", "1970-01-01T00:30:00+00:30"},
}

// PatternCase is a filter with a pattern operator; the text is related to the pattern.
func (t *TGen) PatternCase() string {
	alpha := []string{"a", "b", "c", "A", "B", "é", "É", ".", "*", "+", "\n", "x", "[", "(", "\\", "^", "$", "%", "_", "日", "1", " ", "?", "|", "{", "-", "ж", "Ж", "ß"}
	text := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if t.Chance(65) {
				b.WriteString(alpha[t.Intn(5)])
			} else {
				b.WriteString(alpha[t.Intn(len(alpha))])
			}
		}
		return b.String()
	}
	v := text(t.Intn(9))
	if t.Chance(5) {
		v = text(20 + t.Intn(60))
	}
	op := t.Pick("like", "ilike", "not like", "not ilike", "~=", "~!")
	p := ""
	if strings.Contains(op, "like") {
		// derive the pattern from the text, or not
		if t.Chance(75) {
			for _, r := range v {
				c := string(r)
				switch {
				case t.Chance(12):
					p += "_"
				case t.Chance(12):
					p += "%"
				case t.Chance(8):
					p += "%" + c
				case t.Chance(4):
				case t.Chance(4):
					p += alpha[t.Intn(len(alpha))]
				case strings.Contains(op, "i") && t.Chance(30):
					if t.Chance(50) {
						p += strings.ToUpper(c)
					} else {
						p += strings.ToLower(c)
					}
				default:
					p += c
				}
			}
			if t.Chance(15) {
				p += t.Pick("%", "_", "%%", "%_", "a")
			}
		} else {
			p = text(t.Intn(6))
		}
	} else {
		p = t.Regexp(2)
	}
	f := Str(v)
	if t.bad() {
		f = t.anyFV(0)
	}
	t.add("str", "s", f)
	if t.Chance(15) {
		t.add("str", "p", Str(p))
		return "s " + op + " p"
	}
	if t.Chance(10) && (f.Go == "string") {
		return t.Quote(v) + " " + op + " " + t.Quote(p)
	}
	return "s " + op + " " + t.Quote(p)
}

// Regexp is a regular expression, sometimes a wrong one.
func (t *TGen) Regexp(d int) string {
	atom := func() string {
		switch t.Intn(14) {
		case 0:
			return "."
		case 1:
			return t.Pick("[ab]", "[^a]", "[a-c]", "[^a-b1]", "[\\d]", "[.]", "[-a]", "[a-]", "[]a]", "[A-Z]", "[\\]]")
		case 2:
			return t.Pick("\\d", "\\w", "\\s", "\\.", "\\*", "\\W", "\\D", "\\S", "\\b", "\\\\", "\\[", "\\+")
		case 3:
			if d > 0 {
				return "(" + t.Pick("", "?:", "") + t.Regexp(d-1) + ")"
			}
		case 4:
			return t.Pick("é", "日", " ", "1", "x", "-", "]", "}")
		}
		return t.Pick("a", "b", "c", "A", "B")
	}
	n := 1 + t.Intn(4)
	s := ""
	if t.Chance(20) {
		s = "^"
	}
	for i := 0; i < n; i++ {
		s += atom()
		if t.Chance(25) {
			s += t.Pick("*", "+", "?", "*?", "{2}", "{1,}", "{0,2}", "{,2}", "+?")
		}
		if t.Chance(8) && d > 0 {
			s += "|"
		}
	}
	if t.Chance(20) {
		s += "$"
	}
	if t.Chance(4) {
		s = t.Pick("*a", "(a", "a)", "[a", "a**", "+", "a{2,1}", "[b-a]", "a\\", "?", "(", "a|*", "a{2}{3}", "()", "", "|", "a||b", "x{1001}") + t.Pick("", s)
	}
	return s
}

func patternCases() [][3]string {
	var r [][3]string
	for _, c := range "!\"#$&'()*+,-./:;<=>?@[\\]^`{|}~aA\n\t " {
		x := string(c)
		for _, op := range []string{"like", "ilike"} {
			r = append(r, [3]string{op, x, x}, [3]string{op, "b", x}, [3]string{op, "a" + x + "b", "a" + x + "b"}, [3]string{op, "aab", "a" + x + "b"}, [3]string{op, x + x, "%" + x}, [3]string{op, x, "_"},
				[3]string{op, x + "a", "%a"}, [3]string{op, "a" + x, "a%"}, [3]string{op, "a" + x + "a", "a_a"}, [3]string{op, x, ""})
		}
	}
	for _, op := range []string{"like", "ilike", "~=", "~!"} {
		for _, v := range []string{"", "a", "ab", "aa", "abc", "A", "éa", "日本語", "a%", "_", "a.c", "\n", "a\nb"} {
			for _, p := range []string{"", "%", "_", "%%", "__", "a", "a%", "%a", "%a%", "_a", "a_", "A", "É_", "日_語", "%本%", "___", "a.c", ".*", "^a", "a$", "[a]", "^a.c$", "^$", "a\nb", ".", "a.b"} {
				r = append(r, [3]string{op, v, p})
			}
		}
	}
	return r
}
