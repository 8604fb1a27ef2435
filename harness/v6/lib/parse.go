package lib

import (
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

func init() {
	Exec["parse"] = func(c *Case) M {
		e := M{}
		var n *tsl.TSLNode
		var err error
		if p := Guard(func() { n, err = tsl.ParseTSL(string(c.S)) }); p != "" {
			e["out"], e["why"] = "panic", p
			return e
		}
		Outcome(e, n, err)
		if n != nil {
			n.Free()
		}
		return e
	}
	// sentences, for the shape of the tree
	Modes["parse"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		parse := func(s string) { do(Case{Op: "parse", S: B(s)}) }
		for i, s := range Corpus {
			if o.Share(i) {
				parse(s)
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			size := 2 + g.Intn(10)
			if g.Chance(10) {
				size = 12 + g.Intn(40)
			}
			if g.Chance(1) {
				size = 150
			}
			parse(g.Sentence(size))
		}
		for i, s := range huge(g) {
			if o.Share(i) {
				parse(s)
			}
		}
		o.bulky(g, parse)
	}
	// texts of which most are not sentences
	Modes["reject"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		parse := func(s string) { do(Case{Op: "parse", S: B(s)}) }
		for i, s := range NearMisses {
			if o.Share(i) {
				parse(s)
			}
		}
		k := 0
		depth := 2
		if o.Deep {
			depth = 3
		}
		for n := 0; n <= depth; n++ {
			for i := 0; i < Pow(len(Alphabet), n); i++ {
				if k++; o.Share(k) {
					parse(Seq(i, n))
				}
			}
		}
		// every byte, alone and beside operands
		for c := 0; c < 256; c++ {
			if o.Share(c) {
				b := string([]byte{byte(c)})
				parse(b)
				parse("a = 1" + b)
				parse("a = 1 " + b)
				parse(b + "a = 1")
				parse("a " + b + " 1")
				parse("a = 1 " + b + " and b = 2")
			}
		}
		// errors in long words
		for i, n := range []int{60, 100, 127, 129, 200, 255, 257, 400, 508, 511, 512, 513, 700, 1030} {
			if o.Share(i) {
				w := strings.Repeat("x", n)
				for _, s := range []string{"a=1)" + w, w + "=1)", "a=1 " + w, w + " " + w, "a=(" + w, "a='" + w, w + "!" + w, "a=1 é" + w, "b in [1,'" + w + "'] 2"} {
					parse(s)
				}
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			s := g.Sentence(1 + g.Intn(8))
			switch {
			case g.Chance(20):
				n := 3 + g.Intn(4)
				s = Seq(g.Intn(Pow(len(Alphabet), n)), n)
			default:
				s = g.Damage(s)
				for g.Chance(30) {
					s = g.Damage(s)
				}
			}
			parse(s)
		}
	}
	// literals
	Modes["literal"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		parse := func(s string) { do(Case{Op: "parse", S: B(s)}) }
		for i, s := range Literals() {
			if o.Share(i) {
				parse(s)
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			var s string
			switch g.Intn(8) {
			case 0, 1, 2:
				s = g.Number()
			case 3, 4, 5:
				s = g.String()
			case 6:
				s = g.Pick(g.DateText(), g.StampText())
			case 7:
				s = g.Pick(g.Ident(), g.Kw(Keywords[g.Intn(len(Keywords))]))
			}
			switch g.Intn(6) {
			case 0:
				s = "a = " + s
			case 1:
				s = "[" + s + "," + s + "]"
			case 2:
				s = s + "=" + g.Leaf()
			case 3:
				s = "a between " + s + " and " + g.Leaf()
			}
			parse(s)
		}
	}
}

// Literals are the systematic spellings of literals.
func Literals() []string {
	var r []string
	for _, m := range []string{"0", "1", "7", "12", "007", "1.5", "2.", "0.1", "123456789", "9007199254740993", "0.30000000000000004"} {
		for _, sg := range []string{"", "-", "+"} {
			r = append(r, sg+m)
			for _, z := range sizes {
				for _, i := range []string{"", "i", "I"} {
					r = append(r, sg+m+z+i)
				}
			}
			for _, e := range []string{"e0", "E3", "e+5", "E-5", "e10", "e-10", "e21", "e22", "e23", "e300", "e308", "e309", "e-323", "e-324", "e-400"} {
				r = append(r, sg+m+e)
			}
		}
	}
	r = append(r, "123456789012345678901234567890", "0.1234567890123456789012345678901234567890", "1.7976931348623157e308",
		"1.7976931348623159e308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "5e-324", "1e0000000001",
		"1e-0000000001", "0e400", "00000000000000000000000000000001", "1.00000000000000000000000000000000000000001",
		"9007199254740992", "9007199254740994", "9007199254740995", "4503599627370497.5", "1ki", "1b", "1kb", "1kib", "1Ki1", "1 Ki", "1e3k", "1i",
		"1.e3", "1.5.2", "-.5", ".5", "1e", "1e+", "1E5i", "0x10", "1_000", "1,000", "--1", "-+1", "- 1", "-(1)", "1-1", "1 -1", "1- 1", "1 - 1", "a-1", "a -1")
	// every byte in every quote, plain and escaped
	for c := 1; c < 256; c++ {
		for _, q := range []string{"'", "\"", "`"} {
			b := string([]byte{byte(c)})
			r = append(r, q+b+q, q+"\\"+b+q, q+"x"+b+"y"+q, q+"x\\"+b+"y"+q)
		}
	}
	for _, v := range []string{"", "'", "''", "\"", "a\\", "\\", "\\\\", "\\\\\\", "a\\nb", "%", "_", "T", "TZ", "T+", "ZT", "xTyZ", "T-Z", "A+T",
		"2020-01-01", "2020-13-45", "20200-1-01", "2020-1-001", "abcd-ef-gh", "2020-01-01 ", " 2020-01-01", "2020-01-0", "2020-01-011",
		"2020-01-02T03:04:05Z", "2020-01-02T03:04:05+01:00", "2020-01-02T03:04:05-01:00", "2020-01-02T03:04:05", "2020-01-02T03:04:05.5Z",
		"2020-01-02t03:04:05z", "2020-01-02T3:04:05Z", "2020-01-02T03:04:05,5Z", "2020-01-02T03:04Z", "2020-02-30T03:04:05Z", "TITLE+X",
		"2020-01-02T24:00:00Z", "2020-01-02T23:59:60Z", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05.1234567891Z",
		"2020-01-02T03:04:05+25:00", "2020-01-02T03:04:05+24:00", "2020-01-02T03:04:05+00:60", "2020-01-02T03:04:05Z ", "0000-01-01", "9999-12-31"} {
		for _, q := range []string{"'", "\"", "`"} {
			r = append(r, q+strings.ReplaceAll(strings.ReplaceAll(v, "\\", "\\\\"), q, "\\"+q)+q)
		}
		r = append(r, v)
	}
	for _, w := range append(append([]string{}, Keywords...), "True", "tRUE", "FALSE", "False", "Null", "NOT", "liked", "inx", "andy", "truer", "true1", "true.x", "true[0]",
		"a[1]", "a[*]", "a[b-c]", "a[b/c.d_e]", "a[1][2]", "a[]", "a[**]", "a[b c]", "a[-]", "a[*].b[0]/c", "a/b", "a//b", "a.", "a/", "_", "_a", "a-b", "a[1", "a]", "A.B.C", "aé", "é", "a$b", "a@b", "a:b") {
		r = append(r, w, w+" = 1", "1 = "+w)
	}
	return r
}

func huge(g *Gen) []string {
	rep := strings.Repeat
	nums := func(n int) string {
		var w []string
		for i := 0; i < n; i++ {
			w = append(w, g.Pick("1", "a", "'x'", "2.5", "true", "2020-01-02"))
		}
		return strings.Join(w, ",")
	}
	return []string{
		rep("(", 300) + "a = 1" + rep(")", 300), rep("not ", 300) + "a", rep("- ", 200) + "a", "a" + rep(" + 1", 400), "a = 1" + rep(" and b = 2", 200),
		"a = 1" + rep(" or b = 2 and c = 3", 120), rep("[", 100) + "1" + rep("]", 100), "a in [" + nums(300) + "]", "a in [" + nums(64) + ",]",
		"a in [" + nums(127) + "]", "a in [" + nums(255) + "]", "a not in [" + nums(33) + "] and b in [" + nums(17) + "]",
		"a = '" + rep("x", 5000) + "'", "a = '" + rep("\\n", 1200) + "'", rep("a", 3000) + " = 1", "x" + rep("[0]", 300) + " = 1",
		rep("a = 1 and (", 100) + "b = 2" + rep(")", 100), "a between " + rep("1 + ", 100) + "1 and 5", "a" + rep(" = 1", 100), rep("len ", 100) + "a",
		"[[1,2],[3,[4,5,[6]]],[]] = [" + nums(20) + "]", "a = " + rep("1", 90), "a = 0." + rep("0", 60) + rep("7", 30), "a" + rep("\n", 500) + "= 1",
		"a in [" + rep("[1,2],", 40) + "]", "a = '" + rep("\\\\", 600) + "'", "a" + rep(" is null", 60), "a" + rep(" not in [1]", 60), "a" + rep(" between 1 and 2", 60),
	}
}
