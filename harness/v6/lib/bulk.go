package lib

import (
	"strconv"
	"strings"
)

// sizes of what is repeated, around the sizes of buffers and tables
func bulkSizes(deep bool) []int {
	if deep {
		return []int{17, 33, 65, 101, 129, 257, 513, 1025, 2049, 4097}
	}
	return []int{17, 33, 65, 101, 129, 257, 513, 1025, 1025, 1025}
}

func many(n int, sep string, f func(i int) string) string {
	p := make([]string, n)
	for i := range p {
		p[i] = f(i)
	}
	return strings.Join(p, sep)
}

// Bulky are filters in which much is repeated: long lists, long chains, long texts and names, every part of
// another value so that none may be lost, moved or repeated.
func (g *Gen) Bulky(deep bool) []string {
	var r []string
	num := func(i int) string { return strconv.Itoa(i + 1) }
	text := func(i int) string { return "'v" + strconv.Itoa(i) + "'" }
	mixed := func(i int) string {
		return []string{strconv.Itoa(i), "'" + strconv.Itoa(i) + "'", "c" + strconv.Itoa(i), "true", "a + " + strconv.Itoa(i)}[i%5]
	}
	for _, n := range bulkSizes(deep) {
		n += g.Intn(3)
		el := []func(int) string{num, text, mixed}[g.Intn(3)]
		list := "[" + many(n, g.Pick(", ", ","), el) + "]"
		r = append(r, g.Pick("ok and b in "+list, "b not in "+list+" and ok", "not (b in "+list+") or ok", "(b in "+list+" or ok) and c = 1"))
		if n < 300 || deep && n < 1100 {
			r = append(r, many(n, g.Pick(" and ", " or "), func(i int) string { return "c" + strconv.Itoa(i) + " = " + strconv.Itoa(i) }),
				"ok and ("+many(n, " or ", func(i int) string { return "a = 'x" + strconv.Itoa(i) + "'" })+") and b > 2",
				"a < "+many(n, g.Pick(" + ", " - ", " * "), num))
		}
		long := strings.Repeat(g.Pick("x", "word ", "'", "é", "\\\\", "ab%_"), n/2) + "end"
		r = append(r, "a = "+g.Quote(long)+" or a like "+g.Quote("b"+long)+" and c = 1", strings.Repeat("n", n)+"_1 = "+strings.Repeat("n", n)+"_2")
	}
	return r
}

// bulky gives this chunk's share of them.
func (o *Options) bulky(g *Gen, one func(s string)) {
	for i, s := range g.Bulky(o.Deep) {
		if o.Share(i) {
			one(s)
		}
	}
}

// BulkyScalar are evaluations of such filters, on records that decide at the far end.
func (g *Gen) BulkyScalar(deep bool, do func(s string, rec []Field)) {
	for _, n := range bulkSizes(deep) {
		n += g.Intn(3)
		at := []int{0, n - 1, n - 1, n / 2, n}[g.Intn(5)]
		k := strconv.Itoa
		nots := g.Pick("", "not ")
		do("b "+nots+"in ["+many(n, ", ", func(i int) string { return k(i + 1) })+"]", []Field{F("b", Numb(g.Pick("int", "float64", "int64"), k(at+1)))})
		do("ok and b "+nots+"in ["+many(n, ", ", func(i int) string { return "'v" + k(i) + "'" })+"]", []Field{F("b", Str("v"+k(at))), F("ok", Boolean(true))})
		do("b in ["+many(n, ", ", func(i int) string {
			return []string{k(i), "'" + k(i) + "'", "c", "true", "c + " + k(i)}[i%5]
		})+"]", []Field{F("b", []FV{Numb("int", k(at)), Str(k(at)), Boolean(false)}[g.Intn(3)]), F("c", Numb("int", "5000"))})
		if n < 300 || deep && n < 1100 {
			do(many(n, " or ", func(i int) string { return "b = 'x" + k(i) + "'" }), []Field{F("b", Str("x"+k(at)))})
			do(many(n, " and ", func(i int) string { return "b != " + k(i) }), []Field{F("b", Numb("int", k(at)))})
			do(many(n, " + ", func(i int) string { return k(i) })+" - b", []Field{F("b", Numb("int", k(at)))})
			rec := []Field{}
			for i := 0; i < n; i++ {
				v := i
				if i == at {
					v = -1
				}
				rec = append(rec, F("c"+k(i), Numb("int", k(v))))
			}
			do(many(n, " and ", func(i int) string { return "c" + k(i) + " = " + k(i) }), rec)
		}
		w := g.Pick("x", "é", "ab", "日本", " ", "-")
		long := strings.Repeat(w, n)
		do("b = "+g.Quote(long+"y"), []Field{F("b", Str(long+g.Pick("y", "z", "", "yy")))})
		do("b != "+g.Quote("y"+long)+" and b < c", []Field{F("b", Str("y"+long)), F("c", Numb("int", "1"))})
	}
}

// BulkyPattern are matches of long texts.
func (g *Gen) BulkyPattern(deep bool, do func(s string, rec []Field)) {
	for _, n := range bulkSizes(deep) {
		if n > 600 && !deep {
			n = 600
		}
		n += g.Intn(3)
		w := g.Pick("x", "é", "ab", "a\n", "日本")
		long := strings.Repeat(w, n)
		op := g.Pick(" like ", " like ", " ilike ")
		do("b"+op+g.Quote(g.Pick("%y", long+"%", "%"+w+"_", long+"_", "_"+long, "%"+long+"%")), []Field{F("b", Str(long+g.Pick("y", "z", "", "yy")))})
		if n < 150 {
			do("b"+op+g.Quote(strings.Repeat("_", n+g.Intn(2))), []Field{F("b", Str(strings.Repeat(g.Pick("x", "é", "\n"), n)))})
			do("b"+op+g.Quote(strings.Repeat("%_", n/8)+g.Pick("y", "%", "_")), []Field{F("b", Str(strings.Repeat("x", n/8+g.Intn(3))+g.Pick("y", "")))})
		}
		do("b ~= "+g.Quote(g.Pick("y$", "^"+w, w+"+y", "[xyé]+$", "z")), []Field{F("b", Str(long+g.Pick("y", "z")))})
	}
}

// BulkyArray are evaluations on long arrays.
func (g *Gen) BulkyArray(deep bool, do func(s string, rec []Field)) {
	k := strconv.Itoa
	for _, n := range bulkSizes(deep) {
		n += g.Intn(3)
		at := []int{0, n - 1, n - 1, n / 2, n}[g.Intn(5)]
		kind := g.Pick("int", "float64", "int64", "int32")
		xs := make([]FV, n)
		bs := make([]FV, n)
		for i := range xs {
			xs[i] = Numb(kind, k(i))
			bs[i] = Boolean(i == at)
		}
		rec := []Field{F("xs", ArrayV(xs...)), F("bs", ArrayV(bs...)), F("b", Numb("int", k(at))), F("s", Str("t"))}
		for _, s := range []string{"len xs", "sum xs", "any bs", "all (not bs)", "all bs", "any (xs = b)", "all (xs != b)", "b in xs", "b not in xs", "any (xs >= " + k(n-1) + ")",
			"len (xs + 1) = " + k(n), "sum (xs * 2) - sum xs", "xs - b", "not bs", "- xs", "any (xs in [b, -1])", "all (xs between 0 and " + k(n-2) + ")", "xs = s"} {
			if g.Chance(40) || n < 70 {
				do(s, rec)
			}
		}
	}
	// sums and products that leave the range of whole numbers of 64 bits, and that need all of a double's
	for _, v := range [][2]string{{"6000000000000000000", "6000000000000000000"}, {"9223372036854775807", "1"}, {"4611686018427387904", "4611686018427387904"},
		{"9007199254740992", "2"}, {"4503599627370496.5", "-4503599627370496"}, {"1e300", "1e300"}, {"-9223372036854775808", "-9223372036854775808"}, {"0.5", "0.25"}, {"1e15", "0.125"}} {
		kind := func(s string) FV {
			if strings.ContainsAny(s, ".e") || g.Chance(50) {
				return Numb("float64", s)
			}
			return Numb("int64", s)
		}
		rec := []Field{F("xs", ArrayV(kind(v[0]), kind(v[1]))), F("b", kind(v[0])), F("c", kind(v[1]))}
		for _, s := range []string{"sum xs", "sum [b, c]", "sum [b, c, b]", "sum (xs + xs)", "b + c", "b - c", "xs + b", "xs - c", "b + b = c + c", "sum xs > b", "xs * 2", "- xs", "sum [b, c, - b]", "b in xs", "c / 2"} {
			do(s, rec)
		}
	}
}
