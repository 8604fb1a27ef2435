package lib

import (
	"strconv"
	"strings"
)

// Bulky are filters in which much is repeated: long lists, long chains, long texts and names, every part of
// another value so that none may be lost, moved or repeated; with a row (of T45.Table) that decides at the far end.
func (g *G) Bulky(deep bool, do func(s string, row []Field)) {
	sizes := []int{17, 33, 65, 101, 129, 257, 1025}
	if deep {
		sizes = append(sizes, 513, 2049)
	}
	k := strconv.Itoa
	many := func(n int, sep string, f func(i int) string) string {
		p := make([]string, n)
		for i := range p {
			p[i] = f(i)
		}
		return strings.Join(p, sep)
	}
	for _, n := range sizes {
		n += g.Intn(3)
		at := []int{0, n - 1, n - 1, n / 2, n}[g.Intn(5)]
		t := NewT45(g)
		t.Table(false)
		row := func(v ...Field) []Field {
			r := t.Row()
			for i := range r {
				for _, x := range v {
					if string(x.N) == string(r[i].N) {
						r[i] = x
					}
				}
			}
			return r
		}
		num, str := F("n", Numb("float64", k(at+1))), F("s", Str("v"+k(at)))
		nots := g.Pick("", "not ")
		nums := many(n, g.Pick(", ", ","), func(i int) string { return k(i + 1) })
		strs := many(n, g.Pick(", ", ","), func(i int) string { return "'v" + k(i) + "'" })
		do("n "+nots+"in ("+nums+")", row(num))
		do(g.Pick("t = 'x' or ", "t != 'x' and ", "t is not null and ")+"s "+nots+"in ("+strs+")", row(str, F("t", Str(g.Pick("x", "y")))))
		do("(s "+nots+"in ("+strs+") or n > "+k(n)+") and n in ("+nums+")", row(num, str))
		if n < 140 || deep && n < 300 {
			do(many(n, " or ", func(i int) string { return "s = 'v" + k(i) + "'" }), row(str))
			do(many(n, " and ", func(i int) string { return "n != " + k(i+1) }), row(num))
			do("m = 1 and ("+many(n, " or ", func(i int) string { return "n = " + k(i+1) })+")", row(num, F("m", Numb("int", "1"))))
			if Ver == 5 {
				do("n < "+many(n, " + ", func(i int) string { return k(i) }), row(F("n", Numb("int", k(n*(n-1)/2-g.Intn(2))))))
				do("n * 2 < "+many(n, g.Pick(" - ", " * "), func(i int) string { return k(i%3 + 1) }), row(num))
			}
		}
		w := g.Pick("x", "é", "ab", "日本", " ", "''", "-")
		long := strings.Repeat(w, n)
		plain := strings.ReplaceAll(long, "''", "'")
		do("s = '"+long+"y'", row(F("s", Str(plain+g.Pick("y", "z", "", "yy")))))
		do("t = 'u' or s in ('a', '"+long+"y', '"+long+"') and n = 1", row(F("s", Str(plain+g.Pick("y", "z", ""))), F("n", Numb("int", "1"))))
		if n < 300 {
			do("s "+nots+"like '"+g.Pick("%y", long+"%", long+"_", "_"+long)+"'", row(F("s", Str(plain+g.Pick("y", "z", "")))))
		}
	}
}

func (o *Options) bulky(g *G, do func(s string, row []Field)) {
	i := 0
	g.Bulky(o.Deep, func(s string, row []Field) {
		if i++; o.Share(i) {
			do(s, row)
		}
	})
}

// BulkyShare is bulky for other packages.
func (o *Options) BulkyShare(g *G, do func(s string, row []Field)) { o.bulky(g, do) }
