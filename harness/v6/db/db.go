// Package db asks SQLite and the library's evaluator about the same rows.
package db

import (
	"database/sql"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"
	"github.com/mattn/go-sqlite3"

	"verif6/lib"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	walker "github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

// The columns: numbers, texts, booleans, a date and a moment.
var columns = []string{"n1", "n2", "s1", "s2", "b1", "b2", "d1", "m1"}

const schema = `create table t (id integer primary key, n1 real, n2 real, s1 text, s2 text, b1 boolean, b2 boolean, d1 date, m1 timestamp)`

var conn *sql.DB

func open() {
	sql.Register("with_regexp", &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		return c.RegisterFunc("regexp", func(re, s string) (bool, error) { return regexp.MatchString(re, s) }, true)
	}})
	var err error
	conn, err = sql.Open("with_regexp", ":memory:")
	if err == nil {
		conn.SetMaxOpenConns(1)
		_, err = conn.Exec("pragma case_sensitive_like = on")
	}
	if err == nil {
		_, err = conn.Exec(schema)
	}
	fail(err)
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "db:", err)
		os.Exit(3)
	}
}

// Arg holds the rows.
type Arg struct {
	Rows [][]lib.Field `json:"rows"`
}

// stored is how a value is kept in the table.
func stored(column string, v interface{}) interface{} {
	t, ok := v.(time.Time)
	if !ok {
		return v
	}
	if column == "d1" {
		return t.UTC().Format("2006-01-02")
	}
	return t.UTC().Format("2006-01-02 15:04:05.999999999")
}

func ask(c *lib.Case) lib.M {
	if conn == nil {
		open()
	}
	var a Arg
	c.Get(&a)
	n, err := tsl.ParseTSL(string(c.S))
	if err != nil {
		return lib.M{"out": "noparse"}
	}
	defer n.Free()
	mem := []string{}
	var recs []map[string]interface{}
	for _, row := range a.Rows {
		rec := map[string]interface{}{}
		for _, f := range row {
			rec[string(f.N)] = f.V.Make()
		}
		recs = append(recs, rec)
		m := "err"
		p := lib.Guard(func() {
			v, err := semantics.Walk(n, func(k string) (interface{}, bool) {
				x, ok := rec[k]
				return x, ok
			})
			if b, ok := v.(bool); err == nil && ok {
				m = fmt.Sprint(b)
			} else if err == nil {
				m = "other"
			}
		})
		if p != "" {
			m = "panic"
		}
		mem = append(mem, m)
	}
	e := lib.M{"mem": mem}
	var filter sq.Sqlizer
	p := lib.Guard(func() { filter, err = walker.Walk(n) })
	if p != "" {
		e["out"] = "panic"
		return e
	}
	if err != nil {
		e["out"] = "err"
		return e
	}
	_, err = conn.Exec("delete from t")
	fail(err)
	for i, rec := range recs {
		vals := []interface{}{i + 1}
		for _, k := range columns {
			vals = append(vals, stored(k, rec[k]))
		}
		_, err = conn.Exec("insert into t values (?"+strings.Repeat(", ?", len(columns))+")", vals...)
		fail(err)
	}
	e["out"] = "refused"
	p = lib.Guard(func() {
		text, args, err := sq.Select("id").From("t").Where(filter).ToSql()
		if err != nil {
			return
		}
		rows, err := conn.Query(text, args...)
		if err != nil {
			e["why"] = err.Error()
			return
		}
		defer rows.Close()
		hits := []int{}
		for rows.Next() {
			var id int
			fail(rows.Scan(&id))
			hits = append(hits, id)
		}
		if err := rows.Err(); err != nil {
			e["why"] = err.Error()
			return
		}
		e["out"], e["hits"] = "rows", hits
	})
	if p != "" {
		e["out"] = "panic"
	}
	return e
}

// gen makes filters that compare like with like.
type gen struct {
	*lib.Gen
	nums, texts, days, moments, pats []string
}

func (g *gen) some(n int, f func() string) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = f()
	}
	return r
}

func (g *gen) pool() {
	g.nums = g.some(4, func() string {
		return g.Gen.Pick("0", "1", "2", "3", "-1", "10", "0.5", "2.5", "-7", "7", "100", "1e3", "0.1", "0.2", "0.3", "1024", "-2.25", "99999999", "1e-3", "3.75")
	})
	g.texts = g.some(4, func() string {
		return g.Gen.Pick("", "a", "A", "ab", "aB", "abc", "b", "%", "_", "a%c", "a_c", "a\\c", "é", "É", "éa", "日本", "it's", "\"q\"", "a b", "?", "x?y", " ", "10", "0", "true", "null", "a\nb", ".*", "a.c", "ss", "ß", "--")
	})
	g.pats = append(g.some(4, func() string {
		return g.Gen.Pick("%", "_", "a%", "%c", "%b%", "_b_", "a_c", "a%c", "A%", "%é%", "_", "__", "%_%", "a\\%", "%\\%", "%'%", "", "%%", "a", "é_", "?", "%?%", "(", "[ab]%", "*", "a*", "a.c", "_%_%_")
	}), g.texts...)
	g.days = g.some(3, func() string {
		return g.Gen.Pick("2020-02-29", "1999-12-31", "2000-01-01", "2021-06-15", "0001-01-01", "9999-12-31", "1969-12-31")
	})
	g.moments = g.some(3, func() string {
		return g.Gen.Pick("2020-02-29T00:00:00Z", "1999-12-31T23:59:59Z", "1999-12-31T23:59:59.5Z", "1999-12-31T23:59:59.25Z", "2000-01-01T00:00:00Z", "2000-01-01T01:00:00+01:00",
			"1999-12-31T23:00:00-01:00", "2021-06-15T12:00:00+05:30", "2021-06-15T06:30:00Z", "2021-06-15T06:30:00.000000001Z", "1969-12-31T23:59:59Z")
	})
}

func (g *gen) row() []lib.Field {
	p := func(l []string) string { return l[g.Intn(len(l))] }
	num := func() lib.FV { return lib.Numb("float64", p(g.nums)) }
	return []lib.Field{lib.F("n1", num()), lib.F("n2", num()), lib.F("s1", lib.Str(p(g.texts))), lib.F("s2", lib.Str(p(g.texts))),
		lib.F("b1", lib.Boolean(g.Chance(50))), lib.F("b2", lib.Boolean(g.Chance(50))),
		lib.F("d1", lib.TimeV(p(g.days)+"T00:00:00Z")), lib.F("m1", lib.TimeV(p(g.moments)))}
}

func (g *gen) num(d int) string {
	p := func() string { return g.nums[g.Intn(len(g.nums))] }
	if d <= 0 || g.Chance(55) {
		return g.Gen.Pick("n1", "n2", "n1", p())
	}
	if g.Chance(12) {
		return "- (" + g.num(d-1) + ")"
	}
	x, y := g.num(d-1), g.num(d-1)
	if g.Chance(40) {
		x = "(" + x + ")"
	}
	if g.Chance(40) {
		y = "(" + y + ")"
	}
	return x + " " + g.Gen.Pick("+", "-", "*", "/", "%") + " " + y
}

func (g *gen) list(x string, f func() string) string {
	return x + g.Gen.Pick("", " not") + " in [" + strings.Join(g.some(g.Intn(4), f), ", ") + "]"
}

func (g *gen) between(x string, f func() string) string {
	return x + g.Gen.Pick("", " not") + " between " + f() + " and " + f()
}

func (g *gen) bool(d int) string {
	if d > 0 && g.Chance(70) {
		x, y := g.bool(d-1), g.bool(d-1)
		par := func(s string) string {
			if g.Chance(65) {
				return "(" + s + ")"
			}
			return s
		}
		switch g.Intn(8) {
		case 0, 1, 2:
			return par(x) + " and " + par(y)
		case 3, 4, 5:
			return par(x) + " or " + par(y)
		case 6:
			return "(" + x + ") " + g.Gen.Pick("=", "!=") + " (" + y + ")"
		}
		return "not " + "(" + x + ")"
	}
	cmp := func() string { return " " + g.Gen.Pick("=", "!=", "<", "<=", ">", ">=", "<>") + " " }
	eq := func() string { return " " + g.Gen.Pick("=", "!=") + " " }
	num := func() string { return g.num(2) }
	leaf := func() string { return g.num(0) }
	text := func() string {
		if g.Chance(35) {
			return g.Gen.Pick("s1", "s2")
		}
		return g.Quote(g.texts[g.Intn(len(g.texts))])
	}
	pat := func() string {
		if g.Chance(10) {
			return "s2"
		}
		return g.Quote(g.pats[g.Intn(len(g.pats))])
	}
	day := func() string {
		if g.Chance(20) {
			return "d1"
		}
		return g.days[g.Intn(len(g.days))]
	}
	moment := func() string {
		if g.Chance(20) {
			return "m1"
		}
		return g.moments[g.Intn(len(g.moments))]
	}
	truth := func() string { return g.Gen.Pick("b1", "b2", "true", "false") }
	switch g.Intn(20) {
	case 0, 1, 2:
		return num() + cmp() + num()
	case 3:
		return g.list(num(), num)
	case 4:
		return g.between(num(), leaf)
	case 5, 6:
		return text() + eq() + text()
	case 7, 8:
		return text() + g.Gen.Pick("", " not") + " like " + pat()
	case 9:
		return g.list(text(), text)
	case 10, 11:
		return day() + cmp() + day()
	case 12:
		return g.Gen.Pick(g.list(day(), day), g.between(day(), day))
	case 13, 14:
		return moment() + cmp() + moment()
	case 15:
		return g.Gen.Pick(g.list(moment(), moment), g.between(moment(), moment))
	case 16:
		return g.Gen.Pick(columns...) + " is" + g.Gen.Pick("", " not") + " null"
	case 17:
		return g.Gen.Pick(text()+" "+g.Gen.Pick("~=", "~!")+" "+g.Quote(g.Gen.Pick("a", "^a", "b$", "^.$", "a.c", "[ab]", "^$", "é", "a|b", "^(a|é)+$")), g.list(truth(), truth))
	case 18:
		return truth() + eq() + truth()
	}
	return g.Gen.Pick("b1", "b2", "b1", "true", "false")
}

func init() {
	lib.Exec["db"] = ask
	lib.Modes["db"] = func(o *lib.Options, do func(lib.Case)) {
		g := &gen{Gen: o.Gen()}
		g.bulky(o, do)
		for i := 0; i < o.N/o.Of; i++ {
			g.pool()
			var a Arg
			for n := 1 + g.Intn(6); n > 0; n-- {
				a.Rows = append(a.Rows, g.row())
			}
			do(lib.Case{Op: "db", S: lib.B(g.bool(g.Intn(4)))}.With(a))
		}
	}
}

// bulky are long lists, chains, texts; with rows that decide at the far end
func (g *gen) bulky(o *lib.Options, do func(lib.Case)) {
	sizes := []int{17, 33, 65, 101, 129, 257, 1025}
	many := func(n int, sep, f string) string {
		p := make([]string, n)
		for i := range p {
			p[i] = strings.ReplaceAll(f, "#", fmt.Sprint(i))
		}
		return strings.Join(p, sep)
	}
	k := 0
	for _, n := range sizes {
		n += g.Intn(3)
		g.pool()
		long := strings.Repeat(g.Gen.Pick("x", "é", "ab", "'", " "), n)
		var a Arg
		for _, at := range []int{0, n - 1, n, n / 2} {
			r := g.row()
			r[0], r[2] = lib.F("n1", lib.Numb("float64", fmt.Sprint(at))), lib.F("s1", lib.Str(fmt.Sprint("v", at)))
			r[3] = lib.F("s2", lib.Str(long+g.Gen.Pick("y", "z", "", "yy")))
			a.Rows = append(a.Rows, r)
		}
		one := func(s string) {
			if k++; o.Share(k) {
				do(lib.Case{Op: "db", S: lib.B(s)}.With(a))
			}
		}
		nots := g.Gen.Pick("", "not ")
		one("b1 and n1 " + nots + "in [" + many(n, ", ", "#") + "]")
		one("s1 " + nots + "in [" + many(n, ", ", "'v#'") + "] and (b1 or b2)")
		one("(n1 in [" + many(n, ", ", "# + n2") + "] or b1) and b2")
		one("s2 = " + g.Quote(long+"y") + " or s1 = 'v0' and b1")
		one("b1 and s2 in [" + g.Quote(long+"y") + ", 'z', " + g.Quote(long) + "]")
		if n < 300 {
			one("s2 " + nots + "like " + g.Quote(g.Gen.Pick("%y", long+"%", long+"_", "_"+long)))
		}
		if n < 40 {
			// SQLite reads 100 nested parentheses
			one("b2 and (" + many(n, " or ", "n1 = #") + ")")
			one(many(n, " and ", "s1 != 'v#'"))
			one("n1 < " + many(n, " + ", "#"))
		}
	}
}
