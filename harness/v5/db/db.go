// Package db asks SQLite and the library's evaluator about the same rows.
package db

import (
	"database/sql"
	"fmt"
	"os"
	"strings"
	"time"
	"unicode/utf8"

	sq "github.com/Masterminds/squirrel"
	"github.com/mattn/go-sqlite3"

	"verif45/lib"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	walker "github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

// The columns: numbers, texts, booleans, moments and nothing.
var columns = []string{"n", "m", "k", "s", "t", "u", "b", "c", "d", "e", "z"}

const schema = `create table t (id integer primary key, n real, m real, k real, s text, t text, u text, b boolean, c boolean, d text, e text, z text)`

var conn *sql.DB

func open() {
	sql.Register("plain", &sqlite3.SQLiteDriver{})
	var err error
	conn, err = sql.Open("plain", ":memory:")
	if err == nil {
		conn.SetMaxOpenConns(1)
		_, err = conn.Exec("pragma case_sensitive_like = on")
	}
	if err == nil {
		_, err = conn.Exec(schema)
	}
	fail(err)
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "db:", err)
		os.Exit(3)
	}
}

// Arg holds the rows.
type Arg struct {
	Ver  int           `json:"ver"`
	Rows [][]lib.Field `json:"rows"`
}

// stored is how a value is kept in the table.
func stored(v interface{}) interface{} {
	switch v := v.(type) {
	case time.Time:
		return v.UTC().Format("2006-01-02T15:04:05Z")
	case bool:
		if v {
			return 1
		}
		return 0
	case int:
		return float64(v)
	case int32:
		return float64(v)
	case int64:
		return float64(v)
	case uint:
		return float64(v)
	case uint32:
		return float64(v)
	case uint64:
		return float64(v)
	case float32:
		return float64(v)
	case float64, string, nil:
		return v
	}
	return nil
}

func ask(c *lib.Case) lib.M {
	if conn == nil {
		open()
	}
	var a Arg
	c.Get(&a)
	n, err := tsl.ParseTSL(string(c.S))
	if err != nil {
		return lib.M{"out": "noparse"}
	}
	mem := []string{}
	var recs []map[string]interface{}
	for _, row := range a.Rows {
		rec := map[string]interface{}{}
		for _, f := range row {
			rec[string(f.N)] = f.V.Make()
		}
		recs = append(recs, rec)
		m := lib.Evaluate(n, rec, nil)
		s := fmt.Sprint(m["out"])
		if s == "value" {
			s = fmt.Sprint(m["v"])
		}
		mem = append(mem, s)
	}
	e := lib.M{"mem": mem}
	var filter sq.Sqlizer
	p := lib.Guard(func() { filter, err = walker.Walk(n) })
	if p != "" {
		e["out"] = "panic"
		return e
	}
	if err != nil {
		e["out"] = "err"
		return e
	}
	_, err = conn.Exec("delete from t")
	fail(err)
	for i, rec := range recs {
		vals := []interface{}{i + 1}
		for _, k := range columns {
			vals = append(vals, stored(rec[k]))
		}
		_, err = conn.Exec("insert into t values (?"+strings.Repeat(", ?", len(columns))+")", vals...)
		fail(err)
	}
	e["out"] = "refused"
	p = lib.Guard(func() {
		text, args, err := sq.Select("id").From("t").Where(filter).ToSql()
		if err != nil {
			return
		}
		rows, err := conn.Query(text, args...)
		if err != nil {
			e["why"] = err.Error()
			return
		}
		defer rows.Close()
		hits := []int{}
		for rows.Next() {
			var id int
			fail(rows.Scan(&id))
			hits = append(hits, id)
		}
		if err := rows.Err(); err != nil {
			e["why"] = err.Error()
			return
		}
		e["out"], e["hits"] = "rows", hits
	})
	if p != "" {
		e["out"] = "panic"
	}
	return e
}

func init() {
	lib.Exec["db"] = ask
	lib.Modes["db"] = func(o *lib.Options, do func(lib.Case)) {
		g := o.G()
		o.BulkyShare(g, func(s string, row []lib.Field) {
			if lib.Ver == 4 && strings.Count(s, ",") > 990 { // its SQLite binds 999 values
				return
			}
			if strings.Count(s, " or ")+strings.Count(s, " and ")+strings.Count(s, " + ")+strings.Count(s, " * ") < 40 { // SQLite reads 100 nested parentheses
				do(lib.Case{Op: "db", S: lib.B(s)}.With(Arg{Ver: lib.Ver, Rows: [][]lib.Field{row}}))
			}
		})
		for i := 0; i < o.N/o.Of; {
			t := lib.NewT45(g)
			t.Table(g.Chance(30))
			a := Arg{Ver: lib.Ver}
			for n := 1 + g.Intn(5); n > 0; n-- {
				a.Rows = append(a.Rows, t.Row())
			}
			s := t.Filter(1 + g.Intn(4))
			if !utf8.ValidString(s) || strings.Contains(s, "\x00") {
				continue
			}
			i++
			do(lib.Case{Op: "db", S: lib.B(s)}.With(a))
		}
	}
}
