package lib

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/yaacov/tree-search-language/v6/cmd/model"
	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// The command line tools, built into $CLI_DIR.

type CliArg struct {
	Tool  string `json:"tool"`
	Fmt   string `json:"fmt"`   // "" for none given
	Table B      `json:"table"` // of SQL; "" for none given
	Use   string `json:"use"`   // "plain", "none" (no filter given), "extra" (one too many), "flag" (an unknown flag)
}

// bookRec is a book as the fields a mapped filter names.
func bookRec(b model.Book) []Field {
	opt := func(n uint) FV {
		if n == 0 {
			return Nil()
		}
		return Numb("uint", fmt.Sprint(n))
	}
	return []Field{F("title", Str(b.Title)), F("author", Str(b.Author)), F("onloan", Boolean(b.OnLoan)),
		F("spec.pages", opt(b.Spec.Pages)), F("spec.rating", opt(b.Spec.Rating))}
}

// bookDoc is a book as the search tool prints it.
func bookDoc(b model.Book) map[string]interface{} {
	m := map[string]interface{}{"title": b.Title, "author": b.Author, "onloan": b.OnLoan}
	if b.Spec.Pages > 0 {
		m["spec.pages"] = float64(b.Spec.Pages)
	}
	if b.Spec.Rating > 0 {
		m["spec.rating"] = float64(b.Spec.Rating)
	}
	return m
}

// readBooks gives the places of the books of a document, 0 for another thing.
func readBooks(doc []byte, format string) ([]int, bool) {
	var l []map[string]interface{}
	var err error
	if format == "yaml" {
		err = yaml.Unmarshal(doc, &l)
	} else {
		d := json.NewDecoder(bytes.NewReader(doc))
		err = d.Decode(&l)
		if err == nil && d.More() {
			return nil, false
		}
	}
	if err != nil {
		return nil, false
	}
	r := []int{}
	for _, m := range l {
		for k, v := range m {
			if i, ok := v.(int); ok {
				m[k] = float64(i)
			}
		}
		at := 0
		for i, b := range model.Books {
			if reflect.DeepEqual(m, bookDoc(b.(model.Book))) {
				at = i + 1
				break
			}
		}
		r = append(r, at)
	}
	return r, true
}

// ReadIndent reads the tree printer's lines.
func ReadIndent(s string) []M {
	var l []M
	type open struct{ at, level int }
	var stack []open
	odd := func(why string) []M { return []M{{"k": "odd", "what": why}} }
	for _, line := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		text := strings.TrimLeft(line, " ")
		level := len(line) - len(text)
		end := strings.IndexByte(text, ']')
		if !strings.HasPrefix(text, "[") || end < 0 || level%2 != 0 {
			return odd("line " + line)
		}
		level /= 2
		name, rest := text[1:end], text[end+1:]
		m := M{"k": "odd", "what": line}
		v := strings.TrimPrefix(rest, ": ")
		switch {
		case rest == "": // an operator: one child or two
			m = M{"k": "op", "op": name}
		case name == "ARRAY" && rest == ":":
			m = M{"k": "arr", "e": []int{}}
		case !strings.HasPrefix(rest, ": "):
		case name == "STRING":
			if u, err := strconv.Unquote(`"` + v + `"`); err == nil {
				m = M{"k": "str", "v": B(u)}
			}
		case name == "IDENTIFIER":
			m = M{"k": "ident", "v": B(v)}
		case name == "NUMBER":
			if f, err := strconv.ParseFloat(v, 64); err == nil {
				m = M{"k": "num", "f": Float(f)}
			}
		case name == "BOOLEAN" && (v == "true" || v == "false"):
			m = M{"k": "bool", "v": v == "true"}
		case name == "NULL":
			m = M{"k": "null"}
		case name == "DATE":
			m = M{"k": "date", "v": B(v)}
			for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999 -0700 MST"} {
				if t, err := time.Parse(f, v); err == nil {
					m = M{"k": "date", "t": Instant(t)}
				}
			}
		case name == "TIMESTAMP":
			m = M{"k": "ts", "v": B(v)}
			if t, err := time.Parse(time.RFC3339Nano, v); err == nil {
				m = M{"k": "ts", "t": Instant(t)}
			}
		}
		l = append(l, m)
		at := len(l)
		for len(stack) > 0 && stack[len(stack)-1].level >= level {
			stack = stack[:len(stack)-1]
		}
		if at > 1 {
			if len(stack) == 0 || stack[len(stack)-1].level != level-1 {
				return odd("nesting of " + line)
			}
			up := l[stack[len(stack)-1].at-1]
			switch up["k"] {
			case "arr":
				up["e"] = append(up["e"].([]int), at)
			case "op":
				kids, _ := up["kids"].([]int)
				up["kids"] = append(kids, at)
			default:
				return odd("child of a leaf: " + line)
			}
		} else if level != 0 {
			return odd("indented root")
		}
		stack = append(stack, open{at, level})
	}
	for _, m := range l {
		if m["k"] == "op" {
			kids, _ := m["kids"].([]int)
			delete(m, "kids")
			switch len(kids) {
			case 1:
				m["k"], m["r"] = "un", kids[0]
			case 2:
				m["k"], m["l"], m["r"] = "bin", kids[0], kids[1]
			default:
				return odd("operator of " + fmt.Sprint(len(kids)))
			}
		}
	}
	return l
}

func init() {
	Exec["cli"] = func(c *Case) M {
		var a CliArg
		c.Get(&a)
		var args []string
		if a.Use == "flag" {
			args = append(args, "-nosuch")
		}
		if a.Tool == "tsl" {
			if a.Use != "none" {
				args = append(args, "--", string(c.S))
			}
		} else {
			if a.Use != "none" {
				args = append(args, "-i", string(c.S))
			}
			if a.Fmt != "" {
				args = append(args, "-o", a.Fmt)
			}
			if a.Table != "" {
				args = append(args, "-t", string(a.Table))
			}
		}
		if a.Use == "extra" {
			args = append(args, "more")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("CLI_DIR"), a.Tool), args...)
		cmd.Env = append(os.Environ(), "TZ="+c.Zone)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		e := M{"out": "done", "code": 0, "err": se.Len() > 0, "none": so.Len() == 0}
		if err != nil {
			x, ok := err.(*exec.ExitError)
			switch {
			case ctx.Err() != nil:
				e["out"] = "no answer in a minute"
			case !ok:
				fmt.Fprintln(os.Stderr, "cli:", err)
				os.Exit(3)
			case x.ExitCode() < 0 || strings.Contains(se.String(), "goroutine 1"):
				e["out"] = "crashed: " + x.String()
			default:
				e["code"] = x.ExitCode()
			}
		}
		out := so.String()
		n, perr := tsl.ParseTSL(string(c.S))
		switch a.Tool {
		case "tsl":
			// the filter is repeated in front
			out = strings.TrimPrefix(out, "Parsing: "+string(c.S)+"\n")
			e["none"] = out == ""
			if out != "" {
				e["tree"] = ReadIndent(out)
			}
		case "tsl_parser":
			switch a.Fmt {
			case "", "json":
				e["tree"] = ReadJSON(so.Bytes())
			case "yaml":
				e["tree"] = ReadYAML(so.Bytes())
			case "dot":
				e["dot"] = B(out)
				if perr == nil {
					e["tree"] = Tree(n)
				}
			case "sql":
				// where the library makes SQL, the text it should be part of
				e["lib"] = "err"
				if perr == nil {
					l := SQLCase(n)
					e["lib"] = l["out"]
					if l["out"] == "value" {
						var vals []interface{}
						_, vals = rawSQL(n)
						e["where"], e["args"] = l["sql"], B(fmt.Sprint(vals))
					}
				}
				e["stdout"] = B(out)
			}
		case "tsl_mem":
			if b, ok := readBooks(so.Bytes(), a.Fmt); ok {
				e["books"] = b
			}
			recs := [][]Field{}
			for _, b := range model.Books {
				recs = append(recs, bookRec(b.(model.Book)))
			}
			e["recs"] = recs
		}
		if perr == nil {
			n.Free()
		}
		return e
	}
	Modes["cli"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		one := func(s string) {
			if strings.IndexByte(s, 0) >= 0 || len(s) > 12000 {
				return
			}
			a := CliArg{Tool: g.Pick("tsl", "tsl_parser", "tsl_parser", "tsl_mem"), Use: "plain"}
			switch a.Tool {
			case "tsl_parser":
				a.Fmt = g.Pick("", "json", "yaml", "dot", "sql", "sql", "sql")
				if a.Fmt == "sql" && g.Chance(30) {
					a.Table = B(g.Pick("books", "a.b", "\"my table\""))
				}
			case "tsl_mem":
				a.Fmt = g.Pick("", "json", "yaml")
			}
			if g.Chance(4) && a.Tool != "tsl" {
				a.Fmt = g.Pick("xml", "JSON", "sq", "jsonx", " ", "dot ")
			}
			if g.Chance(3) {
				a.Use = g.Pick("none", "extra", "flag")
				if a.Use == "extra" && a.Tool != "tsl" {
					a.Use = "flag"
				}
			}
			do(Case{Op: "cli", S: B(s)}.With(a))
		}
		book := func() {
			do(Case{Op: "cli", S: B(g.BookFilter(1 + g.Intn(3)))}.With(CliArg{Tool: "tsl_mem", Fmt: g.Pick("", "json", "yaml"), Use: "plain"}))
		}
		all := append(append(append([]string{}, Corpus...), places()...), "")
		for _, d := range []int{20, 31, 32, 33, 40, 70, 150, 300} {
			all = append(all, strings.Repeat("not ", d)+"a", strings.Repeat("- ", d)+"b = 1", strings.Repeat("[", d)+"1"+strings.Repeat("]", d),
				strings.Repeat("a = 1 and ", d)+"c", "x in ["+strings.Repeat("1, ", d)+"y]")
		}
		for _, s := range g.Bulky(false) {
			all = append(all, s)
		}
		for i, s := range append(all, Literals()...) {
			if o.Share(i) {
				one(s)
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			switch g.Intn(7) {
			case 0:
				one(g.Damage(g.Sentence(1 + g.Intn(6))))
			case 1:
				one(g.SQLFilter(1 + g.Intn(10)))
			case 2, 3:
				one(g.Sentence(1 + g.Intn(14)))
			default:
				book()
			}
		}
	}
}

// BookFilter is a filter over the books.
func (g *Gen) BookFilter(d int) string {
	num := func() string {
		f := g.Pick("pages", "rating")
		switch g.Intn(6) {
		case 0:
			return f + " " + g.Pick("+", "-", "*") + " " + g.Pick("1", "2", "50")
		case 1:
			return "(" + f + " % " + g.Pick("2", "3", "50") + ")"
		}
		return f
	}
	val := func() string {
		return g.Pick("0", "1", "2", "3", "4", "5", "15", "50", "100", "150", "200", "250", "550", "0.1k", "1e2", "49.5", "-1")
	}
	str := func() string { return g.Pick("title", "author") }
	sval := func() string {
		return g.Quote(g.Pick("Book", "Other Book", "Some Book", "Joe", "Jane", "jane", "My Big Book", "Good Book", "", "Book "))
	}
	pat := func() string {
		return g.Quote(g.Pick("%Book", "Some%", "%other%", "J__e", "j%", "%", "_ook", "%Great%", "Book", "%B%g%"))
	}
	if d > 1 {
		x, y := g.BookFilter(d-1), g.BookFilter(d-1)
		switch g.Intn(4) {
		case 0:
			return "(" + x + ") " + g.Kw("and") + " (" + y + ")"
		case 1:
			return "(" + x + ") " + g.Kw("or") + " (" + y + ")"
		case 2:
			return g.Kw("not") + " (" + x + ")"
		default:
			return x + " " + g.Kw(g.Pick("and", "or")) + " " + y
		}
	}
	switch g.Intn(14) {
	case 0, 1:
		return num() + " " + g.Pick("<", "<=", ">", ">=", "=", "!=", "<>") + " " + val()
	case 2:
		return num() + g.Pick("", " "+g.Kw("not")) + " " + g.Kw("between") + " " + val() + " and " + val()
	case 3:
		return num() + g.Pick("", " "+g.Kw("not")) + " " + g.Kw("in") + " [" + val() + ", " + val() + "]"
	case 4, 5:
		return str() + " " + g.Pick("=", "!=") + " " + sval()
	case 6, 7:
		return str() + g.Pick("", " "+g.Kw("not")) + " " + g.Kw(g.Pick("like", "ilike")) + " " + pat()
	case 8:
		return str() + " " + g.Pick("~=", "~!") + " " + g.Quote(g.Pick("^Some", "Book$", "o{2}", "J(o|an)e", "."))
	case 9:
		return str() + g.Pick("", " "+g.Kw("not")) + " " + g.Kw("in") + " [" + sval() + ", " + sval() + "]"
	case 10:
		return g.Pick("pages", "rating", "title", "on_loan") + " " + g.Kw("is") + g.Pick("", " "+g.Kw("not")) + " " + g.Kw("null")
	case 11:
		return g.Pick("rating is null or rating > 3", "rating is not null and rating < 5", "pages is not null and pages >= 50")
	case 12:
		return "on_loan" + g.Pick("", " = true", " = false", " != true")
	}
	return g.Pick("spec.pages > 1", "onloan", "Title = 'Book'", "isbn = 1", "title[0] = 'x'", "title = author", "pages", "pages + rating > 100",
		"'Book'", "true", "pages = 'x'", "author in [title, 'Joe']", "pages > rating * 20", "on-loan = true")
}
