package lib

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"

	"github.com/yaacov/tree-search-language/v5/cmd/model"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

// The command line tools, built into $CLI_DIR.

type CliArg struct {
	Ver  int    `json:"ver"`
	Tool string `json:"tool"`
	Fmt  string `json:"fmt"`  // "" for none given
	Use  string `json:"use"`  // "plain", "none" (no filter given), "flag" (an unknown flag)
	Prep string `json:"prep"` // when the books are stored: "now", "before", "twice", "never"
	Give []int  `json:"give"` // what the MongoDB server gives
	With []B    `json:"with"` // other searches at the same time
}

func onLoan(b model.Book) (v, ok bool) {
	f := reflect.ValueOf(b).FieldByName("OnLoan")
	if !f.IsValid() {
		return false, false
	}
	return f.Bool(), true
}

// bookRec is a book as the public names of the tools show it; blank: numbers
// that are not known are left out.
func bookRec(b model.Book, blank bool) []Field {
	r := []Field{F("title", Str(b.Title)), F("author", Str(b.Author))}
	for _, f := range []struct {
		n string
		v uint
	}{{"spec.pages", b.Spec.Pages}, {"spec.rating", b.Spec.Rating}} {
		if f.v > 0 || !blank {
			r = append(r, F(f.n, Numb("uint", fmt.Sprint(f.v))))
		}
	}
	if v, ok := onLoan(b); ok {
		r = append(r, F("on_loan", Boolean(v)))
	}
	return r
}

// bookDoc is a book as the search in memory prints it.
func bookDoc(b model.Book) map[string]interface{} {
	m := map[string]interface{}{"title": b.Title, "author": b.Author}
	if v, ok := onLoan(b); ok {
		m["onloan"] = v
	}
	if b.Spec.Pages > 0 {
		m["spec.pages"] = float64(b.Spec.Pages)
	}
	if b.Spec.Rating > 0 {
		m["spec.rating"] = float64(b.Spec.Rating)
	}
	return m
}

// graphDoc is a book as the GraphQL search gives it.
func graphDoc(b model.Book) map[string]interface{} {
	m := map[string]interface{}{"title": b.Title, "author": b.Author, "spec": map[string]interface{}{"pages": float64(b.Spec.Pages), "rating": float64(b.Spec.Rating)}}
	if v, ok := onLoan(b); ok {
		m["onloan"] = v
	}
	return m
}

// place finds a book, 0 for another thing.
func place(m map[string]interface{}, as func(model.Book) map[string]interface{}) int {
	for k, v := range m {
		if i, ok := v.(int); ok {
			m[k] = float64(i)
		}
	}
	for i, b := range model.Books {
		if reflect.DeepEqual(m, as(b.(model.Book))) {
			return i + 1
		}
	}
	return 0
}

// listBooks gives the places of the books of a document.
func listBooks(b []byte, format string) ([]int, bool) {
	var l []map[string]interface{}
	var err error
	if format == "yaml" {
		err = yaml.Unmarshal(b, &l)
	} else {
		d := json.NewDecoder(bytes.NewReader(b))
		err = d.Decode(&l)
		if err == nil && d.More() {
			return nil, false
		}
	}
	if err != nil {
		return nil, false
	}
	r := []int{}
	for _, m := range l {
		r = append(r, place(m, bookDoc))
	}
	return r, true
}

// lineBooks gives the places of the books printed line by line.
func lineBooks(out string) ([]int, bool) {
	r := []int{}
	for _, s := range strings.Split(out, "\n") {
		if s == "" {
			continue
		}
		var k model.Book
		d := json.NewDecoder(strings.NewReader(s))
		d.DisallowUnknownFields()
		if d.Decode(&k) != nil || d.More() {
			return nil, false
		}
		at := 0
		for i, b := range model.Books {
			if reflect.DeepEqual(k, b.(model.Book)) {
				at = i + 1
			}
		}
		r = append(r, at)
	}
	return r, true
}

// nodeOf reads a tree from a document.
func nodeOf(v interface{}) (n tsl.Node) {
	m := map[string]interface{}{}
	switch v := v.(type) {
	case map[string]interface{}:
		m = v
	case map[interface{}]interface{}:
		for k, x := range v {
			m[fmt.Sprint(k)] = x
		}
	default:
		return tsl.Node{Func: "?"}
	}
	for k := range m {
		if k != "func" && k != "left" && k != "right" {
			return tsl.Node{Func: "?" + k}
		}
	}
	n.Func, _ = m["func"].(string)
	l, r := m["left"], m["right"]
	switch n.Func {
	case "$ident", "$string", "$boolean":
		n.Left, n.Right = l, r
	case "$number":
		n.Right = r
		switch l := l.(type) {
		case int:
			n.Left = float64(l)
		case int64:
			n.Left = float64(l)
		case uint64:
			n.Left = float64(l)
		default:
			n.Left = l
		}
	case "$date":
		n.Right = r
		n.Left = l
		if s, ok := l.(string); ok {
			if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
				n.Left = t
			}
		}
	case "$array":
		n.Left = l
		a := []tsl.Node{}
		list, ok := r.([]interface{})
		for _, x := range list {
			a = append(a, nodeOf(x))
		}
		if ok {
			n.Right = a
		}
	default:
		if l != nil {
			n.Left = nodeOf(l)
		}
		if r != nil {
			n.Right = nodeOf(r)
		}
	}
	return n
}

func readTree(b []byte, format string) []M {
	var v interface{}
	var err error
	if format == "yaml" {
		// the reader takes -0 for a whole number
		err = yaml.Unmarshal(bytes.ReplaceAll(b, []byte("left: -0\n"), []byte("left: -0.0\n")), &v)
	} else {
		d := json.NewDecoder(bytes.NewReader(b))
		if err = d.Decode(&v); err == nil && d.More() {
			v = nil
		}
	}
	if err != nil {
		return []M{{"k": "odd", "what": err.Error()}}
	}
	return Tree(nodeOf(v))
}

// rowOf is a document as the public names see it.
func rowOf(d bson.Raw) []M {
	r := []M{}
	var walk func(d bson.D, at string)
	walk = func(d bson.D, at string) {
		for _, e := range d {
			if k, ok := e.Value.(bson.D); ok {
				walk(k, at+e.Key+".")
				continue
			}
			r = append(r, M{"n": B(at + e.Key), "v": Val(e.Value, true)})
		}
	}
	var k bson.D
	if bson.Unmarshal(d, &k) == nil {
		walk(k, "")
	}
	return r
}

var mongod *FakeMongo

func die(what string, err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, what, err)
		os.Exit(3)
	}
}

// runTool runs a tool in a folder.
func runTool(e M, c *Case, dir, tool string, args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("CLI_DIR"), tool), args...)
	cmd.Env = append(os.Environ(), "TZ="+c.Zone)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	e["out"], e["code"], e["err"], e["none"] = "done", 0, se.Len() > 0, so.Len() == 0
	if err != nil {
		x, ok := err.(*exec.ExitError)
		switch {
		case ctx.Err() != nil:
			e["out"] = "no answer in a minute"
		case !ok:
			die("cli:", err)
		case x.ExitCode() < 0 || strings.Contains(se.String(), "goroutine 1"):
			e["out"] = "crashed: " + x.String()
		default:
			e["code"] = x.ExitCode()
		}
	}
	return so.String()
}

func recs(blank bool) [][]Field {
	r := [][]Field{}
	for _, b := range model.Books {
		r = append(r, bookRec(b.(model.Book), blank))
	}
	return r
}

func init() {
	Exec["cli"] = func(c *Case) M {
		var a CliArg
		c.Get(&a)
		e := M{"recs": recs(a.Tool == "tsl_mem" || a.Tool == "tsl_mongo")}
		dir, err := ioutil.TempDir(os.Getenv("CLI_DIR"), "run")
		die("cli:", err)
		defer os.RemoveAll(dir)
		var args []string
		if a.Use == "flag" {
			args = append(args, "-nosuch")
		}
		if a.Use != "none" {
			args = append(args, "-i", string(c.S))
		}
		if a.Fmt != "" && a.Tool != "tsl_mongo" {
			args = append(args, "-o", a.Fmt)
		}
		if a.Prep == "now" || a.Prep == "twice" {
			args = append(args, "-p")
		}
		switch a.Tool {
		case "tsl_sqlite", "tsl_gorm":
			args = append(args, "-f", "books.db")
			if a.Prep == "before" || a.Prep == "twice" {
				runTool(e, c, dir, a.Tool, "-p", "-f", "books.db")
				if e["out"] != "done" || e["code"] != 0 {
					e["out"] = "the books can not be stored"
					return e
				}
			}
		case "tsl_mongo":
			if mongod == nil {
				mongod, err = StartMongo()
				die("mongo:", err)
			}
			mongod.mu.Lock()
			mongod.Docs, mongod.Filter, mongod.Give, mongod.Finds, mongod.Where, mongod.Put, mongod.Drops = nil, nil, a.Give, 0, "", "", 0
			if a.Prep == "before" {
				for _, b := range model.Books {
					d, err := bson.Marshal(b)
					die("mongo:", err)
					mongod.Docs = append(mongod.Docs, d)
				}
			}
			mongod.mu.Unlock()
			args = append(args, "-u", mongod.URL())
			if a.Fmt == "names" {
				args = append(args[:len(args)-2], "-d", "shop", "-c", "stock", "-u", mongod.URL())
			}
		}
		out := runTool(e, c, dir, a.Tool, args...)
		n, perr := tsl.ParseTSL(string(c.S))
		switch a.Tool {
		case "tsl_parser":
			switch a.Fmt {
			case "", "json", "yaml", "prettyjson":
				e["tree"] = readTree([]byte(out), a.Fmt)
			case "dot":
				e["dot"] = B(out)
				if perr == nil {
					e["tree"] = Tree(n)
				}
			case "sql":
				// where the library makes SQL, the text it should be part of
				e["lib"] = "err"
				if perr == nil {
					if s, err := sql.Walk(n); err == nil {
						if text, vals, err := s.ToSql(); err == nil {
							e["lib"], e["where"], e["args"] = "value", B(text), B(fmt.Sprint(vals))
						}
					}
				}
				e["stdout"] = B(out)
			}
		case "tsl_mem":
			if b, ok := listBooks([]byte(out), a.Fmt); ok {
				e["books"] = b
			}
		case "tsl_mongo":
			mongod.mu.Lock()
			e["finds"] = mongod.Finds
			e["rows"] = []int{}
			if mongod.Filter != nil {
				var d bson.D
				if bson.Unmarshal(mongod.Filter, &d) == nil {
					e["doc"] = bsonOf(d)
				}
				rows := []interface{}{}
				for _, d := range mongod.Docs {
					rows = append(rows, rowOf(d))
				}
				e["rows"] = rows
				e["there"] = mongod.Put == "" || mongod.Put == mongod.Where
			}
			mongod.mu.Unlock()
			fallthrough
		default:
			if b, ok := lineBooks(out); ok {
				e["books"] = b
			}
		}
		return e
	}
	Exec["graph"] = func(c *Case) M {
		var a CliArg
		c.Get(&a)
		e := M{"recs": recs(false)}
		if why := startGraph(); why != "" {
			e["out"] = why
			return e
		}
		var wg sync.WaitGroup
		for _, w := range a.With {
			wg.Add(1)
			go func(w string) {
				defer wg.Done()
				askGraph(w)
			}(string(w))
		}
		books, msg, err := askGraph(string(c.S))
		wg.Wait()
		e["out"], e["code"], e["err"], e["none"] = "done", 0, msg != "", len(books) == 0
		if err != nil {
			e["out"] = "no answer: " + err.Error()
			graphFail = "taken"
			return e
		}
		if msg != "" {
			e["code"] = 1
			// an answer for lack of means is not an answer
			for _, s := range []string{"too many open files", "unable to open", "locked", "bad connection"} {
				if strings.Contains(msg, s) {
					e["out"] = msg
					graphFail = "taken" // no more of it
				}
			}
		}
		e["books"] = books
		return e
	}
	Modes["graph"] = func(o *Options, do func(Case)) {
		g := o.G()
		for i := 0; i < o.N/o.Of; i++ {
			s := g.book(1 + g.Intn(3))
			with := []B{}
			if g.Chance(20) {
				for k := g.Intn(6); k > 0; k-- {
					with = append(with, B(g.book(1)))
				}
			}
			switch g.Intn(12) {
			case 0:
				s = g.Damage(s)
			case 1:
				s = g.Filter(1 + g.Intn(4))
			}
			if strings.IndexFunc(s, func(r rune) bool { return r < 32 || r > 126 }) < 0 {
				do(Case{Op: "graph", S: B(s)}.With(CliArg{Ver: Ver, Tool: "tsl_graphql", Use: "plain", Prep: "before", With: with, Give: []int{}}))
			}
		}
	}
	Modes["cli"] = func(o *Options, do func(Case)) {
		g := o.G()
		one := func(s string, tools ...string) {
			if strings.IndexByte(s, 0) >= 0 || len(s) > 12000 {
				return
			}
			a := CliArg{Ver: Ver, Tool: g.Pick(tools...), Use: "plain", Prep: "never", Give: []int{}, With: []B{}}
			switch a.Tool {
			case "tsl_parser":
				a.Fmt = g.Pick("", "json", "yaml", "prettyjson", "dot", "sql", "sql")
			case "tsl_mem":
				a.Fmt = g.Pick("", "json", "yaml", "prettyjson")
			case "tsl_mongo":
				a.Prep = g.Pick("now", "before")
				a.Fmt = g.Pick("", "", "names")
				for i := range model.Books {
					if g.Chance(50) {
						a.Give = append(a.Give, i+1)
					}
				}
			default:
				a.Prep = g.Pick("now", "now", "now", "now", "before", "twice", "never")
			}
			if g.Chance(4) && (a.Tool == "tsl_parser" || a.Tool == "tsl_mem") {
				a.Fmt = g.Pick("xml", "JSON", "sq", "jsonx", " ", "dot ", "pretty")
			}
			if g.Chance(3) {
				a.Use = g.Pick("none", "flag")
				if a.Use == "none" {
					s = ""
					if a.Tool != "tsl_parser" && a.Tool != "tsl_mem" {
						s = "title is not null"
					}
				}
			}
			do(Case{Op: "cli", S: B(s)}.With(a))
		}
		search := []string{"tsl_mem", "tsl_sqlite", "tsl_gorm", "tsl_mongo"}
		for i, s := range append(append([]string{""}, examples...), big45(g)...) {
			if o.Share(i) {
				one(s, append(search, "tsl_parser", "tsl_parser", "tsl_parser")...)
			}
		}
		o.bulky(g, func(s string, _ []Field) { one(s, "tsl_parser") })
		for i := 0; i < o.N/o.Of; i++ {
			switch g.Intn(12) {
			case 0:
				one(g.Damage(g.Filter(1+g.Intn(4))), "tsl_parser", "tsl_parser", g.Pick(search...))
			case 1, 2, 3:
				one(g.Filter(1+g.Intn(6)), "tsl_parser")
			case 4:
				t := NewT45(g)
				one(t.Filter(1+g.Intn(3)), "tsl_parser")
			case 5:
				one(g.Damage(g.book(1+g.Intn(2))), search...)
			default:
				one(g.book(1+g.Intn(3)), search...)
			}
		}
	}
}

// book is a filter over the books.
func (g *G) book(d int) string {
	kw := func(s string) string {
		if g.Chance(20) {
			return strings.ToUpper(s)
		}
		return s
	}
	math := Ver == 5 || g.Chance(10)
	num := func() string {
		f := g.Pick("spec.pages", "spec.rating")
		if math && g.Chance(25) {
			return f + " " + g.Pick("+", "-", "*") + " " + g.Pick("1", "2", "50")
		}
		return f
	}
	val := func() string {
		return g.Pick("0", "1", "2", "3", "4", "5", "15", "50", "100", "150", "200", "250", "550", "1e2", "49.5", "-1", "'50'")
	}
	str := func() string { return g.Pick("title", "author") }
	sval := func() string {
		return quote(g.Pick("Book", "Other Book", "Some Book", "Joe", "Jane", "jane", "My Big Book", "Good Book", "", "Book ", "O'Hara", "N"))
	}
	pat := func() string {
		return quote(g.Pick("%Book", "Some%", "%other%", "J__e", "j%", "%", "_ook", "%Great%", "Book", "%B%g%", "Jane", "%OK", "J.*", ""))
	}
	if d > 1 {
		x, y := g.book(d-1), g.book(d-1)
		switch g.Intn(4) {
		case 0:
			return "(" + x + ") " + kw("and") + " (" + y + ")"
		case 1:
			return "(" + x + ") " + kw("or") + " (" + y + ")"
		case 2:
			return kw("not") + " (" + x + ")"
		default:
			return x + " " + kw(g.Pick("and", "or")) + " " + y
		}
	}
	not := func() string { return g.Pick("", " "+kw("not")) }
	loan := "on_loan" + g.Pick(" = true", " = false", " != true", " is true")
	if Ver == 4 {
		loan = "spec.rating > 3"
	}
	switch g.Intn(15) {
	case 0, 1:
		return num() + " " + g.Pick("<", "<=", ">", ">=", "=", "!=", "<>") + " " + val()
	case 2:
		return num() + not() + " " + kw("between") + " " + val() + " and " + val()
	case 3:
		return num() + not() + " " + kw("in") + " (" + val() + ", " + val() + ")"
	case 4, 5:
		return str() + " " + g.Pick("=", "!=", "<", ">=") + " " + sval()
	case 6, 7:
		return str() + not() + " " + kw(g.Pick("like", "like", "ilike")) + " " + pat()
	case 8:
		return str() + " " + g.Pick("~=", "~!") + " " + quote(g.Pick("^Some", "Book$", "o{2}", "J(o|an)e", "."))
	case 9:
		return str() + not() + " " + kw("in") + " (" + sval() + ", " + sval() + ")"
	case 10:
		return g.Pick("spec.pages", "spec.rating", "title", "author") + " " + kw("is") + g.Pick("", " "+kw("not")) + " " + kw("null")
	case 11:
		return g.Pick("spec.rating is null or spec.rating > 3", "spec.rating is not null and spec.rating < 5", "spec.pages is not null and spec.pages >= 50")
	case 12, 13:
		return loan
	}
	return g.Pick("pages > 1", "onloan = true", "Title = 'Book'", "isbn = 1", "title = author", "spec = 1", "spec.pages > spec.rating", "title between 'B' and 'P'",
		"spec.pages = 'x'", "spec.pages > spec.rating * 20", "on_loan = true", "on_loan = 'x'", "id > 3", "'on-loan' = true")
}

// --- the GraphQL server ----------------------------------------------------

var graph *exec.Cmd
var graphFail string

func startGraph() string {
	if graph != nil || graphFail != "" {
		return graphFail
	}
	if c, err := net.DialTimeout("tcp", "127.0.0.1:8080", time.Second); err == nil {
		c.Close()
		graphFail = "taken" // somebody else has the port
		return graphFail
	}
	dir, err := ioutil.TempDir(os.Getenv("CLI_DIR"), "graph")
	die("graph:", err)
	runtime.LockOSThread() // the server ends with this thread
	// few files: what a search opens must be closed again
	graph = exec.Command("sh", "-c", "ulimit -n 64; exec \"$0\" -p -f books.db", filepath.Join(os.Getenv("CLI_DIR"), "tsl_graphql"))
	graph.Dir = dir
	graph.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	die("graph:", graph.Start())
	for i := 0; i < 300; i++ {
		if c, err := net.DialTimeout("tcp", "127.0.0.1:8080", time.Second); err == nil {
			c.Close()
			return ""
		}
		time.Sleep(100 * time.Millisecond)
	}
	graphFail = "the server does not start"
	return graphFail
}

// askGraph gives the books (nil for none), the message of an error.
func askGraph(filter string) ([]int, string, error) {
	var q bytes.Buffer
	j := json.NewEncoder(&q)
	j.SetEscapeHTML(false)
	j.Encode(filter)
	fields := "title,author,spec{pages,rating}"
	if _, ok := onLoan(model.Book{}); ok {
		fields += ",onloan"
	}
	client := http.Client{Timeout: 30 * time.Second}
	r, err := client.Get("http://127.0.0.1:8080/graphql?query=" + url.QueryEscape("{books(filter:"+strings.TrimSpace(q.String())+"){"+fields+"}}"))
	if err != nil {
		return []int{}, "", err
	}
	defer r.Body.Close()
	var a struct {
		Data   struct{ Books []map[string]interface{} }
		Errors []struct{ Message string }
	}
	if err := json.NewDecoder(r.Body).Decode(&a); err != nil {
		return []int{}, "", err
	}
	l := []int{}
	for _, m := range a.Data.Books {
		l = append(l, place(m, graphDoc))
	}
	if len(a.Errors) > 0 {
		return l, a.Errors[0].Message + " ", nil
	}
	return l, "", nil
}
