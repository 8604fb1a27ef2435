package lib

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
)

// Name says what the mapping answers for a name: text, or a refusal.
type Name struct {
	N  B    `json:"n"`
	To B    `json:"to"`
	No bool `json:"no"`
}

// IdentArg is the mapping; Other is what it does with all other names: "same"
// or "refuse".
type IdentArg struct {
	Map   []Name `json:"map"`
	Other string `json:"other"`
}

func (a *IdentArg) Check(asked *[]B) func(string) (string, error) {
	return func(s string) (string, error) {
		if asked != nil {
			*asked = append(*asked, B(s))
		}
		for _, m := range a.Map {
			if string(m.N) == s {
				if m.No {
					return "", errors.New("refused")
				}
				return string(m.To), nil
			}
		}
		if a.Other == "refuse" {
			return "", errors.New("refused")
		}
		return s, nil
	}
}

// IdentCase rewrites the identifiers of a tree.
func IdentCase(n *tsl.TSLNode, a *IdentArg) M {
	before := treeText(n)
	asked := []B{}
	var r *tsl.TSLNode
	var err error
	e := M{}
	p := Guard(func() { r, err = ident.Walk(n, a.Check(&asked)) })
	switch {
	case p != "":
		e["out"], e["why"] = "panic", p
	case err != nil && r != nil:
		e["out"] = "both"
	case err == nil && r == nil:
		e["out"] = "neither"
	case err != nil:
		e["out"] = "err"
	default:
		e["out"] = "tree"
		if p := Guard(func() { e["tree"] = Tree(r) }); p != "" {
			e["out"], e["why"] = "panic", p
		}
	}
	e["asked"] = asked
	e["same"] = treeText(n) == before
	r.Free()
	e["free"] = treeText(n) == before
	return e
}

// DotArg says how to draw: the name of the root, and what goes before.
type DotArg struct {
	ID     B `json:"id"`
	Before B `json:"before"`
}

// DotCase draws a tree.
func DotCase(n *tsl.TSLNode, a DotArg) M {
	before := treeText(n)
	e := M{"out": "value"}
	var s string
	var err error
	p := Guard(func() { s, err = graphviz.Walk(string(a.Before), n, string(a.ID)) })
	switch {
	case p != "":
		e["out"], e["why"] = "panic", p
	case err != nil:
		e["out"] = "err"
	}
	e["dot"], e["tree"], e["same"] = B("digraph {\n"+s+"\n}\n"), Tree(n), before == treeText(n)
	return e
}

// DocCase makes the documents of a tree.
func DocCase(n *tsl.TSLNode) M {
	before := treeText(n)
	e := M{"out": "value"}
	var j, y []byte
	var je, ye error
	if p := Guard(func() { j, je = json.Marshal(n); y, ye = yaml.Marshal(n) }); p != "" {
		e["out"], e["why"] = "panic", p
		return e
	}
	if je == nil {
		e["json"] = ReadJSON(j)
	}
	if ye == nil {
		e["yaml"] = ReadYAML(y)
	}
	e["same"] = before == treeText(n)
	return e
}

func init() {
	Exec["ident"] = func(c *Case) M {
		var a IdentArg
		c.Get(&a)
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		defer n.Free()
		return IdentCase(n, &a)
	}
	Modes["ident"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		one := func(s string) {
			if n, err := tsl.ParseTSL(s); err == nil {
				a := IdentArg{Map: g.Mapping(idNames(n)), Other: "same"}
				if g.Chance(40) {
					a.Other = "refuse"
				}
				n.Free()
				do(Case{Op: "ident", S: B(s)}.With(a))
			}
		}
		for i, s := range append(append([]string{}, Corpus...), places()...) {
			if o.Share(i) {
				one(s)
				one(s)
			}
		}
		for i, s := range huge(g) {
			if o.Share(i) && len(s) < 3000 {
				one(s)
			}
		}
		o.bulky(g, one)
		for i := 0; i < o.N/o.Of; i++ {
			size := 1 + g.Intn(9)
			if g.Chance(10) {
				size = 30
			}
			switch g.Intn(3) {
			case 0:
				t := &TGen{Gen: g, Arrays: true}
				t.Record()
				one(t.ArrayFilter(2))
			default:
				g.hot = 15
				one(g.Sentence(size))
			}
		}
	}
	Exec["dot"] = func(c *Case) M {
		var a DotArg
		c.Get(&a)
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		defer n.Free()
		return DotCase(n, a)
	}
	Modes["dot"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		one := func(s string) {
			c := Case{Op: "dot", S: B(s)}.With(DotArg{B(g.Pick("", "", "root", "n0", "X")),
				B(g.Pick("", "", "", "before [label=\"before\"]", "before", "before [label=\"before\" color=red]\n"))})
			if n, err := tsl.ParseTSL(s); err == nil {
				n.Free()
				do(c)
			}
		}
		for i, s := range append(append(append([]string{}, Corpus...), Literals()...), specials(g)...) {
			if o.Share(i) {
				one(s)
			}
		}
		for i, s := range huge(g) {
			if o.Share(i) && len(s) < 3000 {
				one(s)
			}
		}
		o.bulky(g, one)
		wide := 1200
		if o.Deep {
			wide = 3000
		}
		if o.Share(0) {
			one("a in [" + strings.TrimSuffix(strings.Repeat("1,", wide), ",") + "]")
		}
		for i := 0; i < o.N/o.Of; i++ {
			if g.Chance(30) {
				one(g.Pick("a = ", "b in [1, ", "x like ")[:4] + g.Quote(g.RawString()))
			} else {
				one(g.Sentence(1 + g.Intn(14)))
			}
		}
	}
	Exec["doc"] = func(c *Case) M {
		n, err := tsl.ParseTSL(string(c.S))
		if err != nil {
			return M{"out": "noparse"}
		}
		defer n.Free()
		return DocCase(n)
	}
	Modes["doc"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		one := func(s string) {
			if n, err := tsl.ParseTSL(s); err == nil {
				n.Free()
				do(Case{Op: "doc", S: B(s)})
			}
		}
		for i, s := range append(append(append([]string{}, Corpus...), Literals()...), specials(g)...) {
			if o.Share(i) {
				one(s)
			}
		}
		for i, s := range huge(g) {
			if o.Share(i) && len(s) < 3000 {
				one(s)
			}
		}
		o.bulky(g, one)
		for i := 0; i < o.N/o.Of; i++ {
			if g.Chance(30) {
				one("a = " + g.Quote(g.RawString()))
			} else {
				one(g.Sentence(1 + g.Intn(14)))
			}
		}
	}
}

// places puts identifiers at every place of every kind of filter.
func places() []string {
	var r []string
	for _, f := range nestings() {
		r = append(r, f)
	}
	return append(r, "[]", "[a]", "[a, [b, [c]], a]", "a in [b, c, b]", "a between b and c", "not a", "- a", "len a", "sum [a, b]", "any (a = b)",
		"all ([a] = [b])", "a is null", "a is not null", "x not in [y, [z]]", "a", "1", "'a'", "a like 'a'", "a = 'b' and b = 'a'",
		"[[[[a]]]] = b", "a in [1, - b, not c, len d, [e], f + g]", "(a or b) and (c or not (d and e))")
}

// specials are texts document formats treat specially, as string literals and
// names.
func specials(g *Gen) []string {
	var r []string
	for _, v := range []string{"", "~", "null", "Null", "NULL", "true", "True", "yes", "No", "on", "off", "y", "n", "0", "-0", "+1", "0x1F", "0o7", "0b1", "017", "1_000",
		"1e3", ".5", "5.", ".inf", "-.Inf", ".nan", "NaN", "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01 00:00:00", "12:30:45", "<<", "=", "!", "!!str x",
		"&a", "*a", "- a", "-", "--", "---", "--- a", "...", "? a", "?", ": a", ":", "a: b", "a:", "a #b", "#", "# a", "[", "]", "{", "}", "[a]", "{a: b}", ",", "|", "|\n a", ">",
		"> a", "%", "%YAML", "@", "`", "'", "''", "\"", "\"a\"", " a", "a ", "  ", " ", "\t", "\ta", "a\tb", "a\n", "a\n\n", "\na", "\n", "\n\n", " \n", "\n ", "\n a", " a\nb", "a\n b", "a \nb", "a\n\n\nb\n", "a\r\nb", "\r", "a\rb",
		"\x01", "\x7f", "\x1b[0m", "\u0085", "\u2028", "\u2029", "\ufeff", "\ufeffa", "\u00a0", "\uffff", "\U0001F600", "a\\nb", "\\", "\\\\", "\\N", "\\n", "\\l", "\\u0041", "é", "</script>", "<>&", "&amp;",
		"a|b", "{a}", "a\"b", "<f0> a", "a -> b", "a\\|b", "\\\"", "];", "}\n{", "STRING | 'x'", "long " + strings.Repeat("word ", 60), strings.Repeat("x", 300), "a\x0bb", "\x0c", "0123", "1.", "1e", "e1", "0.0", "123456789012345678901234567890"} {
		q := g.Quote(v)
		r = append(r, q, "a = "+q, "a in ["+q+", 1]")
	}
	return r
}

// Mapping says what to do with some of the names.
func (g *Gen) Mapping(names []string) []Name {
	mood := g.Intn(10)
	r := []Name{}
	for _, n := range names {
		m := Name{N: B(n)}
		switch k := g.Intn(20); {
		case mood == 0 && k < 4:
			m.No = true
		case mood == 1 && k < 4:
			m.To = B(g.Pick("", " ", "a b", "1 +", "'x", "a\x00b", "(", "a ;", "and", "-", "[1", "a = = b", "é"))
		case k < 6:
			m.To = B(names[g.Intn(len(names))])
		case k < 11:
			m.To = B(g.Ident())
		case k < 13:
			m.To = B(g.Pick("a + 1", "p or q", "(p)", "[1, b]", "'lit'", "5", "null", "true", "2020-01-02", "not u", "- 1", "len v", "x in [1]", "x between a and b", "[]", " w ", "a or b and c", "1 = 1"))
		case k < 14:
			m.To = B(g.Sentence(4))
		case k < 18:
			m.To = m.N
		default:
			continue
		}
		r = append(r, m)
	}
	return r
}

// --- documents read back

func node(typ string, m M) M {
	k, ok := map[string]string{"STRING": "str", "NUMBER": "num", "BOOLEAN": "bool", "NULL": "null", "DATE": "date", "TIMESTAMP": "ts", "ARRAY": "arr",
		"IDENTIFIER": "ident", "BINARY_EXP": "bin", "UNARY_EXP": "un"}[typ]
	if !ok {
		k = "odd " + typ
	}
	m["k"] = k
	return m
}

func notDoc(m M, v interface{}) { m["k"] = "odd"; m["what"] = fmt.Sprintf("%T", v) }

// date puts a date literal's text into m.
func date(m M, s string) {
	if t, err := time.Parse(time.RFC3339, s); err == nil {
		m["t"] = Instant(t)
	} else {
		m["v"] = B(s)
	}
}

// ReadJSON reads a tree back from a JSON document.
func ReadJSON(b []byte) []M {
	var d interface{}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if err := dec.Decode(&d); err != nil {
		return []M{{"k": "unreadable"}}
	}
	var l []M
	readJSON(d, &l)
	return l
}

func readJSON(d interface{}, l *[]M) int {
	m := M{}
	*l = append(*l, m)
	at := len(*l)
	o, ok := d.(map[string]interface{})
	if !ok {
		notDoc(m, d)
		return at
	}
	typ, _ := o["type"].(string)
	node(typ, m)
	switch m["k"] {
	case "str", "ident":
		if s, ok := o["value"].(string); ok {
			m["v"] = B(s)
			return at
		}
	case "date", "ts":
		if s, ok := o["value"].(string); ok {
			date(m, s)
			return at
		}
	case "num":
		if s, ok := o["value"].(json.Number); ok {
			f, _ := strconv.ParseFloat(string(s), 64)
			m["f"] = Float(f)
			return at
		}
	case "bool":
		if s, ok := o["value"].(bool); ok {
			m["v"] = s
			return at
		}
	case "null":
		return at
	case "un", "bin":
		if s, ok := o["operator"].(string); ok {
			m["op"] = s
			if m["k"] == "bin" {
				m["l"] = readJSON(o["left"], l)
			}
			m["r"] = readJSON(o["right"], l)
			return at
		}
	case "arr":
		if s, ok := o["values"].([]interface{}); ok {
			e := make([]int, len(s))
			for i := range s {
				e[i] = readJSON(s[i], l)
			}
			m["e"] = e
			return at
		}
	}
	notDoc(m, o["value"])
	return at
}

// ReadYAML reads a tree back from a YAML document.
func ReadYAML(b []byte) []M {
	var d yaml.Node
	if err := yaml.Unmarshal(b, &d); err != nil || d.Kind != yaml.DocumentNode || len(d.Content) != 1 {
		return []M{{"k": "unreadable"}}
	}
	var l []M
	readYAML(d.Content[0], &l)
	return l
}

func readYAML(d *yaml.Node, l *[]M) int {
	m := M{}
	*l = append(*l, m)
	at := len(*l)
	if d == nil || d.Kind != yaml.MappingNode {
		notDoc(m, d)
		return at
	}
	o := map[string]*yaml.Node{}
	for i := 0; i+1 < len(d.Content); i += 2 {
		o[d.Content[i].Value] = d.Content[i+1]
	}
	scalar := func(k string, tag string) (string, bool) {
		n := o[k]
		if n == nil || n.Kind != yaml.ScalarNode || !strings.Contains(tag, n.ShortTag()) {
			return "", false
		}
		return n.Value, true
	}
	typ, _ := scalar("type", "!!str")
	node(typ, m)
	switch m["k"] {
	case "str", "ident":
		if s, ok := scalar("value", "!!str !!merge"); ok {
			m["v"] = B(s)
			return at
		}
	case "date", "ts":
		if s, ok := scalar("value", "!!str !!timestamp"); ok {
			var t time.Time
			if o["value"].ShortTag() == "!!timestamp" && o["value"].Decode(&t) == nil {
				m["t"] = Instant(t)
			} else {
				date(m, s)
			}
			return at
		}
	case "num":
		if _, ok := scalar("value", "!!int !!float"); ok {
			var f float64
			err := o["value"].Decode(&f)
			if err == nil && f == 0 {
				f, err = strconv.ParseFloat(o["value"].Value, 64) // -0 is read as an integer
			}
			if err == nil {
				m["f"] = Float(f)
				return at
			}
		}
	case "bool":
		if _, ok := scalar("value", "!!bool"); ok {
			var f bool
			if o["value"].Decode(&f) == nil {
				m["v"] = f
				return at
			}
		}
	case "null":
		return at
	case "un", "bin":
		if s, ok := scalar("operator", "!!str"); ok {
			m["op"] = s
			if m["k"] == "bin" {
				m["l"] = readYAML(o["left"], l)
			}
			m["r"] = readYAML(o["right"], l)
			return at
		}
	case "arr":
		if s := o["values"]; s != nil && s.Kind == yaml.SequenceNode {
			e := make([]int, len(s.Content))
			for i := range s.Content {
				e[i] = readYAML(s.Content[i], l)
			}
			m["e"] = e
			return at
		}
	}
	notDoc(m, o["value"])
	return at
}
