package lib

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
)

// Sessions: many calls in one process, one after the other or at once. Every
// outcome is reduced to a digest and compared with that of the same call in a
// process of its own.

// PoolCall is a call and the digest of its outcome alone.
type PoolCall struct {
	Op    string          `json:"op"`
	S     B               `json:"s"`
	Arg   json.RawMessage `json:"arg,omitempty"`
	Alone string          `json:"alone"`
}

// SessionStep: "call", "hold" (parse and keep the tree) or "drop" (forget the
// C-th tree kept).
type SessionStep struct {
	K string `json:"k"`
	C int    `json:"c"`
}

type SessionArg struct {
	Pool  []PoolCall    `json:"pool"`
	Steps []SessionStep `json:"steps"`
}

// ConcArg: G goroutines that make N calls each.
type ConcArg struct {
	Pool []PoolCall `json:"pool"`
	G    int        `json:"g"`
	N    int        `json:"n"`
	Seed int64      `json:"seed"`
	Sync bool       `json:"sync"` // start each call together
	New  int        `json:"new"`  // calls of each goroutine that no other makes
}

// fresh makes calls that no other goroutine makes.
func fresh(a *ConcArg, g int) []Case {
	var all []Case
	modes := []string{"parse", "reject", "eval", "odd", "sql", "mongo", "ident", "dot"}
	for i, m := range modes {
		var cs []Case
		Modes[m](&Options{Mode: m, Seed: a.Seed*100 + int64(i), Chunk: g, Of: a.G, N: a.G * 40}, func(c Case) {
			if len(c.S) < 300 {
				cs = append(cs, c)
			}
		})
		r := rand.New(rand.NewSource(a.Seed + int64(i)))
		r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		if most := 1 + a.New/len(modes); len(cs) > most {
			cs = cs[:most]
		}
		all = append(all, cs...)
	}
	rand.New(rand.NewSource(a.Seed)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all
}

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "? " + err.Error()
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

// whole is the outcome of a call as it is logged.
func (c *Case) whole() M {
	run, ok := Exec[c.Op]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown operation", c.Op)
		os.Exit(3)
	}
	e := run(c)
	e["op"], e["s"] = c.Op, c.S
	if c.Arg != nil {
		e["arg"] = c.Arg
	}
	return e
}

// digestOf an outcome; the names in a drawing are random.
func digestOf(e M) string {
	if e["op"] == "dot" {
		e = M{"out": e["out"], "tree": e["tree"]}
	}
	return digest(e)
}

func (p *PoolCall) run() string {
	return digestOf((&Case{Op: p.Op, S: p.S, Arg: p.Arg}).whole())
}

type held struct {
	n     tsl.Node
	gone  bool
	first string
}

func keep(s B) (h held, ok bool) {
	n, bad := parse(&Case{S: s})
	if bad != nil {
		return held{gone: true}, false
	}
	return held{n, false, digest(Tree(n))}, true
}

// TotalArg is what the walkers get beside the tree.
type TotalArg struct {
	Ver int     `json:"ver"`
	Rec []Field `json:"rec"`
}

func init() {
	Exec["alone"] = func(c *Case) M {
		var a PoolCall
		c.Get(&a)
		return M{"out": "done", "digest": a.run()}
	}
	// everything the library does with a text
	Exec["total"] = func(c *Case) M {
		var a TotalArg
		c.Get(&a)
		n, bad := parse(c)
		if bad != nil {
			return bad
		}
		before := treeText(n)
		rec := makeRec(a.Rec)
		outs := M{}
		out := func(walk string, f func() interface{}) {
			e, _ := f().(M)
			outs[walk] = e["out"]
		}
		walked := func(f func() error) M {
			var err error
			p := Guard(func() {
				if err = f(); err != nil {
					_ = err.Error()
				}
			})
			switch {
			case p != "":
				return M{"out": "panic"}
			case err != nil:
				return M{"out": "err"}
			}
			return M{"out": "value"}
		}
		out("eval", func() interface{} { return Evaluate(n, rec, nil) })
		out("empty", func() interface{} { return Evaluate(n, map[string]interface{}{}, nil) })
		out("sql", func() interface{} { return SQL(n) })
		out("mongo", func() interface{} { return Mongo(n) })
		out("ident", func() interface{} {
			return walked(func() error {
				_, err := ident.Walk(n, func(s string) (string, error) { return "x" + s, nil })
				return err
			})
		})
		out("refuse", func() interface{} {
			return walked(func() error {
				_, err := ident.Walk(n, func(s string) (string, error) { return s, errRefused })
				return err
			})
		})
		out("dot", func() interface{} {
			return walked(func() error {
				_, err := graphviz.Walk("", n, "")
				return err
			})
		})
		return M{"out": "tree", "walks": outs, "same": treeText(n) == before}
	}
	Exec["session"] = func(c *Case) M {
		var a SessionArg
		c.Get(&a)
		var trees []held
		got := []M{}
		for _, st := range a.Steps {
			m := M{"k": st.K, "c": st.C, "d": ""}
			switch st.K {
			case "call":
				m["d"] = a.Pool[st.C-1].run()
			case "hold":
				h, ok := keep(a.Pool[st.C-1].S)
				m["d"] = "none"
				if ok {
					m["d"] = h.first
				}
				trees = append(trees, h)
			case "drop":
				if st.C <= len(trees) {
					trees[st.C-1] = held{gone: true}
				}
			}
			// the trees handed out before
			odd := []int{}
			for i, h := range trees {
				if !h.gone && digest(Tree(h.n)) != h.first {
					odd = append(odd, i+1)
				}
			}
			m["odd"] = odd
			got = append(got, m)
		}
		return M{"out": "done", "steps": got}
	}
	Exec["conc"] = func(c *Case) M {
		var a ConcArg
		c.Get(&a)
		runtime.GOMAXPROCS(a.G + runtime.NumCPU())
		logs, news := make([][]M, a.G), make([][]Case, a.G)
		for g := range news {
			if a.New > 0 {
				news[g] = fresh(&a, g)
			}
		}
		var wg sync.WaitGroup
		var bar barrier
		bar.init(a.G)
		for g := 0; g < a.G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(a.Seed*1000 + int64(g)))
				var trees []held
				for i := 0; i < a.N; i++ {
					if a.Sync {
						bar.wait()
					}
					if i%2 == 0 && i/2 < len(news[g]) {
						c := &news[g][i/2]
						e := c.whole()
						logs[g] = append(logs[g], M{"k": "new", "c": i/2 + 1, "odd": []int{}, "op": c.Op, "d": digestOf(e), "e": "", "x": e})
						continue
					}
					k := r.Intn(len(a.Pool))
					p := &a.Pool[k]
					m := M{"k": "call", "c": k + 1, "odd": []int{}}
					switch r.Intn(8) {
					case 0:
						m["k"] = "hold"
						h, ok := keep(p.S)
						m["d"] = "none"
						if ok {
							m["d"] = h.first
							trees = append(trees, h)
						}
					case 1:
						// what was handed out before
						m["k"] = "look"
						m["d"] = ""
						for _, h := range trees {
							if digest(Tree(h.n)) != h.first {
								m["odd"] = []int{1}
							}
						}
						if len(trees) > 3 {
							x := r.Intn(len(trees))
							trees = append(trees[:x], trees[x+1:]...)
						}
					default:
						m["d"] = p.run()
					}
					logs[g] = append(logs[g], m)
				}
			}(g)
		}
		wg.Wait()
		// the calls nobody else made, once more without company
		for g := range logs {
			for _, m := range logs[g] {
				if m["k"] == "new" {
					m["e"] = digestOf(news[g][m["c"].(int)-1].whole())
				}
			}
		}
		return M{"out": "done", "logs": logs}
	}
	// the calls of sessions: what is likely to leave something behind
	Modes["pool"] = func(o *Options, do func(Case)) {
		g := o.G()
		add := func(op, s string, arg interface{}) {
			do(Case{Op: "alone"}.With(PoolCall{Op: op, S: B(s), Arg: Case{}.With(arg).Arg}))
		}
		for _, s := range append([]string{
			"a = 1", "", " \n\t", "a =", "a = 1 )", "((a = 1)", "a = 'x", "a = \"x\\\"", "b = `", "a ; 1", ";", "a = 1 and\n\nb ? 2", "x = \x00", "a = 1 \x00 and b = 1",
			"a = 1 b = 2", "a between 1", "in in in", "\xff\xfe = 1", "a in (1, 2, 'x')", "a in (1", "a in (1,)", "a = 1K and b = 2Ki", "a + 1 * 2 - 3 > 4 or b is null",
			"not (a like 'q' or b between 1 and 2)", "[a b] = 1 and `c` = 2", "a = true and b = 2020-01-02", "a is not null and not not b = 1",
			"a = '" + strings.Repeat("long ", 2000) + "'", strings.Repeat("z", 9000) + " !!", "a in (" + strings.Repeat("1, ", 400) + "x)",
		}, big45(g)...) {
			add("parse", s, VerArg{Ver})
		}
		rec := []Field{F("a", Numb("int", "7")), F("s", Str("Hello")), F("n", Nil()), F("b", Boolean(true)), F("d", TimeV("2020-01-01T10:00:00Z"))}
		for _, s := range []string{"a * 2 = 14 and s like 'H%'", "s ilike 'h%O'", "s ~= '^H.*o$'", "s ~= '['", "s ~! 'l+'", "a / 0 = 1", "a + s = 1", "missing = 1", "d > 2019-12-31",
			"n is null", "a in (1, 7)", "a between 1 and 7", "s not like '_'", "b = true"} {
			add("eval", s, RecArg{Ver, rec})
			add("sql", s, VerArg{Ver})
			add("mongo", s, RowsArg{Ver, [][]Field{}})
			add("dot", s, DotArg{Ver, B(""), ""})
		}
		add("eval", "s ~= '^H.*o$'", RecArg{Ver, []Field{F("s", Str("other"))}})
		m := []Name{{N: B("a"), To: B("x.y")}, {N: B("b"), To: B("c + 1")}, {N: B("d"), No: true}}
		for _, s := range []string{"a = 1 and b = 2", "a in (1, 2) or d = 3", "a is null and e = 1"} {
			add("ident", s, IdentArg{Ver, m, "same"})
		}
		add("ident", "a = 1", IdentArg{Ver, []Name{}, "refuse"})
		for i := 0; i < 8; i++ {
			add("parse", g.Filter(1+g.Intn(5)), VerArg{Ver})
			add("parse", g.Damage(g.Filter(1+g.Intn(4))), VerArg{Ver})
			t := NewT45(g)
			add("eval", t.Filter(1+g.Intn(3)), RecArg{Ver, t.Rec})
		}
	}
	Modes["total"] = func(o *Options, do func(Case)) {
		g := o.G()
		one := func(s string) {
			rec := []Field{}
			if n, bad := parse(&Case{S: B(s)}); bad == nil {
				t := NewT45(g)
				for _, k := range names(n) {
					if g.Chance(85) {
						rec = append(rec, F(k, t.anyFV(g.Chance(60))))
					}
				}
			}
			do(Case{Op: "total", S: B(s)}.With(TotalArg{Ver, rec}))
		}
		for i, s := range append(append([]string{}, examples...), big45(g)...) {
			if o.Share(i) {
				one(s)
			}
		}
		k := 0
		for n := 0; n <= 2; n++ {
			for i := 0; i < Pow(len(words), n); i++ {
				if k++; o.Share(k) && (n < 2 || o.Deep || k%3 == 0) {
					one(seq(i, n))
				}
			}
		}
		for i := 0; i < o.N/o.Of; i++ {
			switch g.Intn(10) {
			case 0:
				// bytes
				b := make([]byte, g.Intn(40))
				for j := range b {
					b[j] = byte(g.Intn(256))
					if g.Chance(60) {
						b[j] = "ab1 '\"`[]()=<>!~+-*/%,.:TZ\n\t\\_"[g.Intn(30)]
					}
				}
				one(string(b))
			case 1:
				n := 3 + g.Intn(9)
				s := ""
				for j := 0; j < n; j++ {
					s += words[g.Intn(len(words))] + g.Pick(" ", " ", "", "\n")
				}
				one(s)
			case 2, 3:
				one(g.Filter(1 + g.Intn(8)))
			case 4, 5:
				t := NewT45(g)
				t.Bad = 30
				one(t.Filter(1 + g.Intn(5)))
			case 6:
				// a piece of a filter
				s := g.Filter(1 + g.Intn(6))
				i := g.Intn(len(s) + 1)
				j := i + g.Intn(len(s)+1-i)
				one(g.Pick(s[:i], s[i:], s[i:j], s[:i]+s[j:], s+s[i:j]))
			default:
				s := g.Damage(g.Filter(1 + g.Intn(6)))
				for g.Chance(40) {
					s = g.Damage(s)
				}
				one(s)
			}
		}
	}
}

// barrier lets goroutines go on together.
type barrier struct {
	mu   sync.Mutex
	cond *sync.Cond
	g, n int
	turn int
}

func (b *barrier) init(g int) { b.g = g; b.cond = sync.NewCond(&b.mu) }
func (b *barrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	if b.n == b.g {
		b.n = 0
		b.turn++
		b.cond.Broadcast()
		return
	}
	for t := b.turn; t == b.turn; {
		b.cond.Wait()
	}
}
