package lib

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// Sessions: many calls in one process, one after the other or at once. Every
// outcome is reduced to a digest and compared with that of the same call in a
// process of its own.

// PoolCall is a call and the digest of its outcome alone.
type PoolCall struct {
	Op    string          `json:"op"`
	S     B               `json:"s"`
	Arg   json.RawMessage `json:"arg,omitempty"`
	Alone string          `json:"alone"`
}

// SessionStep: "call", "hold" (parse and keep the tree) or "drop" (free the
// C-th tree kept).
type SessionStep struct {
	K string `json:"k"`
	C int    `json:"c"`
}

type SessionArg struct {
	Pool  []PoolCall    `json:"pool"`
	Steps []SessionStep `json:"steps"`
}

// ConcArg: G goroutines that make N calls each.
type ConcArg struct {
	Pool []PoolCall `json:"pool"`
	G    int        `json:"g"`
	N    int        `json:"n"`
	Seed int64      `json:"seed"`
	Sync bool       `json:"sync"` // start each call together
	New  int        `json:"new"`  // calls of each goroutine that no other makes
}

// fresh makes calls with texts, names and values that no other goroutine uses.
func fresh(a *ConcArg, g int) []Case {
	var all []Case
	modes := []string{"parse", "literal", "scalar", "array", "date", "pattern", "sql", "ident", "doc", "clone", "dot"}
	for i, m := range modes {
		var cs []Case
		Modes[m](&Options{Mode: m, Seed: a.Seed*100 + int64(i), Chunk: g, Of: a.G, N: a.G * 40}, func(c Case) {
			if len(c.S) < 600 {
				cs = append(cs, c)
			}
		})
		r := rand.New(rand.NewSource(a.Seed + int64(i)))
		r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		all = append(all, cs[:min(len(cs), 1+a.New/len(modes))]...)
	}
	rand.New(rand.NewSource(a.Seed)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all
}

// Yield, where set, makes C allocations give way to other threads at random.
var Yield func(on bool)

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "? " + err.Error()
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

func (c *PoolCall) run() string {
	run, ok := Exec[c.Op]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown operation", c.Op)
		os.Exit(3)
	}
	return digest(run(&Case{Op: c.Op, S: c.S, Arg: c.Arg}))
}

// digest runs a case; the names in a drawing are random.
func (c *Case) digest() string {
	e := Exec[c.Op](&Case{Op: c.Op, S: c.S, Arg: c.Arg})
	if c.Op == "dot" {
		return "drawn"
	}
	return digest(e)
}

type held struct {
	n     *tsl.TSLNode
	first string
}

func keep(s B) (h held, ok bool) {
	n, err := tsl.ParseTSL(string(s))
	if err != nil {
		return h, false
	}
	return held{n, digest(Tree(n))}, true
}

func init() {
	Exec["alone"] = func(c *Case) M {
		var a PoolCall
		c.Get(&a)
		return M{"out": "done", "digest": a.run()}
	}
	Exec["session"] = func(c *Case) M {
		var a SessionArg
		c.Get(&a)
		var trees []held
		got := []M{}
		for _, st := range a.Steps {
			m := M{"k": st.K, "c": st.C, "d": ""}
			switch st.K {
			case "call":
				m["d"] = a.Pool[st.C-1].run()
			case "hold":
				h, ok := keep(a.Pool[st.C-1].S)
				m["d"] = "none"
				if ok {
					m["d"] = h.first
				}
				trees = append(trees, h)
			case "drop":
				if st.C <= len(trees) {
					trees[st.C-1].n.Free()
					trees[st.C-1].n = nil
				}
			}
			// the trees handed out before
			var odd []int
			for i, h := range trees {
				if h.n != nil && digest(Tree(h.n)) != h.first {
					odd = append(odd, i+1)
				}
			}
			m["odd"] = append([]int{}, odd...)
			got = append(got, m)
		}
		for _, h := range trees {
			h.n.Free()
		}
		return M{"out": "done", "steps": got}
	}
	Exec["conc"] = func(c *Case) M {
		var a ConcArg
		c.Get(&a)
		runtime.GOMAXPROCS(max(a.G, runtime.NumCPU()))
		if Yield != nil {
			Yield(true)
		}
		logs, news := make([][]M, a.G), make([][]Case, a.G)
		for g := range news {
			if a.New > 0 {
				news[g] = fresh(&a, g)
			}
		}
		var wg sync.WaitGroup
		var bar barrier
		bar.init(a.G)
		for g := 0; g < a.G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(a.Seed*1000 + int64(g)))
				var trees []held
				for i := 0; i < a.N; i++ {
					if a.Sync {
						bar.wait()
					}
					if i%2 == 0 && i/2 < len(news[g]) {
						c := &news[g][i/2]
						logs[g] = append(logs[g], M{"k": "new", "c": i/2 + 1, "odd": []int{}, "op": c.Op, "d": c.digest(), "e": ""})
						continue
					}
					k := r.Intn(len(a.Pool))
					p := &a.Pool[k]
					m := M{"k": "call", "c": k + 1, "odd": []int{}}
					switch r.Intn(8) {
					case 0:
						m["k"] = "hold"
						h, ok := keep(p.S)
						m["d"] = "none"
						if ok {
							m["d"] = h.first
							trees = append(trees, h)
						}
					case 1:
						// what was handed out before
						m["k"] = "look"
						m["d"] = ""
						for _, h := range trees {
							if digest(Tree(h.n)) != h.first {
								m["odd"] = []int{1}
							}
						}
						if len(trees) > 3 {
							x := r.Intn(len(trees))
							trees[x].n.Free()
							trees = append(trees[:x], trees[x+1:]...)
						}
					default:
						m["d"] = p.run()
					}
					logs[g] = append(logs[g], m)
				}
				for _, h := range trees {
					h.n.Free()
				}
			}(g)
		}
		wg.Wait()
		if Yield != nil {
			Yield(false)
		}
		// the calls nobody else made, once more without company
		for g := range logs {
			for _, m := range logs[g] {
				if m["k"] == "new" {
					m["e"] = news[g][m["c"].(int)-1].digest()
				}
			}
		}
		return M{"out": "done", "logs": logs}
	}
	// the calls of sessions: what is likely to leave something behind
	Modes["pool"] = func(o *Options, do func(Case)) {
		g := o.Gen()
		add := func(op, s string, arg interface{}) {
			p := PoolCall{Op: op, S: B(s)}
			if arg != nil {
				p.Arg = Case{}.With(arg).Arg
			}
			do(Case{Op: "alone"}.With(p))
		}
		for _, s := range []string{
			"a = 1", "name like '%x_' and not (b in [1, 2.5Ki, 'q'])", "d >= 2020-01-01T10:00:00Z or d = 2020-01-01",
			"", " \n\t", "a =", "a = 1 )", "((a = 1)", "a = 'x", "a = \"x\\\"", "b = `", "a ; 1", ";", "a = 1 and\n\nb ? 2",
			"x = \x00", "a = 1 \x00 and b", "a = 1 b = 2", "a between 1", "in in in", "[1, 2, [3, 'x'], -4]", "\xff\xfe = 1",
			"a = '" + strings.Repeat("long ", 4000) + "'",
			strings.Repeat("z", 20000) + " !!",
			strings.Repeat("(", 250) + "a = 1" + strings.Repeat(")", 250),
			strings.Repeat("not ", 400) + "a",
			"a in [" + strings.Repeat("1, ", 1500) + "x]",
			strings.Repeat("a = 1 and ", 300) + "b ~= 'x'",
			strings.Repeat("(", 12000), // deeper than the parser goes
		} {
			add("parse", s, nil)
		}
		rec := []Field{F("a", Numb("int", "7")), F("s", Str("Hello")), F("n", Nil()), F("b", Boolean(true)),
			F("d", TimeV("2020-01-01T10:00:00Z")), F("l", ArrayV(Numb("float64", "1"), Numb("float64", "7"), Str("x")))}
		for _, s := range []string{"a * 2 = 14 and s like 'h%'", "s ilike 'H%o'", "s ~= '^H.*o$'", "s ~= '['", "s ~! 'l+'", "a / 0", "a + s", "missing = 1",
			"l", "any (l = 7)", "sum l", "len l > 2", "d > 2019-12-31", "n is null", "a in l", "a between 1 and 7"} {
			add("eval", s, EvalArg{rec})
		}
		add("eval", "s ~= '^H.*o$'", EvalArg{[]Field{F("s", Str("other"))}})
		add("eval", "a * 2 = 14 and s like 'h%'", EvalArg{[]Field{F("a", Str("7")), F("s", Str("h"))}})
		for _, s := range []string{"a = 'x' and b in [1, 2]", "not (a like 'q' or b between 1 and 2)", "sum a", "d = 2020-01-01"} {
			add("sql", s, nil)
		}
		m := []Name{{N: "a", To: "x.y", No: false}, {N: "b", To: "c + 1"}, {N: "c", To: "("}, {N: "d", No: true}}
		for _, s := range []string{"a = b", "a = c", "a in [1, d]", "a is null and e"} {
			add("ident", s, IdentArg{m, "same"})
		}
		add("ident", "a = b", IdentArg{[]Name{}, "refuse"})
		for _, s := range []string{"a = 'x' and not b in [1, 2020-01-01]", "null"} {
			add("doc", s, nil)
		}
		add("clone", "a in [1, 2] and not b = 'x'", CloneArg{[]int{2, 1}})
		for i := 0; i < 8; i++ {
			add("parse", g.Sentence(1+g.Intn(20)), nil)
			add("parse", g.Damage(g.Sentence(1+g.Intn(8))), nil)
			t := &TGen{Gen: g, Arrays: true}
			t.Record()
			add("eval", t.Bool(2), EvalArg{t.Rec})
		}
	}
}

// barrier lets goroutines go on together.
type barrier struct {
	mu   sync.Mutex
	cond *sync.Cond
	g, n int
	turn int
}

func (b *barrier) init(g int) { b.g = g; b.cond = sync.NewCond(&b.mu) }
func (b *barrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	if b.n == b.g {
		b.n = 0
		b.turn++
		b.cond.Broadcast()
		return
	}
	for t := b.turn; t == b.turn; {
		b.cond.Wait()
	}
}
