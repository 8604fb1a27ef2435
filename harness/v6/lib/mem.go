package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"
)

// Live counts the C heap: blocks and bytes.
var Live func() (int64, int64)

// MemArg is the operation whose memory is watched.
type MemArg struct {
	Op  string          `json:"op"`
	Arg json.RawMessage `json:"arg,omitempty"`
}

// ManyArg is a run over many different filters: the cases of some modes.
type ManyArg struct {
	Modes []string `json:"modes"`
	Seed  int64    `json:"seed"`
	N     int      `json:"n"`
}

func settle() {
	runtime.GC()
	time.Sleep(time.Millisecond)
	runtime.GC()
}

func init() {
	// the C memory held after each of six runs of an operation
	Exec["mem"] = func(c *Case) M {
		var a MemArg
		c.Get(&a)
		run, ok := Exec[a.Op]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown operation", a.Op)
			os.Exit(3)
		}
		sub := &Case{Op: a.Op, S: c.S, Arg: a.Arg}
		blocks, bytes := []int64{}, []int64{}
		var last int64
		for i := 0; i < 6; i++ {
			run(sub)
			b, n := Live()
			if i > 0 && b > last {
				settle()
				b, n = Live()
			}
			last = b
			blocks, bytes = append(blocks, b), append(bytes, n)
		}
		return M{"out": "done", "blocks": blocks, "bytes": bytes}
	}
	// the memory held, Go's and C's, while many different filters come by
	Exec["many"] = func(c *Case) M {
		var a ManyArg
		c.Get(&a)
		objects, heap, blocks, bytes := []int64{}, []int64{}, []int64{}, []int64{}
		for k := 0; k < 6; k++ {
			count := 0
			for _, m := range a.Modes {
				o := &Options{Mode: m, Seed: a.Seed*100 + int64(k), Of: 1, N: a.N, Chunk: 0}
				Modes[m](o, func(c Case) { Exec[c.Op](&c); count++ })
			}
			settle()
			var s runtime.MemStats
			runtime.ReadMemStats(&s)
			b, n := Live()
			objects, heap = append(objects, int64(s.HeapObjects)), append(heap, int64(s.HeapAlloc))
			blocks, bytes = append(blocks, b), append(bytes, n)
		}
		return M{"out": "done", "objects": objects, "heap": heap, "blocks": blocks, "bytes": bytes}
	}
	Modes["mem"] = func(o *Options, do func(Case)) {
		for _, m := range []string{"parse", "reject", "literal", "ident", "clone", "sql", "array", "odd", "dot", "doc"} {
			// of all cases the mode makes, an even share
			sub := *o
			sub.N = o.N / 2
			k := 0
			Modes[m](&sub, func(c Case) {
				k++
				step := 1
				if !o.Deep && (m == "reject" || m == "literal") {
					step = 3
				} else if !o.Deep && m != "parse" && m != "ident" && m != "clone" {
					step = 8
				}
				if k%step == 0 {
					do(Case{Op: "mem", S: c.S}.With(MemArg{c.Op, c.Arg}))
				}
			})
		}
	}
	Modes["many"] = func(o *Options, do func(Case)) {
		for i, ms := range [][]string{{"parse"}, {"reject"}, {"literal"}, {"ident"}, {"scalar"}, {"array", "pattern"}, {"sql"}, {"dot"}, {"doc"}, {"clone"}} {
			if o.Share(i) {
				do(Case{Op: "many"}.With(ManyArg{ms, o.Seed + int64(i), o.N}))
			}
		}
	}
}
