package lib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
	_ "time/tzdata"
)

// Case is one thing to do with the implementation.
type Case struct {
	Op   string          `json:"op"`
	S    B               `json:"s"`
	Arg  json.RawMessage `json:"arg,omitempty"` // what else the operation needs
	Tags []string        `json:"tags,omitempty"`
	Zone string          `json:"zone,omitempty"` // the machine's time zone
	Made json.RawMessage `json:"made,omitempty"` // how to put the tree together
}

// zones are the time zones the cases run in, in turn.
var zones = []string{"", "America/New_York", "Asia/Kolkata", "Pacific/Auckland"}

func (c *Case) enter() {
	l, err := time.LoadLocation(c.Zone)
	if err != nil {
		l = time.FixedZone(c.Zone, int(5.5*3600))
	}
	time.Local = l
}

// With sets the operation's argument.
func (c Case) With(arg interface{}) Case {
	b, err := json.Marshal(arg)
	if err != nil {
		panic(err)
	}
	c.Arg = b
	return c
}

func (c *Case) Get(arg interface{}) {
	if err := json.Unmarshal(c.Arg, arg); err != nil {
		fmt.Fprintln(os.Stderr, "case:", err, string(c.Arg))
		os.Exit(3)
	}
}

// Exec does what a case says and gives the outcome to log.
var Exec = map[string]func(c *Case) M{}

// Modes make the cases of a check.
var Modes = map[string]func(o *Options, do func(Case)){}

// Wrappers make other cases of those of a mode.
var Wrappers = map[string]func(o *Options, do func(Case)) func(Case){}

// Serve does cases for another process.
var Serve func()

type Options struct {
	Mode             string
	Seed             int64
	Chunk, Of, N     int
	Deep             bool
	Out, Intent, In  string
	From, Max, count int
}

// Share tells whether the i-th case of an enumeration belongs to this chunk.
func (o *Options) Share(i int) bool { return i%o.Of == o.Chunk }

func (o *Options) Gen() *Gen { return NewGen(o.Seed, o.Chunk) }

// Main runs a mode, or the cases of a file.
func Main() {
	o := &Options{}
	flag.StringVar(&o.Mode, "mode", "", "which cases to make")
	flag.Int64Var(&o.Seed, "seed", 1, "seed")
	flag.IntVar(&o.Chunk, "chunk", 0, "this chunk")
	flag.IntVar(&o.Of, "of", 1, "number of chunks")
	flag.IntVar(&o.N, "n", 1000, "number of random cases in all chunks")
	flag.BoolVar(&o.Deep, "deep", false, "thorough tier")
	flag.StringVar(&o.Out, "out", "/dev/stdout", "trace file")
	flag.StringVar(&o.Intent, "intent", "", "file that names the case being run")
	flag.StringVar(&o.In, "in", "", "run the cases of this file")
	flag.IntVar(&o.From, "from", 0, "skip the cases before this one")
	served := flag.Bool("serve", false, "do the cases that come in on standard input")
	flag.Parse()
	if *served && Serve != nil {
		Serve()
		return
	}
	log := OpenLog(o.Out)
	var intent *os.File
	if o.Intent != "" {
		intent, _ = os.Create(o.Intent)
	}
	do := func(c Case) {
		o.count++
		if o.count <= o.From {
			return
		}
		run, ok := Exec[c.Op]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown operation", c.Op)
			os.Exit(3)
		}
		if o.In == "" && c.Zone == "" {
			c.Zone = zones[o.count%len(zones)]
		}
		c.enter()
		if intent != nil {
			b, _ := json.Marshal(struct {
				N int `json:"n"`
				Case
			}{o.count, c})
			intent.WriteAt([]byte(fmt.Sprintf("%09d\n", len(b))+string(b)), 0)
		}
		e := run(&c)
		e["op"] = c.Op
		e["s"] = c.S
		if c.Arg != nil {
			e["arg"] = c.Arg
		}
		if c.Zone != "" {
			e["zone"] = c.Zone
		}
		if c.Made != nil {
			e["made"] = c.Made
		}
		log.Put(e)
		if intent != nil && o.count%64 == 0 {
			log.Sync()
		}
	}
	if o.In != "" {
		f, err := os.Open(o.In)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<28)
		for sc.Scan() {
			var c Case
			if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			do(c)
		}
	} else {
		// wrapper-mode: the cases of the mode, changed by the wrapper
		mode := o.Mode
		if i := strings.Index(mode, "-"); i > 0 && Wrappers[mode[:i]] != nil {
			do, mode = Wrappers[mode[:i]](o, do), mode[i+1:]
		}
		m, ok := Modes[mode]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown mode", o.Mode)
			os.Exit(3)
		}
		m(o, do)
	}
	log.Close()
}
