package lib

import (
	"bufio"
	"encoding/json"
	"os"
	"os/exec"
	"time"
)

// The twin is another build of this driver, which does the same and tells.

type twinProc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

var twin *twinProc

func startTwin() *twinProc {
	cmd := exec.Command(os.Getenv("TWIN"), "-serve")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := cmd.StdoutPipe()
	if err != nil || cmd.Start() != nil {
		return nil
	}
	return &twinProc{cmd, bufio.NewWriter(in), bufio.NewReaderSize(out, 1<<20)}
}

// ask lets the twin do a case.
func (t *twinProc) ask(c *Case) M {
	b, _ := json.Marshal(c)
	t.in.Write(append(b, '\n'))
	t.in.Flush()
	timer := time.AfterFunc(60*time.Second, func() { t.cmd.Process.Kill() })
	defer timer.Stop()
	line, err := t.out.ReadBytes('\n')
	var e M
	if err != nil || json.Unmarshal(line, &e) != nil {
		t.cmd.Process.Kill()
		t.cmd.Wait()
		twin = nil
		return M{"out": "gone"}
	}
	return e
}

// serve does the cases that come in, and tells.
func serve() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<28)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var c Case
		if json.Unmarshal(sc.Bytes(), &c) != nil {
			os.Exit(3)
		}
		b, _ := json.Marshal(Exec[c.Op](&c))
		w.Write(append(b, '\n'))
		w.Flush()
	}
}

func init() {
	Serve = serve
	Exec["twin"] = func(c *Case) M {
		if twin == nil {
			twin = startTwin()
		}
		if twin == nil {
			os.Exit(3)
		}
		one := Case{Op: "parse", S: c.S}
		return M{"out": "done", "a": Exec["parse"](&one), "b": twin.ask(&one)}
	}
	Wrappers["twin"] = func(o *Options, do func(Case)) func(Case) {
		return func(c Case) { do(Case{Op: "twin", S: c.S}) }
	}
}
