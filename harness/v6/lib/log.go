// Package lib holds what the drivers share: the event log, the projection
// of trees and values, and the input generators.
package lib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"time"
)

// B is text, logged as the sequence of its byte values.
type B string

func (b *B) UnmarshalJSON(j []byte) error {
	var v []int
	if err := json.Unmarshal(j, &v); err != nil {
		return err
	}
	o := make([]byte, len(v))
	for i := range v {
		o[i] = byte(v[i])
	}
	*b = B(o)
	return nil
}

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i := 0; i < len(b); i++ {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(b[i]), 10)
	}
	return append(out, ']'), nil
}

// M is one logged record.
type M map[string]interface{}

// Log writes one JSON object per line.
type Log struct {
	w *bufio.Writer
	f *os.File
	N int
}

func OpenLog(path string) *Log {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &Log{w: bufio.NewWriterSize(f, 1<<20), f: f}
}

func (l *Log) Put(e M) {
	e["id"] = l.N
	l.N++
	b, err := json.Marshal(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "log:", err)
		os.Exit(3)
	}
	l.w.Write(b)
	l.w.WriteByte('\n')
}

// Sync makes everything logged so far survive a crash of this process.
func (l *Log) Sync() { l.w.Flush() }

func (l *Log) Close() {
	l.w.Flush()
	l.f.Close()
}

func digits(s string) []int {
	out := make([]int, len(s))
	for i := range s {
		out[i] = int(s[i] - '0')
	}
	return out
}

// dec gives the exact decimal 0.d1d2.. * 10^e of a non-negative number.
func dec(x *big.Float) ([]int, int) {
	if x.Sign() == 0 {
		return []int{}, 0
	}
	t := x.Text('e', 1200)
	i := strings.IndexByte(t, 'e')
	e, _ := strconv.Atoi(t[i+1:])
	d := strings.TrimRight(strings.Replace(t[:i], ".", "", 1), "0")
	if len(d) > 100 {
		// a final 1 stands for the rest: this compares like the exact bound
		// with every literal of up to 100 digits
		d = d[:100] + "1"
	}
	return digits(d), e + 1
}

// Float logs a double as sign and the exact bounds of its rounding interval
// (lo, hi), and of that interval widened by one double on either side
// (wlo, whi).
func Float(v float64) M {
	m := M{"neg": math.Signbit(v), "unb": false, "hi": []int{}, "hie": 0,
		"wunb": false, "whi": []int{}, "whie": 0}
	if math.IsNaN(v) {
		m["nan"] = true
		v = 0
	}
	a := math.Abs(v)
	if m["lo"], m["loe"] = lower(a); !math.IsInf(a, 0) {
		m["hi"], m["hie"] = upper(a)
	} else {
		m["unb"] = true
	}
	down, up := a, math.Nextafter(a, math.Inf(1))
	if a > 0 {
		down = math.Nextafter(a, 0)
	}
	if m["wlo"], m["wloe"] = lower(down); !math.IsInf(up, 0) {
		m["whi"], m["whie"] = upper(up)
	} else {
		m["wunb"] = true
	}
	return m
}

const prec = 4200

// between gives the midpoint of two neighbouring doubles; the one of the
// largest double and infinity is where rounding to infinity begins.
func between(x, y float64) *big.Float {
	z := new(big.Float).SetPrec(prec).SetFloat64(x)
	if math.IsInf(y, 0) {
		return z.Add(z, new(big.Float).SetPrec(prec).SetMantExp(big.NewFloat(1), 970))
	}
	z.Add(z, new(big.Float).SetPrec(prec).SetFloat64(y))
	return z.Quo(z, new(big.Float).SetPrec(prec).SetInt64(2))
}

func lower(a float64) ([]int, int) {
	if a == 0 {
		return []int{}, 0
	}
	return dec(between(math.Nextafter(a, 0), a))
}

func upper(a float64) ([]int, int) { return dec(between(a, math.Nextafter(a, math.Inf(1)))) }

// Instant logs a time as days, seconds of the day and nanoseconds, UTC.
func Instant(t time.Time) []int {
	u := t.Unix()
	d := u / 86400
	s := u % 86400
	if s < 0 {
		s += 86400
		d--
	}
	return []int{int(d), int(s), t.Nanosecond()}
}

// Guard runs f and reports a panic as text.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}
