package lib

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// FV describes a Go value: how to make it (Go, Lit, Elems) and, for the
// specification, what it is (the other fields, see Fill).
type FV struct {
	Go   string `json:"go"`
	Lit  string `json:"lit,omitempty"`
	Raw  B      `json:"raw,omitempty"`
	Kids []FV   `json:"kids,omitempty"`
}

type namedInt int
type namedString string
type namedBool bool
type odd struct {
	A int
	B []string
}

// Make builds the Go value.
func (f FV) Make() interface{} {
	num := func() *big.Float {
		x, _, err := big.ParseFloat(f.Lit, 10, 200, big.ToNearestEven)
		if err != nil {
			fmt.Fprintln(os.Stderr, "value:", f.Go, f.Lit, err)
			os.Exit(3)
		}
		return x
	}
	i64 := func() int64 { v, _ := num().Int64(); return v }
	u64 := func() uint64 { v, _ := num().Uint64(); return v }
	f64 := func() float64 { v, _ := strconv.ParseFloat(f.Lit, 64); return v }
	switch f.Go {
	case "nil":
		return nil
	case "bool":
		return f.Lit == "true"
	case "string":
		return string(f.Raw)
	case "int":
		return int(i64())
	case "int8":
		return int8(i64())
	case "int16":
		return int16(i64())
	case "int32":
		return int32(i64())
	case "int64":
		return i64()
	case "uint":
		return uint(u64())
	case "uint8":
		return uint8(u64())
	case "uint16":
		return uint16(u64())
	case "uint32":
		return uint32(u64())
	case "uint64":
		return u64()
	case "float32":
		return float32(f64())
	case "float64":
		return f64()
	case "time":
		t, err := time.Parse(time.RFC3339Nano, f.Lit)
		if err != nil {
			fmt.Fprintln(os.Stderr, "value:", f.Lit, err)
			os.Exit(3)
		}
		return t
	case "array":
		a := make([]interface{}, len(f.Kids))
		for i, k := range f.Kids {
			a[i] = k.Make()
		}
		return a
	case "nilarray":
		return []interface{}(nil)
	case "strs":
		a := make([]string, len(f.Kids))
		for i, k := range f.Kids {
			a[i] = string(k.Raw)
		}
		return a
	// values the language knows nothing about
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	case "nan":
		return math.NaN()
	case "nan32":
		return float32(math.NaN())
	case "[]string":
		return []string{"a", "b", "joe"}
	case "[]int":
		return []int{1, 2, 3}
	case "[]float64":
		return []float64{1, 2}
	case "[]bool":
		return []bool{true, false}
	case "[]byte":
		return []byte("abc")
	case "[2]int":
		return [2]int{1, 2}
	case "[1]any":
		return [1]interface{}{[]int{1}}
	case "map":
		return map[string]interface{}{"a": 1}
	case "nilmap":
		return map[string]interface{}(nil)
	case "struct":
		return odd{A: 1}
	case "cmpstruct":
		return struct{ A int }{1}
	case "ptr":
		return &odd{A: 1}
	case "nilptr":
		return (*odd)(nil)
	case "ptrint":
		v := 5
		return &v
	case "ptrtime":
		t := time.Unix(0, 0)
		return &t
	case "niltime":
		return (*time.Time)(nil)
	case "zerotime":
		return time.Time{}
	case "fartime":
		return time.Unix(1<<60, 0)
	case "func":
		return func() int { return 1 }
	case "chan":
		return make(chan int)
	case "complex":
		return complex(1, 2)
	case "uintptr":
		return uintptr(5)
	case "namedint":
		return namedInt(5)
	case "namedstring":
		return namedString("joe")
	case "namedbool":
		return namedBool(true)
	case "duration":
		return time.Second
	case "error":
		return fmt.Errorf("x")
	case "bigint":
		return big.NewInt(5)
	case "json":
		return json.Number("5")
	case "rawjson":
		return json.RawMessage("{}")
	case "month":
		return time.March
	case "reflect":
		return reflect.ValueOf(5)
	}
	fmt.Fprintln(os.Stderr, "value: unknown kind", f.Go)
	os.Exit(3)
	return nil
}

// OddKinds are the Go kinds outside the language.
var OddKinds = []string{"inf", "-inf", "nan", "nan32", "[]string", "[]int", "[]float64", "[]bool", "[]byte", "[2]int", "[1]any", "map",
	"nilmap", "struct", "cmpstruct", "ptr", "nilptr", "ptrint", "ptrtime", "niltime", "zerotime", "fartime", "func", "chan", "complex",
	"uintptr", "namedint", "namedstring", "namedbool", "duration", "error", "bigint", "json", "rawjson", "month", "reflect", "nilarray"}

func decimal(s string) (neg bool, d []int, e int) {
	if strings.HasPrefix(s, "-") {
		neg, s = true, s[1:]
	}
	if i := strings.IndexByte(s, 'e'); i >= 0 {
		e, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		e -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	e += len(s)
	t := strings.TrimLeft(s, "0")
	e -= len(s) - len(t)
	t = strings.TrimRight(t, "0")
	if t == "" {
		return false, []int{}, 0
	}
	return neg, digits(t), e
}

// Val logs a Go value; double adds the rounding interval of numbers.
func Val(v interface{}, double bool) M {
	number := func(s string, f float64) M {
		m := M{"t": "num"}
		m["neg"], m["d"], m["e"] = decimal(s)
		if double {
			m["f"] = Float(f)
		}
		return m
	}
	float := func(f float64) M {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			m := M{"t": "nf"}
			if double {
				m["t"], m["f"] = "num", Float(f)
			}
			m["is"] = fmt.Sprint(f)
			return m
		}
		return number(strconv.FormatFloat(f, 'e', -1, 64), f)
	}
	switch x := v.(type) {
	case nil:
		return M{"t": "null"}
	case bool:
		return M{"t": "bool", "v": x}
	case string:
		return M{"t": "str", "v": B(x)}
	case int:
		return number(fmt.Sprint(x), float64(x))
	case int8:
		return number(fmt.Sprint(x), float64(x))
	case int16:
		return number(fmt.Sprint(x), float64(x))
	case int32:
		return number(fmt.Sprint(x), float64(x))
	case int64:
		return number(fmt.Sprint(x), float64(x))
	case uint:
		return number(fmt.Sprint(x), float64(x))
	case uint8:
		return number(fmt.Sprint(x), float64(x))
	case uint16:
		return number(fmt.Sprint(x), float64(x))
	case uint32:
		return number(fmt.Sprint(x), float64(x))
	case uint64:
		return number(fmt.Sprint(x), float64(x))
	case float32:
		return float(float64(x))
	case float64:
		return float(x)
	case time.Time:
		if y := x.Year(); y < 0 || y > 9999 {
			return M{"t": "other", "go": "time"}
		}
		return M{"t": "time", "v": Instant(x)}
	case []interface{}:
		e := make([]M, len(x))
		for i := range x {
			e[i] = Val(x[i], double)
		}
		return M{"t": "arr", "e": e}
	}
	if Special != nil {
		if m := Special(v); m != nil {
			return m
		}
	}
	return M{"t": "other", "is": fmt.Sprintf("%T", v)}
}

// Special logs the values that only some versions know.
var Special func(v interface{}) M

// Field is a named value of a record.
type Field struct {
	N B  `json:"n"`
	V FV `json:"-"`
	J M  `json:"v"`
}

// F makes a field; its JSON has what Make needs and what the specification needs.
func F(name string, v FV) Field { return Field{N: B(name), V: v, J: v.json()} }

func (f FV) json() M {
	m := Val(f.Make(), false)
	m["mk"] = f
	return m
}

// UnmarshalJSON restores the description.
func (f *Field) UnmarshalJSON(b []byte) error {
	var x struct {
		N B `json:"n"`
		V struct {
			Mk FV `json:"mk"`
		} `json:"v"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	f.N, f.V = x.N, x.V.Mk
	f.J = f.V.json()
	return nil
}

// Shorthands.
func Str(s string) FV       { return FV{Go: "string", Raw: B(s)} }
func Numb(go_, l string) FV { return FV{Go: go_, Lit: l} }
func Boolean(b bool) FV     { return FV{Go: "bool", Lit: fmt.Sprint(b)} }
func Nil() FV               { return FV{Go: "nil"} }
func TimeV(l string) FV     { return FV{Go: "time", Lit: l} }
func ArrayV(k ...FV) FV     { return FV{Go: "array", Kids: k} }

func mustTime(s string) {
	if _, err := time.Parse(time.RFC3339Nano, s); err != nil {
		panic(err)
	}
}
