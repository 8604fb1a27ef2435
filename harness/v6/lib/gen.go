package lib

import (
	"fmt"
	"math/rand"
	"strings"
)

// Gen makes filter texts.
type Gen struct {
	*rand.Rand
	budget int // expressions left before only leaves are made
	hot    int // per cent of literals that are unusual
}

func NewGen(seed int64, chunk int) *Gen {
	return &Gen{Rand: rand.New(rand.NewSource(seed*1000003 + int64(chunk)*7919 + 17)), hot: 30}
}

func (g *Gen) Pick(s ...string) string { return s[g.Intn(len(s))] }
func (g *Gen) Chance(pct int) bool     { return g.Intn(100) < pct }

var Keywords = []string{"like", "ilike", "and", "or", "between", "in", "is", "null", "not",
	"true", "false", "len", "any", "all", "sum"}

// Kw spells a keyword in some letter case.
func (g *Gen) Kw(w string) string {
	switch g.Intn(4) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		b := []byte(w)
		for i := range b {
			if g.Chance(50) {
				b[i] &^= 32
			}
		}
		return string(b)
	}
	return w
}

func (g *Gen) Digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.Intn(10))
	}
	return string(b)
}

var sizes = []string{"k", "K", "m", "M", "g", "G", "t", "T", "p", "P"}

// Number is the text of a numeric literal.
func (g *Gen) Number() string {
	s := ""
	if g.Chance(15) {
		s = g.Pick("-", "+")
	}
	n := 1 + g.Intn(4)
	if g.Chance(10) {
		n = 1 + g.Intn(25)
	}
	s += g.Digits(n)
	if g.Chance(35) {
		s += "."
		if g.Chance(90) {
			f := 1 + g.Intn(3)
			if g.Chance(10) {
				f = 1 + g.Intn(25)
			}
			s += g.Digits(f)
		}
	}
	switch {
	case g.Chance(15):
		s += g.Pick("e", "E") + g.Pick("", "+", "-", "")
		switch g.Intn(6) {
		case 0:
			s += fmt.Sprint(g.Intn(340))
		case 1:
			s += "00" + g.Digits(1)
		case 2:
			s += fmt.Sprint(290 + g.Intn(40))
		default:
			s += fmt.Sprint(g.Intn(25))
		}
	case g.Chance(30):
		s += sizes[g.Intn(len(sizes))] + g.Pick("", "", "i", "I", "i")
	}
	return s
}

// DateText has the shape of a date, usually a valid one.
func (g *Gen) DateText() string {
	y := 1960 + g.Intn(100)
	if g.Chance(10) {
		y = g.Intn(10000)
	}
	m, d := 1+g.Intn(12), 1+g.Intn(28)
	if g.Chance(15) {
		m, d = g.Intn(15), g.Intn(34)
	}
	if g.Chance(10) {
		m, d = 2, 28+g.Intn(3)
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

// StampText has the shape of an RFC 3339 timestamp, usually a valid one.
func (g *Gen) StampText() string {
	h, mi, s := g.Intn(24), g.Intn(60), g.Intn(60)
	if g.Chance(5) {
		h, mi, s = g.Intn(30), g.Intn(70), g.Intn(70)
	}
	t := g.DateText() + fmt.Sprintf("T%02d:%02d:%02d", h, mi, s)
	if g.Chance(30) {
		t += "." + g.Digits(1+g.Intn(9))
		if g.Chance(10) {
			t += g.Digits(5)
		}
	}
	if g.Chance(60) {
		return t + "Z"
	}
	oh, om := g.Intn(15), g.Intn(4)*15
	if g.Chance(5) {
		oh, om = g.Intn(30), g.Intn(70)
	}
	return t + g.Pick("+", "-") + fmt.Sprintf("%02d:%02d", oh, om)
}

var pieces = []string{"a", "b", "joe", "X", " ", "  ", "T", "Z", "+", "-", "%", "_", "\\n", "\\t", "\\r", "\\b",
	"\\f", "\\\\", "\\'", "\\\"", "\\`", "\\q", "\\%", "\\x", "'", "\"", "`", "é", "日本", "😀", "and", "or", "null",
	"?", "$1", ":x", ";", "--", "/*", "*/", "(", ")", "[", "]", "{", "}", "<", ">", "&", "|", "=", ".", ",", "\t", "\n",
	"\r\n", "\x01", "\x7f", "\x1b", "\xff", "\u2028", "0", "12", "1.5", "1e3", "10k", "true", "2020-01-01", "\u00a0", "\u0130", "ß"}

// RawString is the inside of a quoted string, not yet safe for the quote q.
func (g *Gen) RawString() string {
	n := g.Intn(4)
	if g.Chance(20) {
		n = g.Intn(9)
	}
	if g.Chance(2) {
		n = 20 + g.Intn(150)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if g.Chance(60) {
			b.WriteString(g.Pick("a", "b", "c", "joe", "Jane", "1", "x y"))
		} else {
			b.WriteString(pieces[g.Intn(len(pieces))])
		}
	}
	return b.String()
}

// Quote writes v as a string literal that denotes exactly v.
func (g *Gen) Quote(v string) string {
	q := g.Pick("'", "'", "\"", "`")
	var b strings.Builder
	b.WriteString(q)
	for i := 0; i < len(v); i++ {
		switch c := v[i]; {
		case c == q[0] || c == '\\':
			b.WriteString("\\" + string(rune(c)))
		case c == '\n' && g.Chance(50):
			b.WriteString("\\n")
		default:
			b.WriteByte(c)
		}
	}
	b.WriteString(q)
	return b.String()
}

// String is a quoted literal; its inside may use any escape.
func (g *Gen) String() string {
	q := g.Pick("'", "'", "\"", "`")
	switch {
	case g.Chance(8):
		return q + g.DateText() + q
	case g.Chance(8):
		return q + g.StampText() + q
	case g.Chance(4):
		d := g.StampText()
		k := g.Intn(len(d))
		return q + d[:k] + g.Pick("", " ", "T", ":", "x") + d[k:] + q
	case g.Chance(3):
		d := g.DateText()
		return q + d[:g.Intn(len(d))] + g.Pick("", "-", "x", " ") + q
	}
	r := g.RawString()
	// keep the quote escaped and the escape complete
	var b strings.Builder
	for i := 0; i < len(r); i++ {
		if r[i] == '\\' && i+1 < len(r) {
			b.WriteByte(r[i])
			i++
			b.WriteByte(r[i])
			continue
		}
		if r[i] == q[0] || r[i] == '\\' {
			b.WriteByte('\\')
		}
		b.WriteByte(r[i])
	}
	return q + b.String() + q
}

var idents = []string{"a", "b", "name", "city", "pages", "x1", "_id", "user.name", "a.b.c", "spec/metadata", "nodes[0].cpu",
	"disks[*].size", "tags[my-key]", "m[a.b/c-d]", "a[0][1]", "inn", "android", "orx", "notx", "liked", "nullable", "truex",
	"lens", "anyone", "allx", "summa", "isx", "T", "Z", "e1", "k", "between_", "in.x", "_", "A_B", "a..b", "x/", "in[1]", "T1Z",
	"not[0]", "null.x"}

func (g *Gen) Ident() string {
	if g.Chance(15) {
		const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
		const cont = first + "0123456789./"
		n := g.Intn(12)
		if g.Chance(5) {
			n = 60 + g.Intn(300)
		}
		b := []byte{first[g.Intn(len(first))]}
		for i := 0; i < n; i++ {
			b = append(b, cont[g.Intn(len(cont))])
			if g.Chance(4) {
				b = append(b, g.Pick("[*]", "[0]", "[a-b]", "[x/y.z]", "[12]")...)
			}
		}
		return string(b)
	}
	return idents[g.Intn(len(idents))]
}

func (g *Gen) Space() string {
	if g.Chance(85) {
		return " "
	}
	return g.Pick("  ", "\t", "\n", "\r\n", "\n\n ", "\f", "\v", " \t ", "\r")
}

// join puts tokens together, with white space where it is needed and
// sometimes where it is not.
func (g *Gen) join(toks []string) string {
	var b strings.Builder
	if g.Chance(5) {
		b.WriteString(g.Space())
	}
	word := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '.' || c == '/' || c >= 128
	}
	tight := g.Chance(20)
	for i, t := range toks {
		if i > 0 && t != "" && toks[i-1] != "" {
			p := toks[i-1]
			need := word(p[len(p)-1]) && word(t[0]) ||
				(word(p[len(p)-1]) || p[len(p)-1] == ']') && t[0] == '[' ||
				(t[0] >= '0' && t[0] <= '9') && (p == "-" || p == "+") ||
				(t == "=" || t == ">") && strings.ContainsAny(p, "<>~!")
			if need || !tight || g.Chance(10) {
				b.WriteString(g.Space())
			}
		}
		b.WriteString(t)
	}
	if g.Chance(5) {
		b.WriteString(g.Space())
	}
	return b.String()
}

// Sentence is a random sentence of the grammar.
func (g *Gen) Sentence(size int) string {
	g.budget = size
	return g.join(g.expr(0, nil))
}

// expr appends the tokens of an expression of at least the given level
// (0 or, 1 and, 2 comparison, 3 additive, 4 multiplicative, 5 prefix, 6 unary).
func (g *Gen) expr(level int, t []string) []string {
	g.budget--
	if g.budget <= 0 {
		return g.leaf(t)
	}
	lv := level + g.Intn(8-level)
	if g.Chance(25) && level <= 2 {
		lv = 2
	}
	switch lv {
	case 0:
		return g.expr(1, append(g.expr(0, t), g.Kw("or")))
	case 1:
		return g.expr(2, append(g.expr(1, t), g.Kw("and")))
	case 2:
		t = g.expr(2+g.Intn(2), t)
		switch g.Intn(12) {
		case 0:
			t = append(t, g.Kw("is"))
			if g.Chance(50) {
				t = append(t, g.Kw("not"))
			}
			return append(t, g.Kw("null"))
		case 1, 2:
			if g.Chance(50) {
				t = append(t, g.Kw("not"))
			}
			t = g.expr(3, append(t, g.Kw("between")))
			return g.expr(3, append(t, g.Kw("and")))
		case 3, 4:
			if g.Chance(50) {
				t = append(t, g.Kw("not"))
			}
			t = append(t, g.Kw("in"))
			if g.Chance(80) {
				return g.array(t)
			}
			return g.expr(3, t)
		case 5, 6:
			if g.Chance(50) {
				t = append(t, g.Kw("not"))
			}
			return g.expr(3, append(t, g.Kw(g.Pick("like", "ilike"))))
		}
		return g.expr(3, append(t, g.Pick("=", "!=", "<>", "<", "<=", ">", ">=", "~=", "~!")))
	case 3:
		return g.expr(4, append(g.expr(3, t), g.Pick("+", "-")))
	case 4:
		return g.expr(5, append(g.expr(4, t), g.Pick("*", "/", "%")))
	case 5:
		return g.expr(5, append(t, g.Kw(g.Pick("not", "not", "len", "any", "all", "sum"))))
	case 6:
		switch g.Intn(4) {
		case 0:
			return g.expr(6, append(t, g.Pick("-", "+")))
		case 1:
			return g.array(t)
		}
		return append(g.expr(0, append(t, "(")), ")")
	}
	return g.leaf(t)
}

func (g *Gen) array(t []string) []string {
	t = append(t, "[")
	n := g.Intn(4)
	if g.Chance(5) {
		n = 5 + g.Intn(20)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			t = append(t, ",")
		}
		if g.Chance(80) {
			t = g.leaf(t)
		} else {
			t = g.expr(0, t)
		}
	}
	if n > 0 && g.Chance(15) {
		t = append(t, ",")
	}
	return append(t, "]")
}

func (g *Gen) leaf(t []string) []string { return append(t, g.Leaf()) }

// Leaf is an identifier or a literal.
func (g *Gen) Leaf() string {
	if !g.Chance(g.hot) {
		return g.Pick("a", "b", "name", "1", "2", "10", "'x'", "'y'", "true", "c")
	}
	switch g.Intn(10) {
	case 0, 1:
		return g.Number()
	case 2, 3:
		return g.String()
	case 4:
		return g.DateText()
	case 5:
		return g.StampText()
	case 6:
		return g.Kw(g.Pick("true", "false"))
	}
	return g.Ident()
}

var junk = []string{";", "@", "#", "$", "{", "}", "!", "~", "^", "&", "|", ":", "?", "\\", "'", "\"", "`", "(", ")", "[", "]",
	",", "\x01", "\x80", "é", "=", "==", "<", "<>", "!=", "~=", ">=", "and", "or", "not", "null", "is", "in", "like", "between", "1", "x",
	"'a'", "-", "+", "*", "/", "%", ".", " ", "\n", "\x00", "\ufeff", "\u00a0", "&&", "||", "true", "[]", "()"}

// Damage changes a text at one place.
func (g *Gen) Damage(s string) string {
	k := g.Intn(len(s) + 1)
	switch g.Intn(6) {
	case 0:
		return s[:k]
	case 1:
		return s[k:]
	case 2:
		if k < len(s) {
			return s[:k] + s[k+1:]
		}
		return s + g.Pick(junk...)
	case 3:
		if k < len(s) {
			return s[:k] + g.Pick(junk...) + s[k+1:]
		}
	case 4:
		e := k + g.Intn(len(s)-k+1)
		return s[:e] + s[k:]
	}
	return s[:k] + g.Pick(junk...) + s[k:]
}

// Alphabet is one spelling of every kind of token.
var Alphabet = []string{"a", "1", "'s'", "2020-01-02", "2020-01-02T03:04:05Z", "true", "null", "and", "or", "not", "=", "<", "like",
	"between", "in", "is", "len", "+", "-", "*", "(", ")", "[", "]", ",", "~=", ";"}

// Seq is the i-th sequence of n tokens over the alphabet.
func Seq(i, n int) string {
	w := make([]string, n)
	for k := n - 1; k >= 0; k-- {
		w[k] = Alphabet[i%len(Alphabet)]
		i /= len(Alphabet)
	}
	return strings.Join(w, " ")
}

func Pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
