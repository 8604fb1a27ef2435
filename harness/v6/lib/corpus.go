package lib

// Corpus are filters in the style of the documentation.
var Corpus = []string{
	"name = 'joe'", "name = 'joe' or name = 'jane'", "city in ['paris', 'rome', 'milan'] and state != 'spane'",
	"pages between 100 and 200 and author.name ~= 'Hilbert'", "name like '%joe%' and (city = 'paris' or city = 'milan')",
	"memory.total between 1Gi and 2Gi", "a is null", "a is not null", "not a is null", "not (a is null)", "a not in [1,2,3]",
	"a not like 'x%' or b not ilike '_y'", "a not between 1 and 2 and b = 3", "a = 1 or b = 2 and c = 3", "(a = 1 or b = 2) and c = 3",
	"a = 1 and b = 2 or c = 3", "not a = 1", "not (a = 1)", "not a and b", "a + b * c", "(a + b) * c", "a - b - c", "a - (b - c)", "a / b / c", "a / (b / c)",
	"a % b * c", "-a + b", "- a * b", "-(a + b)", "+a", "- - a", "-1", "1 - 1", "1 -1", "1-1", "a = b = c", "a = (b = c)", "a < b < c", "a != b <> c",
	"len a > 3", "len(a) > 3", "any (a > 1)", "all (a = 1)", "sum (a) = 10", "any a > 1", "not any (a = 1)", "len [1,2,3] = 3", "sum [1,2,3] + 1", "not not a",
	"a in [1,2,3,]", "a in []", "a in [[1],[2]]", "[1,2] = [1,2]", "a in (b)", "a in b", "a between b + 1 and c * 2", "a between 1 and 2 or b = 1",
	"a between 1 and 2 and b between 3 and 4", "a > 2020-01-02", "a > 2020-01-02T03:04:05Z", "a = '2020-01-02'", "a = \"2020-01-02T03:04:05Z\"",
	"a ~= '^x.*y$' and b ~! 'z'", "TRUE AND FALSE", "true or false", "a = true", "nodes[0].disks[*].size > 10Gi", "a <= 1 and b >= 2 and c <> 3",
	"a like b like c", "a in b in c", "a is null is null", "a is not null = true", "a = 1 is null", "a like 'x' = true", "a = -1", "a = +1", "a = - 1", "a * -1",
	"a between -1 and +1", "not a in [1]", "not a between 1 and 2", "(not a) = 1", "not (a) = 1", "len a + len b", "len a * 2", "2 * len a", "sum a / len a", "a*b+c/d-e%f",
	"a+b=c-d", "a and b or c and d or e", "a or b or c", "a and b and c", "(a or b) and (c or d)", "((((a))))", "[a and b, c or d, not e]", "[a = 1, b between 1 and 2]",
	"a=1and b=2", "a=1 and(b=2)", "a<b", "a<>b", "a<=b", "a>=b", "a~='x'", "a~!'x'", "a in[1]", "a in [1]", "'a' = 'b'", "a = 'it\\'s'", "a = \"it's\"", "a = `it's`",
	"\ta\n=\r\n1\f\v", "a NOT IN [1] AND B Is NoT NuLl", "a between 1 and 2 between 3 and 4", "a not between 1 and 2 not in [3]", "a = [1][0]",
}

// NearMisses are texts that are almost filters.
var NearMisses = []string{
	"", " ", "\n", "\t\n", "a =", "= 1", "a = = 1", "a == 1", "a = 1 b", "a = 1)", "(a = 1", "a = 1]", "[1", "[1,,2]", "[,]", "[,1]", "a in (1,2)", "a in 1,2",
	"a = 'x", "a = \"x", "a = `x", "a = 'x\\'", "a = 'x\\", "a = x'", "a between 1", "a between 1 and", "a between and 2", "a between 1 or 2", "a is", "a is not",
	"a is 1", "a is true", "a is not true", "a = null", "null", "not null", "a not = 1", "a not 1", "a not", "a not is null", "a like", "like 'x'", "a in", "in [1]",
	"a and", "and a", "a or", "or a", "a and or b", "a or and b", "a and and b", "not", "not and a", "a not and b", "len", "len = 1", "any", "a len b", "a + ", "* a", "a * * b",
	"a + * b", "/ a", "a %", "a % % b", "()", "( )", "(a", "a)", "(a))", "((a)", "a ()", "a (b)", "f(a)", "a;b", "a;", "a # c", "a -- c", "a @ b", "a & b", "a && b", "a | b",
	"a ! b", "!a", "a ~ b", "~a", "a =~ b", "a !~ b", "a != != b", "a <> > b", "a => 1", "a =< 1", "a >< b", "a > = 1", "a < = 1", "a ! = 1", "a ~ = 1", "a.1 = 1", ".a = 1", "1a = 1", "1 a",
	"a = 1 and", "a = 1 and b", "a = 1 b = 2", "a = 'x' 'y'", "a b", "1 2", "'x' 'y'", "true false", "a = 1; b = 2", "a = 1 ;", "; a = 1", "a = 1 -- comment", "a = 1 /* c */",
	"a = 1 \x00", "a = 1\x00 and b = 2", "\x00", "\x00a = 1", "a = 'x\x00y'", "a = 'x\x00", "a\x00b", "a = {1}", "a in {1,2}", "a = $1", "a = ?", "a = :x", "a = 1 and $", "a = 1 $ and b = 2", "$", "\x80", "é = 1",
	"a = é", "a = 1é", "a = 1 é", "\ufeffa = 1", "a\u00a0= 1", "a[1 = 1", "a] = 1", "a[b c] = 1", "a[] = 1", "a[*] = ", "[a", "[a b]", "[a,b", "[a,b,", "[a;b]", "a in [1;2]", "a in [1 2]", "a not not in [1]",
	"a is null null", "a is not not null", "a between 1 and 2 and", "a between 1 and 2 and 3 and", "a between (1 and 2)", "a between 1 between 2 and 3", "a between 1 = 2 and 3", "a in 1 = 2", "a = not b", "a = not", "a + not b", "a - not",
	"- not a", "-not a", "+ len a", "- (", "a = -", "a = +", "--", "- -", "2020-01-02-", "2020-01-02T", "2020-01-02T03:04:05", "2020-01-02T03:04:05z", "a > 2020-01-02T03:04:05", "1k k", "1e", "1.2.3", "1..2", "0x1f", "1_0",
	"a like like b", "a in in b", "a like not 'x'", "a in not [1]", "a not like", "a not between", "a not in", "sum", "sum sum", "sum []", "all", "all not", "not all", "a,b", "a,", ",", ",a", "'", "\"", "`", "\\", "a\\", "'\n'", "'a\nb'", "'\\\n'", "a = 'x\\\ny'",
}
