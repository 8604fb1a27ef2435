package lib

// Families are calls that have a text in common: as a pattern of several
// operators, as a literal of several kinds, as a value of several types.
var familyTexts = []string{"jo.n", "a%", "%b", "_", "a_c", "^a", "b$", "a.c", "A%", "a\\%", "(", "[a", "a|b", "2020-01-01", "2020-01-01T10:00:00Z",
	"1", "1.5", "-1", "1e3", "1Ki", "1K", "true", "TRUE", "null", "x", "name", "é", "", " ", "a'b", "a\"b", "a`b", "ab", "abc", "john", "0", "10"}
