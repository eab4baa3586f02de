package vlib

// Odd are texts that mean something somewhere, and just themselves here.
var Odd = []string{
	"", "a", "\"\"", "\"a\"", "'a'", "''", "`a`", "\"a", "a\"", "\"a\"b\"", "\\", "\\n", "\\\\", "\\t", "\\x41", "\\u0041", "\\\"", "%", "%%", "%41", "%20", "%zz", "%0A", "+", "a+b", "&amp;", "&#65;", "&", ";", "<b>", "{}", "[1]", "$x", "${x}", "{{x}}",
	"#", "//", "--", "0x10", "010", "1e3", "1E3", "+1", "-0", "00", "1_000", "1,000", "1.0", "1.", ".5", "NaN", "inf", "-Inf", "null", "nil", "true", "TRUE", "True",
	" a", "a ", " ", "  ", "a  b", "\ta", "a\t", "\v", "\f", "\x00", "a\x00b", "\x1b[0m", "\x7f", "\x80", "\xff", "\xfe\xff", "\xef\xbb\xbf", "\xef\xbb\xbfa", "\xc3", "\xc3\x28", "\xc0\x80", "\xed\xa0\x80",
	"\u00e9", "e\u0301", "\u00c9", "\u0130", "\u0131", "\u00df", "SS", "\u1e9e", "\u212a", "K", "\u03c3", "\u03c2", "\u00a0", "\u2028", "\u0085", "\u3000", "\u200b", "\u200f", "\uff11", "\uff1d", "\ufffd", "\U0001f600", "\u65e5\u672c",
	"A", "abc", "ABC", "*", "?", "a*", "^$", "a.b", "a/b", "../a", "a:b", "http://x/?y", "a@b", "a,b", "(a)", "count(*)", "select", "k='v'", "'", "\"", "a'b", "~", "!", "-", "_", "=", "==", "a=b", "\r", "a\rb",
	" -- ", "a -- b", "--b", "a--", "/*", "*/", "/* a */", "a /* b */ c", "# a", "a #b", "// a", "a // b", "a;", ";b", "; drop table a", "%27", "%2527", "a%27b", "&#39;", "&quot;", "\\x27", "\\047", "\\u0027", "\\q", "a\\", "\\\\a", "^a", "a^", "!a", "!=", "<>", ">=", "=>", ":=", "=~", "||", "&&", "..", "...", "::",
	"$1", "$0", "$&", "\\1", "\\0", "?1", ":a", ":1", "@a", "@@v", "#{x}", "<%= x %>", "{0}", "%s", "%d", "%v", "%!", "%1$s", "$HOME", "$(x)", "<!-- a -->", "<![CDATA[a]]>", "a or b", "or", "not", "and not b", "a and b", "NULL", "undefined", "order by a", "group by a", "a group by b", "limit 1", "a limit 1", "like", "between 1 and 2", "in (1)", "is null", "as b", "a as b", "from t", "a from t", "union select", "having", "WHERE", "AND", "SELECT", "a where b", "a select b",
	"2020-01-01", "2020-01-01T12:30:00Z", "12:30", "now()", "now", "1k", "1KB", "10%", "1/2", "$5", "\u20ac5", "C:\\x", "~root", "file:///x", "a@b.c", "YQ==", "=20", "=?utf-8?q?a?=", "0b1", "0o7", "1n", "1f", "1e", "0x", "1e400", "-", "+", "--1", "\u0661", "1 000", "1'000", "(1)", "1-", "\u2212" + "1", "\u00bd", "\u2018a\u2019", "\u201ca\u201d", "\u00aba\u00bb", "\u3001", "\uff08", "\u00ad", "\u2060", "a\u0000", "\U000e0001",
}
