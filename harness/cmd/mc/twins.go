package main

import "strings"

// twins lists strings that are different but become equal under some
// conversion somebody may think harmless.
func twins() [][]string {
	x := func(n int) string { return strings.Repeat("x", n) }
	out := [][]string{
		{"\xff", "\xfe", "\ufffd", "\xff\xff"},                             // made valid
		{"\u00e9", "e\u0301", "e", "\u00c9"},                               // composed, accents removed
		{"K", "k", "\u212a"}, {"s", "\u017f", "S"}, {"ss", "\u00df", "SS"}, // case folding
		{"i", "I", "\u0130", "\u0131"}, {"\uff41", "a", "\u0430"}, // wide, look-alike
		{"a", "a\u00a0", "a\u200b", "\ufeffa", "a\x00", "a\n", "\va", "a\r\n"}, // trimmed
		{"%61", "a", "%2561"}, {"a+b", "a b", "a%20b"}, {"&amp;", "&"}, // escaped
		{"x/y", "x//y", "x/./y", "x/y/", "/x/y", "x\\y"},       // paths
		{"1", "01", "1e0", "+1", "0x1", "\uff11"}, {"-0", "0"}, // numbers
		{"User@example", "user@example", "user@Example", "user+1@example"}, // addresses
		{"plumless", "buckeroo"}, {"costarring", "liquid"}, {"Aa", "BB"}, // CRC-32, FNV, multiplication by 31
		{"ab", "ba"}, {"a,b", "a;b", "a|b", "a:b"}, {"\"a\"", "a", "'a'"},
		{"aaab", "aab", "abb"}, {"{}", "[]", "null", "nil", "true"},
	}
	for _, n := range []int{16, 32, 64, 128, 255, 256, 1024, 4096} {
		if n > 255 {
			out = append(out, []string{x(n - 1), x(n), x(n + 1)})
			continue
		}
		// equal up to one of its characters
		out = append(out, []string{x(n - 1), x(n), x(n + 1), x(n) + "y" + x(8), x(n) + "z" + x(8), "y" + x(n) + "w", "z" + x(n) + "w"})
	}
	return out
}
