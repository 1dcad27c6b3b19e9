package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Ladders: inputs whose sizes take every small value and every value around a
// power of two, so that a boundary of any counter, buffer or table is met
// exactly and not only passed.

// ladderSizes has 1 to all, and the neighbourhood of every power of two up to
// 2^maxLog.
func ladderSizes(all, maxLog int) []int {
	var out []int
	for n := 1; n <= all; n++ {
		out = append(out, n)
	}
	for k := 4; k <= maxLog; k++ {
		for d := -5; d <= 5; d++ {
			if n := 1<<uint(k) + d; n > all {
				out = append(out, n)
			}
		}
	}
	return out
}

var ladderShapes = []string{"chain", "fan", "merged", "merging", "twins"}

// ladderLex has n as its characteristic number.
func ladderLex(r *rand.Rand, shape string, n int) *Lex {
	l := &Lex{Spec: fmt.Sprintf("ladder %s %d", shape, n)}
	num := func(i, width int) string {
		b := make([]byte, width)
		for j := width - 1; j >= 0; j-- {
			b[j] = byte(1 + i%255)
			i /= 255
		}
		return string(b)
	}
	width := 1
	for w := 255; w < n; w *= 255 {
		width++
	}
	add := func(k string, v int32) { l.Keys = append(l.Keys, k); l.Vals = append(l.Vals, v) }
	switch shape {
	case "chain": // one key of n bytes: n transitions and one for the value
		add(randStr(r, allBytes, n), edgeVals[r.Intn(len(edgeVals))])
	case "fan": // n keys with values of their own
		for i := 0; i < n; i++ {
			add(num(i, width), int32(i))
		}
	case "merged": // n keys with one suffix
		for i := 0; i < n; i++ {
			add(num(i, width)+"ing", 5)
		}
	case "merging": // n states with two parents each
		for _, p := range []string{"a", "b"} {
			for i := 0; i < n; i++ {
				add(p+num(i, width)+"x", int32(i))
			}
			add(p+"\xff\xff\xff\xff"+p, 1)
		}
	case "twins": // n key ends, one in two shared
		for i := 0; i < n; i++ {
			add(num(i, width), int32(i/2))
		}
	}
	l.Keys, l.Vals = sortedPairs(l.Keys, l.Vals)
	return l
}

func sortedPairs(keys []string, vals []int32) ([]string, []int32) {
	m := make(map[string]int32, len(keys))
	for i, k := range keys {
		m[k] = vals[i]
	}
	ks := dedup(keys)
	vs := make([]int32, len(ks))
	for i, k := range ks {
		vs[i] = m[k]
	}
	return ks, vs
}

func ladderCases(all, maxLog int, f func(c *Ctx, l *Lex)) []Case {
	var out []Case
	sizes := ladderSizes(all, maxLog)
	const chunks = 6
	for _, shape := range ladderShapes {
		for k := 0; k < chunks; k++ {
			out = append(out, Case{fmt.Sprintf("ladder/%s/%d", shape, k), func(c *Ctx) {
				for i := k; i < len(sizes); i += chunks {
					f(c, ladderLex(c.R, shape, sizes[i]))
					c.Obs("key sets of exact sizes", 1)
				}
			}})
		}
	}
	return out
}

// exactLen is a length that is small or next to a power of two.
func exactLen(r *rand.Rand, maxLog int) int {
	if r.Intn(2) == 0 {
		return 1 + r.Intn(300)
	}
	return 1<<uint(3+r.Intn(maxLog-2)) - 2 + r.Intn(5)
}

// tableSize is an initial table size of a builder.
func tableSize(r *rand.Rand) int {
	switch r.Intn(3) {
	case 0:
		return 1 + r.Intn(20)
	case 1:
		return 1 + r.Intn(1100)
	}
	return max(1, 1<<uint(r.Intn(18))-1+r.Intn(3))
}

// ladderTexts gives texts of n bytes, of n code points and of about n encoded
// bytes, in one-, two-, three- and four-byte scripts and mixed.
func ladderTexts(r *rand.Rand, n int) []string {
	pick := func(lo, hi rune) func() rune { return func() rune { return lo + rune(r.Intn(int(hi-lo))) } }
	fill := func(g func() rune) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(g())
		}
		return b.String()
	}
	out := []string{fill(pick(' ', 0x7f))}
	switch n % 3 {
	case 0:
		out = append(out, fill(pick(0x410, 0x450)))
	case 1:
		out = append(out, fill(pick(0x3041, 0x3090)))
	case 2:
		out = append(out, fill(pick(0x4e00, 0x7e00)))
	}
	// exactly n bytes of mixed text, in UTF-8
	s := hostileText(r, n)
	for len(s) > n {
		_, w := utf8.DecodeLastRuneInString(s)
		s = s[:len(s)-w]
	}
	s += strings.Repeat("x", n-len(s))
	out = append(out, s)
	// an encoding of about n bytes: CJK takes two
	half := []rune{}
	for i := 0; i < n/2; i++ {
		half = append(half, 0x4e00+rune(r.Intn(0x2000)))
	}
	out = append(out, string(half), string(half)+"a", "a"+string(half))
	// the same with something special at the end or the beginning
	odd := []rune{0, boundaryRunes[r.Intn(len(boundaryRunes))], boundaryRunes[r.Intn(len(boundaryRunes))]}
	t := out[1+r.Intn(len(out)-1)]
	for _, o := range odd {
		out = append(out, t+string(o), string(o)+t)
	}
	return append(out, t+"\x00\x00", t+string(odd[1])+"\x00")
}

func ladderTextCases(tier string, f func(c *Ctx, s string)) []Case {
	var out []Case
	const chunks = 16
	all, maxLog := 600, 13
	if tier == "thorough" {
		all, maxLog = 5000, 16
	}
	sizes := ladderSizes(all, maxLog)
	for k := 0; k < chunks; k++ {
		out = append(out, Case{fmt.Sprintf("lengths/%d", k), func(c *Ctx) {
			for i := k; i < len(sizes); i += chunks {
				for _, s := range ladderTexts(c.R, sizes[i]) {
					f(c, s)
					c.Seen(hash64(s))
				}
				c.Obs("exact lengths", 1)
			}
		}})
	}
	return out
}
