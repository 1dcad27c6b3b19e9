package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C12", Level: "exploration", Rule: "texts: every code point alone; every code point after one code point of every window; boundary code points of all windows and special ranges after every pair of windows, with text behind (thorough: every code point after every pair of windows); random text in up to three scripts up to 20,000 code points; non-trivial: at least two code points; distinct: by construction in the exhaustive part, by hash of the text otherwise",
		Cases: func(t string) []Case { return append(hugeCases(t, checkDistinct), textCases(t, checkC12)...) }, MinObserved: map[string]int64{"texts": 100000000, "random texts": 50000, "code points": 100000000, "windows": 100, "bytes 0xbb to 0xbf emitted": 100000}})
	register(&Prop{ID: "C13", Level: "exploration", Rule: "texts as for C12, and all ASCII strings of up to three characters; non-trivial: at least two code points",
		Cases: func(t string) []Case {
			return append(append(hugeCases(t, checkC13), textCases(t, checkC13)...), asciiCases()...)
		}, MinObserved: map[string]int64{"texts": 100000000, "random texts": 50000, "ASCII texts": 1000000, "prefixes compared": 100000000}})
	register(&Prop{ID: "C14", Level: "exploration", Rule: "texts: boundary code points after every window, random text; each streamed to consumers that refuse at every byte, encoded incrementally with refusals, copies and clears in between, and with other encodings running inside the consumer; non-trivial: at least two code points; distinct: by hash of the text",
		Cases: func(t string) []Case { return append(streamCases(t), many(t, "endurance", 2, 10, enduranceC14)...) }, MinObserved: map[string]int64{"refusals": 1000000, "refusals inside a code point": 100000, "state copies": 10000, "nested encodings": 10000, "code points retried after a refusal": 100000, "uses of one encoder": 100000}})
}

// windowRunes has one code point of every window the encoder can select, of
// Latin text, and of ranges that leave the window as it is.
var windowRunes = func() []rune {
	var out []rune
	out = append(out, 'a', '!', 0x7f, 0xe9, 0x17f, 0x250, 0x2ff)
	for c := rune(0x300); c < 0x2000; c += 0x80 {
		out = append(out, c+0x45)
	}
	out = append(out, 0x2014, 0x25a0, 0x3042, 0x30a2, 0xfe0f, 0x1f389)
	for c := rune(0x2600); c < 0x110000; c += 0x8000 {
		x := c + 0x1234
		if !validRune(x) {
			x = 0xe123
		}
		if x < 0x110000 {
			out = append(out, x)
		}
	}
	out = append(out, 0x10ffff)
	return out
}()

var probe = "aБ\u3042\u4e2d\U0001f389\u0000Z\u0300\U00020000z"

// textCases: f checks the text ctx+s, where ctx is a context whose encoding is
// known already.
func textCases(tier string, f func(c *Ctx, t *textCheck, s string)) []Case {
	var out []Case
	// every code point alone and after every window
	for i := -1; i < len(windowRunes); i++ {
		i := i
		out = append(out, Case{fmt.Sprintf("after/%d", i), func(c *Ctx) {
			t := newTextCheck(f)
			ctx := ""
			if i >= 0 {
				ctx = string(windowRunes[i])
			}
			n := 0
			buf := append([]byte{}, ctx...)
			for r := rune(0); r <= 0x10ffff; r++ {
				if !validRune(r) {
					continue
				}
				f(c, t, string(utf8.AppendRune(buf[:len(ctx)], r)))
				n++
			}
			c.SeenN(n)
			c.Obs("texts", n)
			c.Obs("windows", 1)
			t.flush(c)
		}})
	}
	// boundary code points after two windows, and the probe behind
	for i := range windowRunes {
		i := i
		out = append(out, Case{fmt.Sprintf("pairs/%d", i), func(c *Ctx) {
			t := newTextCheck(f)
			n := 0
			for j := range windowRunes {
				ctx := string(windowRunes[i]) + string(windowRunes[j])
				buf := append([]byte{}, ctx...)
				if tier == "thorough" {
					for r := rune(0); r <= 0x10ffff; r++ {
						if validRune(r) {
							f(c, t, string(utf8.AppendRune(buf[:len(ctx)], r)))
							n++
						}
					}
				}
				for k, r := range boundaryRunes {
					if tier == "quick" && k%2 != (i+j)%2 {
						continue
					}
					f(c, t, string(append(utf8.AppendRune(buf[:len(ctx)], r), probe...)))
					n++
				}
			}
			c.SeenN(n)
			c.Obs("texts", n)
			t.flush(c)
		}})
	}
	// every pair of the short-form ranges, and every pair of the first alphabets
	for i := 0; i < 32; i++ {
		out = append(out, Case{fmt.Sprintf("dense/%d", i), func(c *Ctx) {
			t := newTextCheck(f)
			n := 0
			for k, set := range denseSets(tier) {
				for j := i; j < len(set); j += 32 {
					buf := utf8.AppendRune(nil, set[j])
					m := len(buf)
					for _, r := range set {
						f(c, t, string(utf8.AppendRune(buf[:m], r)))
						n++
					}
				}
				c.Obs(fmt.Sprintf("all pairs of set %d", k), 1)
			}
			c.SeenN(n)
			c.Obs("texts", n)
			t.flush(c)
		}})
	}
	out = append(out, ladderTextCases(tier, func(c *Ctx, s string) {
		t := newTextCheck(f)
		f(c, t, s)
		c.Obs("texts", 1)
		t.flush(c)
	})...)
	longs := 10
	if tier == "thorough" {
		longs = 60
	}
	for i := 0; i < longs; i++ {
		out = append(out, Case{fmt.Sprintf("long/%d", i), func(c *Ctx) {
			t := newTextCheck(f)
			s := alignedText(c.R, 66000+c.R.Intn(80000))
			f(c, t, s)
			c.Seen(hash64(s))
			s = oneScript(c.R, 66000+c.R.Intn(5000))
			f(c, t, s)
			c.Seen(hash64(s))
			c.Obs("texts over 64 KiB", 2)
			t.flush(c)
		}})
	}
	reps := 40
	if tier == "thorough" {
		reps = 1500
	}
	for i := 0; i < reps; i++ {
		i := i
		out = append(out, Case{fmt.Sprintf("random/%d", i), func(c *Ctx) {
			t := newTextCheck(f)
			for j := 0; j < 3000; j++ {
				s := hostileText(c.R, 1+c.R.Intn(1<<uint(c.R.Intn(7))))
				f(c, t, s)
				c.Seen(hash64(s))
				if j == 0 {
					c.Sample(fmt.Sprintf("%+q", s))
				}
			}
			c.Obs("texts", 3000)
			c.Obs("random texts", 3000)
			n := 2000
			switch {
			case i%8 == 0:
				n = 20000
			case i%8 == 3: // lengths around powers of two, in code points
				n = 1<<uint(10+c.R.Intn(4)) - 2 + c.R.Intn(5)
			case i < 2 || i == 1000:
				n = 65530 + c.R.Intn(6000)
			}
			s := hostileText(c.R, n)
			f(c, t, s)
			c.Seen(hash64(s))
			t.flush(c)
		}})
	}
	return out
}

// denseSets are sets of code points of which all pairs are tried.
func denseSets(tier string) (out [2][]rune) {
	add := func(k int, lo, hi rune) {
		for r := lo; r < hi; r++ {
			out[k] = append(out[k], r)
		}
	}
	add(0, 0x2000, 0x2600)
	add(0, 0x3000, 0x3100)
	add(0, 0xfe00, 0xfe10)
	add(0, 0x1f300, 0x1f5f0)
	add(1, 0, 0x600)
	if tier == "thorough" {
		add(1, 0x600, 0x2000)
	}
	return
}

// hostileText mixes scripts, boundaries, repeated code points and NULs.
func hostileText(r *rand.Rand, n int) string {
	switch r.Intn(6) {
	case 4:
		return likeText(r, n)
	case 5: // one script only
		s := scripts[r.Intn(len(scripts))]
		if r.Intn(3) == 0 {
			s = [2]rune{0x20, 0x7e}
		}
		out := make([]rune, 0, n)
		for len(out) < n {
			if c := s[0] + rune(r.Intn(int(s[1]-s[0]+1))); validRune(c) {
				out = append(out, c)
			}
		}
		return string(out)
	case 0:
		return randText(r, n)
	case 1:
		out := make([]rune, n)
		for i := range out {
			out[i] = boundaryRunes[r.Intn(len(boundaryRunes))]
		}
		return string(out)
	case 2: // a small pool, so that windows return
		pool := make([]rune, 2+r.Intn(6))
		for i := range pool {
			if r.Intn(3) == 0 {
				pool[i] = boundaryRunes[r.Intn(len(boundaryRunes))]
			} else {
				pool[i] = randRune(r)
			}
			if r.Intn(30) == 0 {
				pool[i] = 0
			}
		}
		out := make([]rune, n)
		for i := range out {
			out[i] = pool[r.Intn(len(pool))]
			if d := out[i] + rune(r.Intn(5)-2); r.Intn(4) == 0 && validRune(d) {
				out[i] = d
			}
		}
		return string(out)
	default:
		out := make([]rune, n)
		for i := range out {
			out[i] = randRune(r)
		}
		return string(out)
	}
}

// alike holds groups of texts that some reader takes for one another: composed
// and decomposed letters, letters of two cases, forms for compatibility, marks
// nobody sees, ends of lines. They are different texts.
var alike = [][]string{
	{"\u0439", "\u0438\u0306"}, {"\u0451", "\u0435\u0308"}, {"\u0419", "\u0418\u0306"}, {"\u0401", "\u0415\u0308"}, {"\u0457", "\u0456\u0308"}, {"\u045e", "\u0443\u0306"},
	{"\u00e9", "e\u0301"}, {"\u00e8", "e\u0300"}, {"\u00ea", "e\u0302"}, {"\u00eb", "e\u0308"}, {"\u00f1", "n\u0303"}, {"\u00fc", "u\u0308", "ue"}, {"\u00f6", "o\u0308", "oe"}, {"\u00e4", "a\u0308", "ae"},
	{"\u00e5", "a\u030a", "\u212b", "A\u030a", "\u00c5"}, {"\u00e7", "c\u0327"}, {"\u0161", "s\u030c"}, {"\u017e", "z\u030c"}, {"\u010d", "c\u030c"}, {"\u0103", "a\u0306"}, {"\u1ea5", "a\u0302\u0301", "\u00e2\u0301"},
	{"\u1e69", "s\u0323\u0307", "s\u0307\u0323", "\u1e63\u0307"}, {"\u03ac", "\u03b1\u0301", "\u1f71"}, {"\u1fb7", "\u03b1\u0342\u0345"}, {"\u0390", "\u03ca\u0301", "\u03b9\u0308\u0301"},
	{"\u0622", "\u0627\u0653"}, {"\u0958", "\u0915\u093c"}, {"\u09cb", "\u09c7\u09be"}, {"\u0ba1", "\u0ba1\u0bcd"}, {"\u304c", "\u304b\u3099"}, {"\u30d1", "\u30cf\u309a", "\uff8a\uff9f"},
	{"\uac00", "\u1100\u1161"}, {"\uac01", "\u1100\u1161\u11a8", "\uac00\u11a8"}, {"\ud7a3", "\u1112\u1175\u11c2"},
	{"\u2126", "\u03a9"}, {"\u212a", "K", "k"}, {"\u00b5", "\u03bc"}, {"\uf900", "\u8c48"}, {"\U0002f800", "\u4e3d"}, {"\ufb01", "fi"}, {"\ufb00", "ff"}, {"\u01c6", "d\u017e", "\u01c5"},
	{"\u00df", "ss", "\u1e9e", "SS"}, {"\u017f", "s", "S"}, {"\u0131", "i", "I", "\u0130", "i\u0307"}, {"\u03c2", "\u03c3", "\u03a3"}, {"\u0430", "a", "\u03b1"}, {"\u0435", "e"}, {"\u0410", "\u0430"}, {"\u042f", "\u044f"}, {"\u0531", "\u0561"}, {"\u10d0", "\u1c90"},
	{"\uff21", "A", "a"}, {"\uff11", "1", "\u2460", "\u00b9", "\u0661"}, {"\u3000", " ", "\u00a0", "\u2009", "\u202f", "\u1680"}, {"\u2028", "\u2029", "\u0085", "\n", "\r\n", "\r", "\v", "\f"},
	{"", "\u200b", "\u200c", "\u200d", "\u2060", "\ufeff", "\u00ad", "\ufe0f", "\ufe0e", "\u200e", "\u200f", "\u061c", "\u034f", "\u180e", "\U000e0001"},
	{"-", "\u2010", "\u2011", "\u2013", "\u2014", "\u2212", "\u00ad"}, {"'", "\u2019", "\u02bc", "`", "\u00b4"}, {"\"", "\u201c", "\u201d", "\u00ab"}, {"...", "\u2026"}, {"\t", " ", "  "},
	{"\u2764", "\u2764\ufe0f"}, {"\U0001f44d", "\U0001f44d\U0001f3fd"}, {"\U0001f1eb\U0001f1f7", "\U0001f1f7\U0001f1eb"}, {"\U0001f468\u200d\U0001f469", "\U0001f468\U0001f469"},
	{"\ufffd", "?", "\ufffe", "\uffff"}, {"\U0001d400", "A"}, {"\u2075", "5"}, {"\u00bd", "1\u20442"}, {"\u2260", "=\u0338"}, {"\u0340", "\u0300"}, {"\u0344", "\u0308\u0301"}, {"%20", " ", "+"}, {"&amp;", "&"}, {"\\n", "\n"},
}

// likeText is a text with such forms in it, of n code points or a few more.
func likeText(r *rand.Rand, n int) string {
	var b []byte
	word := randText(r, n+1)
	for _, ch := range word {
		if n--; n < 0 {
			break
		}
		if r.Intn(3) > 0 {
			g := alike[r.Intn(len(alike))]
			b = append(b, g[r.Intn(len(g))]...)
		} else {
			b = utf8.AppendRune(b, ch)
		}
	}
	return string(b)
}

// similar is s with one of those forms replaced by another, or in another case.
func similar(r *rand.Rand, s string) string {
	switch r.Intn(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.TrimSpace(s)
	}
	for try, at := 0, r.Intn(len(alike)); try < len(alike); try++ {
		g := alike[(at+try)%len(alike)]
		for _, f := range g {
			if f != "" && strings.Contains(s, f) {
				return strings.Replace(s, f, g[r.Intn(len(g))], 1)
			}
		}
	}
	return s
}

// alignedText is hostile text of about n bytes in which a code point begins at
// every multiple of 256 bytes.
func alignedText(r *rand.Rand, n int) string {
	var b []byte
	for len(b) < n {
		seg := hostileText(r, 1+r.Intn(40))
		if r.Intn(4) > 0 {
			seg = oneScript(r, 20+r.Intn(600))
		}
		for _, c := range seg {
			left := 256 - len(b)%256
			if utf8.RuneLen(c) > left {
				c = []rune{'q', 0x416, 0x4e2d}[left-1]
			}
			b = utf8.AppendRune(b, c)
		}
	}
	return string(b)
}

// oneScript is a text of n code points that leaves its script rarely.
func oneScript(r *rand.Rand, n int) string {
	s := scripts[r.Intn(len(scripts))]
	out := []rune{randRune(r)}
	for len(out) < n {
		c := s[0] + rune(r.Intn(int(s[1]-s[0]+1)))
		if r.Intn(5000) == 0 {
			c = randRune(r)
		}
		if validRune(c) {
			out = append(out, c)
		}
	}
	return string(out)
}

// hugeCases: texts of over 2^20 and 2^22 code points (not for decoding, which
// takes quadratic time).
func hugeCases(tier string, f func(c *Ctx, t *textCheck, s string)) []Case {
	ns := []int{1<<20 + 5000, 1<<22 + 5000}
	if tier == "thorough" {
		ns = append(ns, 1<<24+5000)
	}
	var out []Case
	for _, n := range ns {
		out = append(out, Case{fmt.Sprintf("huge/%d", n), func(c *Ctx) {
			t := newTextCheck(f)
			var b []byte
			for k := 0; k < n; k += 70000 {
				b = append(b, alignedText(c.R, 70000)...)
				b = append(b, oneScript(c.R, 60000)...)
			}
			f(c, t, string(b))
			c.Seen(hash64(string(b)))
			c.Obs("texts over 1 MiB", 1)
			t.flush(c)
		}})
	}
	return out
}

// textCheck accumulates counts and remembers encodings of contexts.
type textCheck struct {
	cps, esc, prefixes int
	ctx                map[string][]byte
	ref                []byte // reference encoding (C21)
	decoded            int
}

func newTextCheck(f func(c *Ctx, t *textCheck, s string)) *textCheck {
	return &textCheck{ctx: map[string][]byte{}}
}

func (t *textCheck) flush(c *Ctx) {
	c.Obs("code points", t.cps)
	c.Obs("bytes 0xbb to 0xbf emitted", t.esc)
	c.Obs("prefixes compared", t.prefixes)
	c.Obs("reference encodings decoded", t.decoded)
}

func checkC12(c *Ctx, t *textCheck, s string) {
	c.note = nil
	c.Eval(1)
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			c.Fail("panic for the text %+q: %v", trunc(s, 300), r)
		}
	}()
	enc := dawg.UtfcEncode(s)
	dec := dawg.UtfcDecode(enc)
	if dec != s {
		i := 0
		for i < len(dec) && i < len(s) && dec[i] == s[i] {
			i++
		}
		c.Fail("the text %+q (%d bytes) is encoded as % x and decoded as %+q; they differ at byte %d", trunc(s, 300), len(s), enc[:min(len(enc), 200)], trunc(dec, 300), i)
	}
	t.cps += utf8.RuneCountInString(s)
	for _, b := range enc {
		if b >= 0xbb && b <= 0xbf {
			t.esc++
		}
	}
}

// checkDistinct: changes at the end of a text too long to be decoded here show
// in its encoding.
func checkDistinct(c *Ctx, t *textCheck, s string) {
	c.note = nil
	enc := dawg.UtfcEncode(s)
	last, w := utf8.DecodeLastRuneInString(s)
	other := 'a'
	if last == 'a' {
		other = 'b'
	}
	for _, o := range []string{s[:len(s)-w], s[:len(s)-w] + string(other), s + "a", s + "\U0001f389"} {
		if bytes.Equal(dawg.UtfcEncode(o), enc) {
			c.Fail("two texts of %d and %d bytes that differ at the end have the same encoding", len(s), len(o))
		}
		c.Eval(1)
	}
	t.cps += utf8.RuneCountInString(s)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func checkC13(c *Ctx, t *textCheck, s string) {
	c.Eval(1)
	c.note = nil
	enc := dawg.UtfcEncode(s)
	if i := bytes.IndexByte(enc, 0); i >= 0 {
		c.Fail("the encoding of %+q has a zero byte at %d: % x", trunc(s, 300), i, enc[:min(len(enc), 200)])
	}
	n := utf8.RuneCountInString(s)
	if len(enc) > 3*n {
		c.Fail("the encoding of %+q takes %d bytes for %d code points", trunc(s, 300), len(enc), n)
	}
	t.cps += n
	ascii := true
	for i := 0; i < len(s) && ascii; i++ {
		ascii = s[i] != 0 && s[i] < 0x80
	}
	if ascii && string(enc) != s {
		c.Fail("the ASCII text %+q is encoded as % x", trunc(s, 300), enc[:min(len(enc), 200)])
	}
	// The last prefix, whose encoding often is in the cache, and others.
	_, w := utf8.DecodeLastRuneInString(s)
	cut := len(s) - w
	pe, ok := t.ctx[s[:cut]]
	if !ok {
		pe = dawg.UtfcEncode(s[:cut])
		if cut <= 8 && len(t.ctx) < 1000 {
			t.ctx[s[:cut]] = append([]byte{}, pe...)
		}
	}
	if !bytes.HasPrefix(enc, pe) {
		c.Fail("the encoding of %+q is no prefix of that of %+q: % x, % x", trunc(s[:cut], 300), trunc(s, 300), pe[:min(len(pe), 100)], enc[:min(len(enc), 100)])
	}
	t.prefixes++
	if n > 2 {
		// all prefixes of short texts, some of long ones
		k := 0
		for i := range s {
			k++
			if n > 40 && c.R.Intn(n) > 20 {
				continue
			}
			pe := dawg.UtfcEncode(s[:i])
			if !bytes.HasPrefix(enc, pe) {
				c.Fail("the encoding of %+q is no prefix of that of %+q: % x, % x", trunc(s[:i], 300), trunc(s, 300), pe[:min(len(pe), 100)], enc[:min(len(enc), 100)])
			}
			t.prefixes++
		}
	}
}

func asciiCases() []Case {
	var out []Case
	for hi := 1; hi < 128; hi += 16 {
		hi := hi
		out = append(out, Case{fmt.Sprintf("ascii/%d", hi), func(c *Ctx) {
			t := newTextCheck(nil)
			n := 0
			for a := hi; a < hi+16 && a < 128; a++ {
				checkC13(c, t, string([]byte{byte(a)}))
				for b := 1; b < 128; b++ {
					checkC13(c, t, string([]byte{byte(a), byte(b)}))
					for d := 1; d < 128; d++ {
						s := string([]byte{byte(a), byte(b), byte(d)})
						if enc := dawg.UtfcEncode(s); string(enc) != s {
							c.Fail("the ASCII text %q is encoded as % x", s, enc)
						}
						n++
					}
				}
			}
			for i := 0; i < 200; i++ {
				checkC13(c, t, randStr(c.R, allBytes[:127], c.R.Intn(2000)))
			}
			c.Eval(n)
			c.SeenN(n)
			c.Obs("ASCII texts", n)
			t.flush(c)
		}})
	}
	return out
}

// ---- C14 ---------------------------------------------------------------------

// sink records the bytes it takes and refuses the byte number refuse.
type sink struct {
	got     []byte
	calls   int
	refuse  int // -1: never
	refused bool
	after   int // calls after the refusal
	inside  func()
}

func (s *sink) Follow(b byte) bool {
	s.calls++
	if s.refused {
		s.after++
		return false
	}
	if s.inside != nil {
		s.inside()
	}
	s.got = append(s.got, b)
	if s.refuse >= 0 && len(s.got)-1 == s.refuse {
		s.refused = true
		return false
	}
	return true
}

func streamCases(tier string) []Case {
	var out []Case
	for i := range windowRunes {
		i := i
		out = append(out, Case{fmt.Sprintf("windows/%d", i), func(c *Ctx) {
			for j := range windowRunes {
				if tier == "quick" && (i+j)%2 != 0 {
					continue
				}
				for k, r := range boundaryRunes {
					if tier == "quick" && k%2 != (i+j)/2%2 {
						continue
					}
					checkStream(c, string([]rune{windowRunes[i], windowRunes[j], r, windowRunes[c.R.Intn(len(windowRunes))]}), false)
				}
			}
		}})
	}
	out = append(out, hugeCases(tier, func(c *Ctx, t *textCheck, s string) { checkLongStream(c, s) })...)
	out = append(out, ladderTextCases(tier, func(c *Ctx, s string) {
		if len(s) < 300 {
			checkStream(c, s, false)
		}
		if len(s) > 8 {
			checkLongStream(c, s)
		}
	})...)
	out = append(out, Case{"long", func(c *Ctx) {
		for i := 0; i < 20; i++ {
			checkLongStream(c, alignedText(c.R, 66000+c.R.Intn(80000)))
			checkLongStream(c, oneScript(c.R, 66000+c.R.Intn(5000)))
		}
	}})
	reps := 40
	if tier == "thorough" {
		reps = 1000
	}
	for i := 0; i < reps; i++ {
		out = append(out, Case{fmt.Sprintf("random/%d", i), func(c *Ctx) {
			for j := 0; j < 300; j++ {
				s := hostileText(c.R, 1+c.R.Intn(1<<uint(c.R.Intn(6))))
				if j == 0 {
					c.Sample(fmt.Sprintf("%+q", s))
				}
				checkStream(c, s, true)
			}
			checkStream(c, "", true)
			checkStream(c, hostileText(c.R, 500), true)
		}})
	}
	return out
}

// checkLongStream: a long text streamed as a whole, up to some refused bytes,
// and code point by code point. The encoding itself is judged by C12 and C21.
func checkLongStream(c *Ctx, s string) {
	c.note = func() string { return fmt.Sprintf("streaming %+q, %d bytes", trunc(s, 300), len(s)) }
	c.Seen(hash64(s))
	enc := append([]byte{}, dawg.UtfcEncode(s)...)
	k := &sink{refuse: -1}
	if !dawg.UtfcFollow(s, k) || !bytes.Equal(k.got, enc) {
		c.Fail("streaming %d bytes delivers %d bytes, the encoding has %d", len(s), len(k.got), len(enc))
	}
	k = &sink{refuse: -1}
	st := dawg.NewUtfcState()
	for i, r := range s {
		if i%1000 == 7 {
			st.Follow(r, &sink{refuse: 0})
		}
		if !st.Follow(r, k) {
			c.Fail("the incremental encoder reports failure for %U at byte %d", r, i)
		}
	}
	if !bytes.Equal(k.got, enc) {
		c.Fail("the incremental encoder delivers %d bytes, the encoding has %d or differs", len(k.got), len(enc))
	}
	for i := 0; i < 4; i++ {
		at := len(enc) - 1 - c.R.Intn(len(enc)/2)
		k := &sink{refuse: at}
		if dawg.UtfcFollow(s, k) || k.after > 0 || !bytes.Equal(k.got, enc[:at+1]) {
			c.Fail("streaming until the refused byte %d delivers %d bytes and %d more after it", at, len(k.got), k.after)
		}
		c.Obs("refusals", 1)
	}
	c.Obs("long texts streamed", 1)
	c.Eval(6)
}

func checkStream(c *Ctx, s string, full bool) {
	c.note = func() string { return fmt.Sprintf("streaming %+q", trunc(s, 300)) }
	c.Seen(hash64(s))
	enc := append([]byte{}, dawg.UtfcEncode(s)...)
	// everything taken
	k := &sink{refuse: -1}
	if !dawg.UtfcFollow(s, k) {
		c.Fail("streaming %+q to a willing consumer reports failure", trunc(s, 300))
	}
	if !bytes.Equal(k.got, enc) {
		c.Fail("streaming %+q delivers % x, the encoding is % x", trunc(s, 300), k.got, enc)
	}
	c.Eval(2)
	// where the code points begin
	var starts []int
	{
		n := 0
		st := dawg.NewUtfcState()
		for _, r := range s {
			kk := &sink{refuse: -1}
			starts = append(starts, n)
			if !st.Follow(r, kk) {
				c.Fail("the incremental encoder reports failure for %U in %+q", r, trunc(s, 300))
			}
			if n+len(kk.got) > len(enc) || !bytes.Equal(kk.got, enc[n:n+len(kk.got)]) {
				c.Fail("the incremental encoder delivers % x for %U at byte %d of %+q, encoded as % x", kk.got, r, n, trunc(s, 300), enc)
			}
			n += len(kk.got)
		}
		if n != len(enc) {
			c.Fail("the incremental encoder delivers %d of the %d bytes of %+q", n, len(enc), trunc(s, 300))
		}
		c.Eval(len(starts))
	}
	// refusal at every byte
	for i := range enc {
		if len(enc) > 200 && c.R.Intn(len(enc)) > 100 {
			continue
		}
		k := &sink{refuse: i}
		if dawg.UtfcFollow(s, k) {
			c.Fail("streaming %+q reports success although byte %d was refused", trunc(s, 300), i)
		}
		if k.after > 0 {
			c.Fail("streaming %+q delivers %d more bytes after byte %d was refused", trunc(s, 300), k.after, i)
		}
		if !bytes.Equal(k.got, enc[:i+1]) {
			c.Fail("streaming %+q until byte %d delivers % x, the encoding is % x", trunc(s, 300), i, k.got, enc)
		}
		c.Obs("refusals", 1)
		c.Eval(1)
	}
	// incremental: every code point is refused at every of its bytes first
	runes := []rune(s)
	st := dawg.NewUtfcState()
	if full && c.R.Intn(2) == 0 { // a used and cleared state
		for _, r := range hostileText(c.R, 1+c.R.Intn(5)) {
			st.Follow(r, &sink{refuse: -1})
		}
		if c.R.Intn(2) == 0 {
			st.Follow(randRune(c.R), &sink{refuse: 0})
		}
		st.Clear()
	}
	var keep []byte
	for i, r := range runes {
		end := len(enc)
		if i+1 < len(starts) {
			end = starts[i+1]
		}
		want := enc[starts[i]:end]
		copies := []*dawg.UtfcState{}
		if full && c.R.Intn(4) == 0 {
			cp := dawg.NewUtfcState()
			cp.Follow(randRune(c.R), &sink{refuse: -1})
			cp.Copy(st)
			copies = append(copies, cp)
			c.Obs("state copies", 1)
		}
		for b := 0; b < len(want); b++ {
			k := &sink{refuse: b}
			if st.Follow(r, k) {
				c.Fail("the incremental encoder reports success for %U in %+q although byte %d of it was refused", r, trunc(s, 300), b)
			}
			if k.after > 0 || !bytes.Equal(k.got, want[:b+1]) {
				c.Fail("the incremental encoder delivers % x and %d more for %U in %+q refused at byte %d, it is encoded as % x", k.got, k.after, r, trunc(s, 300), b, want)
			}
			c.Obs("refusals", 1)
			if b > 0 {
				c.Obs("refusals inside a code point", 1)
			}
		}
		// another code point is tried and refused in between
		if full && c.R.Intn(2) == 0 {
			o := randRune(c.R)
			st.Follow(o, &sink{refuse: 0})
		}
		k := &sink{refuse: -1}
		if !st.Follow(r, k) || !bytes.Equal(k.got, want) {
			c.Fail("after refusals the incremental encoder delivers % x for %U in %+q, want % x", k.got, r, trunc(s, 300), want)
		}
		c.Obs("code points retried after a refusal", 1)
		c.Eval(len(want) + 1)
		keep = append(keep, k.got...)
		// copies were taken before this code point: they continue from there,
		// unaffected by the original, and do not affect it
		for _, cp := range copies {
			k := &sink{refuse: -1}
			for _, r2 := range runes[i:] {
				cp.Follow(r2, k)
			}
			if !bytes.Equal(k.got, enc[starts[i]:]) {
				c.Fail("a copy of the state before code point %d of %+q continues with % x, want % x", i, trunc(s, 300), k.got, enc[starts[i]:])
			}
		}
	}
	if !bytes.Equal(keep, enc) {
		c.Fail("the incremental encoder delivers % x for %+q, want % x", keep, trunc(s, 300), enc)
	}
	// other encodings inside the consumer
	if full {
		other := hostileText(c.R, 1+c.R.Intn(5))
		oenc := append([]byte{}, dawg.UtfcEncode(other)...)
		k := &sink{refuse: -1}
		k.inside = func() {
			c.Obs("nested encodings", 1)
			if got := dawg.UtfcEncode(other); !bytes.Equal(got, oenc) {
				c.Fail("encoding %+q while %+q is streamed gives % x, want % x", other, trunc(s, 300), got, oenc)
			}
			kk := &sink{refuse: c.R.Intn(3)}
			dawg.UtfcFollow(other, kk)
		}
		if !dawg.UtfcFollow(s, k) || !bytes.Equal(k.got, enc) {
			c.Fail("streaming %+q while its consumer encodes %+q delivers % x, want % x", trunc(s, 300), other, k.got, enc)
		}
	}
}
