package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C24", Level: "exploration", Rule: "byte sequences: all of up to three bytes (thorough: four); all of two bytes behind the encoding of one code point of every window; encodings of random texts cut at every byte, with foreign bytes behind them, and damaged; random bytes rich in lead bytes and zero markers, cut at every byte; each given with and without foreign bytes behind the end of the slice; strings that are not valid UTF-8: all of up to three bytes of the UTF-8 classes, and texts with bytes changed, removed and inserted; non-trivial: a cut inside a code point, bytes that no encoder writes, or an invalid byte between valid ones; distinct: by construction in the exhaustive part, by hash otherwise",
		Cases: casesC24, MinObserved: map[string]int64{"byte sequences decoded": 20000000, "cuts inside a code point": 200000, "cuts between code points": 200000, "sequences with replacement characters": 10000,
			"invalid strings encoded": 200000, "invalid strings streamed": 20000, "foreign bytes behind the end": 100000, "long encodings cut": 100}})
}

func casesC24(tier string) []Case {
	var out []Case
	for a := 0; a < 256; a += 8 {
		out = append(out, Case{fmt.Sprintf("bytes/%d", a), func(c *Ctx) {
			n := 0
			for x := a; x < a+8; x++ {
				b := []byte{byte(x), 0, 0, 0}
				d1 := anyDecode(c, b[:1], "")
				for y := 0; y < 256; y++ {
					b[1] = byte(y)
					d2 := anyDecode(c, b[:2], d1)
					for z := 0; z < 256; z++ {
						b[2] = byte(z)
						d3 := anyDecode(c, b[:3], d2)
						for w := 0; w < 256 && tier == "thorough"; w++ {
							b[3] = byte(w)
							anyDecode(c, b[:4], d3)
							n++
						}
					}
					n += 257
				}
				n++
			}
			c.SeenN(n)
			c.Eval(n)
			c.Obs("byte sequences decoded", n)
		}})
	}
	for i := range windowRunes {
		out = append(out, Case{fmt.Sprintf("behind/%d", i), func(c *Ctx) {
			s := string(windowRunes[i])
			b := refEncode(nil, s)
			m := len(b)
			n := 0
			for y := 0; y < 256; y++ {
				b = append(b[:m], byte(y))
				d := anyDecode(c, b, s)
				for z := 0; z < 256; z++ {
					anyDecode(c, append(b, byte(z)), d)
				}
				n += 257
			}
			c.SeenN(n)
			c.Eval(n)
			c.Obs("byte sequences decoded", n)
		}})
	}
	out = append(out, many(tier, "cuts", 64, 1500, cutTexts)...)
	out = append(out, many(tier, "long cuts", 24, 400, cutLong)...)
	out = append(out, many(tier, "noise", 64, 1500, noiseBytes)...)
	out = append(out, many(tier, "invalid", 64, 1500, invalidTexts)...)
	out = append(out, Case{"classes", invalidClasses})
	return out
}

// anyDecode decodes any bytes: the result is valid UTF-8 and begins with what
// the bytes before the last one gave.
func anyDecode(c *Ctx, b []byte, before string) string {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			c.Fail("decoding % x panics: %v", b[:min(len(b), 200)], r)
		}
	}()
	d := dawg.UtfcDecode(b)
	if !utf8.ValidString(d) {
		c.Fail("% x is decoded as %q, which is not valid UTF-8", b[:min(len(b), 200)], trunc(d, 300))
	}
	if !strings.HasPrefix(d, before) {
		c.Fail("% x is decoded as %+q; without its last bytes it is decoded as %+q", b[:min(len(b), 200)], trunc(d, 300), trunc(before, 300))
	}
	if strings.IndexRune(d, utf8.RuneError) >= 0 {
		c.Obs("sequences with replacement characters", 1)
	}
	return d
}

// withTail gives the bytes in a larger array with something behind them.
func withTail(r *rand.Rand, b []byte) []byte {
	out := make([]byte, len(b), len(b)+8)
	copy(out, b)
	tail := out[len(b):cap(out)]
	for i := range tail {
		tail[i] = byte(0x80 + r.Intn(128))
		if r.Intn(3) == 0 {
			tail[i] = byte(r.Intn(256))
		}
	}
	return out
}

// boundaries: the lengths of the encodings of all beginnings of s.
func boundaries(s string) (enc []byte, ends []int, texts []int) {
	e := refUTFC{aux: 0x410}
	for i, r := range s {
		ends = append(ends, len(e.out))
		texts = append(texts, i)
		e.put(r)
	}
	return e.out, append(ends, len(e.out)), append(texts, len(s))
}

var sumSeed = maphash.MakeSeed()

func cutTexts(c *Ctx) {
	for i := 0; i < 200; i++ {
		s := hostileText(c.R, 1+c.R.Intn(24))
		if s == "" {
			s = "\u4e2d"
		}
		enc, ends, texts := boundaries(s)
		k := 0
		for n := 0; n <= len(enc); n++ {
			for k+1 < len(ends) && ends[k+1] <= n {
				k++
			}
			want := s[:texts[k]]
			b := enc[:n:n]
			if i%2 == 1 {
				b = withTail(c.R, b)
				c.Obs("foreign bytes behind the end", 1)
			}
			got := anyDecode(c, b, want)
			if got != want {
				c.Fail("the encoding % x of %+q, cut to %d bytes, is decoded as %+q, want %+q", enc, s, n, got, want)
			}
			if !bytes.Equal(b, enc[:n]) {
				c.Fail("decoding changed its input % x to % x", enc[:n], b)
			}
			if ends[k] == n {
				c.Obs("cuts between code points", 1)
			} else {
				c.Obs("cuts inside a code point", 1)
			}
			c.Eval(1)
		}
		// foreign bytes after a whole encoding, and damage
		b := append(append([]byte{}, enc...), noise(c.R, 1+c.R.Intn(6))...)
		anyDecode(c, b, s)
		for j := 0; j < 4; j++ {
			b := append([]byte{}, enc...)
			p := c.R.Intn(len(b))
			switch c.R.Intn(3) {
			case 0:
				b[p] = byte(c.R.Intn(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b = append(b[:p+1], b[p:]...)
			}
			whole := 0
			for whole+1 < len(ends) && ends[whole+1] <= p {
				whole++
			}
			anyDecode(c, b, s[:texts[whole]])
		}
		c.Seen(maphash.String(sumSeed, s))
	}
	c.Obs("byte sequences decoded", 200)
}

func cutLong(c *Ctx) {
	s := alignedText(c.R, 300+c.R.Intn(5000))
	enc, ends, texts := boundaries(s)
	lo := max(0, len(enc)-8)
	var cuts []int
	for n := lo; n <= len(enc); n++ {
		cuts = append(cuts, n)
	}
	for p := 256; p < len(enc); p *= 2 {
		for d := -3; d <= 3; d++ {
			cuts = append(cuts, min(p+d, len(enc)))
		}
	}
	for j := 0; j < 40; j++ {
		cuts = append(cuts, c.R.Intn(len(enc)+1))
	}
	for _, n := range cuts {
		k := 0
		for k+1 < len(ends) && ends[k+1] <= n {
			k++
		}
		b := withTail(c.R, enc[:n])
		if got := anyDecode(c, b, ""); got != s[:texts[k]] {
			c.Fail("an encoding of %d bytes, cut to %d bytes, is decoded to %d bytes, want %d; the last bytes before the cut are % x, the text ends in %+q, want %+q", len(enc), n, len(got), texts[k], enc[max(0, n-12):n], tailOf(got), tailOf(s[:texts[k]]))
		}
		c.Eval(1)
	}
	c.Seen(maphash.String(sumSeed, s))
	c.Obs("long encodings cut", len(cuts))
}

func tailOf(s string) string { return s[max(0, len(s)-24):] }

// noise: bytes rich in lead bytes and zero markers.
func noise(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch x := r.Intn(4); {
		case mode == 0:
			b[i] = byte(r.Intn(256))
		case x == 0:
			b[i] = byte(0xbb + r.Intn(5))
		case x == 1:
			b[i] = byte(0x80 + r.Intn(64))
		case x == 2 && mode == 2:
			b[i] = byte(r.Intn(3))
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

func noiseBytes(c *Ctx) {
	for i := 0; i < 400; i++ {
		b := noise(c.R, 1+c.R.Intn(40))
		was := append([]byte{}, b...)
		d := ""
		for n := 0; n <= len(b); n++ {
			d = anyDecode(c, b[:n:n], d)
			if n%3 == 0 {
				if e := anyDecode(c, withTail(c.R, b[:n]), ""); e != d {
					c.Fail("% x is decoded as %+q, and as %+q when other bytes lie behind the slice", b[:n], d, e)
				}
				c.Obs("foreign bytes behind the end", 1)
			}
			if utf8.RuneCountInString(d) > n {
				c.Fail("% x is decoded to %d code points: %+q", b[:n], utf8.RuneCountInString(d), d)
			}
			c.Eval(1)
		}
		if !bytes.Equal(was, b) {
			c.Fail("decoding changed its input % x to % x", was, b)
		}
		c.Seen(maphash.Bytes(sumSeed, b))
		c.Obs("byte sequences decoded", len(b)+1)
	}
}

// asText: every byte that is not a part of valid UTF-8 replaced by U+FFFD.
func asText(s string) string {
	var b []byte
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		b = utf8.AppendRune(b, r)
		s = s[n:]
	}
	return string(b)
}

func checkInvalid(c *Ctx, s string, all bool) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			c.Fail("panic for the string %+q: %v", trunc(s, 300), r)
		}
	}()
	t := asText(s)
	want := refEncode(nil, t)
	got := dawg.UtfcEncode(s)
	if !bytes.Equal(got, want) {
		c.Fail("the string %+q is encoded as % x; read as %+q it gives % x", trunc(s, 300), got[:min(len(got), 200)], trunc(t, 300), want[:min(len(want), 200)])
	}
	c.Obs("invalid strings encoded", 1)
	if all {
		f := &collector{left: -1}
		if !dawg.UtfcFollow(s, f) || !bytes.Equal(f.got, want) {
			c.Fail("the string %+q is streamed as % x; read as %+q it gives % x", trunc(s, 300), f.got[:min(len(f.got), 200)], trunc(t, 300), want[:min(len(want), 200)])
		}
		n := c.R.Intn(len(want))
		f = &collector{left: n}
		if dawg.UtfcFollow(s, f) || !bytes.Equal(f.got, want[:n]) {
			c.Fail("the string %+q is streamed as % x to a consumer that refuses byte %d; read as %+q it gives % x", trunc(s, 300), f.got[:min(len(f.got), 200)], n, trunc(t, 300), want[:min(len(want), 200)])
		}
		if d := dawg.UtfcDecode(got); d != t {
			c.Fail("the string %+q is read as %+q, but its encoding % x is decoded as %+q", trunc(s, 300), trunc(t, 300), got[:min(len(got), 200)], trunc(d, 300))
		}
		c.Obs("invalid strings streamed", 1)
	}
	c.Eval(1)
}

// collector takes bytes until it has as many as it was told, or all.
type collector struct {
	got  []byte
	left int
}

func (f *collector) Follow(b byte) bool {
	if f.left == 0 {
		return false
	}
	f.left--
	f.got = append(f.got, b)
	return true
}

func invalidTexts(c *Ctx) {
	for i := 0; i < 300; i++ {
		b := []byte(hostileText(c.R, 1+c.R.Intn(20)) + "\u0416")
		for j := 0; j <= c.R.Intn(3); j++ {
			p := c.R.Intn(len(b))
			switch c.R.Intn(5) {
			case 0:
				b[p] = byte(0x80 + c.R.Intn(128))
			case 1:
				if len(b) > 1 {
					b = append(b[:p], b[p+1:]...)
				}
			case 2:
				b = append(b[:p+1], b[p:]...)
				b[p] = byte(0x80 + c.R.Intn(128))
			case 3: // a surrogate, an overlong form, or one beyond U+10FFFF
				x := []string{"\xed\xa0\x80", "\xed\xbf\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xf0\x80\x80\x80", "\xef\xbf"}[c.R.Intn(10)]
				b = append(b[:p:p], append([]byte(x), b[p:]...)...)
			case 4:
				b = b[:max(1, p)]
			}
		}
		s := string(b)
		if utf8.ValidString(s) {
			s += "\xff"
		}
		checkInvalid(c, s, true)
		c.Seen(maphash.String(sumSeed, s))
	}
}

// invalidClasses: all strings of up to four bytes of the UTF-8 classes, alone
// and behind and before letters of other windows.
func invalidClasses(c *Ctx) {
	cl := []byte{0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff}
	around := [][2]string{{"", ""}, {"ж", "ж"}, {"中", "中"}, {"か", "a"}, {"a", "\U0001f389"}}
	n := 0
	var b [4]byte
	var rec func(k int)
	rec = func(k int) {
		if k > 0 {
			for i, a := range around {
				s := a[0] + string(b[:k]) + a[1]
				checkInvalid(c, s, k < 3 && i > 0)
				n++
			}
		}
		if k == 4 || k == 3 && !c.Thorough() {
			return
		}
		for _, x := range cl {
			b[k] = x
			rec(k + 1)
		}
	}
	rec(0)
	// every single byte and pair
	for x := 0; x < 65536; x++ {
		checkInvalid(c, "я"+string([]byte{byte(x >> 8), byte(x)})+"q", false)
		n++
	}
	c.SeenN(n)
}
