package main

import (
	"bytes"
	"unicode/utf8"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C21", Level: "exploration", Rule: "texts as for C12; each encoding is compared byte for byte with an independent table-driven encoder of the UTF-C scheme, and the reference encoding is decoded by the library; non-trivial: at least two code points; distinct: by construction in the exhaustive part, by hash of the text otherwise",
		Cases: func(t string) []Case {
			return append(append(hugeCases(t, checkC21), textCases(t, checkC21)...), auxCases()...)
		}, MinObserved: map[string]int64{"texts": 100000000, "random texts": 50000, "code points": 100000000, "windows": 100,
			"auxiliary alphabets probed": 70}})
}

// The UTF-C scheme, written down independently of the library: every code
// point is sent in one of the forms below; forms other than "aux" and
// "window" may move the window, and the window left becomes the auxiliary
// alphabet.

type refUTFC struct {
	win, aux int32 // start of the window and of the auxiliary alphabet
	long     bool  // the window is one of 2^15 code points
	out      []byte
}

// refAux: where the 64 code points of the auxiliary alphabet start, for
// windows whose useful letters are not at their beginning.
var refAux = map[int32]int32{
	0x80: 0xc0, 0x380: 0x391, 0x400: 0x410, 0x530: 0x531, 0x580: 0x5be, 0x600: 0x60b, 0x900: 0x90d, 0x980: 0x98f, 0xa00: 0xa02,
	0xa80: 0xa8f, 0xb00: 0xb0f, 0xb80: 0xb8e, 0xc80: 0xc8e, 0xd00: 0xd0e, 0xd80: 0xd9b, 0xe00: 0xe01, 0xe80: 0xe81,
	0xf00: 0xf40, 0xf80: 0xf90, 0x1080: 0x10b0, 0x3000: 0x3040,
}

const refLatinAux = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -"

func auxOf(win int32) int32 {
	if a, ok := refAux[win]; ok {
		return a
	}
	return win
}

// extraIndex numbers the code points of the extra ranges, or gives -1.
func extraIndex(r int32) int32 {
	switch {
	case r >= 0x2000 && r < 0x2600:
		return r - 0x2000
	case r >= 0x3000 && r < 0x3100:
		return r - 0x3000 + 0x600
	case r >= 0xfe00 && r < 0xfe10:
		return r - 0xfe00 + 0x700
	case r >= 0x1f300 && r < 0x1f5f0:
		return r - 0x1f300 + 0x710
	}
	return -1
}

var latinAuxCode = func() (t [128]int16) {
	for i := range t {
		t[i] = -1
	}
	for i := 0; i < len(refLatinAux); i++ {
		t[refLatinAux[i]] = int16(i)
	}
	return
}()

func (e *refUTFC) put(r int32) {
	// one byte, auxiliary alphabet
	if e.aux == 0 {
		if r < 128 && latinAuxCode[r] >= 0 {
			e.out = append(e.out, 0xc0+byte(latinAuxCode[r]))
			return
		}
	} else if d := r - e.aux; d >= 0 && d < 64 {
		e.out = append(e.out, 0xc0+byte(d))
		return
	}
	x := extraIndex(r)
	if r < 0x2600 || x >= 0 {
		// one byte, 128-code-point window
		if !e.long && r>>7 == e.win>>7 && e.win%128 == 0 {
			if r&127 == 0 {
				e.out = append(e.out, 0xbb)
			} else {
				e.out = append(e.out, byte(r&127))
			}
			return
		}
		lead, second, moves := byte(0x80+r>>8), byte(r), true
		if x >= 0 {
			lead, second = byte(0xb1+x>>8), byte(x)
			moves = r >= 0x3000 && r < 0x3100
		}
		if second == 0 {
			e.out = append(e.out, 0xbe, lead)
		} else {
			e.out = append(e.out, lead, second)
		}
		if moves {
			e.aux = auxOf(e.win)
			e.win = r &^ 127
			if r < 0x300 {
				e.win = 0
			}
			e.long = false
		}
		return
	}
	v := r - 0x2600
	hi, lo := byte(v>>8), byte(v)
	if e.long && v>>15 == e.win>>15 {
		switch hi &= 127; {
		case hi != 0 && lo != 0:
			e.out = append(e.out, hi, lo)
		case hi != 0:
			e.out = append(e.out, 0xbe, hi)
		case lo != 0:
			e.out = append(e.out, 0xbc, lo)
		default:
			e.out = append(e.out, 0xbb)
		}
		return
	}
	lead := byte(0xa0 + v>>16)
	switch {
	case hi != 0 && lo != 0:
		e.out = append(e.out, lead, hi, lo)
	case hi != 0:
		e.out = append(e.out, 0xbd, lead, hi)
	case lo != 0:
		e.out = append(e.out, 0xbe, lead, lo)
	default:
		e.out = append(e.out, 0xbf, lead)
	}
	e.aux = e.win
	e.win = v &^ 0x7fff
	e.long = true
}

func refEncode(buf []byte, s string) []byte {
	e := refUTFC{aux: 0x410, out: buf[:0]}
	for _, r := range s {
		e.put(r)
	}
	return e.out
}

func checkC21(c *Ctx, t *textCheck, s string) {
	c.note = nil
	c.Eval(1)
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			c.Fail("panic for the text %+q: %v", trunc(s, 300), r)
		}
	}()
	t.ref = refEncode(t.ref, s)
	got := dawg.UtfcEncode(s)
	if !bytes.Equal(got, t.ref) {
		i := 0
		for i < len(got) && i < len(t.ref) && got[i] == t.ref[i] {
			i++
		}
		c.Fail("the text %+q (%d bytes) is encoded as % x; the UTF-C scheme gives % x; they differ at byte %d", trunc(s, 300), len(s), got[:min(len(got), 200)], t.ref[:min(len(t.ref), 200)], i)
	}
	n := utf8.RuneCountInString(s)
	if (t.cps%8 == 0 || n > 3) && n < 300000 {
		if dec := dawg.UtfcDecode(t.ref); dec != s {
			c.Fail("the UTF-C scheme encodes %+q as % x; the library decodes that as %+q", trunc(s, 300), t.ref[:min(len(t.ref), 200)], trunc(dec, 300))
		}
		t.decoded++
	}
	t.cps += n
	for _, b := range t.ref {
		if b >= 0xbb && b <= 0xbf {
			t.esc++
		}
	}
}

// auxCases: after leaving each window, every code point around its auxiliary
// alphabet.
func auxCases() []Case {
	return []Case{{"aux", func(c *Ctx) {
		t := newTextCheck(checkC21)
		for w := range windowRunes {
			for _, leave := range []rune{'a', 0x416, 0x4e2d, 0x3042, 0x3a9} {
				base := windowRunes[w] &^ 0x7f
				ctx := string([]rune{windowRunes[w], leave})
				buf := append([]byte{}, ctx...)
				n := 0
				for r := base - 130; r < base+390; r++ {
					if r < 0 || !validRune(r) {
						continue
					}
					checkC21(c, t, string(append(utf8.AppendRune(buf[:len(ctx)], r), probe...)))
					n++
				}
				c.SeenN(n)
				c.Obs("texts", n)
			}
			c.Obs("auxiliary alphabets probed", 1)
		}
		t.flush(c)
	}}}
}
