package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/deNULL/dawg"
)

// Built is what the library makes of a Lex.
type Built struct {
	Lex    *Lex
	Dawg   *dawg.Dawg
	Dict   *dawg.Dictionary
	Guide  *dawg.Guide
	Ranked *dawg.RankedGuide
}

func buildDawg(c *Ctx, b *dawg.DawgBuilder, l *Lex, d *dawg.Dawg) {
	for i, k := range l.Keys {
		if !b.InsertStringValue(k, l.Vals[i]) {
			c.Fail("insertion of key %d (%s) with value %d refused", i, show(k), l.Vals[i])
		}
	}
	b.Finish(d)
}

func build(c *Ctx, l *Lex) *Built {
	c.Detail(func() interface{} { return l.Dump(400) })
	c.note = func() string { return "building " + l.Spec }
	d := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), l, d)
	dict := d.Build()
	if dict == nil {
		c.Fail("dictionary not built")
	}
	c.note = func() string { return "using " + l.Spec }
	c.Obs("dictionaries", 1)
	c.Obs("keys", len(l.Keys))
	if dict.Size() > 16*256 {
		c.Obs("dictionaries over 16 blocks", 1)
	}
	if dict.Size() > 1<<21 {
		c.Obs("dictionaries over 2^21 units", 1)
	}
	c.Obs("merging states", d.NumOfMergingStates())
	if len(l.Keys) >= 2 {
		c.Seen(l.Sig())
	}
	if c.eval == 0 && len(c.samples) == 0 && len(l.Keys) > 1 && len(l.Keys) < 3000 {
		c.Sample(l.Dump(4))
	}
	return &Built{Lex: l, Dawg: d, Dict: dict}
}

func (b *Built) guide(c *Ctx) *dawg.Guide {
	if b.Guide == nil {
		b.Guide = dawg.BuildGuide(b.Dawg, b.Dict)
		if b.Guide == nil {
			c.Fail("guide not built")
		}
	}
	return b.Guide
}

func (b *Built) ranked(c *Ctx) *dawg.RankedGuide {
	if b.Ranked == nil {
		b.Ranked = dawg.BuildRankedGuide(b.Dawg, b.Dict)
		if b.Ranked == nil {
			c.Fail("ranked guide not built")
		}
	}
	return b.Ranked
}

func show(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Plan says how much workload a property's monitor gets.
type Plan struct {
	Exhaustive bool
	Small      int // batches of small key sets
	Mid        int // repetitions per family
	Large      int // number of large key sets
	Big        []int
	MidMax     int
	Ladder     int // key sets of exact sizes up to 2^Ladder
	LargeN     int
}

func scale(tier string, quick, thorough Plan) Plan {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// lexCases turns a plan into cases that run f on key sets.
func lexCases(tier string, p Plan, f func(c *Ctx, l *Lex)) []Case {
	var out []Case
	add := func(name string, run func(c *Ctx)) { out = append(out, Case{name, run}) }

	// Long-running cases first.
	for _, v := range p.Big {
		v := v
		add(fmt.Sprintf("big/%d", v), func(c *Ctx) {
			if v >= 8 {
				f(c, bigLex(c.R, v%4))
			} else {
				f(c, bigLex(c.R, v))
			}
		})
	}
	if len(p.Big) > 0 {
		add("waste", func(c *Ctx) { f(c, wasteLex(c.R)) })
	}
	for i := 0; i < p.Large; i++ {
		fam := families[i%len(families)]
		if fam == "long" {
			fam = "blocks"
		}
		vm := valueModes[(i*5+1)%len(valueModes)]
		add(fmt.Sprintf("large/%d/%s/%s", i, fam, vm), func(c *Ctx) {
			f(c, genLex(c.R, fam, p.LargeN/2+c.R.Intn(p.LargeN), vm))
		})
	}
	for rep := 0; rep < p.Mid; rep++ {
		for i, fam := range families {
			vm := valueModes[(i+rep*7)%len(valueModes)]
			add(fmt.Sprintf("mid/%d/%s/%s", rep, fam, vm), func(c *Ctx) {
				f(c, genLex(c.R, fam, 100+c.R.Intn(p.MidMax), vm))
			})
		}
	}
	if p.Ladder > 0 {
		all := 40
		if tier == "thorough" {
			all = 1100
		}
		out = append(out, ladderCases(all, p.Ladder, f)...)
	}
	for i, n := range giantLengths {
		if tier != "thorough" && i%3 != len(p.Big)%3 && n != 65536 {
			continue
		}
		add(fmt.Sprintf("giant/%d", n), func(c *Ctx) { f(c, giantLex(c.R, n)) })
	}
	add("special/0", func(c *Ctx) {
		for _, l := range specialLexes() {
			f(c, l)
		}
	})
	add("special/bytes", func(c *Ctx) {
		// one key of every byte, and pairs (b), (b x)
		for b := 1; b < 256; b++ {
			v := int32(b)
			f(c, &Lex{"single byte", []string{string([]byte{byte(b)})}, []int32{v}})
			f(c, &Lex{"byte and pair", dedup([]string{string([]byte{byte(b)}), string([]byte{byte(b), byte(1 + c.R.Intn(255))})}), []int32{v << 8, v}})
		}
	})
	for i := 0; i < p.Small; i++ {
		add(fmt.Sprintf("small/%d", i), func(c *Ctx) {
			for j := 0; j < 60; j++ {
				f(c, randLex(c.R, 1+c.R.Intn(60)))
			}
		})
	}
	if p.Exhaustive {
		// Every subset of the 15 strings of length <= 3 over two letters, in
		// several alphabets and value patterns, and of the 13 strings of
		// length <= 2 over three letters.
		type ex struct {
			name  string
			u     []string
			vals  func(i int, k string) int32
			chunk int
		}
		seq := func(i int, k string) int32 { return int32(i + 1) }
		zero := func(i int, k string) int32 { return 0 }
		low := func(i int, k string) int32 { // low bytes equal to labels in use, bit 8 set
			b := int32(0x161)
			if len(k) > 0 {
				b = int32(k[len(k)-1]) | 0x100
			}
			return b | int32(i)<<10
		}
		par := func(i int, k string) int32 { return int32(len(k) & 1) }
		exs := []ex{
			{"ab3/zero", universe([]byte("ab"), 3), zero, 0},
			{"01ff/seq", universe([]byte{1, 255}, 3), seq, 0},
			{"abc2/low", universe([]byte("abc"), 2), low, 0},
			{"ab3/low", universe([]byte("ab"), 3), low, 0},
		}
		if tier == "thorough" {
			exs = append(exs, ex{"ab3/par", universe([]byte("ab"), 3), par, 0}, ex{"abc2/seq", universe([]byte{1, 128, 255}, 2), seq, 0},
				ex{"abcd/par", universe([]byte("abcd"), 2)[:18], par, 0})
		}
		for _, e := range exs {
			total := uint64(1) << uint(len(e.u))
			const chunk = 2048
			for lo := uint64(0); lo < total; lo += chunk {
				hi := lo + chunk
				if hi > total {
					hi = total
				}
				add(fmt.Sprintf("exhaustive/%s/%d", e.name, lo), func(c *Ctx) {
					for m := lo; m < hi; m++ {
						f(c, subsetLex(e.u, m, e.vals))
					}
					c.Obs("exhaustive subsets", int(hi-lo))
				})
			}
		}
	}
	return out
}

var giantLengths = []int{10000, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072}

// giantLex has a few keys of about n bytes: alone in their tails, equal in
// their tails, and prefixes of each other.
func giantLex(r *rand.Rand, n int) *Lex {
	s := randStr(r, allBytes, n)
	ks := []string{s, s[:n-1], s[:n/2], s[:min(n, 255)], "k"}
	if r.Intn(2) == 0 { // another head before the same tail
		ks = append(ks, randStr(r, allBytes, 2)+s[n-300:])
	}
	ks = append(ks, s[:n/3]+randStr(r, allBytes, 3))
	if r.Intn(2) == 0 {
		ks = append(ks, s+"\x01", s[:n-1]+"\xff\x01")
	}
	l := &Lex{Spec: fmt.Sprintf("giant %d", n), Keys: dedup(ks)}
	for range l.Keys {
		l.Vals = append(l.Vals, edgeVals[r.Intn(len(edgeVals))])
	}
	return l
}

func (l *Lex) Longest() (m int) {
	for _, k := range l.Keys {
		m = max(m, len(k))
	}
	return
}

func specialLexes() []*Lex {
	var out []*Lex
	add := func(name string, kv ...interface{}) {
		l := &Lex{Spec: name}
		for i := 0; i < len(kv); i += 2 {
			l.Keys = append(l.Keys, kv[i].(string))
			l.Vals = append(l.Vals, int32(kv[i+1].(int)))
		}
		out = append(out, l)
	}
	add("empty")
	for _, v := range []int{0, 1, 255, 256, 0x161, 1 << 30, 0x7fffffff} {
		add("empty key", "", v)
		add("empty key and a", "", v, "a", v)
		add("empty key and a, ab", "", 3, "a", v, "ab", 0)
		add("a", "a", v)
		add("a, ab", "a", v, "ab", 7)
	}
	add("all equal tails", "aaa", 1, "baa", 1, "caa", 1)
	add("sample", "a", 1, "an", 0, "and", 2, "appear", 1, "apple", 1, "bin", 2, "binary", 1, "bind", 0, "binder", 2, "binding", 1, "blind", 0, "can", 0, "cancer", 1, "cat", 2)
	// one very long key, and a chain of all its prefixes
	long := bytes.Repeat([]byte("xyz\x01\xff"), 4000)
	out = append(out, &Lex{"20000 bytes", []string{string(long)}, []int32{9}})
	l := &Lex{Spec: "all prefixes"}
	for i := 0; i <= 700; i++ {
		l.Keys = append(l.Keys, string(long[:i]))
		l.Vals = append(l.Vals, int32(700-i))
	}
	out = append(out, l)
	// every label below one node
	l = &Lex{Spec: "255 children"}
	for b := 1; b < 256; b++ {
		l.Keys = append(l.Keys, string([]byte{byte(b)}))
		l.Vals = append(l.Vals, int32(b))
	}
	out = append(out, l)
	l = &Lex{Spec: "255 children and the empty key"}
	l.Keys = append(l.Keys, "")
	l.Vals = append(l.Vals, 77)
	for b := 1; b < 256; b++ {
		l.Keys = append(l.Keys, string([]byte{byte(b)}))
		l.Vals = append(l.Vals, int32(256-b))
	}
	out = append(out, l)
	// states of 253 to 256 transitions reached from several places
	for _, n := range []int{253, 254, 255} {
		for _, ends := range []bool{false, true} {
			l = &Lex{Spec: fmt.Sprintf("a shared state of %d children, a key ends there: %v", n, ends)}
			for _, p := range []string{"a", "b", "cc", "d"} {
				if ends {
					l.Keys = append(l.Keys, p)
				}
				for b := 256 - n; b < 256; b++ {
					l.Keys = append(l.Keys, p+string([]byte{byte(b)}))
				}
			}
			l.Vals = make([]int32, len(l.Keys))
			out = append(out, l)
		}
	}
	return out
}
