package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C19", Level: "exploration", Rule: "sets of 0 to 20,000 texts in one to three scripts, nested prefixes, code points at window boundaries, stored under their UTF-C encodings; all texts, their prefixes at every code point and near misses queried; non-trivial: at least two texts; distinct: by hash of the set",
		Cases: casesC19, MinObserved: map[string]int64{"texts stored": 100000, "texts looked up": 300000, "texts absent": 100000, "similar texts looked up": 10000, "streamed lookups": 300000,
			"prefixes completed": 100000, "texts completed": 300000, "texts numbered": 100000}})
}

// walker follows the bytes of a streamed encoding through a dictionary.
type walker struct {
	d   *dawg.Dictionary
	idx uint32
}

func (w *walker) Follow(b byte) bool { return w.d.Follow(b, &w.idx) }

type textSet struct {
	texts map[string]int32
	sorts []string // by text
	lex   *Lex     // by encoding
	back  map[string]string
}

func makeTexts(c *Ctx, n int) *textSet {
	t := &textSet{texts: map[string]int32{}, back: map[string]string{}}
	mode := c.R.Intn(4)
	pool := []string{}
	for len(t.texts) < n {
		var s string
		switch {
		case len(pool) > 0 && c.R.Intn(8) == 0:
			s = similar(c.R, pool[c.R.Intn(len(pool))])
		case mode == 0 || len(pool) == 0 || c.R.Intn(4) == 0:
			s = hostileText(c.R, c.R.Intn(8))
		case mode == 1: // extend an earlier one
			s = pool[c.R.Intn(len(pool))] + hostileText(c.R, 1+c.R.Intn(2))
			if len(s) > 200 {
				s = hostileText(c.R, c.R.Intn(3))
			}
		case mode == 2: // change the last code point a little
			rs := []rune(pool[c.R.Intn(len(pool))])
			if len(rs) > 0 {
				if d := rs[len(rs)-1] + rune(c.R.Intn(300)-150); validRune(d) {
					rs[len(rs)-1] = d
				}
			}
			s = string(rs)
			if c.R.Intn(20) == 0 {
				s = hostileText(c.R, 1+c.R.Intn(4))
			}
		default:
			s = randText(c.R, 1+c.R.Intn(6))
		}
		if _, ok := t.texts[s]; ok {
			if c.R.Intn(50) == 0 {
				n--
			}
			continue
		}
		t.texts[s] = edgeOrSmall(c)
		pool = append(pool, s)
	}
	var encs []string
	for s, v := range t.texts {
		t.sorts = append(t.sorts, s)
		e := string(dawg.UtfcEncode(s))
		if o, ok := t.back[e]; ok {
			c.Fail("the texts %+q and %+q have the same encoding % x", o, s, e)
		}
		t.back[e] = s
		encs = append(encs, e)
		_ = v
	}
	sort.Strings(t.sorts)
	sort.Strings(encs)
	t.lex = &Lex{Spec: fmt.Sprintf("%d texts", n), Keys: encs}
	for _, e := range encs {
		t.lex.Vals = append(t.lex.Vals, t.texts[t.back[e]])
	}
	return t
}

func edgeOrSmall(c *Ctx) int32 {
	if c.R.Intn(3) == 0 {
		return edgeVals[c.R.Intn(len(edgeVals))]
	}
	return int32(c.R.Intn(1000))
}

// under is the set of texts that begin with p.
func (t *textSet) under(p string) []string {
	i := sort.SearchStrings(t.sorts, p)
	j := i
	for j < len(t.sorts) && strings.HasPrefix(t.sorts[j], p) {
		j++
	}
	return t.sorts[i:j]
}

func casesC19(tier string) []Case {
	var out []Case
	big, mid, small := 8, 80, 80
	if tier == "thorough" {
		big, mid, small = 60, 1500, 2000
	}
	for i := 0; i < big; i++ {
		out = append(out, Case{fmt.Sprintf("large/%d", i), func(c *Ctx) { checkC19(c, 5000+c.R.Intn(15000)) }})
	}
	for i := 0; i < mid; i++ {
		out = append(out, Case{fmt.Sprintf("mid/%d", i), func(c *Ctx) { checkC19(c, 100+c.R.Intn(1500)) }})
	}
	for i := 0; i < small; i++ {
		out = append(out, Case{fmt.Sprintf("small/%d", i), func(c *Ctx) {
			for j := 0; j < 40; j++ {
				checkC19(c, c.R.Intn(40))
			}
		}})
	}
	return out
}

func checkC19(c *Ctx, n int) {
	c.Detail(nil)
	t := makeTexts(c, n)
	n = len(t.texts)
	b := build(c, t.lex)
	c.note = func() string { return "a set of texts" }
	c.Detail(func() interface{} {
		s := t.sorts
		if len(s) > 300 {
			s = s[:300]
		}
		var q []string
		for _, x := range s {
			q = append(q, fmt.Sprintf("%+q=%d", x, t.texts[x]))
		}
		return q
	})
	if len(c.samples) == 1 && n > 2 { // replace the bytes by the texts
		c.samples[0] = fmt.Sprintf("%+q", t.sorts[:min(5, n)])
	}
	c.Obs("texts stored", n)
	g, rg := b.guide(c), b.ranked(c)
	ix := dawg.NewIndexer(b.Dict, g, dawg.BuildIndex(b.Dict, g))
	rix := dawg.NewIndexer(b.Dict, rg, dawg.BuildIndex(b.Dict, rg))

	lookup := func(s string) {
		v, want := t.texts[s]
		if !want {
			v = -1
			c.Obs("texts absent", 1)
		}
		enc := dawg.UtfcEncode(s)
		if got := b.Dict.FindString(string(enc)); got != v {
			c.Fail("looking up %+q: %d, want %d", s, got, v)
		}
		if b.Dict.ContainsString(string(enc)) != want {
			c.Fail("contains %+q: %v", s, !want)
		}
		w := &walker{b.Dict, b.Dict.Root()}
		ok := dawg.UtfcFollow(s, w)
		if pre := s == "" || len(t.under(s)) > 0; ok != pre {
			c.Fail("streaming %+q through the dictionary: %v, some text begins with it: %v", s, ok, pre)
		}
		if ok && b.Dict.HasValue(w.idx) != want || ok && want && b.Dict.Value(w.idx) != v {
			c.Fail("streaming %+q through the dictionary: found %v, want %v", s, b.Dict.HasValue(w.idx), want)
		}
		if !ok && want {
			c.Fail("streaming %+q through the dictionary fails, but it is stored", s)
		}
		c.Obs("texts looked up", 1)
		c.Obs("streamed lookups", 1)
		c.Eval(3)
	}
	stepped := 1
	if n > 3000 {
		stepped = n / 3000
	}
	for i := 0; i < n; i += stepped {
		s := t.sorts[i]
		lookup(s)
		rs := []rune(s)
		for k := range rs {
			if len(rs) < 10 || c.R.Intn(5) == 0 {
				lookup(string(rs[:k]))
			}
		}
		// near misses
		if x := similar(c.R, s); x != s {
			lookup(x)
			c.Obs("similar texts looked up", 1)
		}
		lookup(s + string(randRune(c.R)))
		if len(rs) > 0 {
			k := c.R.Intn(len(rs))
			rs[k] = randRune(c.R)
			lookup(string(rs))
			if d := []rune(s)[k] + rune([]int{1, -1, 0x40, -0x40, 0x80, -0x80, 0x8000, -0x8000}[c.R.Intn(8)]); validRune(d) {
				rs[k] = d
				lookup(string(rs))
			}
		}
	}
	for i := 0; i < 10; i++ {
		lookup(hostileText(c.R, c.R.Intn(4)))
	}

	// completion from prefixes
	comp := []completer{dawg.NewCompleter(b.Dict, g), dawg.NewRankedCompleter(b.Dict, rg)}
	complete := func(p string) {
		want := t.under(p)
		if len(want) > 3000 && c.R.Intn(10) > 0 {
			return
		}
		enc := dawg.UtfcEncode(p)
		for which, cp := range comp {
			idx := b.Dict.Root()
			got := map[string]bool{}
			prev := int32(-1)
			if b.Dict.FollowString(string(enc), &idx) {
				mode := c.R.Intn(2)
				if mode == 0 {
					cp.StartString(idx, string(enc))
				} else {
					cp.Start(idx)
				}
				for k := 0; cp.Next(); k++ {
					key := cp.Key()
					if mode == 1 {
						key = string(enc) + key
					}
					s := dawg.UtfcDecode([]byte(key))
					v, ok := t.texts[s]
					if !ok || !strings.HasPrefix(s, p) {
						c.Fail("completing %+q yields %+q, which is no stored text with that prefix", p, s)
					}
					if v != cp.Value() {
						c.Fail("completing %+q: value of %+q is %d, want %d", p, s, cp.Value(), v)
					}
					if got[s] {
						c.Fail("completing %+q yields %+q twice", p, s)
					}
					if which == 1 && k > 0 && v > prev {
						c.Fail("completing %+q: value %d after %d", p, v, prev)
					}
					prev = v
					got[s] = true
					c.Obs("texts completed", 1)
				}
			}
			if len(got) != len(want) {
				for _, s := range want {
					if !got[s] {
						c.Fail("completing %+q yields %d of %d texts, missing %+q", p, len(got), len(want), s)
					}
				}
			}
			c.Obs("prefixes completed", 1)
			c.Eval(1)
		}
	}
	complete("")
	m := 400
	if n < 50 {
		m = 25
	}
	for i := 0; i < m; i++ {
		if n == 0 || c.R.Intn(10) == 0 {
			complete(hostileText(c.R, c.R.Intn(3)))
			continue
		}
		rs := []rune(t.sorts[c.R.Intn(n)])
		complete(string(rs[:c.R.Intn(len(rs)+1)]))
	}
	// numbers
	if n == 0 {
		return
	}
	for i := 0; i < min(n, 2000); i++ {
		j := i
		if n > 2000 {
			j = c.R.Intn(n)
		}
		s := dawg.UtfcDecode(ix.IndexToBytes(uint32(j)))
		if want := t.back[t.lex.Keys[j]]; s != want {
			c.Fail("number %d is %+q, want %+q", j, s, want)
		}
		if num := ix.BytesToIndex(dawg.UtfcEncode(s)); num != uint32(j) {
			c.Fail("number of %+q is %d, want %d", s, num, j)
		}
		rs := dawg.UtfcDecode(rix.IndexToBytes(uint32(j)))
		if _, ok := t.texts[rs]; !ok || rix.StringToIndex(string(dawg.UtfcEncode(rs))) != uint32(j) {
			c.Fail("number %d over a ranked guide is %+q, whose number is %d", j, rs, rix.StringToIndex(string(dawg.UtfcEncode(rs))))
		}
		c.Obs("texts numbered", 1)
		c.Eval(3)
	}
	_ = bytes.Equal
}
