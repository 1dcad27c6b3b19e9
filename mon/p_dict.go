package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/deNULL/dawg"
)

var quickDict = Plan{Ladder: 13, Exhaustive: true, Small: 40, Mid: 4, Large: 19, Big: []int{6, 0, 1, 2, 3, 4}, MidMax: 3000, LargeN: 30000}
var deepDict = Plan{Ladder: 16, Exhaustive: true, Small: 1500, Mid: 60, Large: 200, Big: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, MidMax: 6000, LargeN: 80000}

const ruleLex = "key sets: every subset of small string universes, random key sets from 17 families (tiny alphabets, all bytes, fan-out 255, nested prefixes, prefix x suffix products, long keys, text, ...) with 12 value patterns, from 0 to 500,000 keys, up to 2.7 million array units; non-trivial: at least 2 keys; distinct: by hash of all keys and values"

func init() {
	register(&Prop{ID: "C01", Level: "exploration", Rule: ruleLex,
		Cases: func(t string) []Case { return lexCases(t, scale(t, quickDict, deepDict), checkC01) },
		MinObserved: map[string]int64{"present lookups": 100000, "absent lookups": 1000000, "dictionaries over 2^21 units": 1,
			"dictionaries over 16 blocks": 10, "merging states": 1000}})
	register(&Prop{ID: "C03", Level: "exploration", Rule: ruleLex,
		Cases: func(t string) []Case { return lexCases(t, scale(t, quickDict, deepDict), checkC03) },
		MinObserved: map[string]int64{"successful steps": 100000, "refused steps": 10000000, "dictionaries over 2^21 units": 1,
			"strings followed": 100000, "strings stopped early": 50000}})
}

// absentQueries yields byte strings near the keys; most of them are absent.
func nearQuery(r *rand.Rand, l *Lex) string {
	if len(l.Keys) == 0 || r.Intn(20) == 0 {
		b := make([]byte, r.Intn(6))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	}
	k := []byte(l.Keys[r.Intn(len(l.Keys))])
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		switch r.Intn(9) {
		case 0:
			k = append(k, byte(r.Intn(256)))
		case 1:
			k = append(k, 0)
		case 2:
			if len(k) > 0 {
				k = k[:len(k)-1]
			}
		case 3:
			if len(k) > 0 {
				k[r.Intn(len(k))] = byte(r.Intn(256))
			}
		case 4:
			if len(k) > 0 {
				k = k[:r.Intn(len(k))]
			}
		case 5:
			if len(k) > 0 {
				j := r.Intn(len(k))
				k = append(k[:j], k[j+1:]...)
			}
		case 6:
			o := l.Keys[r.Intn(len(l.Keys))]
			if len(o) > 0 {
				k = append(k, o[r.Intn(len(o)):]...)
			}
		case 7:
			if len(k) > 0 {
				k[len(k)-1] ^= 1 << uint(r.Intn(8))
			}
		case 8:
			if len(k) > 0 {
				j := r.Intn(len(k))
				k[j] = 0
			}
		}
	}
	return string(k)
}

const sentinel = int32(-123456789)

// lookupAll checks the six lookup forms for one string.
func lookupAll(c *Ctx, l *Lex, d *dawg.Dictionary, q string) {
	i := l.Find(q)
	want := int32(-1)
	if i >= 0 {
		want = l.Vals[i]
		c.Obs("present lookups", 1)
	} else {
		c.Obs("absent lookups", 1)
	}
	c.Eval(1)
	if got := d.ContainsString(q); got != (i >= 0) {
		c.Fail("contains(%s) = %v, stored: %v", show(q), got, i >= 0)
	}
	if got := d.FindString(q); got != want {
		c.Fail("find(%s) = %d, want %d", show(q), got, want)
	}
	v := sentinel
	got := d.FindStringValue(q, &v)
	if got != (i >= 0) || (i >= 0 && v != want) || (i < 0 && v != sentinel) {
		c.Fail("find(%s, &v) = %v, v = %d, want %d", show(q), got, v, want)
	}
	// Explicit length: with something behind it, and exactly.
	behind := string([]byte{byte(c.R.Intn(256)), byte(c.R.Intn(256))})
	qq := q + behind[:c.R.Intn(3)]
	if got := d.ContainsStringLen(qq, len(q)); got != (i >= 0) {
		c.Fail("containsLen(%s, %d) = %v, stored: %v", show(qq), len(q), got, i >= 0)
	}
	if got := d.FindStringLen(qq, len(q)); got != want {
		c.Fail("findLen(%s, %d) = %d, want %d", show(qq), len(q), got, want)
	}
	v = sentinel
	qq = q + behind[:c.R.Intn(3)]
	got = d.FindStringLenValue(qq, len(q), &v)
	if got != (i >= 0) || (i >= 0 && v != want) || (i < 0 && v != sentinel) {
		c.Fail("findLen(%s, &v) = %v, v = %d, want %d", show(q), got, v, want)
	}
}

func checkC01(c *Ctx, l *Lex) {
	b := build(c, l)
	extents(c, b.Dict)
	verifyLookups(c, l, b.Dict, 1)
}

// verifyLookups compares a dictionary with the model on all keys and many
// other strings. level 0 is a light version.
func verifyLookups(c *Ctx, l *Lex, d *dawg.Dictionary, level int) {
	full := len(l.Keys) <= 3000
	for i, k := range l.Keys {
		if full || i%7 == 0 {
			lookupAll(c, l, d, k)
			continue
		}
		c.Eval(1)
		c.Obs("present lookups", 1)
		if got := d.FindString(k); got != l.Vals[i] {
			c.Fail("find(%s) = %d, want %d", show(k), got, l.Vals[i])
		}
	}
	lookupAll(c, l, d, "")
	lookupAll(c, l, d, "\x00")
	lookupAll(c, l, d, "\x00\x00")
	if level == 0 {
		for i := 0; i < 50; i++ {
			lookupAll(c, l, d, nearQuery(c.R, l))
		}
		return
	}
	near := min(20000, 100+4*len(l.Keys))
	if len(l.Keys) < 20 {
		near = 30
	}
	for i := 0; i < near; i++ {
		lookupAll(c, l, d, nearQuery(c.R, l))
	}
	// Every label after prefixes of keys: the strings one step off the trie.
	budget := 400
	if c.Thorough() {
		budget = 3000
	}
	for _, n := range l.SampleNodes(c.R, budget) {
		p := l.Prefix(n)
		if len(p) > 2000 && c.R.Intn(10) > 0 {
			continue
		}
		buf := append([]byte(p), 0)
		var child [256]bool
		var kid [256]bool
		l.Children(n, func(lb byte, ch Node) { child[lb] = true; kid[lb] = l.Terminal(ch) })
		if got := d.ContainsString(p); got != l.Terminal(n) {
			c.Fail("contains(%s) = %v, stored: %v", show(p), got, l.Terminal(n))
		}
		for x := 0; x < 256; x++ {
			buf[len(p)] = byte(x)
			q := string(buf)
			if d.ContainsString(q) != kid[x] {
				c.Fail("contains(%s) = %v, stored: %v", show(q), !kid[x], kid[x])
			}
			if !child[x] && x%16 == c.R.Intn(16) {
				q += string([]byte{byte(c.R.Intn(256))})
				if d.FindString(q) != -1 {
					c.Fail("find(%s) = %d, but the key was never inserted", show(q), d.FindString(q))
				}
			}
		}
		c.Eval(256)
		c.Obs("absent lookups", 240)
	}
}

func checkC03(c *Ctx, l *Lex) {
	b := build(c, l)
	verifyNavigation(c, l, b.Dict, true)
}

func verifyNavigation(c *Ctx, l *Lex, d *dawg.Dictionary, deep bool) {
	// Walk the trie and the dictionary side by side, all labels at every node.
	budget := 60000
	if c.Thorough() {
		budget = 3000000
	}
	if !deep {
		budget = 2000
	}
	if len(l.Keys) > 2000 && !c.Thorough() {
		budget = 25000
	}
	nodes := 0
	var steps, refused int
	visit := func(n Node, idx uint32) {
		term := l.Terminal(n)
		if d.HasValue(idx) != term {
			c.Fail("node of %s: has value = %v, stored: %v", show(l.Prefix(n)), !term, term)
		}
		if term && d.Value(idx) != l.Vals[n.Lo] {
			c.Fail("node of %s: value %d, want %d", show(l.Prefix(n)), d.Value(idx), l.Vals[n.Lo])
		}
		var child [256]bool
		l.Children(n, func(lb byte, ch Node) { child[lb] = true })
		for x := 0; x < 256; x++ {
			to := idx
			ok := d.Follow(byte(x), &to)
			if ok != child[x] {
				c.Fail("from the node of %s, following %#02x: %v, want %v", show(l.Prefix(n)), x, ok, child[x])
			}
			if !ok {
				refused++
				if to != idx {
					c.Fail("from the node of %s, failing to follow %#02x moved the position", show(l.Prefix(n)), x)
				}
			} else {
				steps++
			}
		}
		nodes++
	}
	r := l.Root()
	var walk func(n Node, idx uint32)
	walk = func(n Node, idx uint32) {
		if nodes >= budget {
			return
		}
		visit(n, idx)
		l.Children(n, func(lb byte, ch Node) {
			to := idx
			if nodes >= budget {
				return
			}
			if !d.Follow(lb, &to) {
				c.Fail("from the node of %s, cannot follow %#02x", show(l.Prefix(n)), lb)
			}
			walk(ch, to)
		})
	}
	walk(r, d.Root())
	if nodes >= budget { // not everything reached: random paths through the rest
		for i := 0; i < budget/10; i++ {
			k := l.Keys[c.R.Intn(len(l.Keys))]
			if len(k) > 300 {
				continue
			}
			n, idx := r, d.Root()
			for {
				visit(n, idx)
				if n.Depth == len(k) {
					break
				}
				if !d.Follow(k[n.Depth], &idx) {
					c.Fail("from the node of %s, cannot follow %#02x", show(l.Prefix(n)), k[n.Depth])
				}
				lo, hi := l.Range(k[:n.Depth+1])
				n = Node{lo, hi, n.Depth + 1}
			}
		}
	}
	c.Eval(256 * nodes)
	c.Obs("nodes", nodes)
	c.Obs("successful steps", steps)
	c.Obs("refused steps", refused)

	// Strings followed from the root and from inner nodes.
	m := 2000
	if len(l.Keys) < 50 {
		m = 40
	}
	if !deep {
		m = 30
	}
	for i := 0; i < m; i++ {
		q := nearQuery(c.R, l)
		start := 0
		can := l.LongestPrefix(q)
		if c.R.Intn(2) == 0 && can > 0 {
			start = c.R.Intn(can + 1)
		}
		followCheck(c, l, d, q, start, can)
	}
}

// nodeIndex walks to the node of p byte by byte; p must be followable.
func nodeIndex(c *Ctx, d *dawg.Dictionary, p string) uint32 {
	idx := d.Root()
	for i := 0; i < len(p); i++ {
		if !d.Follow(p[i], &idx) {
			c.Fail("prefix %s of a stored key cannot be followed at byte %d", show(p), i)
		}
	}
	return idx
}

func followCheck(c *Ctx, l *Lex, d *dawg.Dictionary, q string, start, can int) {
	from := nodeIndex(c, d, q[:start])
	s := q[start:]
	wantOK := can == len(q)
	wantIdx := nodeIndex(c, d, q[:can])
	base := c.R.Intn(1000)
	tail := string([]byte{byte(c.R.Intn(256)), 'x'})[:c.R.Intn(3)]
	check := func(form string, ok bool, idx uint32, count int, counted bool) {
		if ok != wantOK {
			c.Fail("%s %s from the node of %s: %v, want %v", form, show(s), show(q[:start]), ok, wantOK)
		}
		if idx != wantIdx {
			c.Fail("%s %s from the node of %s: position is not the node of the longest prefix (%d bytes)", form, show(s), show(q[:start]), can-start)
		}
		if counted && count != base+can-start {
			c.Fail("%s %s from the node of %s: counted %d bytes, want %d", form, show(s), show(q[:start]), count-base, can-start)
		}
	}
	idx := from
	ok := d.FollowString(s, &idx)
	check("follow", ok, idx, 0, false)
	idx, n := from, base
	ok = d.FollowStringCount(s, &idx, &n)
	check("follow with count", ok, idx, n, true)
	idx = from
	ok = d.FollowStringLen(s+tail, len(s), &idx)
	check("follow with length", ok, idx, 0, false)
	idx, n = from, base
	ok = d.FollowStringLenCount(s+tail, len(s), &idx, &n)
	check("follow with length and count", ok, idx, n, true)
	c.Eval(4)
	c.Obs("strings followed", 1)
	if !wantOK {
		c.Obs("strings stopped early", 1)
	}
	if wantOK && start == 0 {
		if l.Find(q) >= 0 != d.HasValue(wantIdx) {
			c.Fail("node of %s: has value = %v", show(q), d.HasValue(wantIdx))
		}
	}
	_ = fmt.Sprint
}

// extents records how far apart the double array places parents and children.
func extents(c *Ctx, d *dawg.Dictionary) {
	if d.Size() < 1<<21 {
		return
	}
	var buf bytes.Buffer
	d.Write(&buf)
	units, _, err := parseUnits32(buf.Bytes())
	if err != nil {
		return
	}
	for _, u := range units {
		if u>>31 == 0 && u>>9&1 != 0 {
			c.Obs("units with extended offsets", 1)
			if u>>10<<8 == 1<<21 {
				c.Obs("offsets of exactly 2^21", 1)
			}
		}
	}
}
