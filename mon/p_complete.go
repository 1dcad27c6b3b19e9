package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/deNULL/dawg"
)

var quickComp = Plan{Ladder: 13, Exhaustive: true, Small: 60, Mid: 5, Large: 19, Big: []int{0, 1, 2, 3}, MidMax: 2500, LargeN: 12000}
var deepComp = Plan{Ladder: 16, Exhaustive: true, Small: 1500, Mid: 60, Large: 150, Big: []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 11}, MidMax: 5000, LargeN: 60000}

func init() {
	register(&Prop{ID: "C04", Level: "exploration", Rule: ruleLex + "; on each of them completers run through histories of starts at prefixes (all prefixes of small sets), partial enumerations and restarts",
		Cases: func(t string) []Case {
			return append(lexCases(t, scale(t, quickComp, deepComp), checkC04), append(graphCases(t, "ordered"), many(t, "endurance", 8, 30, enduranceCompletion(false))...)...)
		},
		MinObserved: map[string]int64{"keys yielded": 500000, "enumerations finished": 50000, "restarts in the middle": 10000,
			"calls after the end": 50000, "interleaved steps": 100000, "dictionaries over 2^21 units": 1}})
	register(&Prop{ID: "C05", Level: "exploration", Rule: ruleLex + "; on each of them ranked completers run through histories of starts at prefixes, partial enumerations and restarts; also guides with other value orders",
		Cases: func(t string) []Case {
			return append(append(append(queueCases(t), graphCases(t, "ranked")...), many(t, "endurance", 8, 30, enduranceCompletion(true))...), lexCases(t, scale(t, quickComp, deepComp), checkC05)...)
		},
		MinObserved: map[string]int64{"keys yielded": 500000, "enumerations finished": 50000, "restarts in the middle": 10000,
			"calls after the end": 50000, "interleaved steps": 100000, "enumerations with another value order": 5000, "strictly falling values": 10000, "candidates waiting at once, at least": 60000, "dictionaries over 2^21 units": 1}})
}

type completer interface {
	Start(uint32)
	StartString(uint32, string)
	StartStringLen(uint32, string, int)
	Next() bool
	Key() string
	Value() int32
	Length() int
}

// prefixesOf chooses start prefixes of a key set.
func prefixesOf(c *Ctx, l *Lex, max int) []Node {
	if len(l.Keys) == 0 {
		return []Node{{0, 0, 0}}
	}
	ns := l.SampleNodes(c.R, max)
	c.R.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	return ns
}

// startAt starts a completer at the node of p with one of the three forms and
// returns the start string the keys must begin with.
func startAt(c *Ctx, cp completer, d *dawg.Dictionary, p string) string {
	idx := nodeIndex(c, d, p)
	switch c.R.Intn(5) {
	case 0:
		cp.Start(idx)
		return ""
	case 1: // any start string
		s := randStr(c.R, allBytes, c.R.Intn(6))
		if c.R.Intn(3) == 0 {
			s = "\x00" + s
		}
		if c.R.Intn(40) == 0 {
			s = randStr(c.R, allBytes, 200+c.R.Intn(3000))
		}
		cp.StartString(idx, s)
		return s
	case 2: // explicit length
		s := p + "tail"
		n := c.R.Intn(len(s) + 1)
		cp.StartStringLen(idx, s, n)
		return s[:n]
	default:
		cp.StartString(idx, p)
		return p
	}
}

// drain enumerates up to limit keys below node n (limit<0: to the end) and
// checks them against the model. ordered: ascending keys; otherwise any order
// with falling values if ranked.
func drain(c *Ctx, cp completer, l *Lex, n Node, start string, limit int, ordered, falling bool) {
	p := l.Prefix(n)
	want := n.Hi - n.Lo
	var got []string
	var vals []int32
	prev := int32(-1)
	i := 0
	for ; ; i++ {
		if limit >= 0 && i >= limit {
			c.Obs("restarts in the middle", 1)
			if i < want {
				checkSubset(c, l, n, start, got, vals, false)
			}
			return
		}
		ok := cp.Next()
		c.Eval(1)
		if !ok {
			break
		}
		if i >= want {
			c.Fail("completing %s: more than the %d keys with that prefix, the next is %s = %d", show(p), want, show(cp.Key()), cp.Value())
		}
		k, v := cp.Key(), cp.Value()
		if cp.Length() != len(k) {
			c.Fail("completing %s: key %s has length %d, reported %d", show(p), show(k), len(k), cp.Length())
		}
		c.Obs("keys yielded", 1)
		if ordered {
			if wk := start + l.Keys[n.Lo+i][n.Depth:]; k != wk || v != l.Vals[n.Lo+i] {
				c.Fail("completing %s (start string %s), key %d: %s = %d, want %s = %d", show(p), show(start), i, show(k), v, show(wk), l.Vals[n.Lo+i])
			}
		} else {
			if falling && i > 0 {
				if v > prev {
					c.Fail("completing %s: value %d of %s comes after the value %d", show(p), v, show(k), prev)
				}
				if v < prev {
					c.Obs("strictly falling values", 1)
				}
			}
			prev = v
			got = append(got, k)
			vals = append(vals, v)
		}
	}
	if ordered {
		if i < want {
			c.Fail("completing %s: ended after %d of %d keys, missing %s", show(p), i, want, show(l.Keys[n.Lo+i]))
		}
	} else {
		checkSubset(c, l, n, start, got, vals, true)
	}
	c.Obs("enumerations finished", 1)
	for i := 0; i < 1+c.R.Intn(3); i++ {
		if cp.Next() {
			c.Fail("completing %s: after the end comes %s", show(p), show(cp.Key()))
		}
		c.Obs("calls after the end", 1)
	}
}

// checkSubset compares unordered results with the model.
func checkSubset(c *Ctx, l *Lex, n Node, start string, got []string, vals []int32, all bool) {
	if got == nil && !all {
		return
	}
	p := l.Prefix(n)
	seen := make([]bool, n.Hi-n.Lo)
	for i, k := range got {
		if len(k) < len(start) || k[:len(start)] != start {
			c.Fail("completing %s: key %s does not begin with the start string %s", show(p), show(k), show(start))
		}
		full := p + k[len(start):]
		j := n.Lo + sort.SearchStrings(l.Keys[n.Lo:n.Hi], full)
		if j >= n.Hi || l.Keys[j] != full {
			c.Fail("completing %s: %s is no key with that prefix", show(p), show(full))
		}
		if vals[i] != l.Vals[j] {
			c.Fail("completing %s: value of %s is %d, want %d", show(p), show(full), vals[i], l.Vals[j])
		}
		if seen[j-n.Lo] {
			c.Fail("completing %s: %s comes twice", show(p), show(full))
		}
		seen[j-n.Lo] = true
	}
	if all {
		for i, s := range seen {
			if !s {
				c.Fail("completing %s: %s is missing", show(p), show(l.Keys[n.Lo+i]))
			}
		}
	}
}

// completionHistory runs one or several completers through starts, partial
// enumerations and restarts.
func completionHistory(c *Ctx, l *Lex, d *dawg.Dictionary, fresh func() completer, nodes int, ordered, falling bool) {
	cp := fresh()
	work := 0
	limit := 60000
	if c.Thorough() {
		limit = 2000000
	}
	for _, n := range prefixesOf(c, l, nodes) {
		if c.R.Intn(10) == 0 {
			cp = fresh()
		}
		full := -1
		if work > limit || n.Hi-n.Lo > 100000 { // huge enumerations: only the beginning
			full = c.R.Intn(200)
			if n.Hi-n.Lo > 100000 && work <= limit && c.R.Intn(2) == 0 {
				full = -1
			}
		}
		if c.R.Intn(4) == 0 { // abandon one enumeration in the middle
			m := n
			if c.R.Intn(2) == 0 && len(l.Keys) > 0 {
				k := l.Keys[c.R.Intn(len(l.Keys))]
				dd := c.R.Intn(len(k) + 1)
				lo, hi := l.Range(k[:dd])
				m = Node{lo, hi, dd}
			}
			s := startAt(c, cp, d, l.Prefix(m))
			drain(c, cp, l, m, s, c.R.Intn(min(m.Hi-m.Lo, 300)+1), ordered, falling)
		}
		s := startAt(c, cp, d, l.Prefix(n))
		drain(c, cp, l, n, s, full, ordered, falling)
		work += n.Hi - n.Lo
	}
}

// A cursor is a completer together with what it must yield next.
type cursor struct {
	cp      completer
	d       *dawg.Dictionary
	l       *Lex
	n       Node
	start   string
	i       int
	seen    map[string]bool
	prev    int32
	ordered bool
	falling bool
	begun   bool
}

func (cu *cursor) restart(c *Ctx, n Node) {
	cu.n, cu.i, cu.prev, cu.begun = n, 0, -1, true
	cu.seen = map[string]bool{}
	cu.start = startAt(c, cu.cp, cu.d, cu.l.Prefix(n))
}

func (cu *cursor) randomNode(c *Ctx) Node {
	N := len(cu.l.Keys)
	if N == 0 || c.R.Intn(6) == 0 {
		return Node{0, N, 0}
	}
	k := cu.l.Keys[c.R.Intn(N)]
	d := c.R.Intn(len(k) + 1)
	if c.R.Intn(3) == 0 {
		d = len(k)
	}
	lo, hi := cu.l.Range(k[:d])
	return Node{lo, hi, d}
}

// step asks for one key and checks it.
func (cu *cursor) step(c *Ctx) bool {
	p := cu.l.Prefix(cu.n)
	want := cu.n.Hi - cu.n.Lo
	ok := cu.cp.Next()
	c.Eval(1)
	if ok != (cu.i < want) {
		c.Fail("completing %s beside other completions: after %d of %d keys there is another one: %v", show(p), cu.i, want, ok)
	}
	if !ok {
		return false
	}
	k, v := cu.cp.Key(), cu.cp.Value()
	if cu.cp.Length() != len(k) {
		c.Fail("completing %s beside other completions: key %s has length %d, reported %d", show(p), show(k), len(k), cu.cp.Length())
	}
	j := cu.n.Lo + cu.i
	if !cu.ordered {
		if len(k) < len(cu.start) || k[:len(cu.start)] != cu.start || cu.seen[k] {
			c.Fail("completing %s (start string %s) beside other completions: %s does not begin so or comes twice", show(p), show(cu.start), show(k))
		}
		cu.seen[k] = true
		j = cu.l.Find(p + k[len(cu.start):])
		if j < 0 {
			c.Fail("completing %s beside other completions: %s is no key", show(p), show(p+k[len(cu.start):]))
		}
		if cu.falling && cu.i > 0 && v > cu.prev {
			c.Fail("completing %s beside other completions: value %d of %s comes after %d", show(p), v, show(k), cu.prev)
		}
		cu.prev = v
	}
	if wk := cu.start + cu.l.Keys[j][cu.n.Depth:]; k != wk || v != cu.l.Vals[j] {
		c.Fail("completing %s (start string %s) beside other completions, key %d: %s = %d, want %s = %d", show(p), show(cu.start), cu.i, show(k), v, show(wk), cu.l.Vals[j])
	}
	cu.i++
	return true
}

// interleaved runs several completers alternately, with restarts during and
// after their enumerations.
func interleaved(c *Ctx, fresh func() *cursor, steps int) {
	cus := make([]*cursor, 2+c.R.Intn(4))
	for s := 0; s < steps; s++ {
		i := c.R.Intn(len(cus))
		cu := cus[i]
		if cu == nil || c.R.Intn(60) == 0 {
			cu = fresh()
			cus[i] = cu
		}
		if !cu.begun || c.R.Intn(25) == 0 {
			cu.restart(c, cu.randomNode(c))
		}
		for t := 0; t <= c.R.Intn(3); t++ {
			if !cu.step(c) {
				if c.R.Intn(2) == 0 {
					cu.restart(c, cu.randomNode(c))
				}
				break
			}
		}
		c.Obs("interleaved steps", 1)
	}
}

func compNodes(c *Ctx, l *Lex) int {
	if len(l.Keys) > 100000 {
		return 60
	}
	if c.Thorough() {
		return 3000
	}
	return 300
}

func checkC04(c *Ctx, l *Lex) {
	b := build(c, l)
	g := b.guide(c)
	completionHistory(c, l, b.Dict, func() completer { return dawg.NewCompleter(b.Dict, g) }, compNodes(c, l), true, false)
	if c.R.Intn(4) == 0 || len(l.Keys) > 60 {
		interleaved(c, func() *cursor { return &cursor{cp: dawg.NewCompleter(b.Dict, g), d: b.Dict, l: l, ordered: true} }, 60+min(len(l.Keys), 300))
	}
}

func checkC05(c *Ctx, l *Lex) {
	b := build(c, l)
	g := b.ranked(c)
	completionHistory(c, l, b.Dict, func() completer { return dawg.NewRankedCompleter(b.Dict, g) }, compNodes(c, l), false, true)
	if c.R.Intn(4) == 0 || len(l.Keys) > 60 {
		interleaved(c, func() *cursor { return &cursor{cp: dawg.NewRankedCompleter(b.Dict, g), d: b.Dict, l: l, falling: true} }, 60+min(len(l.Keys), 300))
	}
	if len(l.Keys) < 100000 && c.R.Intn(3) == 0 {
		cmp, _ := orderFunc(c)
		og := dawg.BuildRankedGuideCmp(b.Dawg, b.Dict, cmp)
		if og == nil {
			c.Fail("ranked guide with another value order not built")
		}
		before := c.obs["enumerations finished"]
		completionHistory(c, l, b.Dict, func() completer { return dawg.NewRankedCompleter(b.Dict, og) }, compNodes(c, l)/4+1, false, false)
		c.Obs("enumerations with another value order", int(c.obs["enumerations finished"]-before))
	}
}

// queueCases: complete enumerations in which very many subtrees wait for their
// turn. Along the way of the model, a subtree waits if it is not begun and its
// next better sibling is.
func queueCases(tier string) []Case {
	depths := []int{18}
	if tier == "thorough" {
		depths = []int{14, 16, 17, 18, 19, 20, 21}
	}
	var out []Case
	for _, d := range depths {
		d := d + 1
		out = append(out, Case{fmt.Sprintf("tree/%d", d), func(c *Ctx) {
			l := &Lex{Spec: fmt.Sprintf("all strings of length up to %d over two letters, random values", d)}
			var rec func(k []byte)
			rec = func(k []byte) {
				l.Keys = append(l.Keys, string(k))
				if len(k) < d {
					rec(append(k, 'a'))
					rec(append(k, 'b'))
				}
			}
			rec(nil)
			l.Vals = genVals(c.R, "rand", l.Keys)
			b := build(c, l)
			cp := dawg.NewRankedCompleter(b.Dict, b.ranked(c))
			cp.StartString(b.Dict.Root(), "")
			drain(c, cp, l, l.Root(), "", -1, false, true)
			c.Obs("nodes of one ranked enumeration, at least", len(l.Keys))
			c.Seen(l.Sig())
		}})
	}
	for _, d := range depths {
		out = append(out, Case{fmt.Sprintf("queue/%d", d), func(c *Ctx) {
			a := randAlphabet(c.R, 2)
			for a[0] == a[1] {
				a = randAlphabet(c.R, 2)
			}
			if a[0] > a[1] {
				a[0], a[1] = a[1], a[0]
			}
			l := &Lex{Spec: fmt.Sprintf("all strings of length %d over two letters, random values", d)}
			k := make([]byte, d)
			for i := 0; i < 1<<uint(d); i++ {
				for j := range k {
					k[j] = a[i>>uint(d-1-j)&1]
				}
				l.Keys = append(l.Keys, string(k))
			}
			l.Vals = genVals(c.R, "rand", l.Keys)
			b := build(c, l)
			cp := dawg.NewRankedCompleter(b.Dict, b.ranked(c))
			cp.StartString(b.Dict.Root(), "")
			drain(c, cp, l, l.Root(), "", -1, false, true)
			// how many subtrees had a begun sibling at the same time
			order := make([]int, len(l.Keys))
			for i := range order {
				order[i] = i
			}
			sort.Slice(order, func(i, j int) bool { return l.Vals[order[i]] > l.Vals[order[j]] })
			begun := make([]bool, 2<<uint(d))
			waiting, most := 0, 0
			for _, i := range order {
				for n := i + 1<<uint(d); n > 1 && !begun[n]; n /= 2 {
					begun[n] = true
					if begun[n^1] {
						waiting--
					} else {
						waiting++
					}
				}
				most = max(most, waiting)
			}
			c.Obs("candidates waiting at once, at least", most)
			c.Seen(l.Sig())
		}})
	}
	return out
}

// orderFunc is a strict weak order on values other than "less".
func orderFunc(c *Ctx) (func(a, b int32) bool, string) {
	switch c.R.Intn(5) {
	case 4: // another guide is built inside the comparison
		d := dawg.NewDawg()
		buildDawg(c, dawg.NewDawgBuilder(), randLex(c.R, 1+c.R.Intn(8)), d)
		dict := d.Build()
		want := written(c, dawg.BuildRankedGuide(d, dict))
		n := 0
		return func(a, b int32) bool {
			if n++; n < 4 || n%50 == 0 {
				if g := dawg.BuildRankedGuide(d, dict); g == nil || !bytes.Equal(written(c, g), want) {
					c.Fail("a ranked guide built while another is built differs")
				}
			}
			return a > b
		}, "greater, with another guide built inside the comparison"
	case 0:
		return func(a, b int32) bool { return a > b }, "greater"
	case 1:
		return func(a, b int32) bool { return a&0xff < b&0xff }, "low byte"
	case 2:
		return func(a, b int32) bool { return false }, "all equal"
	default:
		m := uint32(c.R.Int63()) | 1
		return func(a, b int32) bool { return uint32(a)*m < uint32(b)*m }, "scrambled"
	}
}
