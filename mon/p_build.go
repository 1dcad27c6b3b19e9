package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C02", Level: "exploration",
		Rule: "insertion histories: accepted keys of a random key set with refused insertions (smaller keys, NUL bytes, negative values, in all positions of the order) and repeated last keys in between; compared with the history of the accepted insertions alone; non-trivial: at least one refusal and two accepted keys; distinct: by hash of the history",
		Cases: func(t string) []Case {
			p := scale(t, Plan{Ladder: 13, Small: 60, Mid: 5, Large: 19, MidMax: 2000, LargeN: 20000}, Plan{Ladder: 16, Small: 1500, Mid: 60, Large: 60, MidMax: 4000, LargeN: 50000})
			cs := lexCases(t, p, checkC02)
			cs = append(cs, Case{"exhaustive/orders", exhaustiveOrders})
			cs = append(cs, many(t, "endurance", 2, 10, enduranceC02)...)
			return cs
		},
		MinObserved: map[string]int64{"refused: out of order": 10000, "refused: NUL byte": 5000, "refused: negative value": 5000, "accepted": 50000, "replaced": 3000}})
	register(&Prop{ID: "C10", Level: "exploration", Rule: ruleLex + "; the reference automaton is built by hash-consing the trie bottom-up",
		Cases: func(t string) []Case {
			p := scale(t, Plan{Ladder: 13, Exhaustive: true, Small: 40, Mid: 4, Large: 19, Big: []int{1}, MidMax: 3000, LargeN: 15000}, Plan{Ladder: 16, Exhaustive: true, Small: 1000, Mid: 50, Large: 60, Big: []int{0, 1}, MidMax: 6000, LargeN: 60000})
			return lexCases(t, p, checkC10)
		},
		MinObserved: map[string]int64{"states": 100000, "merged transitions": 100000, "merging states": 10000, "keys walked": 100000, "table sizes": 1000}})
	register(&Prop{ID: "C11", Level: "exploration",
		Rule: "build histories: several key sets built through one builder, one automaton object, fresh objects and various initial table sizes, some builds abandoned empty; compared bytewise with fresh builds; non-trivial: at least two builds in the history; distinct: by hash of the key sets",
		Cases: func(t string) []Case {
			p := scale(t, Plan{Ladder: 13, Small: 60, Mid: 4, Large: 6, MidMax: 1500, LargeN: 15000}, Plan{Ladder: 14, Small: 1200, Mid: 40, Large: 40, MidMax: 3000, LargeN: 50000})
			return append(many(t, "endurance", 2, 10, enduranceC11), lexCases(t, p, checkC11)...)
		},
		MinObserved: map[string]int64{"builds on used builders": 1000, "builds into used automata": 500, "table sizes": 500, "earlier objects checked": 1000}})
}

func dictBytes(c *Ctx, d *dawg.Dictionary) []byte {
	var buf bytes.Buffer
	if !d.Write(&buf) {
		c.Fail("writing the dictionary to memory failed")
	}
	return buf.Bytes()
}

type stats [6]int

func statsOf(d *dawg.Dawg) stats {
	return stats{d.Size(), d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedStates(), d.NumOfMergingStates(), d.NumOfMergedTransitions()}
}

// fingerprint of an automaton: statistics and every transition.
func dawgPrint(d *dawg.Dawg) string {
	var b bytes.Buffer
	fmt.Fprint(&b, statsOf(d))
	for i := 0; i < d.Size(); i++ {
		fmt.Fprint(&b, d.Child(uint32(i)), d.Sibling(uint32(i)), d.Label(uint32(i)), d.IsMerging(uint32(i)), d.Value(uint32(i)), ";")
	}
	return b.String()
}

// ---- C02 ---------------------------------------------------------------------

type ins struct {
	key []byte
	val int32
}

func smallerKey(r *rand.Rand, last string, acc []string) ([]byte, bool) {
	var cand string
	switch r.Intn(5) {
	case 0:
		cand = acc[r.Intn(len(acc))]
	case 1:
		cand = last[:r.Intn(len(last)+1)]
	case 2:
		if len(last) > 0 {
			b := []byte(last)
			i := r.Intn(len(b))
			if b[i] > 1 {
				b[i] = byte(1 + r.Intn(int(b[i])-1))
				b = b[:i+1]
				b = append(b, randStr(r, allBytes, r.Intn(4))...)
			}
			cand = string(b)
		}
	case 3:
		cand = ""
	case 4:
		cand = randStr(r, allBytes, r.Intn(4))
	}
	return []byte(cand), cand < last
}

func checkC02(c *Ctx, l *Lex) {
	c.Detail(func() interface{} { return l.Dump(400) })
	c.note = func() string { return "insertions from " + l.Spec }
	b := dawg.NewDawgBuilder()
	var acc []string
	var accVals []int32
	refusedAny := false
	h := uint64(1469598103934665603)
	rate := 1 + c.R.Intn(4)
	if len(l.Keys) > 2000 {
		rate = 8
	}
	attempt := func(key []byte, val int32, want bool, kind string) {
		h = (h ^ hash64(string(key), fmt.Sprint(val))) * 1099511628211
		// Caller's buffer: longer than the key, overwritten after the call.
		buf := make([]byte, len(key)+c.R.Intn(3))
		copy(buf, key)
		for i := len(key); i < len(buf); i++ {
			buf[i] = byte(c.R.Intn(256))
		}
		before := string(buf)
		var got bool
		switch {
		case len(buf) == len(key) && val == 0 && c.R.Intn(2) == 0:
			got = b.InsertString(string(key))
		case c.R.Intn(2) == 0:
			got = b.InsertStringValue(string(key), val)
		default:
			got = b.InsertKeyValue(buf, len(key), val)
		}
		if string(buf) != before {
			c.Fail("inserting %s changed the caller's buffer", show(string(key)))
		}
		for i := range buf {
			buf[i] ^= 0x5a
		}
		if got != want {
			last := "(none)"
			if len(acc) > 0 {
				last = show(acc[len(acc)-1])
			}
			c.Fail("inserting %s = %d after %s: %v, want %v (%s)", show(string(key)), val, last, got, want, kind)
		}
		c.Eval(1)
		c.Obs(kind, 1)
	}
	refusals := func() {
		for n := c.R.Intn(rate + 1); n > 0; n-- {
			switch c.R.Intn(4) {
			case 0, 1:
				if len(acc) > 0 {
					if k, ok := smallerKey(c.R, acc[len(acc)-1], acc); ok {
						attempt(k, int32(c.R.Intn(100)), false, "refused: out of order")
						refusedAny = true
					}
				}
			case 2: // a NUL byte anywhere in an otherwise acceptable key
				k := []byte(randStr(c.R, allBytes, c.R.Intn(4)))
				if len(acc) > 0 {
					k = append([]byte(acc[len(acc)-1]), k...)
				}
				i := c.R.Intn(len(k) + 1)
				k = append(k[:i], append([]byte{0}, k[i:]...)...)
				if c.R.Intn(3) == 0 { // greater than everything before the NUL
					k = append([]byte{255, 255}, k...)
				}
				attempt(k, int32(c.R.Intn(1000)), false, "refused: NUL byte")
				refusedAny = true
			case 3:
				k := []byte(randStr(c.R, allBytes, c.R.Intn(3)))
				if len(acc) > 0 {
					k = append([]byte(acc[len(acc)-1]), k...) // the same key or a greater one
				}
				v := -1 - c.R.Int31()
				if c.R.Intn(2) == 0 {
					v = []int32{-1, -2, -256, -1 << 31, -0x7fffffff}[c.R.Intn(5)]
				}
				attempt(k, v, false, "refused: negative value")
				refusedAny = true
			}
		}
	}
	for i, k := range l.Keys {
		refusals()
		attempt([]byte(k), l.Vals[i], true, "accepted")
		acc = append(acc, k)
		accVals = append(accVals, l.Vals[i])
		if c.R.Intn(6) == 0 { // again, with another value, possibly after refusals
			refusals()
			v := edgeVals[c.R.Intn(len(edgeVals))]
			attempt([]byte(k), v, true, "replaced")
			accVals[len(accVals)-1] = v
		}
	}
	refusals()
	if refusedAny && len(acc) >= 2 {
		c.Seen(h)
	}
	d := dawg.NewDawg()
	b.Finish(d)

	ref := dawg.NewDawg()
	rb := dawg.NewDawgBuilder()
	rl := &Lex{l.Spec, acc, accVals}
	buildDawg(c, rb, rl, ref)
	if statsOf(d) != statsOf(ref) {
		c.Fail("statistics %v with refused insertions, %v without", statsOf(d), statsOf(ref))
	}
	if len(acc) < 3000 && dawgPrint(d) != dawgPrint(ref) {
		c.Fail("the automaton with refused insertions differs from the one without")
	}
	dict := d.Build()
	if dict == nil {
		c.Fail("dictionary not built")
	}
	if !bytes.Equal(dictBytes(c, dict), dictBytes(c, ref.Build())) {
		c.Fail("the dictionary with refused insertions differs from the one without")
	}
	verifyLookups(c, rl, dict, 0)
	if c.R.Intn(4) == 0 {
		for i := 0; i < 20; i++ {
			lookupAll(c, rl, dict, nearQuery(c.R, rl))
		}
	}
	if len(c.samples) == 0 && len(acc) > 2 {
		c.Sample(map[string]interface{}{"accepted": rl.Dump(5), "refusals so far": c.obs["refused: out of order"] + c.obs["refused: NUL byte"] + c.obs["refused: negative value"]})
	}
}

// exhaustiveOrders tries every sequence of 4 insertions from a small universe,
// NUL-containing strings included.
func exhaustiveOrders(c *Ctx) {
	u := []string{"", "\x00", "a", "a\x00", "aa", "ab", "b", "\x00a"}
	n := len(u)
	for m := 0; m < n*n*n*n; m++ {
		x := m
		b := dawg.NewDawgBuilder()
		l := &Lex{Spec: "orders"}
		desc := ""
		for i := 0; i < 4; i++ {
			k := u[x%n]
			x /= n
			desc += show(k) + " "
			want := !bytes.Contains([]byte(k), []byte{0}) && (len(l.Keys) == 0 || k >= l.Keys[len(l.Keys)-1])
			c.note = func() string { return "inserting " + desc }
			if got := b.InsertStringValue(k, int32(i+1)); got != want {
				c.Fail("inserting %s in turn: the last one returned %v, want %v", desc, got, want)
			}
			if want {
				c.Obs("accepted", 1)
				if len(l.Keys) > 0 && l.Keys[len(l.Keys)-1] == k {
					l.Vals[len(l.Vals)-1] = int32(i + 1)
				} else {
					l.Keys = append(l.Keys, k)
					l.Vals = append(l.Vals, int32(i+1))
				}
			}
			c.Eval(1)
		}
		d := dawg.NewDawg()
		b.Finish(d)
		dict := d.Build()
		for _, k := range u {
			want := int32(-1)
			if i := l.Find(k); i >= 0 {
				want = l.Vals[i]
			}
			if got := dict.FindString(k); got != want {
				c.Fail("after inserting %s: find(%s) = %d, want %d", desc, show(k), got, want)
			}
		}
		c.SeenN(1)
	}
}

// ---- C10 ---------------------------------------------------------------------

// minimal computes the sizes of the smallest automaton by hash-consing.
func minimal(l *Lex) (states, transitions, edges, merging int) {
	ids := map[string]int32{}
	var outDeg, count []int
	var rec func(n Node) int32
	rec = func(n Node) int32 {
		sig := make([]byte, 0, 16)
		deg := 0
		if l.Terminal(n) {
			sig = append(sig, 0)
			sig = binary.BigEndian.AppendUint32(sig, uint32(l.Vals[n.Lo]))
			deg++
		}
		l.Children(n, func(lb byte, ch Node) {
			id := rec(ch)
			sig = append(sig, lb)
			sig = binary.BigEndian.AppendUint32(sig, uint32(id))
			deg++
		})
		edges += deg
		id, ok := ids[string(sig)]
		if !ok {
			id = int32(len(outDeg))
			ids[string(sig)] = id
			outDeg = append(outDeg, deg)
			count = append(count, 0)
		}
		count[id]++
		return id
	}
	if len(l.Keys) == 0 {
		return 1, 0, 0, 0
	}
	rec(l.Root())
	states = len(outDeg) + 1 // and the state behind the final transitions
	for i := range outDeg {
		transitions += outDeg[i]
		if count[i] > 1 {
			merging++
		}
	}
	return
}

func checkC10(c *Ctx, l *Lex) {
	c.Detail(func() interface{} { return l.Dump(400) })
	c.note = func() string { return "automaton of " + l.Spec }
	states, transitions, edges, merging := minimal(l)
	sizes := []int{256}
	if len(l.Keys) < 40 || len(l.Keys) > 20000 {
		if c.R.Intn(4) == 0 {
			sizes = append(sizes, tableSize(c.R))
		}
	} else {
		sizes = append(sizes, tableSize(c.R), tableSize(c.R))
	}
	for i, sz := range sizes {
		b := dawg.NewDawgBuilderWithSize(sz)
		if i == 0 {
			b = dawg.NewDawgBuilder()
		} else {
			c.Obs("table sizes", 1)
		}
		d := dawg.NewDawg()
		buildDawg(c, b, l, d)
		verifyAutomaton(c, l, d, sz, states, transitions, edges, merging)
	}
	if len(l.Keys) >= 2 {
		c.Seen(l.Sig())
	}
	if len(c.samples) == 0 && len(l.Keys) > 1 && len(l.Keys) < 3000 {
		c.Sample(map[string]interface{}{"keys": l.Dump(3), "states": states, "transitions": transitions, "trie edges": edges, "merging": merging})
	}
	c.Obs("states", states)
	c.Obs("transitions", transitions)
	c.Obs("merged transitions", edges-transitions)
	c.Obs("merging states", merging)
}

func verifyAutomaton(c *Ctx, l *Lex, d *dawg.Dawg, sz, states, transitions, edges, merging int) {
	eq := func(what string, got, want int) {
		c.Eval(1)
		if got != want {
			c.Fail("%s = %d, want %d (initial table size %d, %d keys)", what, got, want, sz, len(l.Keys))
		}
	}
	eq("number of states", d.NumOfStates(), states)
	eq("number of transitions", d.NumOfTransitions(), transitions)
	eq("units", d.Size(), transitions+1)
	eq("merged transitions", d.NumOfMergedTransitions(), edges-transitions)
	eq("merged states", d.NumOfMergedStates(), edges+1-states)
	eq("merging states", d.NumOfMergingStates(), merging)

	// Walk: the accessors must spell the keys in order.
	if len(l.Keys) == 0 {
		if d.Child(d.Root()) != 0 {
			c.Fail("empty automaton has transitions")
		}
		return
	}
	pos, longest := 0, l.Longest()
	var buf []byte
	var walk func(idx uint32)
	walk = func(idx uint32) {
		prev := -1
		for ch := d.Child(idx); ch != 0; ch = d.Sibling(ch) {
			lb := d.Label(ch)
			if int(lb) <= prev {
				c.Fail("labels of siblings after %s do not ascend", show(string(buf)))
			}
			prev = int(lb)
			if d.IsLeaf(ch) != (lb == 0) {
				c.Fail("leaf flag wrong after %s", show(string(buf)))
			}
			if lb == 0 {
				if pos >= len(l.Keys) || string(buf) != l.Keys[pos] {
					c.Fail("walking the automaton spells %s as key number %d", show(string(buf)), pos)
				}
				if d.Value(ch) != l.Vals[pos] {
					c.Fail("walking the automaton: value of %s is %d, want %d", show(string(buf)), d.Value(ch), l.Vals[pos])
				}
				pos++
				continue
			}
			buf = append(buf, lb)
			if len(buf) > longest || pos > len(l.Keys) {
				c.Fail("the automaton spells strings that are no keys")
			}
			walk(ch)
			buf = buf[:len(buf)-1]
		}
	}
	walk(d.Root())
	if pos != len(l.Keys) {
		c.Fail("walking the automaton spells %d of %d keys", pos, len(l.Keys))
	}
	c.Eval(pos)
	c.Obs("keys walked", pos)
}

// ---- C11 ---------------------------------------------------------------------

// product is everything the library derives from a key set, as bytes.
type product struct {
	st                         stats
	dict, guide, ranked, index []byte
	rindex                     []byte
	unused                     uint32
}

func productOf(c *Ctx, d *dawg.Dawg) (*product, *dawg.Dictionary) {
	p := &product{st: statsOf(d)}
	dict := d.BuildWithUnused(&p.unused)
	if dict == nil {
		c.Fail("dictionary not built")
	}
	p.dict = dictBytes(c, dict)
	g := dawg.BuildGuide(d, dict)
	rg := dawg.BuildRankedGuide(d, dict)
	ix := dawg.BuildIndex(dict, g)
	rix := dawg.BuildIndex(dict, rg)
	var b1, b2, b3, b4 bytes.Buffer
	if !g.Write(&b1) || !rg.Write(&b2) || !ix.Write(&b3) || !rix.Write(&b4) {
		c.Fail("writing to memory failed")
	}
	p.guide, p.ranked, p.index, p.rindex = b1.Bytes(), b2.Bytes(), b3.Bytes(), b4.Bytes()
	return p, dict
}

type writer interface{ Write([]byte) (int, error) }

func (p *product) diff(q *product) string {
	switch {
	case p.st != q.st:
		return fmt.Sprintf("statistics %v and %v", p.st, q.st)
	case !bytes.Equal(p.dict, q.dict):
		return "dictionary bytes"
	case p.unused != q.unused:
		return fmt.Sprintf("unused units %d and %d", p.unused, q.unused)
	case !bytes.Equal(p.guide, q.guide):
		return "guide bytes"
	case !bytes.Equal(p.ranked, q.ranked):
		return "ranked guide bytes"
	case !bytes.Equal(p.index, q.index):
		return "index bytes"
	case !bytes.Equal(p.rindex, q.rindex):
		return "index bytes over the ranked guide"
	}
	return ""
}

func checkC11(c *Ctx, first *Lex) {
	c.Detail(func() interface{} { return first.Dump(300) })
	n := 2 + c.R.Intn(4)
	lexes := []*Lex{first}
	for i := 1; i < n; i++ {
		switch c.R.Intn(6) {
		case 0:
			lexes = append(lexes, first)
		case 1:
			lexes = append(lexes, &Lex{Spec: "empty"})
		default:
			lexes = append(lexes, randLex(c.R, 1+c.R.Intn(max(20, min(len(first.Keys)*2, 4000)))))
		}
	}
	c.R.Shuffle(len(lexes), func(i, j int) { lexes[i], lexes[j] = lexes[j], lexes[i] })
	sig := uint64(0)
	for _, l := range lexes {
		sig = sig*31 + l.Sig()
	}
	c.Seen(sig)

	// Reference: fresh objects, default size.
	ref := make([]*product, len(lexes))
	for i, l := range lexes {
		d := dawg.NewDawg()
		buildDawg(c, dawg.NewDawgBuilder(), l, d)
		ref[i], _ = productOf(c, d)
	}
	shared := dawg.NewDawgBuilder()
	if c.R.Intn(2) == 0 {
		shared = dawg.NewDawgBuilderWithSize(tableSize(c.R))
		c.Obs("table sizes", 1)
	}
	reusedDawg := dawg.NewDawg()
	type kept struct {
		i    int
		d    *dawg.Dawg
		dict *dawg.Dictionary
		fp   string
	}
	var keep []kept
	c.note = func() string {
		s := ""
		for _, l := range lexes {
			s += l.Spec + "; "
		}
		return "build history " + s
	}
	for i, l := range lexes {
		b := shared
		c.Obs("builds on used builders", 1)
		if c.R.Intn(5) == 0 {
			b = dawg.NewDawgBuilderWithSize(tableSize(c.R))
			c.Obs("table sizes", 1)
		}
		d := dawg.NewDawg()
		used := false
		if c.R.Intn(2) == 0 {
			d, used = reusedDawg, true
			c.Obs("builds into used automata", 1)
			if c.R.Intn(3) == 0 {
				d.Clear()
			}
			var nk []kept
			for _, k := range keep {
				if k.d != d {
					nk = append(nk, k)
				} else {
					k.d = nil
					nk = append(nk, k)
				}
			}
			keep = nk
		}
		if c.R.Intn(4) == 0 { // refused insertion on a used builder
			b.InsertString("\x00")
		}
		buildDawg(c, b, l, d)
		p, dict := productOf(c, d)
		if df := p.diff(ref[i]); df != "" {
			c.Fail("build %d of the history (%s) differs from a fresh build: %s", i, l.Spec, df)
		}
		c.Eval(1)
		fp := ""
		if len(l.Keys) < 500 {
			fp = dawgPrint(d)
		}
		// Building again from the same automaton.
		p2, _ := productOf(c, d)
		if df := p2.diff(ref[i]); df != "" {
			c.Fail("the second build from one automaton differs: %s", df)
		}
		if fp != "" && dawgPrint(d) != fp {
			c.Fail("building a dictionary changed the automaton")
		}
		keep = append(keep, kept{i, d, dict, fp})
		_ = used
		// Everything finished earlier is as it was.
		for _, k := range keep {
			c.Obs("earlier objects checked", 1)
			if !bytes.Equal(dictBytes(c, k.dict), ref[k.i].dict) {
				c.Fail("the dictionary of build %d changed after build %d", k.i, i)
			}
			if k.d != nil {
				if statsOf(k.d) != ref[k.i].st || (k.fp != "" && dawgPrint(k.d) != k.fp) {
					c.Fail("the automaton of build %d changed after build %d", k.i, i)
				}
			}
		}
		// And while the builder is half way through another build.
		if c.R.Intn(3) == 0 && len(l.Keys) > 0 {
			half := shared
			for j := 0; j < min(len(l.Keys), 50); j++ {
				half.InsertStringValue(l.Keys[j], l.Vals[j]^1)
			}
			for _, k := range keep {
				if !bytes.Equal(dictBytes(c, k.dict), ref[k.i].dict) || (k.d != nil && k.fp != "" && dawgPrint(k.d) != k.fp) {
					c.Fail("objects of build %d changed while the builder is used again", k.i)
				}
			}
			half.Finish(dawg.NewDawg())
		}
		if i == 0 || c.R.Intn(3) == 0 {
			verifyLookups(c, l, dict, 0)
		}
	}
	if len(c.samples) == 0 && len(first.Keys) < 2000 {
		var s []string
		for _, l := range lexes {
			s = append(s, fmt.Sprintf("%s (%d keys)", l.Spec, len(l.Keys)))
		}
		c.Sample(s)
	}
	_ = sort.Strings
}
