package main

import (
	"sort"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C06", Level: "exploration", Rule: ruleLex + "; each numbered over an ordinary guide, a ranked guide and sometimes a guide with another value order; and sets of 2^17 to 2^32 keys in files with shared suffixes, counted in a graph",
		Cases: func(t string) []Case {
			return append(lexCases(t, scale(t, quickComp, deepComp), checkC06), graphCases(t, "number")...)
		},
		MinObserved: map[string]int64{"keys numbered": 300000, "numbers turned to keys": 300000, "strings not found": 300000,
			"numbers out of range": 100000, "dictionaries over 2^21 units": 1, "indexes over ranked guides": 10000, "sets of more than 2^31 keys": 2}})
}

func checkC06(c *Ctx, l *Lex) {
	b := build(c, l)
	verifyIndex(c, l, b.Dict, b.guide(c), nil, true)
	verifyIndex(c, l, b.Dict, b.ranked(c), nil, false)
	if c.R.Intn(6) == 0 && len(l.Keys) < 50000 {
		cmp, _ := orderFunc(c)
		og := dawg.BuildRankedGuideCmp(b.Dawg, b.Dict, cmp)
		if og == nil {
			c.Fail("ranked guide with another value order not built")
		}
		verifyIndex(c, l, b.Dict, og, nil, false)
	}
}

// verifyIndex checks the numbering against the model; ix nil: build it.
func verifyIndex(c *Ctx, l *Lex, d *dawg.Dictionary, g dawg.SomeGuide, ix *dawg.Index, rank bool) {
	N := len(l.Keys)
	if ix == nil {
		ix = dawg.BuildIndex(d, g)
		if ix == nil {
			c.Fail("index not built")
		}
	}
	if !rank {
		c.Obs("indexes over ranked guides", 1)
	}
	x := dawg.NewIndexer(d, g, ix)
	if int(x.TotalCount()) != N || int(ix.TotalCount()) != N {
		c.Fail("total count %d and %d, want %d", x.TotalCount(), ix.TotalCount(), N)
	}
	if ix.Root() != d.Root() || g.Root() != d.Root() || int(ix.ChildCount(ix.Root())) != N {
		c.Fail("the roots of dictionary, guide and index are %d, %d and %d, with %d keys below, want %d", d.Root(), g.Root(), ix.Root(), ix.ChildCount(ix.Root()), N)
	}
	step := 1
	if N > 20000 && !c.Thorough() {
		step = 1 + N/20000
	}
	seen := make([]bool, N)
	count := 0
	for i := c.R.Intn(step); i < N; i += step {
		k := l.Keys[i]
		var num uint32
		if i%2 == 0 {
			num = x.StringToIndex(k)
		} else {
			num = x.BytesToIndex([]byte(k))
		}
		if int64(num) >= int64(N) {
			c.Fail("number of key %s is %d of %d keys", show(k), num, N)
		}
		if rank && int(num) != i {
			c.Fail("number of key %s is %d, its rank is %d", show(k), num, i)
		}
		if seen[num] {
			c.Fail("number %d is given to two keys, one is %s", num, show(k))
		}
		seen[num] = true
		count++
		c.Obs("keys numbered", 1)
		var back string
		if i%3 == 0 {
			back = x.IndexToString(num)
		} else {
			bs := x.IndexToBytes(num)
			if bs == nil {
				c.Fail("number %d yields no key, but %s has that number", num, show(k))
			}
			back = string(bs)
		}
		if back != k {
			c.Fail("number %d yields %s, but %s has that number", num, show(back), show(k))
		}
	}
	c.Eval(2 * count)
	// numbers to keys, in random order
	m := min(N, 3000)
	for i := 0; i < m; i++ {
		num := uint32(i)
		if N > 3000 {
			num = uint32(c.R.Intn(N))
		}
		bs := x.IndexToBytes(num)
		if bs == nil {
			c.Fail("number %d of %d yields no key", num, N)
		}
		j := sort.SearchStrings(l.Keys, string(bs))
		if j >= N || l.Keys[j] != string(bs) {
			c.Fail("number %d yields %s, which is no key", num, show(string(bs)))
		}
		if rank && j != int(num) {
			c.Fail("number %d yields %s, which has rank %d", num, show(string(bs)), j)
		}
		if x.BytesToIndex(bs) != num {
			c.Fail("number %d yields %s, which has number %d", num, show(string(bs)), x.BytesToIndex(bs))
		}
		c.Obs("numbers turned to keys", 1)
		c.Eval(2)
	}
	// beyond the last
	for _, num := range []uint32{uint32(N), uint32(N) + 1, uint32(N) + 255, 1 << 31, 0xfffffffd, 0xfffffffe, 0xffffffff, uint32(N) + uint32(c.R.Intn(1000000))} {
		if bs := x.IndexToBytes(num); len(bs) != 0 {
			c.Fail("number %d of %d keys yields %s", num, N, show(string(bs)))
		} else if bs != nil {
			c.Fail("number %d of %d keys yields an empty key", num, N)
		}
		if s := x.IndexToString(num); s != "" {
			c.Fail("number %d of %d keys yields %s", num, N, show(s))
		}
		c.Obs("numbers out of range", 1)
		c.Eval(2)
	}
	// strings that are no keys
	q := 300
	if N < 50 {
		q = 25
	}
	for i := 0; i < q; i++ {
		s := nearQuery(c.R, l)
		if l.Find(s) >= 0 {
			continue
		}
		if num := x.StringToIndex(s); num != dawg.NotFound {
			c.Fail("%s is no key, but its number is %d", show(s), num)
		}
		c.Obs("strings not found", 1)
		c.Eval(1)
	}
	for _, n := range l.SampleNodes(c.R, q/3) {
		p := l.Prefix(n)
		for j := 0; j < 8; j++ {
			s := p + string([]byte{byte(c.R.Intn(256))})
			if j == 0 {
				s = p
			}
			want := l.Find(s) >= 0
			if got := x.StringToIndex(s) != dawg.NotFound; got != want {
				c.Fail("%s: stored %v, has a number %v", show(s), want, got)
			}
			if !want {
				c.Obs("strings not found", 1)
			}
		}
		// counts below a node
		if N > 0 {
			if cnt := ix.ChildCount(nodeIndex(c, d, p)); int(cnt) != n.Hi-n.Lo {
				c.Fail("count of keys below %s is %d, want %d", show(p), cnt, n.Hi-n.Lo)
			}
		}
		c.Eval(9)
	}
}
