package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/deNULL/dawg"
)

// Key sets of up to 2^32 keys: a file with heavily shared suffixes holds them
// in few units. Nobody can list such a set; the model counts in the graph.

type pClass struct {
	term   bool
	val    int32
	labels []byte // ascending
	kids   []int  // classes
	count  uint64
	best   int32
	off    uint32
}

// graphSet is an acyclic graph; class 0 is the root.
type graphSet struct {
	cl []pClass
}

// makeGraph gives a random graph that spells at most limit keys, but not far
// less than that.
func makeGraph(c *Ctx, limit uint64) *graphSet {
	var up []pClass // bottom first
	nvals := []int32{0, int32(c.R.Intn(5)), c.R.Int31(), math.MaxInt32}
	leaf := func() pClass {
		v := nvals[c.R.Intn(4)]
		return pClass{term: true, val: v, count: 1, best: v}
	}
	for i := 0; i < 1+c.R.Intn(3); i++ {
		up = append(up, leaf())
	}
	wide := []int{2, 3, 5, 20, 255}[c.R.Intn(5)]
	top := 0 // the class with the most keys so far
	for fails := 0; fails < 60 && len(up) < 2000; {
		k := pClass{best: -1}
		if c.R.Intn(4) == 0 {
			k = leaf()
		}
		m := map[byte]bool{}
		for i := 1 + c.R.Intn(wide); i > 0; i-- {
			m[byte(1+c.R.Intn(255))] = true
		}
		for lb := 1; lb < 256; lb++ {
			if !m[byte(lb)] {
				continue
			}
			t := top
			if c.R.Intn(3) == 0 {
				t = max(0, len(up)-1-c.R.Intn(6))
			}
			if k.count+up[t].count > limit {
				if t = c.R.Intn(len(up)); k.count+up[t].count > limit {
					continue
				}
			}
			k.labels = append(k.labels, byte(lb))
			k.kids = append(k.kids, t)
			k.count += up[t].count
			k.best = max(k.best, up[t].best)
		}
		if len(k.labels) == 0 || k.count <= up[top].count {
			fails++
			continue
		}
		up = append(up, k)
		top = len(up) - 1
	}
	// The root first; only what can be reached.
	g := &graphSet{}
	at := map[int]int{}
	var take func(t int) int
	take = func(t int) int {
		if j, ok := at[t]; ok {
			return j
		}
		j := len(g.cl)
		at[t] = j
		g.cl = append(g.cl, up[t])
		kids := make([]int, len(up[t].kids))
		for i, x := range up[t].kids {
			kids[i] = take(x)
		}
		g.cl[j].kids = kids
		return j
	}
	take(top)
	return g
}

func (g *graphSet) walk(s string) (class int, ok bool) {
	for i := 0; i < len(s); i++ {
		k := &g.cl[class]
		j := bytes.IndexByte(k.labels, s[i])
		if j < 0 {
			return 0, false
		}
		class = k.kids[j]
	}
	return class, true
}

// find gives rank and value of a key.
func (g *graphSet) find(s string) (rank uint64, val int32, ok bool) {
	class := 0
	for i := 0; i < len(s); i++ {
		k := &g.cl[class]
		if k.term {
			rank++
		}
		j := bytes.IndexByte(k.labels, s[i])
		if j < 0 {
			return 0, 0, false
		}
		for _, t := range k.kids[:j] {
			rank += g.cl[t].count
		}
		class = k.kids[j]
	}
	return rank, g.cl[class].val, g.cl[class].term
}

// key is the key of a rank among those below a class.
func (g *graphSet) key(class int, rank uint64) string {
	var s []byte
	for {
		k := &g.cl[class]
		if k.term {
			if rank == 0 {
				return string(s)
			}
			rank--
		}
		for j, t := range k.kids {
			if rank < g.cl[t].count {
				s = append(s, k.labels[j])
				class = t
				break
			}
			rank -= g.cl[t].count
		}
	}
}

// file lays the graph out, each class in a block of its own.
func (g *graphSet) file(c *Ctx) *wFile {
	order := c.R.Perm(len(g.cl))
	n := 256 * (len(g.cl) + 1)
	w := &wFile{units: make([]uint32, n), guide: make([]guidePair, n), ranked: make([]guidePair, n), index: make([]uint32, n)}
	for i := range w.units {
		w.units[i] = 1<<31 | c.R.Uint32()
	}
	for i := range g.cl {
		g.cl[i].off = uint32(256*(order[i]+1)) | uint32(c.R.Intn(256))
	}
	node := func(idx uint32, label byte, t int) {
		k := &g.cl[t]
		if (idx^k.off)&0xff != 0 && idx^k.off >= 1<<21 {
			panic("too many classes")
		}
		w.units[idx] = uint32(label) | (idx^k.off)<<10
		w.index[idx] = uint32(k.count)
		if k.term {
			w.units[idx] |= 1 << 8
		}
		if len(k.labels) > 0 {
			w.guide[idx].child = k.labels[0]
		}
		w.ranked[idx].child = g.byBest(t)[0]
	}
	node(0, 0, 0)
	for i := range g.cl {
		k := &g.cl[i]
		if k.term {
			w.units[k.off] = 1<<31 | uint32(k.val)
		}
		for j, t := range k.kids {
			idx := k.off ^ uint32(k.labels[j])
			node(idx, k.labels[j], t)
			if j+1 < len(k.labels) {
				w.guide[idx].sibling = k.labels[j+1]
			}
		}
		ls := g.byBest(i)
		for j := 0; j+1 < len(ls); j++ {
			w.ranked[k.off^uint32(ls[j])].sibling = ls[j+1]
		}
	}
	return w
}

// byBest lists labels (0: the end) by falling best value.
func (g *graphSet) byBest(t int) []byte {
	k := &g.cl[t]
	type lk struct {
		label byte
		v     int32
	}
	var ls []lk
	if k.term {
		ls = append(ls, lk{0, k.val})
	}
	for j, x := range k.kids {
		ls = append(ls, lk{k.labels[j], g.cl[x].best})
	}
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].v > ls[j].v })
	out := make([]byte, len(ls))
	for i := range ls {
		out[i] = ls[i].label
	}
	return out
}

// graphCase loads a set of up to 2^32-2 keys and checks lookups and one of
// numbering, ordered and ranked completion.
func graphCase(c *Ctx, limit uint64, what string) {
	g := makeGraph(c, limit)
	N := g.cl[0].count
	w := g.file(c)
	c.Detail(func() interface{} {
		return map[string]interface{}{"keys": N, "classes": len(g.cl), "limit": limit}
	})
	c.note = func() string { return fmt.Sprintf("a file of %d keys in %d units", N, len(w.units)) }
	d := dawg.ReadDictionary(bytes.NewReader(units32Bytes(w.units)))
	gd := dawg.ReadGuide(bytes.NewReader(guideBytes(w.guide)))
	rg := dawg.ReadRankedGuide(bytes.NewReader(guideBytes(w.ranked)))
	if d == nil || gd == nil || rg == nil {
		c.Fail("a well-formed file was not read")
	}
	rnd := func() uint64 {
		switch c.R.Intn(6) {
		case 0:
			return 0
		case 1:
			return N - 1
		case 2: // around a power of two
			x := uint64(1)<<uint(c.R.Intn(33)) + uint64(c.R.Intn(3)) - 1
			if x < N {
				return x
			}
		}
		return uint64(c.R.Int63n(int64(N)))
	}
	near := func(s string) string {
		b := []byte(s)
		switch c.R.Intn(4) {
		case 0:
			return s + string([]byte{byte(c.R.Intn(256))})
		case 1:
			if len(b) > 0 {
				b = b[:c.R.Intn(len(b))]
			}
		case 2:
			if len(b) > 0 {
				b[c.R.Intn(len(b))] = byte(c.R.Intn(256))
			}
		}
		return string(b)
	}
	for i := 0; i < 400; i++ {
		s := g.key(0, rnd())
		if i%2 == 1 {
			s = near(s)
		}
		_, v, ok := g.find(s)
		if !ok {
			v = -1
		}
		if d.ContainsString(s) != ok || d.FindString(s) != v {
			c.Fail("%s: contained %v, value %d, want %v, %d", show(s), d.ContainsString(s), d.FindString(s), ok, v)
		}
		c.Eval(2)
	}
	switch what {
	case "number":
		for _, sg := range []dawg.SomeGuide{gd, rg} {
			ix := dawg.BuildIndex(d, sg)
			if ix == nil {
				c.Fail("index not built")
			}
			x := dawg.NewIndexer(d, sg, ix)
			if uint64(ix.TotalCount()) != N || uint64(x.TotalCount()) != N {
				c.Fail("total count %d and %d, want %d", ix.TotalCount(), x.TotalCount(), N)
			}
			ranked := sg == dawg.SomeGuide(rg)
			for i := 0; i < 3000; i++ {
				rank := rnd()
				s := g.key(0, rank)
				num := x.StringToIndex(s)
				if !ranked && uint64(num) != rank || uint64(num) >= N {
					c.Fail("number of %s is %d, its rank is %d of %d", show(s), num, rank, N)
				}
				if b := x.IndexToBytes(num); b == nil || string(b) != s {
					c.Fail("number %d yields %s, but %s has that number", num, show(string(b)), show(s))
				}
				b := x.IndexToBytes(uint32(rank))
				if b == nil || x.BytesToIndex(b) != uint32(rank) {
					c.Fail("number %d yields %s, which has number %d", rank, show(string(b)), x.BytesToIndex(b))
				}
				t := near(s)
				if _, _, ok := g.find(t); ok != (x.StringToIndex(t) != dawg.NotFound) {
					c.Fail("%s: stored %v, number %d", show(t), ok, x.StringToIndex(t))
				}
				p := s[:c.R.Intn(len(s)+1)]
				k, _ := g.walk(p)
				if cnt := ix.ChildCount(nodeIndex(c, d, p)); uint64(cnt) != g.cl[k].count {
					c.Fail("count of keys below %s is %d, want %d", show(p), cnt, g.cl[k].count)
				}
				c.Eval(5)
				c.Obs("keys numbered", 1)
				c.Obs("numbers turned to keys", 2)
			}
			for i := 0; i < 200; i++ {
				num := N + uint64(c.R.Int63n(1<<32-int64(N)))
				if i < 4 {
					num = N + uint64(i)
				}
				if i == 5 {
					num = 1<<32 - 1
				}
				if num < 1<<32 && x.IndexToBytes(uint32(num)) != nil {
					c.Fail("number %d of %d keys yields %s", num, N, show(string(x.IndexToBytes(uint32(num)))))
				}
				c.Obs("numbers out of range", 1)
			}
			if c.R.Intn(2) == 0 { // the file of the index
				u, rest, err := parseUnits32(written(c, ix))
				if err != nil || len(rest) != 0 || len(u) != len(w.units) {
					c.Fail("file of the index: %v, %d units, want %d", err, len(u), len(w.units))
				}
				for i := range u {
					if w.index[i] != 0 && u[i] != w.index[i] {
						c.Fail("unit %d of the index is %d, want %d", i, u[i], w.index[i])
					}
				}
			}
		}
		if N > 1<<31 {
			c.Obs("sets of more than 2^31 keys", 1)
		}
	default:
		ranked := what == "ranked"
		var cp completer
		if ranked {
			cp = dawg.NewRankedCompleter(d, rg)
		} else {
			cp = dawg.NewCompleter(d, gd)
		}
		for i := 0; i < 30; i++ {
			s := g.key(0, rnd())
			p := s[:c.R.Intn(len(s)+1)]
			if i == 0 {
				p = ""
			}
			k, _ := g.walk(p)
			start := startAt(c, cp, d, p)
			limit := min(g.cl[k].count, uint64(200))
			if i%10 == 0 {
				limit = min(g.cl[k].count, uint64(20000))
			}
			seen := map[string]bool{}
			last := int32(math.MaxInt32)
			for j := uint64(0); j < limit; j++ {
				if !cp.Next() {
					c.Fail("only %d keys below %s, want %d", j, show(p), g.cl[k].count)
				}
				key := cp.Key()
				if len(key) < len(start) || key[:len(start)] != start || cp.Length() != len(key) {
					c.Fail("key %s of length %d does not begin with %s", show(key), cp.Length(), show(start))
				}
				tail := key[len(start):]
				if !ranked {
					if want := g.key(k, j); tail != want {
						c.Fail("key %d below %s continues with %s, want %s", j, show(p), show(tail), show(want))
					}
				}
				_, v, ok := g.find(p + tail)
				if !ok || seen[tail] || cp.Value() != v {
					c.Fail("below %s: continues with %s, stored %v, seen before %v, value %d, want %d", show(p), show(tail), ok, seen[tail], cp.Value(), v)
				}
				if ranked && (v > last || j == 0 && v != g.cl[k].best) {
					c.Fail("below %s: key %d has value %d after %d, the best is %d", show(p), j, v, last, g.cl[k].best)
				}
				seen[tail] = true
				last = v
				c.Obs("keys yielded", 1)
			}
			if limit == g.cl[k].count && cp.Next() {
				c.Fail("more than %d keys below %s", limit, show(p))
			}
			c.Eval(int(limit))
		}
	}
	c.Obs("sets of more than 65536 keys in shared units", 1)
	c.Seen(N<<16 ^ uint64(len(g.cl)))
}

func graphCases(tier, what string) (cs []Case) {
	n := 48
	if tier == "thorough" {
		n = 1500
	}
	for i := 0; i < n; i++ {
		limit := uint64(1) << uint(17+i%16)
		if i%16 == 15 {
			limit -= 3
		}
		cs = append(cs, Case{fmt.Sprintf("graph/%d", i), func(c *Ctx) { graphCase(c, limit, what) }})
	}
	return
}
