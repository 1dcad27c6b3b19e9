package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
)

// An independent implementation of the dawgdic file format. It shares no code
// with the library.

func unitOffset(u uint32) uint32 {
	o := u >> 10
	if u&(1<<9) != 0 {
		o <<= 8
	}
	return o
}
func unitHasLeaf(u uint32) bool { return u&(1<<8) != 0 }
func unitIsLeaf(u uint32) bool  { return u&(1<<31) != 0 }

// parseUnits32 parses count + 32-bit units; rest is what follows.
func parseUnits32(b []byte) (units []uint32, rest []byte, err error) {
	if len(b) < 4 {
		return nil, nil, fmt.Errorf("no header")
	}
	n := int(binary.LittleEndian.Uint32(b))
	b = b[4:]
	if len(b) < 4*n {
		return nil, nil, fmt.Errorf("%d units announced, %d bytes follow", n, len(b))
	}
	units = make([]uint32, n)
	for i := range units {
		units[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return units, b[4*n:], nil
}

type guidePair struct{ child, sibling byte }

func parseGuide(b []byte) (units []guidePair, rest []byte, err error) {
	if len(b) < 4 {
		return nil, nil, fmt.Errorf("no header")
	}
	n := int(binary.LittleEndian.Uint32(b))
	b = b[4:]
	if len(b) < 2*n {
		return nil, nil, fmt.Errorf("%d guide units announced, %d bytes follow", n, len(b))
	}
	units = make([]guidePair, n)
	for i := range units {
		units[i] = guidePair{b[2*i], b[2*i+1]}
	}
	return units, b[2*n:], nil
}

// fileChild is the unit reached from idx by a label, or false.
func fileChild(units []uint32, idx uint32, label byte) (uint32, bool) {
	to := idx ^ unitOffset(units[idx]) ^ uint32(label)
	if int64(to) >= int64(len(units)) {
		return 0, false
	}
	return to, units[to]&(1<<31|0xff) == uint32(label)
}

// fileLookup looks a key up the way any dawgdic reader does.
func fileLookup(units []uint32, key string) (int32, bool) {
	idx := uint32(0)
	for i := 0; i < len(key); i++ {
		to, ok := fileChild(units, idx, key[i])
		if !ok {
			return 0, false
		}
		idx = to
	}
	return fileValue(units, idx)
}

func fileValue(units []uint32, idx uint32) (int32, bool) {
	if !unitHasLeaf(units[idx]) {
		return 0, false
	}
	v := idx ^ unitOffset(units[idx])
	if int64(v) >= int64(len(units)) || !unitIsLeaf(units[v]) {
		return 0, false
	}
	return int32(units[v] &^ (1 << 31)), true
}

// fileMatches compares the keys and values in the units with the model; it
// returns the number of occupied units.
func fileMatches(c *Ctx, l *Lex, units []uint32, fullNodes int) (occupied int) {
	occupied, _ = fileUse(c, l, units, fullNodes)
	return
}

func fileUse(c *Ctx, l *Lex, units []uint32, fullNodes int) (occupied int, used []bool) {
	used = make([]bool, len(units))
	if len(units) == 0 {
		c.Fail("the file has no units")
	}
	used[0] = true
	nodes := 0
	var rec func(n Node, idx uint32)
	rec = func(n Node, idx uint32) {
		nodes++
		if unitIsLeaf(units[idx]) {
			c.Fail("file: the node of %s is marked as a leaf", show(l.Prefix(n)))
		}
		v, ok := fileValue(units, idx)
		if ok != l.Terminal(n) || unitHasLeaf(units[idx]) != l.Terminal(n) {
			c.Fail("file: %s is a key: %v, stored: %v", show(l.Prefix(n)), ok, l.Terminal(n))
		}
		if ok {
			if v != l.Vals[n.Lo] {
				c.Fail("file: value of %s is %d, want %d", show(l.Prefix(n)), v, l.Vals[n.Lo])
			}
			used[idx^unitOffset(units[idx])] = true
		}
		var child [256]bool
		l.Children(n, func(lb byte, ch Node) { child[lb] = true })
		if nodes <= fullNodes || nodes%50 == 0 {
			for x := 1; x < 256; x++ {
				if _, ok := fileChild(units, idx, byte(x)); ok != child[x] {
					c.Fail("file: %s followed by %#02x: %v, want %v", show(l.Prefix(n)), x, ok, child[x])
				}
			}
			c.Eval(255)
		}
		l.Children(n, func(lb byte, ch Node) {
			to, ok := fileChild(units, idx, lb)
			if !ok {
				c.Fail("file: %s cannot be followed by %#02x", show(l.Prefix(n)), lb)
			}
			used[to] = true
			rec(ch, to)
		})
	}
	rec(l.Root(), 0)
	for _, u := range used {
		if u {
			occupied++
		}
	}
	c.Obs("file nodes checked", nodes)
	return
}

// guideMatches checks a guide in file form: the children it lists at the nodes.
func guideMatches(c *Ctx, l *Lex, units []uint32, g []guidePair, ranked bool, maxNodes int) {
	if len(l.Keys) == 0 {
		return
	}
	if len(g) != len(units) {
		c.Fail("file: guide of %d units for a dictionary of %d", len(g), len(units))
	}
	var best func(n Node) int32
	best = func(n Node) int32 {
		m := int32(-1)
		for i := n.Lo; i < n.Hi; i++ {
			if l.Vals[i] > m {
				m = l.Vals[i]
			}
		}
		return m
	}
	nodes := 0
	var rec func(n Node, idx uint32)
	rec = func(n Node, idx uint32) {
		if nodes >= maxNodes {
			return
		}
		nodes++
		type ch struct {
			label byte
			node  Node
		}
		var kids []ch
		l.Children(n, func(lb byte, m Node) { kids = append(kids, ch{lb, m}) })
		want := len(kids)
		terminal := l.Terminal(n)
		if ranked && terminal {
			want++
		}
		off := idx ^ unitOffset(units[idx])
		var got []byte
		lb := g[idx].child
		for {
			if lb == 0 {
				if !ranked || !terminal {
					break
				}
				terminal = false
			}
			got = append(got, lb)
			if len(got) > want {
				c.Fail("file: guide lists more than the %d children of %s", want, show(l.Prefix(n)))
			}
			lb = g[off^uint32(lb)].sibling
		}
		if len(got) != want {
			c.Fail("file: guide lists %d of the %d children of %s", len(got), want, show(l.Prefix(n)))
		}
		if !ranked {
			for i, k := range kids {
				if got[i] != k.label {
					c.Fail("file: guide child %d of %s is %#02x, want %#02x", i, show(l.Prefix(n)), got[i], k.label)
				}
			}
		} else {
			seen := map[byte]bool{}
			prev := int32(-1)
			for i, x := range got {
				if seen[x] {
					c.Fail("file: guide lists child %#02x of %s twice", x, show(l.Prefix(n)))
				}
				seen[x] = true
				v := int32(-1)
				if x == 0 {
					v = l.Vals[n.Lo]
				} else {
					for _, k := range kids {
						if k.label == x {
							v = best(k.node)
						}
					}
					if v < 0 {
						c.Fail("file: guide lists %#02x, which is no child of %s", x, show(l.Prefix(n)))
					}
				}
				if i > 0 && v > prev {
					c.Fail("file: ranked guide of %s lists %#02x with best value %d after %d", show(l.Prefix(n)), x, v, prev)
				}
				prev = v
			}
		}
		c.Eval(1)
		for _, k := range kids {
			to, ok := fileChild(units, idx, k.label)
			if !ok {
				c.Fail("file: %s cannot be followed by %#02x", show(l.Prefix(n)), k.label)
			}
			rec(k.node, to)
		}
	}
	rec(l.Root(), 0)
	c.Obs("guide nodes checked", nodes)
}

// indexMatches checks the key counts of an index in file form.
func indexMatches(c *Ctx, l *Lex, units, ix []uint32, maxNodes int) {
	if len(ix) != len(units) {
		c.Fail("file: index of %d units for a dictionary of %d", len(ix), len(units))
	}
	nodes := 0
	var rec func(n Node, idx uint32)
	rec = func(n Node, idx uint32) {
		if nodes >= maxNodes {
			return
		}
		nodes++
		if int(ix[idx]) != n.Hi-n.Lo {
			c.Fail("file: count of keys under %s is %d, want %d", show(l.Prefix(n)), ix[idx], n.Hi-n.Lo)
		}
		l.Children(n, func(lb byte, ch Node) {
			to, ok := fileChild(units, idx, lb)
			if !ok {
				c.Fail("file: %s cannot be followed by %#02x", show(l.Prefix(n)), lb)
			}
			rec(ch, to)
		})
	}
	rec(l.Root(), 0)
	c.Obs("index nodes checked", nodes)
	c.Eval(nodes)
}

// ---- an independent writer --------------------------------------------------

type wFile struct {
	units  []uint32
	guide  []guidePair
	ranked []guidePair
	index  []uint32
	ext    int // offsets stored in extended form
	shared int
}

type placeOpts struct {
	blocks int  // size of the array in blocks of 256
	share  int  // percent of equal subtrees that share their units
	far    bool // prefer placements far away
	junk   int  // kind of filler for unused units
}

// writeFile lays a key set out with an arbitrary placement.
func writeFile(r *rand.Rand, l *Lex, o placeOpts) (*wFile, error) {
	w := &wFile{}
	// Grow until everything fits.
	for try := 0; try < 12; try++ {
		if tryWrite(r, l, o, w) {
			return w, nil
		}
		o.blocks = o.blocks*2 + 1
	}
	return nil, fmt.Errorf("no placement")
}

func tryWrite(r *rand.Rand, l *Lex, o placeOpts, w *wFile) bool {
	n := uint32(o.blocks * 256)
	*w = wFile{units: make([]uint32, n), guide: make([]guidePair, n), ranked: make([]guidePair, n), index: make([]uint32, n)}
	fixed := make([]bool, n)
	usedOff := make([]bool, n)
	fixed[0] = true
	usedOff[0] = true
	type placed struct{ off uint32 }
	memo := map[string][]uint32{} // signature -> offsets at which its children lie

	reachable := func(idx, off uint32) bool {
		rel := idx ^ off
		return rel < 1<<21 || (rel&0xff == 0 && rel < 1<<29)
	}
	var sig func(nd Node) string
	sigs := map[Node]string{}
	sig = func(nd Node) string {
		if s, ok := sigs[nd]; ok {
			return s
		}
		var b []byte
		for i := nd.Lo; i < nd.Hi; i++ {
			b = append(b, l.Keys[i][nd.Depth:]...)
			b = append(b, 0)
			b = binary.BigEndian.AppendUint32(b, uint32(l.Vals[i]))
		}
		s := string(b)
		sigs[nd] = s
		return s
	}
	best := map[Node]int32{}
	var bestOf func(nd Node) int32
	bestOf = func(nd Node) int32 {
		if b, ok := best[nd]; ok {
			return b
		}
		m := int32(-1)
		for i := nd.Lo; i < nd.Hi; i++ {
			if l.Vals[i] > m {
				m = l.Vals[i]
			}
		}
		best[nd] = m
		return m
	}
	type child struct {
		label byte
		node  Node
	}
	ok := true
	var place func(nd Node, idx uint32)
	place = func(nd Node, idx uint32) {
		if !ok {
			return
		}
		w.index[idx] = uint32(nd.Hi - nd.Lo)
		var kids []child
		l.Children(nd, func(lb byte, ch Node) { kids = append(kids, child{lb, ch}) })
		term := l.Terminal(nd)
		if len(kids) == 0 && !term {
			return // the root of the empty set
		}
		setOff := func(off uint32) {
			rel := idx ^ off
			w.units[idx] &= 1<<31 | 1<<8 | 0xff
			if rel < 1<<21 && (rel&0xff != 0 || r.Intn(3) > 0 || rel < 1<<10) {
				w.units[idx] |= rel << 10
			} else {
				// In extended form; also allowed for near multiples of 256.
				w.units[idx] |= rel<<2 | 1<<9
				w.ext++
			}
			if term {
				w.units[idx] |= 1 << 8
			}
		}
		links := func() {
			// children in ascending order
			w.guide[idx].child = 0
			if len(kids) > 0 {
				w.guide[idx].child = kids[0].label
			}
			// children and end by falling best value
			type lk struct {
				label byte
				v     int32
			}
			var ls []lk
			if term {
				ls = append(ls, lk{0, l.Vals[nd.Lo]})
			}
			for _, k := range kids {
				ls = append(ls, lk{k.label, bestOf(k.node)})
			}
			sort.SliceStable(ls, func(i, j int) bool { return ls[i].v > ls[j].v })
			w.ranked[idx].child = ls[0].label
		}
		s := ""
		if len(l.Keys) <= 5000 {
			s = sig(nd)
			if offs := memo[s]; len(offs) > 0 && r.Intn(100) < o.share {
				off := offs[r.Intn(len(offs))]
				if reachable(idx, off) {
					setOff(off)
					links()
					w.shared++
					return
				}
			}
		}
		// Choose an offset.
		var off uint32
		found := false
		for t := 0; t < 400 && !found; t++ {
			switch {
			case o.far || t%3 == 0:
				off = uint32(r.Intn(int(n)))
				if t%2 == 0 {
					off = off&^0xff | idx&0xff
				}
			case t%3 == 1:
				off = (idx &^ 0x7ff) ^ uint32(r.Intn(0x800))
			default:
				off = (idx &^ 0xff) ^ uint32(r.Intn(0x100))
			}
			if off >= n || usedOff[off] || !reachable(idx, off) {
				continue
			}
			found = true
			if term && fixed[off] {
				found = false
			}
			for _, k := range kids {
				if fixed[off^uint32(k.label)] {
					found = false
					break
				}
			}
		}
		if !found {
			ok = false
			return
		}
		usedOff[off] = true
		setOff(off)
		links()
		if term {
			fixed[off] = true
			w.units[off] = uint32(l.Vals[nd.Lo]) | 1<<31
		}
		for i, k := range kids {
			p := off ^ uint32(k.label)
			fixed[p] = true
			w.units[p] = uint32(k.label)
			if i > 0 {
				w.guide[off^uint32(kids[i-1].label)].sibling = k.label
			}
		}
		// ranked sibling chain
		type lk struct {
			label byte
			v     int32
		}
		var ls []lk
		if term {
			ls = append(ls, lk{0, l.Vals[nd.Lo]})
		}
		for _, k := range kids {
			ls = append(ls, lk{k.label, bestOf(k.node)})
		}
		sort.SliceStable(ls, func(i, j int) bool { return ls[i].v > ls[j].v })
		for i := 1; i < len(ls); i++ {
			w.ranked[off^uint32(ls[i-1].label)].sibling = ls[i].label
		}
		if s != "" {
			memo[s] = append(memo[s], off)
		}
		for _, j := range r.Perm(len(kids)) {
			place(kids[j].node, off^uint32(kids[j].label))
		}
	}
	if len(l.Keys) == 0 {
		// The root leads nowhere: pick an offset nobody matches.
		w.units[0] = 1 << 10
		usedOff[1] = true
	} else {
		place(l.Root(), 0)
	}
	if !ok {
		return false
	}
	// Fill unused units with labels that no node's offset makes reachable.
	for i := uint32(0); i < n; i++ {
		if fixed[i] {
			continue
		}
		if o.junk == 1 && r.Intn(2) == 0 {
			w.units[i] = 1<<31 | r.Uint32()
			continue
		}
		x := uint32(0)
		found := false
		if o.junk == 2 { // try a random label
			for t := 0; t < 20 && !found; t++ {
				x = uint32(r.Intn(256))
				found = !usedOff[i^x]
			}
		}
		if !found {
			for x = 0; x < 256; x++ {
				if !usedOff[i^x] {
					found = true
					break
				}
			}
		}
		if !found {
			return false
		}
		w.units[i] = x
		if o.junk == 2 {
			w.units[i] |= r.Uint32() & 0x7fffff00
		}
	}
	return true
}

func units32Bytes(u []uint32) []byte {
	b := make([]byte, 4+4*len(u))
	binary.LittleEndian.PutUint32(b, uint32(len(u)))
	for i, x := range u {
		binary.LittleEndian.PutUint32(b[4+4*i:], x)
	}
	return b
}

func guideBytes(g []guidePair) []byte {
	b := make([]byte, 4+2*len(g))
	binary.LittleEndian.PutUint32(b, uint32(len(g)))
	for i, x := range g {
		b[4+2*i], b[5+2*i] = x.child, x.sibling
	}
	return b
}
