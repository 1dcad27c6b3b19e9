package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"

	"github.com/deNULL/dawg"
)

// Lex is a sorted set of distinct keys (bytes 1..255) with values: the model
// that every monitor compares the library with.
type Lex struct {
	Spec string
	Keys []string
	Vals []int32
}

func (l *Lex) Len() int { return len(l.Keys) }

func (l *Lex) Sig() uint64 {
	h := uint64(14695981039346656037)
	for i, k := range l.Keys {
		for j := 0; j < len(k); j++ {
			h = (h ^ uint64(k[j])) * 1099511628211
		}
		h = (h ^ 256) * 1099511628211
		h = (h ^ uint64(uint32(l.Vals[i]))) * 1099511628211
	}
	return h
}

// Find returns the position of a key or -1.
func (l *Lex) Find(k string) int {
	i := sort.SearchStrings(l.Keys, k)
	if i < len(l.Keys) && l.Keys[i] == k {
		return i
	}
	return -1
}

// Range returns the half-open range of the keys that begin with p.
func (l *Lex) Range(p string) (int, int) {
	lo := sort.SearchStrings(l.Keys, p)
	hi := lo + sort.Search(len(l.Keys)-lo, func(i int) bool {
		k := l.Keys[lo+i]
		return !(len(k) >= len(p) && k[:len(p)] == p)
	})
	return lo, hi
}

// LongestPrefix returns how many bytes of q can be followed from the root.
func (l *Lex) LongestPrefix(q string) int {
	i := sort.SearchStrings(l.Keys, q)
	best := 0
	for _, j := range []int{i - 1, i} {
		if j >= 0 && j < len(l.Keys) {
			if n := lcp(l.Keys[j], q); n > best {
				best = n
			}
		}
	}
	return best
}

func lcp(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (l *Lex) Dump(max int) interface{} {
	out := []string{}
	for i, k := range l.Keys {
		if i >= max {
			out = append(out, fmt.Sprintf("... %d keys in all", len(l.Keys)))
			break
		}
		if len(k) > 300 {
			out = append(out, fmt.Sprintf("%s...(%d bytes)=%d", hex.EncodeToString([]byte(k[:300])), len(k), l.Vals[i]))
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", hex.EncodeToString([]byte(k)), l.Vals[i]))
	}
	return map[string]interface{}{"spec": l.Spec, "keys_hex_and_values": out}
}

// Node is a node of the key trie: keys [Lo,Hi) share the first Depth bytes.
type Node struct{ Lo, Hi, Depth int }

func (l *Lex) Prefix(n Node) string {
	if n.Hi == n.Lo {
		return ""
	}
	return l.Keys[n.Lo][:n.Depth]
}
func (l *Lex) Terminal(n Node) bool { return n.Hi > n.Lo && len(l.Keys[n.Lo]) == n.Depth }

// Children calls f for every child of a node, ascending.
func (l *Lex) Children(n Node, f func(label byte, ch Node)) {
	i := n.Lo
	if l.Terminal(n) {
		i++
	}
	for i < n.Hi {
		b := l.Keys[i][n.Depth]
		// exponential then binary search for the end of the group
		step, j := 1, i+1
		for j < n.Hi && l.Keys[j][n.Depth] == b {
			i2 := j
			j += step
			step *= 2
			_ = i2
		}
		if j > n.Hi {
			j = n.Hi
		}
		lo, hi := i+1, j
		for lo < hi {
			m := (lo + hi) / 2
			if l.Keys[m][n.Depth] == b {
				lo = m + 1
			} else {
				hi = m
			}
		}
		f(b, Node{i, lo, n.Depth + 1})
		i = lo
	}
}

func (l *Lex) Root() Node { return Node{0, len(l.Keys), 0} }

// SampleNodes returns up to max nodes of the trie: all of them if there are
// few enough, otherwise the root, and nodes on paths of random keys.
func (l *Lex) SampleNodes(r *rand.Rand, max int) []Node {
	var out []Node
	full := true
	var walk func(n Node)
	walk = func(n Node) {
		if len(out) >= max {
			full = false
			return
		}
		out = append(out, n)
		l.Children(n, func(_ byte, ch Node) {
			if full {
				walk(ch)
			}
		})
	}
	walk(l.Root())
	if full {
		return out
	}
	out = []Node{l.Root()}
	seen := map[Node]bool{l.Root(): true}
	for tries := 0; len(out) < max && tries < 4*max; tries++ {
		k := l.Keys[r.Intn(len(l.Keys))]
		d := 0
		if len(k) > 0 {
			switch r.Intn(3) {
			case 0:
				d = len(k)
			case 1:
				d = r.Intn(len(k) + 1)
			case 2:
				d = r.Intn(min(len(k), 4) + 1)
			}
		}
		lo, hi := l.Range(k[:d])
		n := Node{lo, hi, d}
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

// ---- keys --------------------------------------------------------------------

func dedup(keys []string) []string {
	sort.Strings(keys)
	out := keys[:0]
	for i, k := range keys {
		if i == 0 || k != keys[i-1] {
			out = append(out, k)
		}
	}
	return out
}

func randAlphabet(r *rand.Rand, n int) []byte {
	switch r.Intn(5) {
	case 0:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		return b
	case 1: // extremes
		ext := []byte{1, 255, 127, 128, 2, 254, 64, 63, 32, 192}
		return ext[:min(n, len(ext))]
	default:
		p := r.Perm(255)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(p[i%255] + 1)
		}
		return b
	}
}

func randStr(r *rand.Rand, alpha []byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

var allBytes = func() []byte {
	b := make([]byte, 255)
	for i := range b {
		b[i] = byte(i + 1)
	}
	return b
}()

var edgeLengths = []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8193}

var families = []string{"tiny2", "ab", "bytes", "fan", "fan2", "nest", "cross", "cross2", "words", "num", "utf8", "long", "dense", "three", "hi", "chain", "blocks", "tails", "comb"}

func genKeys(r *rand.Rand, fam string, n int) []string {
	var ks []string
	add := func(s string) { ks = append(ks, s) }
	switch fam {
	case "tiny2":
		a := randAlphabet(r, 2)
		for i := 0; i < n; i++ {
			add(randStr(r, a, r.Intn(4+bitsFor(n))))
		}
	case "ab":
		a := randAlphabet(r, 3+r.Intn(6))
		for i := 0; i < n; i++ {
			add(randStr(r, a, 1+r.Intn(3+bitsFor(n)/2)))
		}
	case "bytes":
		for i := 0; i < n; i++ {
			add(randStr(r, allBytes, r.Intn(10)))
		}
	case "fan": // few nodes with very many children
		for len(ks) < n {
			p := randStr(r, allBytes, r.Intn(4))
			miss := r.Intn(20)
			for b := 1; b < 256; b++ {
				if r.Intn(20) >= miss {
					add(p + string([]byte{byte(b)}))
				}
				if r.Intn(10) == 0 {
					add(p + string([]byte{byte(b)}) + randStr(r, allBytes, r.Intn(3)))
				}
			}
		}
	case "fan2": // two full levels
		w := 1 + n/255
		for b := 1; b < 256; b++ {
			add(string([]byte{byte(b)}))
			for j := 0; j < w; j++ {
				add(string([]byte{byte(b), byte(1 + r.Intn(255))}))
			}
		}
	case "nest": // keys that are prefixes of each other
		for len(ks) < n {
			m := 1 + r.Intn(min(200, n+1))
			s := randStr(r, randAlphabet(r, 1+r.Intn(4)), m)
			for i := 0; i <= m; i++ {
				if r.Intn(4) > 0 {
					add(s[:i])
				}
			}
		}
	case "cross": // prefixes x suffixes
		q := int(math.Sqrt(float64(n))) + 1
		a := randAlphabet(r, 2+r.Intn(20))
		var pre, suf []string
		for i := 0; i < q; i++ {
			pre = append(pre, randStr(r, a, 1+r.Intn(5)))
			suf = append(suf, randStr(r, a, r.Intn(6)))
		}
		for _, p := range pre {
			for _, s := range suf {
				add(p + s)
			}
		}
	case "cross2": // prefixes x a few suffix sets of varied shape
		a := randAlphabet(r, 3+r.Intn(30))
		var sets [][]string
		for i := 0; i < 6; i++ {
			var set []string
			for j := 0; j <= r.Intn(8); j++ {
				set = append(set, randStr(r, a, r.Intn(5)))
			}
			sets = append(sets, set)
		}
		for len(ks) < n {
			p := randStr(r, a, 1+r.Intn(6))
			for _, s := range sets[r.Intn(len(sets))] {
				add(p + s)
			}
		}
	case "words":
		syl := []string{"ba", "re", "in", "con", "tion", "ing", "ed", "er", "un", "ly", "a", "o", "st", "ment", "able", "s", "est", "pre", "ous", "th"}
		for i := 0; i < n; i++ {
			s := ""
			for j := 0; j <= r.Intn(5); j++ {
				s += syl[r.Intn(len(syl))]
			}
			add(s)
		}
	case "num":
		base := r.Intn(1000000)
		for i := 0; i < n; i++ {
			add(strconv.Itoa(base + i*(1+r.Intn(2))))
		}
	case "utf8":
		for i := 0; i < n; i++ {
			add(randText(r, 1+r.Intn(6)))
		}
	case "long":
		for i := 0; i < n && i < 40; i++ {
			m := edgeLengths[r.Intn(len(edgeLengths))]
			if len(ks) > 0 && r.Intn(2) == 0 {
				k := ks[r.Intn(len(ks))]
				cut := r.Intn(len(k) + 1)
				add(k[:cut] + randStr(r, allBytes, max(1, min(m, 300))))
			} else {
				add(randStr(r, allBytes, m))
			}
		}
	case "dense": // complete tree with holes
		a := randAlphabet(r, 2+r.Intn(3))
		depth := 1
		for t := len(a); t < n; t *= len(a) {
			depth++
		}
		hole := r.Intn(5)
		var rec func(s string)
		rec = func(s string) {
			if r.Intn(20) >= hole {
				add(s)
			}
			if len(s) < depth {
				for _, b := range a {
					rec(s + string([]byte{b}))
				}
			}
		}
		rec("")
	case "three":
		for i := 0; i < n; i++ {
			add(randStr(r, []byte("abcdefghijklmnopqrstuvwxyz"), 3))
		}
	case "hi":
		a := []byte{1, 2, 250, 251, 252, 253, 254, 255}
		for i := 0; i < n; i++ {
			add(randStr(r, a, 1+r.Intn(2+bitsFor(n)/2)))
		}
	case "chain": // long unary runs with shared tails
		tail := randStr(r, allBytes, 5+r.Intn(40))
		for i := 0; i < n; i++ {
			add(randStr(r, allBytes, 1+r.Intn(3)) + tail[r.Intn(len(tail)):])
		}
	case "blocks": // random keys sized to cross block boundaries of the array
		m := 4 + r.Intn(4)
		for i := 0; i < n; i++ {
			add(randStr(r, allBytes, m))
		}
	case "tails": // long tails shared by several heads, with keys ending inside them
		for len(ks) < n {
			m := edgeLengths[r.Intn(len(edgeLengths)-12)]
			tail := randStr(r, randAlphabet(r, 1+r.Intn(200)), m)
			heads := randStr(r, allBytes, 2+r.Intn(4))
			cut := r.Intn(m)
			for i := 0; i < len(heads); i++ {
				add(heads[i:i+1] + tail)
				if cut%3 > 0 {
					add(heads[i:i+1] + tail[:cut])
				}
				if cut%3 == 1 {
					add(heads[i:i+1] + tail[:cut] + "\x01")
				}
			}
			n -= m / 8 // long ones cost more
		}
	case "comb": // a deep path with many branches on each level, mostly before it
		d := 2 + r.Intn(min(300, 2+n/8))
		spine := ""
		for i := 0; i < d; i++ {
			m := max(1, n/d)
			top := byte(255)
			if r.Intn(4) == 0 {
				top = byte(1 + r.Intn(255))
			}
			for j := 0; j < m; j++ {
				add(spine + string([]byte{byte(1 + r.Intn(255))}))
			}
			spine += string([]byte{top})
		}
		add(spine)
	default:
		panic("family " + fam)
	}
	if r.Intn(3) == 0 {
		add("")
	}
	return dedup(ks)
}

func bitsFor(n int) int {
	b := 0
	for n > 0 {
		b++
		n >>= 1
	}
	return b
}

// ---- values --------------------------------------------------------------------

var valueModes = []string{"zero", "const", "seq", "rev", "rand", "low", "edge", "small", "suffix", "pow2", "leafy", "mix"}

var edgeVals = []int32{0, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1 << 20, 1<<21 - 1, 1 << 21, 1<<21 + 1, 1 << 24, 1<<29 - 1, 1 << 29, 1<<30 - 1, 1 << 30, 1<<30 + 1, math.MaxInt32 - 1, math.MaxInt32}

func genVals(r *rand.Rand, mode string, keys []string) []int32 {
	v := make([]int32, len(keys))
	cst := edgeVals[r.Intn(len(edgeVals))]
	perm := r.Perm(len(keys))
	for i, k := range keys {
		switch mode {
		case "zero":
		case "const":
			v[i] = cst
		case "seq":
			v[i] = int32(i)
		case "rev":
			v[i] = int32(len(keys) - i)
		case "rand":
			v[i] = r.Int31()
		case "low": // low byte equal to a label in use, so that a leaf looks like a node
			b := byte(r.Intn(256))
			if len(k) > 0 {
				b = k[r.Intn(len(k))]
			}
			v[i] = int32(b) | r.Int31()&^0xff
		case "edge":
			v[i] = edgeVals[r.Intn(len(edgeVals))]
		case "small":
			v[i] = int32(r.Intn(4))
		case "suffix": // function of the last bytes, so that suffixes merge
			h := int32(0)
			for j := max(0, len(k)-2); j < len(k); j++ {
				h = h*31 + int32(k[j])
			}
			v[i] = h & 0x7fffffff
		case "pow2":
			v[i] = int32(1) << uint(r.Intn(31))
		case "leafy": // small numbers with bit 8 set: such a leaf seems to have a leaf of its own
			v[i] = int32(0x100 | r.Intn(256) | r.Intn(8)<<10)
		case "mix":
			switch r.Intn(4) {
			case 0:
				v[i] = int32(perm[i])
			case 1:
				v[i] = edgeVals[r.Intn(len(edgeVals))]
			case 2:
				v[i] = int32(r.Intn(10))
			case 3:
				v[i] = r.Int31()
			}
		default:
			panic("value mode " + mode)
		}
	}
	return v
}

func genLex(r *rand.Rand, fam string, n int, vmode string) *Lex {
	keys := genKeys(r, fam, n)
	return &Lex{Spec: fmt.Sprintf("%s n=%d values=%s", fam, n, vmode), Keys: keys, Vals: genVals(r, vmode, keys)}
}

func randLex(r *rand.Rand, n int) *Lex {
	return genLex(r, families[r.Intn(len(families))], n, valueModes[r.Intn(len(valueModes))])
}

// subsetLex is subset number m of a universe of strings.
func subsetLex(universe []string, m uint64, vals func(i int, k string) int32) *Lex {
	l := &Lex{Spec: fmt.Sprintf("subset %d", m)}
	for i, s := range universe {
		if m>>uint(i)&1 != 0 {
			l.Keys = append(l.Keys, s)
			l.Vals = append(l.Vals, vals(i, s))
		}
	}
	return l
}

// universe returns all strings over the alphabet of length up to depth, sorted.
func universe(alpha []byte, depth int) []string {
	out := []string{""}
	level := []string{""}
	for d := 0; d < depth; d++ {
		var nl []string
		for _, s := range level {
			for _, b := range alpha {
				nl = append(nl, s+string([]byte{b}))
			}
		}
		out = append(out, nl...)
		level = nl
	}
	sort.Strings(out)
	return out
}

// bigLex has more than 2^21 array units, so that offsets need the extension.
func bigLex(r *rand.Rand, variant int) *Lex {
	var ks []string
	switch variant {
	case 0: // no sharing, distinct values
		for i := 0; i < 290000; i++ {
			ks = append(ks, randStr(r, allBytes, 10))
		}
		ks = dedup(ks)
		return &Lex{"big/distinct", ks, genVals(r, "seq", ks)}
	case 3: // nodes that fill whole blocks: far parents meet an array without a free unit
		add := func(p string, deep bool) {
			ks = append(ks, p)
			for b := 1; b < 256; b++ {
				q := p + string([]byte{byte(b)})
				ks = append(ks, q)
				for c := 1; deep && c < 256; c++ {
					ks = append(ks, q+string([]byte{byte(c)}))
				}
			}
		}
		for a := 1; a < 256; a++ {
			p := string([]byte{byte(a)})
			if a > 17 && r.Intn(3) == 0 {
				ks = append(ks, p+randStr(r, allBytes, r.Intn(3)))
				continue
			}
			add(p, a <= 17)
		}
		ks = dedup(ks)
		return &Lex{"big/full blocks", ks, genVals(r, "seq", ks)}
	case 4, 5, 6, 7: // beyond 2^22 units, up to 2^25
		for i := 0; i < 600000<<uint(variant-4); i++ {
			ks = append(ks, randStr(r, allBytes, 10))
		}
		ks = dedup(ks)
		return &Lex{fmt.Sprintf("big/over 2^%d", 18+variant), ks, genVals(r, "seq", ks)}
	case 2: // children of the root placed where the array reaches 2^21 units
		return edgeLex(r)
	default: // shared suffixes at distances beyond 2^21 units
		var suf []string
		for i := 0; i < 400; i++ {
			suf = append(suf, randStr(r, allBytes, 2+r.Intn(4)))
		}
		for i := 0; i < 480000; i++ {
			p := randStr(r, allBytes, 8)
			ks = append(ks, p+suf[r.Intn(len(suf))])
			if r.Intn(10) == 0 {
				ks = append(ks, p)
			}
			if r.Intn(16) == 0 { // sharing right below the root
				q := randStr(r, allBytes, 1+r.Intn(2))
				for j := 0; j < 3; j++ {
					ks = append(ks, q+suf[r.Intn(len(suf))])
				}
			}
		}
		ks = dedup(ks)
		return &Lex{"big/shared", ks, genVals(r, "suffix", ks)}
	}
}

// wasteLex has many nodes that need more than half a block each and share the
// state below them, so that more than 2^16 units of the array stay unused.
func wasteLex(r *rand.Rand) *Lex {
	var ks []string
	for i := 0; i < 900; i++ {
		p := randStr(r, allBytes, 2)
		for j := 0; j < 180; j++ {
			ks = append(ks, p+string([]byte{allBytes[r.Intn(len(allBytes))]}))
		}
	}
	ks = dedup(ks)
	return &Lex{"waste", ks, genVals(r, "zero", ks)}
}

// edgeLex is a key set whose first subtree fills the array almost up to 2^21
// units, so that later children of the root have offsets of just about 2^21.
func edgeLex(r *rand.Rand) *Lex {
	var all []string
	for i := 0; i < 420000; i++ {
		all = append(all, "\x01"+randStr(r, allBytes, 6))
	}
	var small []string
	for b := 2; b < 256; b++ {
		p := string([]byte{byte(b)})
		for i := 0; i < 12; i++ {
			small = append(small, p+randStr(r, allBytes, 1+r.Intn(3)))
		}
	}
	size := func(n int) int {
		b, d := dawg.NewDawgBuilder(), dawg.NewDawg()
		ks := append([]string(nil), all[:n]...)
		for i, k := range dedup(ks) {
			b.InsertStringValue(k, int32(i))
		}
		b.Finish(d)
		return d.Build().Size()
	}
	const target = 1<<21 - 12*256
	n, best := 340000, 340000
	for i := 0; i < 4; i++ {
		s := size(n)
		best = n
		if s > target-8*256 && s <= target {
			break
		}
		n = min(len(all), max(1000, int(float64(n)*float64(target-4*256)/float64(max(s, 1)))))
	}
	ks := dedup(append(small, all[:best]...))
	return &Lex{"big/edge", ks, genVals(r, "seq", ks)}
}

// ---- text --------------------------------------------------------------------

var scripts = [][2]rune{
	{0x20, 0x7e}, {0x41, 0x5a}, {0x61, 0x7a}, {0x30, 0x39}, {0xa0, 0xff}, {0x100, 0x17f}, {0x180, 0x2ff}, {0x300, 0x36f}, {0x370, 0x3ff},
	{0x400, 0x44f}, {0x410, 0x44f}, {0x450, 0x52f}, {0x531, 0x58f}, {0x590, 0x5ff}, {0x600, 0x6ff}, {0x700, 0x74f}, {0x900, 0x97f}, {0x980, 0x9ff},
	{0xa00, 0xa7f}, {0xa80, 0xaff}, {0xb00, 0xb7f}, {0xb80, 0xbff}, {0xc00, 0xc7f}, {0xc80, 0xcff}, {0xd00, 0xd7f}, {0xd80, 0xdff}, {0xe00, 0xe7f}, {0xe80, 0xeff}, {0xf00, 0xfff},
	{0x1000, 0x109f}, {0x10a0, 0x10ff}, {0x1100, 0x11ff}, {0x1200, 0x137f}, {0x13a0, 0x13ff}, {0x1400, 0x167f}, {0x1800, 0x18af}, {0x1e00, 0x1fff},
	{0x2000, 0x206f}, {0x20a0, 0x20cf}, {0x2190, 0x21ff}, {0x2200, 0x25ff}, {0x2600, 0x26ff}, {0x2700, 0x2bff}, {0x2e80, 0x2fff},
	{0x3000, 0x303f}, {0x3040, 0x309f}, {0x30a0, 0x30ff}, {0x3100, 0x33ff}, {0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xa000, 0xa4cf}, {0xa500, 0xa6ff}, {0xac00, 0xd7a3},
	{0xe000, 0xf8ff}, {0xf900, 0xfaff}, {0xfb00, 0xfdff}, {0xfe00, 0xfe0f}, {0xfe10, 0xfe6f}, {0xff00, 0xffef}, {0xfff0, 0xffff},
	{0x10000, 0x100ff}, {0x12000, 0x123ff}, {0x12600, 0x12700}, {0x1d400, 0x1d7ff}, {0x1f300, 0x1f5ef}, {0x1f5f0, 0x1f6ff}, {0x1f900, 0x1faff}, {0x20000, 0x2a6df}, {0x2a600, 0x2ebef}, {0x30000, 0x3134a}, {0xe0000, 0xe007f}, {0xf0000, 0xffffd}, {0x100000, 0x10ffff},
}

func validRune(c rune) bool { return c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff) }

func randRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.Intn(10) {
		case 0:
			c = rune(r.Intn(0x110000))
		case 1:
			c = rune(r.Intn(0x3200))
		case 2: // boundaries
			c = boundaryRunes[r.Intn(len(boundaryRunes))]
		default:
			s := scripts[r.Intn(len(scripts))]
			c = s[0] + rune(r.Intn(int(s[1]-s[0]+1)))
		}
		if validRune(c) && c != 0 {
			return c
		}
	}
}

// randText is text that stays in one or two scripts for a while, without NUL.
func randText(r *rand.Rand, n int) string {
	out := make([]rune, 0, n)
	cur := []int{r.Intn(len(scripts)), r.Intn(len(scripts)), 0}
	for len(out) < n {
		var c rune
		switch r.Intn(12) {
		case 0:
			c = randRune(r)
		case 1:
			cur[r.Intn(2)] = r.Intn(len(scripts))
			continue
		case 2:
			c = rune(0x20 + r.Intn(0x5f))
		default:
			s := scripts[cur[r.Intn(2)]]
			c = s[0] + rune(r.Intn(int(s[1]-s[0]+1)))
		}
		if validRune(c) && c != 0 {
			out = append(out, c)
		}
	}
	return string(out)
}

// boundaryRunes are the first and last code points of windows of every width,
// the edges of special ranges, and their neighbours.
var boundaryRunes = func() []rune {
	m := map[rune]bool{}
	add := func(c rune) {
		for d := rune(-1); d <= 1; d++ {
			if validRune(c + d) {
				m[c+d] = true
			}
		}
	}
	for c := rune(0); c <= 0x3200; c += 0x80 {
		add(c)
	}
	for c := rune(0); c <= 0x2800; c += 0x100 {
		add(c)
	}
	for c := rune(0); c <= 0x110000; c += 0x8000 {
		add(c)
		add(c + 0x2600)
		add(c + 0x2600 + 0x100)
	}
	for c := rune(0); c <= 0x110000; c += 0x10000 {
		add(c)
		add(c + 0x2600)
		add(c + 0x2600 + 0x100)
	}
	for _, s := range scripts {
		add(s[0])
		add(s[1] + 1)
		add(s[0] + 0x40)
	}
	for _, c := range []rune{0x20, 0x2d, 0x30, 0x3a, 0x41, 0x5b, 0x61, 0x7b, 0x7f, 0x2fe, 0x2ff, 0x300, 0x410, 0x44f, 0x450, 0x2600, 0xa600, 0xfe00, 0xfe10, 0x1f300, 0x1f5f0, 0x10ffff, 0xc0, 0xff, 0xbb, 0xbf} {
		add(c)
	}
	out := make([]rune, 0, len(m))
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}()
