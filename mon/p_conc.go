package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C16", Level: "exploration", Race: true, Serial: true,
		Rule:  "rounds of 4 to 24 goroutines released together onto shared fresh objects, each running its own random sequence of operations under the race detector, with 2, 3, 4 or 8 processors and random yields; every result is compared with the model; non-trivial: a round in which operations of different goroutines overlapped in time; also rounds of 4 goroutines over objects of more than 65,536 units and texts of up to 65,536 code points; one round over a dictionary of more than 2^21 units; also fresh processes in which the very first calls of the library happen in 6 to 12 goroutines at once; distinct: sets of pairs of operation kinds that overlapped, and rounds",
		Cases: casesC16, MinObserved: map[string]int64{"rounds": 100, "operations": 40000, "overlapping operations": 1000, "distinct overlapping pairs of kinds": 20,
			"concurrent builds from one automaton": 500, "concurrent encodings": 10000, "concurrent completions": 2000, "cold processes": 80, "rounds over more than 65536 units": 3, "concurrent uses of more than 2^21 units": 6}})
}

func casesC16(tier string) []Case {
	n := 115
	if tier == "thorough" {
		n = 6000
	}
	var out []Case
	cold := 12
	if tier == "thorough" {
		cold = 200
	}
	for i := 0; i < cold; i++ {
		out = append(out, Case{fmt.Sprintf("cold/%d", i), coldProcesses})
	}
	for i := 0; i < n; i++ {
		i := i
		out = append(out, Case{fmt.Sprintf("round/%d", i), func(c *Ctx) { concRound(c, i, false) }})
	}
	huge := 1
	if tier == "thorough" {
		huge = 10
	}
	for i := 0; i < huge; i++ {
		out = append(out, Case{fmt.Sprintf("huge/%d", i), concHuge})
	}
	large := 6
	if tier == "thorough" {
		large = 80
	}
	for i := 0; i < large; i++ {
		i := i
		out = append(out, Case{fmt.Sprintf("large/%d", i), func(c *Ctx) { concRound(c, i, true) }})
	}
	return out
}

type opEvent struct {
	kind       int
	start, end int64
}

var opKinds = []string{"lookup", "navigate", "complete", "complete ranked", "number", "number over a ranked guide", "write", "build dictionary", "build guides", "build index", "own build", "encode", "decode", "stream", "incremental encode", "walk automaton", "read", "build ranked guide with another order", "explicit builders", "clear own objects", "sizes and counts", "refused operations"}

// concRound: goroutines share fresh objects; nothing the monitor does between
// the release and the join orders them (no atomics, locks or channels), so the
// race detector sees the library's accesses unordered.
func concRound(c *Ctx, round int, large bool) {
	c.Detail(nil)
	procs := []int{8, 4, 2, 3, 8}[round%5]
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)

	size := []int{3, 20, 60, 300, 1200}[c.R.Intn(5)]
	var l *Lex
	if large { // objects of more than 2^16 units
		l = genLex(c.R, concFamilies[round%len(concFamilies)], 40000, "rand")
	} else if round%10 == 9 {
		l = &Lex{Spec: "empty"}
	} else {
		l = randLex(c.R, 1+c.R.Intn(size))
	}
	c.Detail(func() interface{} { return l.Dump(200) })

	// Single-threaded reference from separate objects.
	rd := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), l, rd)
	ref, _ := productOf(c, rd)
	refPrint := ""
	if len(l.Keys) < 400 {
		refPrint = dawgPrint(rd)
	}
	nt := 30
	texts := make([]string, nt)
	encs := make([][]byte, nt)
	for i := range texts {
		n := 1 + c.R.Intn(30)
		if i%10 == 9 {
			n = 1 << uint(5+c.R.Intn(6))
		}
		if large && i%5 == 4 {
			n = 1 << uint(10+c.R.Intn(7))
		}
		texts[i] = hostileText(c.R, n)
		encs[i] = append([]byte{}, dawg.UtfcEncode(texts[i])...)
		if dawg.UtfcDecode(encs[i]) != texts[i] {
			c.Fail("%+q is not decoded to itself", texts[i])
		}
	}

	// Fresh shared objects: nothing has used them before the release.
	sd := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), l, sd)
	var dict *dawg.Dictionary
	var g *dawg.Guide
	var rg *dawg.RankedGuide
	var ix, rix *dawg.Index
	if c.R.Intn(2) == 0 {
		dict = sd.Build()
		g = dawg.BuildGuide(sd, dict)
		rg = dawg.BuildRankedGuide(sd, dict)
		ix = dawg.BuildIndex(dict, g)
		rix = dawg.BuildIndex(dict, rg)
	} else { // loaded
		dict = dawg.ReadDictionary(bytes.NewReader(ref.dict))
		g = dawg.ReadGuide(bytes.NewReader(ref.guide))
		rg = dawg.ReadRankedGuide(bytes.NewReader(ref.ranked))
		ix = dawg.ReadIndex(bytes.NewReader(ref.index))
		rix = dawg.ReadIndex(bytes.NewReader(ref.rindex))
	}
	if dict == nil || g == nil || rg == nil || ix == nil || rix == nil {
		c.Fail("not built")
	}
	x := dawg.NewIndexer(dict, g, ix)
	rx := dawg.NewIndexer(dict, rg, rix)

	G := 4 + c.R.Intn(21)
	ops := 40
	if c.Thorough() {
		ops = 120
	}
	if large {
		G, ops = 4, 16
		if dictUnits := (len(ref.dict) - 4) / 4; dictUnits > 1<<16 {
			c.Obs("rounds over more than 65536 units", 1)
		}
	}
	// Some rounds concentrate on few kinds.
	kinds := make([]int, 0, len(opKinds))
	for k := range opKinds {
		kinds = append(kinds, k)
	}
	if round%2 == 0 && !large {
		c.R.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		kinds = kinds[:1+c.R.Intn(4)]
	}
	subs := make([]*Ctx, G)
	events := make([][]opEvent, G)
	fails := make([]string, G)
	release := make(chan struct{})
	var wg sync.WaitGroup
	for gi := 0; gi < G; gi++ {
		sub := &Ctx{R: rand.New(rand.NewSource(c.R.Int63())), Tier: "quick", Name: c.Name, seen: map[uint64]struct{}{}, obs: map[string]int64{}}
		subs[gi] = sub
		wg.Add(1)
		go func(gi int, c *Ctx) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(violation); ok {
						fails[gi] = v.msg
					} else {
						buf := make([]byte, 4000)
						fails[gi] = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
					}
				}
			}()
			<-release
			var own own
			for i := 0; i < ops; i++ {
				k := kinds[c.R.Intn(len(kinds))]
				t0 := time.Now()
				concOp(c, &own, k, l, sd, dict, g, rg, ix, x, rx, ref, refPrint, texts, encs)
				events[gi] = append(events[gi], opEvent{k, t0.UnixNano(), time.Now().UnixNano()})
				if c.R.Intn(8) == 0 {
					runtime.Gosched()
				}
			}
		}(gi, sub)
	}
	close(release)
	wg.Wait()
	for gi := range fails {
		if fails[gi] != "" {
			c.Fail("with %d goroutines: %s", G, fails[gi])
		}
	}
	// Offline: which operations overlapped?
	type ev struct {
		opEvent
		g int
	}
	var all []ev
	for gi := range events {
		for _, e := range events[gi] {
			all = append(all, ev{e, gi})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
	pairs := map[[2]int]bool{}
	over := 0
	for i := range all {
		hit := false
		for j := i + 1; j < len(all) && all[j].start < all[i].end && j < i+64; j++ {
			if all[j].g != all[i].g {
				a, b := all[i].kind, all[j].kind
				if a > b {
					a, b = b, a
				}
				pairs[[2]int{a, b}] = true
				hit = true
			}
		}
		if hit {
			over++
		}
	}
	h := uint64(14695981039346656037)
	var ps [][2]int
	for p := range pairs {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0]*100+ps[i][1] < ps[j][0]*100+ps[j][1] })
	concMu.Lock()
	for _, p := range ps {
		h = (h ^ uint64(p[0]*100+p[1])) * 1099511628211
		if !concPairs[p] {
			concPairs[p] = true
			c.Obs("distinct overlapping pairs of kinds", 1)
		}
	}
	concMu.Unlock()
	if over > 0 {
		c.Seen(h ^ uint64(round)<<40)
		c.Obs("rounds with overlap", 1)
	}
	c.Obs("rounds", 1)
	c.Obs("goroutines", G)
	c.Obs("operations", len(all))
	c.Obs("overlapping operations", over)
	for _, s := range subs {
		c.Eval(int(s.eval))
		for k, v := range s.obs {
			c.Obs(k, int(v))
		}
	}
	c.Eval(len(all))
	if len(c.samples) == 0 && len(ps) > 0 {
		var names []string
		for i, p := range ps {
			if i == 8 {
				break
			}
			names = append(names, opKinds[p[0]]+" | "+opKinds[p[1]])
		}
		c.Sample(map[string]interface{}{"goroutines": G, "processors": procs, "keys": len(l.Keys), "operations": len(all), "overlapping": over, "pairs": names})
	}
}

var concFamilies = []string{"bytes", "words", "num", "utf8"}

var concMu sync.Mutex
var concPairs = map[[2]int]bool{}

// own is what a goroutine keeps to itself from one operation to the next.
type own struct {
	cus     [2][]*cursor
	builder *dawg.DawgBuilder
	dict    *dawg.Dictionary
	g       *dawg.Guide
	ix      *dawg.Index
	st      *dawg.UtfcState
	rg      *dawg.RankedGuide
	dawg    *dawg.Dawg
}

func concOp(c *Ctx, own *own, kind int, l *Lex, sd *dawg.Dawg, dict *dawg.Dictionary, g *dawg.Guide, rg *dawg.RankedGuide, ix *dawg.Index, x, rx *dawg.Indexer, ref *product, refPrint string, texts []string, encs [][]byte) {
	c.note = func() string { return opKinds[kind] }
	N := len(l.Keys)
	key := func() string {
		if N == 0 || c.R.Intn(3) == 0 {
			return nearQuery(c.R, l)
		}
		return l.Keys[c.R.Intn(N)]
	}
	switch kind {
	case 0:
		for i := 0; i < 10; i++ {
			lookupAll(c, l, dict, key())
		}
	case 1:
		for i := 0; i < 6; i++ {
			q := key()
			can := l.LongestPrefix(q)
			followCheck(c, l, dict, q, c.R.Intn(can+1), can)
		}
	case 2, 3:
		n := Node{0, N, 0}
		if N > 0 && c.R.Intn(4) > 0 {
			k := l.Keys[c.R.Intn(N)]
			d := c.R.Intn(len(k) + 1)
			lo, hi := l.Range(k[:d])
			n = Node{lo, hi, d}
		}
		var cp completer
		if kind == 2 {
			cp = dawg.NewCompleter(dict, g)
		} else {
			cp = dawg.NewRankedCompleter(dict, rg)
		}
		s := startAt(c, cp, dict, l.Prefix(n))
		limit := -1
		if n.Hi-n.Lo > 200 && (N < 20000 || c.R.Intn(3) > 0) {
			limit = 100
		}
		drain(c, cp, l, n, s, limit, kind == 2, kind == 3)
		if c.R.Intn(2) == 0 { // again with the used one
			s = startAt(c, cp, dict, l.Prefix(n))
			drain(c, cp, l, n, s, limit, kind == 2, kind == 3)
		}
		// and a few steps with completers kept from earlier
		cus := &own.cus[kind-2]
		if len(*cus) < 3 {
			*cus = append(*cus, &cursor{cp: cp, d: dict, l: l, ordered: kind == 2, falling: kind == 3})
		}
		for t := 0; t < 25; t++ {
			cu := (*cus)[c.R.Intn(len(*cus))]
			if !cu.begun || c.R.Intn(20) == 0 || !cu.step(c) {
				cu.restart(c, cu.randomNode(c))
			}
		}
		c.Obs("concurrent completions", 1)
	case 4, 5:
		xx := x
		if kind == 5 {
			xx = rx
		}
		if int(xx.TotalCount()) != N {
			c.Fail("total count %d, want %d", xx.TotalCount(), N)
		}
		for i := 0; i < 8; i++ {
			q := key()
			j := l.Find(q)
			num := xx.StringToIndex(q)
			if (j >= 0) != (num != dawg.NotFound) || (j >= 0 && int(num) >= N) || (j >= 0 && kind == 4 && int(num) != j) {
				c.Fail("number of %s is %d, its rank is %d of %d", show(q), num, j, N)
			}
			if j >= 0 && string(xx.IndexToBytes(num)) != q {
				c.Fail("number %d yields %s, want %s", num, show(string(xx.IndexToBytes(num))), show(q))
			}
		}
	case 6:
		for k, o := range []object{dict, g, rg, ix} {
			if !bytes.Equal(written(c, o), [][]byte{ref.dict, ref.guide, ref.ranked, ref.index}[k]) {
				c.Fail("the %s written while others use it differs", kindNames[k])
			}
		}
		if !dict.Write(io.Discard) {
			c.Fail("writing failed")
		}
	case 7:
		var unused uint32
		d := sd.BuildWithUnused(&unused)
		if d == nil || unused != ref.unused || !bytes.Equal(written(c, d), ref.dict) {
			c.Fail("a dictionary built while others build from the same automaton differs")
		}
		c.Obs("concurrent builds from one automaton", 1)
	case 8:
		ng := dawg.BuildGuide(sd, dict)
		nr := dawg.BuildRankedGuide(sd, dict)
		if ng == nil || nr == nil || !bytes.Equal(written(c, ng), ref.guide) || !bytes.Equal(written(c, nr), ref.ranked) {
			c.Fail("guides built while others build from the same automaton differ")
		}
		c.Obs("concurrent builds from one automaton", 1)
	case 9:
		a, b := dawg.BuildIndex(dict, g), dawg.BuildIndex(dict, rg)
		if a == nil || b == nil || !bytes.Equal(written(c, a), ref.index) || !bytes.Equal(written(c, b), ref.rindex) {
			c.Fail("indexes built at the same time differ")
		}
	case 10:
		ol := l
		if c.R.Intn(3) == 0 || len(l.Keys) > 500 && (len(l.Keys) < 20000 || c.R.Intn(2) == 0) {
			ol = randLex(c.R, 1+c.R.Intn(40))
		}
		if own.builder == nil || c.R.Intn(3) == 0 {
			own.builder = dawg.NewDawgBuilder()
		}
		d := dawg.NewDawg()
		buildDawg(c, own.builder, ol, d)
		nd := d.Build()
		if nd == nil {
			c.Fail("dictionary not built")
		}
		if ol == l && !bytes.Equal(written(c, nd), ref.dict) {
			c.Fail("a build that ran beside others differs")
		}
		verifyLookups(c, ol, nd, 0)
	case 11:
		for i := 0; i < 10; i++ {
			k := c.R.Intn(len(texts))
			if i == 9 { // a long one
				k = 9
			}
			if e := dawg.UtfcEncode(texts[k]); !bytes.Equal(e, encs[k]) {
				c.Fail("%+q encoded beside other encodings as % x, want % x", texts[k], e, encs[k])
			}
		}
		c.Obs("concurrent encodings", 10)
	case 12:
		for i := 0; i < 10; i++ {
			k := c.R.Intn(len(texts))
			if s := dawg.UtfcDecode(encs[k]); s != texts[k] {
				c.Fail("% x decoded beside others as %+q, want %+q", encs[k], s, texts[k])
			}
		}
	case 13:
		k := c.R.Intn(len(texts))
		s := &sink{refuse: -1}
		if !dawg.UtfcFollow(texts[k], s) || !bytes.Equal(s.got, encs[k]) {
			c.Fail("%+q streamed beside others as % x, want % x", texts[k], s.got, encs[k])
		}
		if len(encs[k]) > 0 {
			s = &sink{refuse: c.R.Intn(len(encs[k]))}
			if dawg.UtfcFollow(texts[k], s) || !bytes.Equal(s.got, encs[k][:s.refuse+1]) {
				c.Fail("%+q streamed until byte %d beside others as % x, want % x", texts[k], s.refuse, s.got, encs[k])
			}
		}
	case 14:
		k := c.R.Intn(len(texts))
		if own.st == nil {
			own.st = dawg.NewUtfcState()
		}
		st := own.st
		st.Clear()
		cp := dawg.NewUtfcState()
		s := &sink{refuse: -1}
		for _, r := range texts[k] {
			st.Follow(r, s)
			cp.Copy(st)
		}
		if !bytes.Equal(s.got, encs[k]) {
			c.Fail("%+q encoded incrementally beside others as % x, want % x", texts[k], s.got, encs[k])
		}
	case 15:
		if statsOf(sd) != ref.st {
			c.Fail("statistics of a shared automaton: %v, want %v", statsOf(sd), ref.st)
		}
		if refPrint != "" && dawgPrint(sd) != refPrint {
			c.Fail("a shared automaton has changed")
		}
	case 16:
		d := dawg.ReadDictionary(bytes.NewReader(ref.dict))
		gg := dawg.ReadGuide(bytes.NewReader(ref.guide))
		ii := dawg.ReadIndex(bytes.NewReader(ref.index))
		if d == nil || gg == nil || ii == nil || !bytes.Equal(written(c, d), ref.dict) || !bytes.Equal(written(c, gg), ref.guide) || !bytes.Equal(written(c, ii), ref.index) {
			c.Fail("objects read beside others differ")
		}
		if own.dict != nil && (!own.dict.Read(bytes.NewReader(ref.dict)) || !own.g.Read(bytes.NewReader(ref.guide)) || !own.ix.Read(bytes.NewReader(ref.index)) ||
			!bytes.Equal(written(c, own.dict), ref.dict) || !bytes.Equal(written(c, own.g), ref.guide) || !bytes.Equal(written(c, own.ix), ref.index)) {
			c.Fail("objects read again beside others differ")
		}
		own.dict, own.g, own.ix = d, gg, ii
	case 17:
		cmp, _ := orderFunc(c)
		og := dawg.BuildRankedGuideCmp(sd, dict, cmp)
		if og == nil {
			c.Fail("ranked guide with another value order not built")
		}
		if N < 300 {
			cp := dawg.NewRankedCompleter(dict, og)
			cp.Start(dict.Root())
			drain(c, cp, l, Node{0, N, 0}, "", -1, false, false)
		}
		c.Obs("concurrent builds from one automaton", 1)
	case 18: // explicit builders, into own receivers
		if own.dict == nil {
			own.dict, own.g, own.ix = dawg.NewDictionary(), dawg.NewGuide(), dawg.NewIndex()
		}
		db := dawg.NewDictionaryBuilder(sd, own.dict)
		if !db.BuildDictionary() || !bytes.Equal(written(c, own.dict), ref.dict) {
			c.Fail("a dictionary of an explicit builder beside others differs")
		}
		gb := dawg.NewGuideBuilder(sd, own.dict, own.g)
		if !gb.Build() || !bytes.Equal(written(c, own.g), ref.guide) {
			c.Fail("a guide of an explicit builder beside others differs")
		}
		ib := dawg.NewIndexBuilder(own.dict, own.g, own.ix)
		if !ib.Build() || !bytes.Equal(written(c, own.ix), ref.index) {
			c.Fail("an index of an explicit builder beside others differs")
		}
		c.Obs("concurrent builds from one automaton", 1)
	case 19: // own automata, guides and builders of all sizes, cleared
		if own.g == nil {
			own.g = dawg.NewGuide()
		}
		if own.rg == nil {
			own.rg = dawg.NewRankedGuide()
		}
		if own.dawg == nil {
			own.dawg = dawg.NewDawg()
		}
		own.g.Clear()
		cleared(c, own.g)
		own.rg.Clear()
		cleared(c, own.rg)
		if !own.rg.Read(bytes.NewReader(ref.ranked)) || !own.g.Read(bytes.NewReader(ref.guide)) || !bytes.Equal(written(c, own.rg), ref.ranked) || !bytes.Equal(written(c, own.g), ref.guide) {
			c.Fail("guides read beside others after clearing differ")
		}
		own.dawg.Clear()
		if statsOf(own.dawg) != statsOf(dawg.NewDawg()) {
			c.Fail("statistics of an own automaton cleared beside others: %v", statsOf(own.dawg))
		}
		ol := randLex(c.R, 1+c.R.Intn(30))
		buildDawg(c, dawg.NewDawgBuilderWithSize(1+c.R.Intn(50)), ol, own.dawg)
		verifyLookups(c, ol, own.dawg.Build(), 0)
		if nr := dawg.ReadRankedGuide(bytes.NewReader(ref.ranked)); nr == nil || !bytes.Equal(written(c, nr), ref.ranked) {
			c.Fail("a ranked guide read beside others differs")
		}
	case 20:
		for k, o := range []object{dict, g, rg, ix} {
			w := [][]byte{ref.dict, ref.guide, ref.ranked, ref.index}[k]
			if o.FileSize() != len(w) || o.TotalSize() != len(w)-4 {
				c.Fail("the %s has file size %d and total size %d beside others, want %d", kindNames[k], o.FileSize(), o.TotalSize(), len(w))
			}
		}
		if g.Size() > 0 {
			for i := 0; i < 8; i++ {
				q := key()
				idx := dict.Root()
				n := 0
				dict.FollowStringCount(q, &idx, &n)
				lo, hi := l.Range(q[:n])
				if int(ix.ChildCount(idx)) != hi-lo {
					c.Fail("%d keys below %s, want %d", ix.ChildCount(idx), show(q[:n]), hi-lo)
				}
				for _, xx := range []*dawg.Indexer{x, rx} {
					num := xx.BytesToIndex([]byte(q))
					if j := l.Find(q); (j >= 0) != (num != dawg.NotFound) || j >= 0 && xx.IndexToString(num) != q {
						c.Fail("number of %s is %d and yields %s", show(q), num, show(xx.IndexToString(num)))
					}
				}
			}
		}
	case 21: // refused keys, cut files and failing writers, in own objects
		b := dawg.NewDawgBuilder()
		d := dawg.NewDawg()
		if !b.InsertStringValue("m", 7) || b.InsertStringValue("a", 1) || b.InsertStringValue("n", -1) || b.InsertString("m\x00") || !b.InsertKeyValue([]byte("mm\xffrest"), 3, 5) {
			c.Fail("insertions beside others")
		}
		b.Finish(d)
		nd := d.Build()
		if nd == nil || nd.FindString("m") != 7 || nd.FindString("mm\xff") != 5 || nd.FindString("a") != -1 || nd.FindString("n") != -1 {
			c.Fail("a small build beside others answers wrongly")
		}
		var od dawg.Dictionary
		cut := c.R.Intn(len(ref.dict))
		if od.Read(bytes.NewReader(ref.dict[:cut])) || od.Size() != 0 {
			c.Fail("a dictionary cut at byte %d is read beside others", cut)
		}
		if dict.Write(&failingWriter{left: cut}) {
			c.Fail("a failed write is not reported beside others")
		}
		cut = c.R.Intn(len(ref.index))
		if dawg.ReadIndex(bytes.NewReader(ref.index[:cut])) != nil || ix.Write(&failingWriter{left: cut}) {
			c.Fail("a failed transfer of an index is not reported beside others")
		}
		cut = c.R.Intn(len(ref.guide))
		if dawg.ReadGuide(bytes.NewReader(ref.guide[:cut])) != nil || g.Write(&failingWriter{left: cut}) {
			c.Fail("a failed transfer of a guide is not reported beside others")
		}
		cut = c.R.Intn(len(ref.ranked))
		if dawg.ReadRankedGuide(bytes.NewReader(ref.ranked[:cut])) != nil || rg.Write(&failingWriter{left: cut}) {
			c.Fail("a failed transfer of a ranked guide is not reported beside others")
		}
	}
}

// concHuge: a few goroutines over an automaton whose dictionary has more than
// 2^21 units, so that the offsets in extended form and the states stored again
// are placed, followed and written concurrently too.
func concHuge(c *Ctx) {
	l := bigLex(c.R, 1)
	c.Detail(func() interface{} { return l.Dump(20) })
	c.note = func() string { return "concurrent use of a dictionary of more than 2^21 units" }
	sd := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), l, sd)
	dict := sd.Build()
	if dict == nil {
		c.Fail("the large dictionary was not built")
	}
	if sd.NumOfTransitions() <= 1<<21 {
		panic("the key set is too small")
	}
	want := written(c, dict)
	g := dawg.BuildGuide(sd, dict)
	rg := dawg.BuildRankedGuide(sd, dict)
	if g == nil || rg == nil {
		c.Fail("guides not built")
	}
	ix := dawg.BuildIndex(dict, g)
	if ix == nil {
		c.Fail("index not built")
	}
	wg2, wr, wi := written(c, g), written(c, rg), written(c, ix)
	x := dawg.NewIndexer(dict, g, ix)
	N := len(l.Keys)
	use := func(c *Ctx) {
		for i := 0; i < 3000; i++ {
			k := c.R.Intn(N)
			if dict.FindString(l.Keys[k]) != l.Vals[k] {
				c.Fail("find(%s) = %d, want %d", show(l.Keys[k]), dict.FindString(l.Keys[k]), l.Vals[k])
			}
			if i%50 == 0 {
				lookupAll(c, l, dict, nearQuery(c.R, l))
				if n := x.StringToIndex(l.Keys[k]); int(n) != k || string(x.IndexToBytes(n)) != l.Keys[k] {
					c.Fail("number of %s is %d, want %d", show(l.Keys[k]), n, k)
				}
				p := l.Keys[k][:2]
				lo, hi := l.Range(p)
				for j := 0; j < 2; j++ {
					var cp completer = dawg.NewCompleter(dict, g)
					if j == 1 {
						cp = dawg.NewRankedCompleter(dict, rg)
					}
					drain(c, cp, l, Node{lo, hi, len(p)}, startAt(c, cp, dict, p), 50, j == 0, j == 1)
				}
			}
		}
	}
	parts := []func(c *Ctx){
		func(c *Ctx) {
			use(c)
			d := sd.Build()
			if d == nil || !bytes.Equal(written(c, d), want) {
				c.Fail("a large dictionary built beside others differs")
			}
		},
		func(c *Ctx) {
			d := sd.Build()
			if d == nil || !bytes.Equal(written(c, d), want) {
				c.Fail("a large dictionary built beside others differs")
			}
			use(c)
		},
		func(c *Ctx) {
			if a := dawg.BuildGuide(sd, dict); a == nil || !bytes.Equal(written(c, a), wg2) {
				c.Fail("a large guide built beside others differs")
			}
			if a := dawg.BuildIndex(dict, g); a == nil || !bytes.Equal(written(c, a), wi) {
				c.Fail("a large index built beside others differs")
			}
			if a := dawg.BuildRankedGuide(sd, dict); a == nil || !bytes.Equal(written(c, a), wr) {
				c.Fail("a large ranked guide built beside others differs")
			}
		},
		func(c *Ctx) {
			if a := dawg.BuildRankedGuide(sd, dict); a == nil || !bytes.Equal(written(c, a), wr) {
				c.Fail("a large ranked guide built beside others differs")
			}
			if a := dawg.BuildGuide(sd, dict); a == nil || !bytes.Equal(written(c, a), wg2) {
				c.Fail("a large guide built beside others differs")
			}
			if d := dawg.ReadDictionary(bytes.NewReader(want)); d == nil || !bytes.Equal(written(c, d), want) || !bytes.Equal(written(c, dict), want) {
				c.Fail("a large dictionary read and written beside others differs")
			}
			if a := dawg.BuildIndex(dict, g); a == nil || !bytes.Equal(written(c, a), wi) {
				c.Fail("a large index built beside others differs")
			}
		},
		func(c *Ctx) { // two builders at the same time, with the goroutine below
			d := dawg.NewDawg()
			buildDawg(c, dawg.NewDawgBuilder(), l, d)
			if statsOf(d) != statsOf(sd) {
				c.Fail("a large automaton built beside others differs")
			}
		},
		func(c *Ctx) {
			d := dawg.NewDawg()
			buildDawg(c, dawg.NewDawgBuilderWithSize(1), l, d)
			if statsOf(d) != statsOf(sd) {
				c.Fail("a large automaton built beside others differs")
			}
		},
	}
	fails := make([]string, len(parts))
	subs := make([]*Ctx, len(parts))
	release := make(chan struct{})
	var wg sync.WaitGroup
	for gi := range parts {
		subs[gi] = &Ctx{R: rand.New(rand.NewSource(c.R.Int63())), Tier: "quick", Name: c.Name, seen: map[uint64]struct{}{}, obs: map[string]int64{}}
		wg.Add(1)
		go func(gi int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(violation); ok {
						fails[gi] = v.msg
					} else {
						buf := make([]byte, 4000)
						fails[gi] = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
					}
				}
			}()
			<-release
			parts[gi](subs[gi])
		}(gi)
	}
	close(release)
	wg.Wait()
	for _, f := range fails {
		if f != "" {
			c.Fail("%s", f)
		}
	}
	for _, s := range subs {
		c.Eval(int(s.eval))
	}
	c.Eval(len(parts))
	c.SeenN(1)
	c.Obs("concurrent uses of more than 2^21 units", len(parts))
}

type failingWriter struct{ left int }

func (f *failingWriter) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("no room")
	}
	f.left -= len(b)
	return len(b), nil
}

// coldProcesses starts processes whose first calls of the library are
// concurrent, so that state set up on first use is set up under contention.
func coldProcesses(c *Ctx) {
	self, _ := os.Executable()
	const n = 8
	seeds := make([]int64, n)
	outs := make([][]byte, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range seeds {
		seeds[i] = c.R.Int63()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
			defer cancel()
			outs[i], errs[i] = exec.CommandContext(ctx, self, "-cold", strconv.FormatInt(seeds[i], 10)).CombinedOutput()
		}(i)
	}
	wg.Wait()
	for i := range seeds {
		if errs[i] != nil {
			c.Fail("a fresh process (-cold %d) whose first calls are concurrent: %v\n%s", seeds[i], errs[i], truncate(string(outs[i]), 3000))
		}
		f := strings.Fields(string(outs[i]))
		if len(f) != 2 {
			c.Fail("a fresh process (-cold %d) wrote %q", seeds[i], truncate(string(outs[i]), 3000))
		}
		a, _ := strconv.Atoi(f[0])
		b, _ := strconv.Atoi(f[1])
		c.Eval(a + b)
		c.Obs("cold processes", 1)
		c.Obs("texts encoded in cold processes", a)
		c.Obs("builds in cold processes", b)
		c.SeenN(1)
	}
}

type coldResult struct {
	encs, streams [][]byte
	decs          []string
	order         []int
	files         [][]byte
	found         []int32
	keys          []string
	nums          []uint32
}

// coldMain is the process started by coldProcesses: it prints the number of
// texts and builds, or what went wrong.
func coldMain(seed string) {
	n, _ := strconv.ParseInt(seed, 10, 64)
	r := rand.New(rand.NewSource(n))
	c := &Ctx{R: r, Tier: "quick", Name: "cold", seen: map[uint64]struct{}{}, obs: map[string]int64{}}
	defer func() {
		if x := recover(); x != nil {
			if v, ok := x.(violation); ok {
				fmt.Println(v.msg)
			} else {
				fmt.Printf("panic: %v\n%s", x, debug.Stack())
			}
			os.Exit(3)
		}
	}()
	G := 6 + r.Intn(7)
	texts := make([]string, 60)
	for i := range texts {
		texts[i] = hostileText(r, 1+r.Intn(20))
	}
	lexes := make([]*Lex, 3)
	for i := range lexes {
		lexes[i] = randLex(r, 1+r.Intn(80))
	}
	res := make([]*coldResult, G)
	fails := make([]string, G)
	release := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		res[g] = &coldResult{order: r.Perm(len(texts))}
		first := r.Intn(4)
		wg.Add(1)
		go func(g int, q *coldResult) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					fails[g] = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
				}
			}()
			<-release
			parts := []func(){
				func() {
					for _, k := range q.order {
						q.encs = append(q.encs, dawg.UtfcEncode(texts[k]))
					}
				},
				func() {
					for _, k := range q.order {
						s := &sink{refuse: -1}
						dawg.UtfcFollow(texts[k], s)
						q.streams = append(q.streams, s.got)
						q.decs = append(q.decs, dawg.UtfcDecode(s.got))
					}
				},
				func() {
					l := lexes[g%len(lexes)]
					b, d := dawg.NewDawgBuilder(), dawg.NewDawg()
					for i, k := range l.Keys {
						b.InsertStringValue(k, l.Vals[i])
					}
					b.Finish(d)
					dict := d.Build()
					gd, rg := dawg.BuildGuide(d, dict), dawg.BuildRankedGuide(d, dict)
					ix := dawg.BuildIndex(dict, gd)
					for _, o := range []interface{ Write(io.Writer) bool }{dict, gd, rg, ix} {
						var buf bytes.Buffer
						o.Write(&buf)
						q.files = append(q.files, buf.Bytes())
					}
					dict = dawg.ReadDictionary(bytes.NewReader(q.files[0]))
					gd = dawg.ReadGuide(bytes.NewReader(q.files[1]))
					rg = dawg.ReadRankedGuide(bytes.NewReader(q.files[2]))
					ix = dawg.ReadIndex(bytes.NewReader(q.files[3]))
					x := dawg.NewIndexer(dict, gd, ix)
					for _, k := range l.Keys {
						q.found = append(q.found, dict.FindString(k))
						q.nums = append(q.nums, x.StringToIndex(k))
					}
					cp := dawg.NewCompleter(dict, gd)
					cp.Start(dict.Root())
					for i := 0; i <= len(l.Keys) && cp.Next(); i++ {
						q.keys = append(q.keys, cp.Key())
					}
					rc := dawg.NewRankedCompleter(dict, rg)
					rc.Start(dict.Root())
					for i := 0; i <= len(l.Keys) && rc.Next(); i++ {
						q.keys = append(q.keys, rc.Key())
					}
				},
			}
			for i := range parts {
				parts[(i+first)%len(parts)]()
			}
		}(g, res[g])
	}
	close(release)
	wg.Wait()
	for g := range fails {
		if fails[g] != "" {
			c.Fail("%s", fails[g])
		}
	}
	// Now alone: the same again.
	for g, q := range res {
		for i, k := range q.order {
			e := dawg.UtfcEncode(texts[k])
			if dawg.UtfcDecode(e) != texts[k] {
				c.Fail("%+q is not decoded to itself", texts[k])
			}
			if !bytes.Equal(e, q.encs[i]) || !bytes.Equal(e, q.streams[i]) || q.decs[i] != texts[k] {
				c.Fail("%+q encoded as % x, streamed as % x, decoded to %+q by the first, concurrent calls; alone it is encoded as % x", texts[k], q.encs[i], q.streams[i], q.decs[i], e)
			}
		}
		l := lexes[g%len(lexes)]
		b := build(c, l)
		ix := dawg.BuildIndex(b.Dict, b.guide(c))
		for i, o := range []object{b.Dict, b.guide(c), b.ranked(c), ix} {
			if !bytes.Equal(written(c, o), q.files[i]) {
				c.Fail("the %s built by the first, concurrent calls differs from one built alone", kindNames[i])
			}
		}
		if len(q.keys) != 2*len(l.Keys) {
			c.Fail("%d keys completed by the first, concurrent calls, want twice %d", len(q.keys), len(l.Keys))
		}
		sort.Strings(q.keys[len(l.Keys):])
		for i, k := range l.Keys {
			if q.found[i] != l.Vals[i] || int(q.nums[i]) != i || q.keys[i] != k || q.keys[len(l.Keys)+i] != k {
				c.Fail("key %s (number %d, value %d): concurrent first calls found %d, number %d, completed %s and %s", show(k), i, l.Vals[i], q.found[i], q.nums[i], show(q.keys[i]), show(q.keys[len(l.Keys)+i]))
			}
		}
	}
	fmt.Println(G*len(texts), G)
	os.Exit(0)
}
