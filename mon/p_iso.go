package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C15", Level: "exploration", Rule: "histories of 400 random calls (encode, decode, stream, insert, build, complete, number, read, write) over a growing pool of objects and held results; results are compared with their snapshots throughout, returned slices (up to their capacity) and input buffers are overwritten; non-trivial: every history; distinct: by construction (random history)",
		Cases: casesC15, MinObserved: map[string]int64{"results held": 100000, "held results compared": 1000000, "returned slices overwritten": 10000, "input buffers overwritten": 10000,
			"keys held while completing": 20000, "objects compared": 5000}})
}

func casesC15(tier string) []Case {
	n := 160
	if tier == "thorough" {
		n = 6000
	}
	var out []Case
	for i := 0; i < n; i++ {
		out = append(out, Case{fmt.Sprintf("history/%d", i), func(c *Ctx) {
			for j := 0; j < 4; j++ {
				checkC15(c)
				c.SeenN(1)
			}
		}})
	}
	out = append(out, Case{"large", func(c *Ctx) { isoLarge(c) }})
	return out
}

// guarded returns a buffer holding b with marked spare capacity behind it.
func guarded(b []byte) []byte {
	g := make([]byte, len(b), len(b)+64)
	copy(g, b)
	for i := len(b); i < cap(g); i++ {
		g[:cap(g)][i] = 0xa5
	}
	return g
}

func guardOK(g, b []byte) bool {
	if !bytes.Equal(g, b) {
		return false
	}
	for _, x := range g[len(g):cap(g)] {
		if x != 0xa5 {
			return false
		}
	}
	return true
}

type heldBytes struct {
	what string
	b    []byte
	snap []byte
}
type heldString struct {
	what string
	s    string
	snap []byte
}

type isoWorld struct {
	l    *Lex
	dict *dawg.Dictionary
	g    *dawg.Guide
	rg   *dawg.RankedGuide
	ix   *dawg.Index
	x    *dawg.Indexer
	snap [4][]byte
}

func checkC15(c *Ctx) {
	var hb []heldBytes
	var hs []heldString
	var worlds []*isoWorld
	builder := dawg.NewDawgBuilder()
	encOf := map[string][]byte{} // first encoding seen of a text
	var log []string
	c.Detail(func() interface{} { return log })
	c.note = func() string { return "a history of calls" }
	say := func(f string, a ...interface{}) {
		if len(log) < 2000 {
			log = append(log, fmt.Sprintf(f, a...))
		}
	}
	verify := func() {
		for _, h := range hb {
			if !bytes.Equal(h.b, h.snap) {
				c.Fail("%s was % x and has become % x", h.what, h.snap, h.b)
			}
		}
		for _, h := range hs {
			if h.s != string(h.snap) {
				c.Fail("%s was %+q and has become %+q", h.what, h.snap, h.s)
			}
		}
		c.Obs("held results compared", len(hb)+len(hs))
		c.Eval(len(hb) + len(hs))
	}
	holdB := func(what string, b []byte) {
		hb = append(hb, heldBytes{what, b, append([]byte{}, b...)})
		c.Obs("results held", 1)
	}
	holdS := func(what string, s string) {
		hs = append(hs, heldString{what, s, append([]byte{}, s...)})
		c.Obs("results held", 1)
	}
	encode := func(s string) []byte {
		in := []byte(s)
		e := dawg.UtfcEncode(s)
		if s != string(in) {
			c.Fail("encoding changed its input")
		}
		if old, ok := encOf[s]; ok {
			if !bytes.Equal(old, e) {
				c.Fail("%+q was encoded as % x, now as % x", s, old, e)
			}
		} else {
			encOf[s] = append([]byte{}, e...)
		}
		return e
	}
	var texts []string
	text := func() string {
		if len(texts) > 0 && c.R.Intn(2) == 0 {
			return texts[c.R.Intn(len(texts))]
		}
		s := hostileText(c.R, 1+c.R.Intn(1<<uint(c.R.Intn(6))))
		texts = append(texts, s)
		return s
	}
	newWorld := func() {
		l := randLex(c.R, 1+c.R.Intn(80))
		say("build %d keys: %v", len(l.Keys), l.Dump(20))
		var prev []byte
		for i, k := range l.Keys {
			whole := []byte(k)
			if c.R.Intn(2) == 0 { // the key is the beginning of a longer slice
				whole = append(whole, randStr(c.R, allBytes, 1+c.R.Intn(9))...)
				c.Obs("keys in front of other data", 1)
			}
			buf := guarded(whole)
			if !builder.InsertKeyValue(buf, len(k), l.Vals[i]) {
				c.Fail("insertion of %s refused", show(k))
			}
			if !guardOK(buf, whole) {
				c.Fail("inserting %s changed the caller's buffer", show(k))
			}
			// overwrite this buffer and keep the previous one
			for j := range buf[:cap(buf)] {
				buf[:cap(buf)][j] = byte(c.R.Intn(256))
			}
			c.Obs("input buffers overwritten", 1)
			prev = buf
		}
		_ = prev
		d := dawg.NewDawg()
		builder.Finish(d)
		w := &isoWorld{l: l, dict: d.Build()}
		w.g = dawg.BuildGuide(d, w.dict)
		w.rg = dawg.BuildRankedGuide(d, w.dict)
		if w.dict == nil || w.g == nil || w.rg == nil {
			c.Fail("not built")
		}
		var sg dawg.SomeGuide = w.g
		if c.R.Intn(3) == 0 {
			sg = w.rg
		}
		w.ix = dawg.BuildIndex(w.dict, sg)
		if w.ix == nil {
			c.Fail("index not built")
		}
		w.x = dawg.NewIndexer(w.dict, sg, w.ix)
		verifyLookups(c, l, w.dict, 0)
		for k, o := range []object{w.dict, w.g, w.rg, w.ix} {
			w.snap[k] = append([]byte{}, written(c, o)...)
		}
		worlds = append(worlds, w)
	}
	checkWorld := func(w *isoWorld) {
		for k, o := range []object{w.dict, w.g, w.rg, w.ix} {
			if !bytes.Equal(written(c, o), w.snap[k]) {
				c.Fail("a %s finished earlier has changed", kindNames[k])
			}
			c.Obs("objects compared", 1)
		}
	}
	newWorld()
	for op := 0; op < 400; op++ {
		w := worlds[c.R.Intn(len(worlds))]
		switch c.R.Intn(14) {
		case 0, 1:
			s := text()
			say("encode %+q", s)
			holdB(fmt.Sprintf("the encoding of %+q", trunc(s, 100)), encode(s))
		case 2: // overwrite a returned slice, all of its capacity
			if len(hb) > 0 {
				i := c.R.Intn(len(hb))
				h := hb[i]
				hb = append(hb[:i], hb[i+1:]...)
				say("overwrite %s", h.what)
				if c.R.Intn(2) == 0 {
					h.b = append(h.b, 0xee, 0xee, 0xee)
				}
				f := h.b[:cap(h.b)]
				for j := range f {
					f[j] = byte(c.R.Intn(256))
				}
				c.Obs("returned slices overwritten", 1)
				verify()
			}
		case 3: // decode, then overwrite the input
			s := text()
			e := append([]byte{}, encode(s)...)
			buf := guarded(e)
			say("decode %+q", s)
			d := dawg.UtfcDecode(buf)
			if !guardOK(buf, e) {
				c.Fail("decoding % x changed its input", e)
			}
			if d != s {
				c.Fail("%+q decoded as %+q", s, d)
			}
			for j := range buf {
				buf[j] = byte(c.R.Intn(256))
			}
			c.Obs("input buffers overwritten", 1)
			holdS(fmt.Sprintf("the decoding of %+q", trunc(s, 100)), d)
			if d != s {
				c.Fail("the decoding of %+q changed when its input was overwritten", s)
			}
		case 4, 5: // complete and hold the keys
			if len(w.l.Keys) == 0 {
				continue
			}
			var cp completer = dawg.NewCompleter(w.dict, w.g)
			if c.R.Intn(2) == 0 {
				cp = dawg.NewRankedCompleter(w.dict, w.rg)
			}
			for rounds := 0; rounds < 2; rounds++ {
				k := w.l.Keys[c.R.Intn(len(w.l.Keys))]
				p := k[:c.R.Intn(len(k)+1)]
				say("complete %q", p)
				start := append([]byte{}, p...)
				startS := string(start)
				cp.StartString(nodeIndex(c, w.dict, p), startS)
				for j := 0; j < 30 && cp.Next(); j++ {
					holdS("a completed key", cp.Key())
					c.Obs("keys held while completing", 1)
					if j%8 == 7 {
						verify()
					}
				}
				if startS != string(start) {
					c.Fail("completing changed the start string")
				}
			}
			verify()
		case 6, 7: // numbers
			if len(w.l.Keys) == 0 {
				continue
			}
			i := uint32(c.R.Intn(len(w.l.Keys)))
			b := w.x.IndexToBytes(i)
			say("number %d", i)
			if b == nil {
				c.Fail("number %d yields no key", i)
			}
			holdB(fmt.Sprintf("the key with number %d", i), b)
			holdS(fmt.Sprintf("the key with number %d", i), w.x.IndexToString(i))
			q := guarded(b)
			if w.x.BytesToIndex(q) != i {
				c.Fail("number %d yields %s with another number", i, show(string(b)))
			}
			if !guardOK(q, hb[len(hb)-1].snap) {
				c.Fail("numbering %s changed its input", show(string(b)))
			}
		case 8: // read from a buffer that is overwritten afterwards
			k := c.R.Intn(4)
			say("read a %s", kindNames[k])
			buf := guarded(w.snap[k])
			var o object
			if c.R.Intn(2) == 0 {
				o = readNew(k, bytes.NewReader(buf))
			} else {
				o = readNew(k, &lendingReader{data: buf})
			}
			if isNil(o) {
				c.Fail("reading a %s failed", kindNames[k])
			}
			if !guardOK(buf, w.snap[k]) {
				c.Fail("reading a %s changed its input", kindNames[k])
			}
			for j := range buf {
				buf[j] = byte(c.R.Intn(256))
			}
			c.Obs("input buffers overwritten", 1)
			if !bytes.Equal(written(c, o), w.snap[k]) {
				c.Fail("a %s changed when the bytes it was read from were overwritten", kindNames[k])
			}
			if k == 0 {
				verifyLookups(c, w.l, o.(*dawg.Dictionary), 0)
			}
		case 9: // written bytes are the caller's
			k := c.R.Intn(4)
			o := []object{w.dict, w.g, w.rg, w.ix}[k]
			say("write a %s", kindNames[k])
			var buf bytes.Buffer
			if !o.Write(&buf) {
				c.Fail("writing failed")
			}
			holdB("written bytes", buf.Bytes()[:min(buf.Len(), 200):min(buf.Len(), 200)])
			for j := 200; j < buf.Len(); j++ {
				buf.Bytes()[j] ^= 0xff
			}
			checkWorld(w)
		case 10:
			if len(worlds) < 6 || c.R.Intn(4) == 0 {
				newWorld()
				verify()
			}
		case 11:
			s := text()
			say("stream %+q", s)
			k := &sink{refuse: c.R.Intn(8) - 3}
			dawg.UtfcFollow(s, k)
			st := dawg.NewUtfcState()
			for _, r := range s {
				st.Follow(r, &sink{refuse: -1})
			}
		case 12: // lookups leave everything alone
			q := guarded([]byte(nearQuery(c.R, w.l)))
			cp := append([]byte{}, q...)
			w.dict.ContainsString(string(q))
			w.x.BytesToIndex(q)
			if !guardOK(q, cp) {
				c.Fail("a lookup changed its input")
			}
			if c.R.Intn(10) == 0 {
				verifyLookups(c, w.l, w.dict, 0)
			}
		case 13:
			checkWorld(w)
			verify()
		}
	}
	verify()
	for _, w := range worlds {
		checkWorld(w)
	}
	for s := range encOf {
		encode(s)
	}
	if len(c.samples) == 0 {
		c.Sample(log[:min(len(log), 12)])
	}
}

// lendingReader has WriteTo-free plain reads in pieces from the caller's memory.
type lendingReader struct {
	data []byte
	pos  int
}

func (l *lendingReader) Read(b []byte) (int, error) {
	if l.pos >= len(l.data) {
		return 0, io.EOF
	}
	n := copy(b, l.data[l.pos:])
	if n > 100 {
		n = 100
	}
	l.pos += n
	return n, nil
}

// isoLarge: many long results held at once.
func isoLarge(c *Ctx) {
	var encs [][]byte
	var snaps [][]byte
	for i := 0; i < 3000; i++ {
		s := hostileText(c.R, 1+c.R.Intn(400))
		e := dawg.UtfcEncode(s)
		encs = append(encs, e)
		snaps = append(snaps, append([]byte{}, e...))
		if i%3 == 0 && i > 0 {
			j := c.R.Intn(len(encs) - 1)
			f := encs[j][:cap(encs[j])]
			for k := range f {
				f[k] = 0x77
			}
			snaps[j] = append([]byte{}, encs[j]...)
			c.Obs("returned slices overwritten", 1)
		}
	}
	for i := range encs {
		if !bytes.Equal(encs[i], snaps[i]) {
			c.Fail("a long encoding changed after others were made or overwritten")
		}
	}
	c.Eval(len(encs))
	c.Obs("held results compared", len(encs))
	// All keys of a large dictionary, held at once.
	b := build(c, genLex(c.R, "words", 5000, "mix"))
	x := dawg.NewIndexer(b.Dict, b.guide(c), dawg.BuildIndex(b.Dict, b.guide(c)))
	var ks [][]byte
	for i := range b.Lex.Keys {
		ks = append(ks, x.IndexToBytes(uint32(i)))
	}
	for i, k := range ks {
		if string(k) != b.Lex.Keys[i] {
			c.Fail("key number %d, held while others were fetched, is %s, want %s", i, show(string(k)), show(b.Lex.Keys[i]))
		}
		for j := range k[:cap(k)] {
			k[:cap(k)][j] = 0x55
		}
	}
	for i := range ks {
		if x.IndexToString(uint32(i)) != b.Lex.Keys[i] {
			c.Fail("key number %d changed after returned slices were overwritten", i)
		}
	}
	c.Eval(2 * len(ks))
}
