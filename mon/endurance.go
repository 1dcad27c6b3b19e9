package main

import (
	"bytes"

	"github.com/deNULL/dawg"
)

// One object used more than 2^16 times: counters of uses come round.

const enduranceUses = 70000

func enduringLexes(c *Ctx, n int) (ls []*Lex, dicts [][]byte, sts []stats) {
	for len(ls) < n {
		l := randLex(c.R, c.R.Intn(12))
		if l.Longest() > 200 {
			continue
		}
		d := dawg.NewDawg()
		buildDawg(c, dawg.NewDawgBuilder(), l, d)
		ls = append(ls, l)
		dicts = append(dicts, dictBytes(c, d.Build()))
		sts = append(sts, statsOf(d))
	}
	return
}

func enduranceC11(c *Ctx) {
	ls, dicts, sts := enduringLexes(c, 16)
	c.Detail(func() interface{} { return ls[0].Dump(20) })
	b, d := dawg.NewDawgBuilder(), dawg.NewDawg()
	for i := 0; i < enduranceUses; i++ {
		k := c.R.Intn(len(ls))
		c.note = func() string { return "a builder and an automaton used many times" }
		buildDawg(c, b, ls[k], d)
		if st := statsOf(d); st != sts[k] {
			c.Fail("the statistics of build %d of one builder are %v, those of a new one %v", i+1, st, sts[k])
		}
		if !bytes.Equal(dictBytes(c, d.Build()), dicts[k]) {
			c.Fail("the dictionary of build %d of one builder differs from that of a new one", i+1)
		}
	}
	c.Eval(enduranceUses)
	c.Obs("builds on one builder", enduranceUses)
	c.SeenN(1)
}

func enduranceC02(c *Ctx) {
	l := randLex(c.R, 40)
	c.Detail(func() interface{} { return l.Dump(100) })
	ref := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), l, ref)
	b := dawg.NewDawgBuilder()
	for i, k := range l.Keys {
		if !b.InsertStringValue(k, l.Vals[i]) {
			c.Fail("%s refused", show(k))
		}
		for j := 0; j < enduranceUses/len(l.Keys)+1; j++ {
			switch {
			case j%3 == 0:
				if b.InsertStringValue(k+"\x00", 1) {
					c.Fail("a key with NUL accepted")
				}
			case j%3 == 1:
				if b.InsertStringValue(k+"x", -1-int32(j)) {
					c.Fail("a negative value accepted")
				}
			case i > 0:
				if b.InsertStringValue(l.Keys[c.R.Intn(i)], 1) {
					c.Fail("a smaller key accepted")
				}
			}
			c.Eval(1)
		}
	}
	d := dawg.NewDawg()
	b.Finish(d)
	if dawgPrint(d) != dawgPrint(ref) {
		c.Fail("more than %d refused insertions changed the automaton", enduranceUses)
	}
	c.Obs("refusals on one builder", enduranceUses)
	c.SeenN(1)
}

func enduranceCompletion(ranked bool) func(c *Ctx) {
	return func(c *Ctx) {
		l := randLex(c.R, 2+c.R.Intn(60))
		for _, k := range l.Keys { // keys inside other keys
			if k != "" && len(k) < 20 && c.R.Intn(3) == 0 {
				l.Keys = append(l.Keys, k+"q", k+"qqq")
				l.Vals = append(l.Vals, int32(c.R.Intn(9)), int32(c.R.Intn(9)))
			}
		}
		l.Keys, l.Vals = sortedPairs(l.Keys, l.Vals)
		var inner []Node
		for i, k := range l.Keys {
			if lo, hi := l.Range(k); lo == i && hi > i+1 {
				inner = append(inner, Node{lo, hi, len(k)})
			}
		}
		b := build(c, l)
		var cp completer
		if ranked {
			cp = dawg.NewRankedCompleter(b.Dict, b.ranked(c))
		} else {
			cp = dawg.NewCompleter(b.Dict, b.guide(c))
		}
		cu := &cursor{cp: cp, d: b.Dict, l: b.Lex, ordered: !ranked, falling: ranked}
		for i := 0; i < enduranceUses; i++ {
			n, s := cu.randomNode(c), c.R.Intn(6)
			if i&255 < 8 || i&255 > 250 { // where a counter may come round
				s = 1 << 20
				if len(inner) > 0 && c.R.Intn(4) > 0 {
					n = inner[c.R.Intn(len(inner))]
				}
			}
			cu.restart(c, n)
			for ; s > 0 && cu.step(c); s-- {
			}
		}
		c.Eval(enduranceUses)
		c.Obs("starts of one completer", enduranceUses)
		c.SeenN(1)
	}
}

func enduranceC22(c *Ctx) {
	ls, dicts, _ := enduringLexes(c, 8)
	c.Detail(func() interface{} { return ls[0].Dump(20) })
	var d [8]*dawg.Dawg
	files := make([][4][]byte, 8)
	for i, l := range ls {
		b := build(c, l)
		d[i] = b.Dawg
		for k, o := range objectsOf(c, b) {
			files[i][k] = written(c, o)
		}
	}
	uses := enduranceUses
	same := func(what string, o object, want []byte, i int) {
		if o.FileSize() != len(want) || (i%16 == 0 || i%256 < 2) && !bytes.Equal(written(c, o), want) {
			c.Fail("%s number %d gives another result", what, i+1)
		}
	}
	// one explicit builder, run again and again
	recv := dawg.NewDictionary()
	db := dawg.NewDictionaryBuilder(d[0], recv)
	for i := 0; i < uses; i++ {
		if !db.BuildDictionary() {
			c.Fail("build number %d of one dictionary builder failed", i+1)
		}
		same("the dictionary of build", recv, dicts[0], i)
	}
	g := dawg.NewGuide()
	gb := dawg.NewGuideBuilder(d[0], recv, g)
	ix := dawg.NewIndex()
	ib := dawg.NewIndexBuilder(recv, dawg.ReadGuide(bytes.NewReader(files[0][1])), ix)
	for i := 0; i < uses; i++ {
		if !gb.Build() || !ib.Build() {
			c.Fail("build number %d of one builder failed", i+1)
		}
		same("the guide of build", g, files[0][1], i)
		same("the index of build", ix, files[0][3], i)
	}
	// objects read into again and again
	for k := 0; k < 4; k++ {
		o := newObject(k)
		for i := 0; i < uses; i++ {
			j := c.R.Intn(8)
			if !o.Read(bytes.NewReader(files[j][k])) {
				c.Fail("reading number %d into one %s failed", i+1, kindNames[k])
			}
			same("reading", o, files[j][k], i)
		}
	}
	c.Eval(7 * uses)
	c.Obs("uses of one explicit builder or receiver", 7*uses)
	c.SeenN(1)
}

func enduranceC14(c *Ctx) {
	var texts []string
	var encs [][]byte
	for i := 0; i < 40; i++ {
		t := hostileText(c.R, 1+c.R.Intn(6))
		texts = append(texts, t)
		encs = append(encs, append([]byte(nil), dawg.UtfcEncode(t)...))
	}
	st, cp := dawg.NewUtfcState(), dawg.NewUtfcState()
	for i := 0; i < enduranceUses; i++ {
		k := c.R.Intn(len(texts))
		st.Clear()
		var got, got2 []byte
		rs := []rune(texts[k])
		half := c.R.Intn(len(rs) + 1)
		for _, r := range rs[:half] {
			st.Follow(r, &appender{&got})
		}
		cp.Copy(st)
		got2 = append(got2, got...)
		for _, r := range rs[half:] {
			st.Follow(r, &appender{&got})
			cp.Follow(r, &appender{&got2})
		}
		if !bytes.Equal(got, encs[k]) || !bytes.Equal(got2, encs[k]) {
			c.Fail("use %d of one encoder: %+q encoded as % x, by its copy as % x, want % x", i+1, texts[k], got, got2, encs[k])
		}
		if i%2 == 0 && !dawg.UtfcFollow(texts[k], &appender{&got}) {
			c.Fail("streaming failed")
		}
	}
	c.Eval(enduranceUses)
	c.Obs("uses of one encoder", enduranceUses)
	c.SeenN(1)
}

type appender struct{ to *[]byte }

func (a *appender) Follow(b byte) bool {
	*a.to = append(*a.to, b)
	return true
}
