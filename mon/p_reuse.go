package main

import (
	"bytes"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C22", Level: "exploration",
		Rule: "histories over explicit builders and receivers: each key set is built into receivers that are new, hold another key set (built or read), or were cleared, by builders that run once or several times; " + ruleLex,
		Cases: func(t string) []Case {
			p := scale(t, Plan{Ladder: 9, Small: 120, Mid: 4, Large: 19, MidMax: 1500, LargeN: 12000}, Plan{Ladder: 13, Exhaustive: true, Small: 1000, Mid: 50, Large: 60, Big: []int{0, 1}, MidMax: 4000, LargeN: 50000})
			return append(many(t, "endurance", 1, 4, enduranceC22), lexCases(t, p, checkC22)...)
		},
		MinObserved: map[string]int64{"builds by explicit builders": 20000, "builds into used receivers": 10000, "builds after the automaton changed": 10000, "repeated builds": 5000, "objects cleared": 10000, "cleared objects used again": 8000, "empty key sets": 100, "uses of one explicit builder or receiver": 400000}})
}

// otherLex is a key set for receivers to hold before; sometimes empty.
func otherLex(c *Ctx) *Lex {
	if c.R.Intn(5) == 0 {
		return &Lex{"empty", nil, nil}
	}
	return randLex(c.R, 1+c.R.Intn(30))
}

func checkC22(c *Ctx, l *Lex) {
	if c.R.Intn(12) == 0 && len(l.Keys) < 50 {
		l = &Lex{"empty", nil, nil}
	}
	if len(l.Keys) == 0 {
		c.Obs("empty key sets", 1)
	}
	b := build(c, l)
	c.note = func() string { return "explicit builders with " + l.Spec }
	objs := objectsOf(c, b)
	var ref [4][]byte
	for i, o := range objs {
		ref[i] = written(c, o)
	}
	rix := dawg.BuildIndex(b.Dict, b.ranked(c))
	if rix == nil {
		c.Fail("index over a ranked guide not built")
	}
	refRix := written(c, rix)
	print := dawgPrint(b.Dawg)

	other := otherLex(c)
	ob := build(c, other)
	oobjs := objectsOf(c, ob)

	// receiver k: new, holding the other key set, or cleared
	used := func(kind int) object {
		var o object
		switch c.R.Intn(5) {
		case 0:
			return newObject(kind)
		case 1: // read
			o = newObject(kind)
			if !o.Read(bytes.NewReader(written(c, oobjs[kind]))) {
				c.Fail("reading back a %s fails", kindNames[kind])
			}
		case 2: // built
			switch kind {
			case 0:
				o = ob.Dawg.Build()
			case 1:
				o = dawg.BuildGuide(ob.Dawg, ob.Dict)
			case 2:
				o = dawg.BuildRankedGuide(ob.Dawg, ob.Dict)
			case 3:
				o = dawg.BuildIndex(ob.Dict, ob.guide(c))
			}
		default: // built and, where possible, cleared
			switch kind {
			case 0:
				o = ob.Dawg.Build()
			case 1:
				g := dawg.BuildGuide(ob.Dawg, ob.Dict)
				g.Clear()
				cleared(c, g)
				c.Obs("cleared objects used again", 1)
				o = g
			case 2:
				g := dawg.BuildRankedGuide(ob.Dawg, ob.Dict)
				g.Clear()
				cleared(c, g)
				c.Obs("cleared objects used again", 1)
				o = g
			case 3:
				o = dawg.BuildIndex(ob.Dict, ob.guide(c))
			}
		}
		c.Obs("builds into used receivers", 1)
		return o
	}
	runs := func(kind int, want []byte, o object, f func() bool) {
		n := 1
		if c.R.Intn(3) == 0 {
			n = 2 + c.R.Intn(2)
		}
		for i := 0; i < n; i++ {
			if !f() {
				c.Fail("run %d of an explicit %s builder reports failure", i+1, kindNames[kind])
			}
			c.Obs("builds by explicit builders", 1)
			if i > 0 {
				c.Obs("repeated builds", 1)
			}
			if got := written(c, o); !bytes.Equal(got, want) {
				c.Fail("run %d of an explicit %s builder (%s) gives %d bytes that differ from the %d of the one-call function; before, the receiver was made for %s",
					i+1, kindNames[kind], l.Spec, len(got), len(want), other.Spec)
			}
			c.Eval(1)
		}
	}
	// dictionary
	d := used(0).(*dawg.Dictionary)
	db := dawg.NewDictionaryBuilder(b.Dawg, d)
	runs(0, ref[0], d, db.BuildDictionary)
	// guide, over either dictionary
	dd := d
	if c.R.Intn(2) == 0 {
		dd = b.Dict
	}
	g := used(1).(*dawg.Guide)
	gb := dawg.NewGuideBuilder(b.Dawg, dd, g)
	runs(1, ref[1], g, gb.Build)
	// index over the guide and over a ranked guide
	ix := used(3).(*dawg.Index)
	ib := dawg.NewIndexBuilder(dd, g, ix)
	runs(3, ref[3], ix, ib.Build)
	rx := used(3).(*dawg.Index)
	rb := dawg.NewIndexBuilder(b.Dict, b.ranked(c), rx)
	runs(3, refRix, rx, rb.Build)
	// what was built answers for the keys
	if c.R.Intn(3) == 0 {
		answers(c, l, d, g, b.ranked(c), ix, 0)
	}

	// Builders whose automaton is filled anew between their runs.
	if len(l.Keys) < 3000 || c.R.Intn(4) == 0 {
		bd, bs := dawg.NewDawg(), dawg.NewDawgBuilder()
		d, g, ix := dawg.NewDictionary(), dawg.NewGuide(), dawg.NewIndex()
		db, gb, ib := dawg.NewDictionaryBuilder(bd, d), dawg.NewGuideBuilder(bd, d, g), dawg.NewIndexBuilder(d, g, ix)
		sets := []*Lex{l, other, l}
		if c.R.Intn(2) == 0 {
			sets = []*Lex{other, l, other}
		}
		for k, s := range sets {
			if c.R.Intn(2) == 0 {
				bs = dawg.NewDawgBuilder()
			}
			buildDawg(c, bs, s, bd)
			if !db.BuildDictionary() || !gb.Build() || !ib.Build() {
				c.Fail("run %d of explicit builders over an automaton filled anew reports failure", k+1)
			}
			for kind, o := range []object{d, g, nil, ix} {
				if o == nil {
					continue
				}
				want := ref[kind]
				if s == other {
					want = written(c, oobjs[kind])
				}
				if got := written(c, o); !bytes.Equal(got, want) {
					c.Fail("run %d of an explicit %s builder, with its automaton filled anew (%s), gives %d bytes that differ from the %d of the one-call function", k+1, kindNames[kind], s.Spec, len(got), len(want))
				}
				c.Obs("builds after the automaton changed", 1)
				c.Eval(1)
			}
		}
	}

	// Clearing.
	rg := dawg.BuildRankedGuide(b.Dawg, b.Dict)
	g2 := dawg.BuildGuide(b.Dawg, b.Dict)
	g2.Clear()
	cleared(c, g2)
	rg.Clear()
	cleared(c, rg)
	if !g2.Read(bytes.NewReader(ref[1])) || !bytes.Equal(written(c, g2), ref[1]) {
		c.Fail("a cleared guide does not read a guide")
	}
	if !rg.Read(bytes.NewReader(ref[2])) || !bytes.Equal(written(c, rg), ref[2]) {
		c.Fail("a cleared ranked guide does not read a ranked guide")
	}
	c.Obs("cleared objects used again", 2)
	ob.Dawg.Clear()
	if got, want := statsOf(ob.Dawg), statsOf(dawg.NewDawg()); got != want {
		c.Fail("statistics of an automaton cleared after %s: size, states, transitions, merged states, merging states, merged transitions %v; new: %v", other.Spec, got, want)
	}
	c.Obs("objects cleared", 1)
	// dictionaries and guides of the cleared automaton stay
	for i, o := range oobjs {
		if w := written(c, o); len(w) < 4 || (i == 0 && o.Size() == 0) {
			c.Fail("%s gone after its automaton was cleared", kindNames[i])
		}
	}
	if c.R.Intn(3) == 0 {
		answers(c, other, ob.Dict, ob.guide(c), ob.ranked(c), oobjs[3].(*dawg.Index), 0)
	}
	// a cleared automaton as the receiver of a build, and its builder again
	bld := dawg.NewDawgBuilderWithSize(1 + c.R.Intn(40))
	for rep := 0; rep < 2; rep++ {
		buildDawg(c, bld, l, ob.Dawg)
		if dawgPrint(ob.Dawg) != print {
			c.Fail("an automaton built into a cleared one differs (run %d)", rep+1)
		}
		c.Obs("cleared objects used again", 1)
		c.Eval(1)
		if rep == 0 {
			ob.Dawg.Clear()
			c.Obs("objects cleared", 1)
		}
	}
	// nothing of this touched the first objects
	for i, o := range objs {
		if !bytes.Equal(written(c, o), ref[i]) {
			c.Fail("a %s changed while other objects were built and cleared", kindNames[i])
		}
	}
	if dawgPrint(b.Dawg) != print {
		c.Fail("an automaton changed while other objects were built and cleared")
	}
	c.Eval(6)
}

func cleared(c *Ctx, o object) {
	c.Obs("objects cleared", 1)
	c.Eval(1)
	if o.Size() != 0 || o.TotalSize() != 0 || o.FileSize() != 4 {
		c.Fail("cleared %T: size %d, total size %d, file size %d", o, o.Size(), o.TotalSize(), o.FileSize())
	}
	if w := written(c, o); !bytes.Equal(w, []byte{0, 0, 0, 0}) {
		c.Fail("a cleared %T writes % x", o, w)
	}
}
