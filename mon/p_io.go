package main

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/deNULL/dawg"
)

//go:embed golden.dawg
var goldenFile []byte

//go:embed golden.txt
var goldenLexicon string

var quickIO = Plan{Ladder: 9, Exhaustive: true, Small: 40, Mid: 4, Large: 19, Big: []int{0, 1, 2, 3}, MidMax: 2500, LargeN: 12000}
var deepIO = Plan{Ladder: 13, Exhaustive: true, Small: 1000, Mid: 50, Large: 120, Big: []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 11}, MidMax: 5000, LargeN: 60000}

func init() {
	register(&Prop{ID: "C07", Level: "exploration", Rule: ruleLex + "; every object written and read through readers that deliver pieces of chosen sizes (1 byte, halves, random, empty reads, data together with EOF), one after the other from one stream, into new and used objects; also through the readers and writers of the standard library and the system (memory, files, pipes, buffers, sections, concatenations, compression), with bytes in front and behind",
		Cases: func(t string) []Case {
			cs := append(sizeCases(t, sizesC07), lexCases(t, scale(t, quickIO, deepIO), checkC07)...)
			return append(cs, many(t, "carriers", 8, 100, carriersC07)...)
		},
		MinObserved: map[string]int64{"objects read back": 100000, "read calls served": 500000, "pieces in the middle of a unit": 100000, "reads into used objects": 50000,
			"present lookups": 100000, "keys yielded": 100000, "dictionaries over 2^21 units": 1, "objects of exactly chosen size": 200, "objects read from file": 200, "objects read from bytes.Buffer": 200, "objects written to file": 200}})
	register(&Prop{ID: "C08", Level: "fault_enumeration", Rule: "fault points: for each object of a key set, every byte position at which the input ends or fails and every byte position at which the output fails (all of them for small objects, boundaries and a random sample for larger ones), times the kinds of failure; non-trivial: every point; distinct: by construction (object, position, kind)",
		Cases:       casesC08,
		MinObserved: map[string]int64{"cut points": 50000, "receivers compared": 50000, "write failures": 20000, "cut points in large objects": 500, "objects of exactly chosen size": 200}})
	register(&Prop{ID: "C09", Level: "exploration", Rule: ruleLex + "; library output read by an independent reader; and files laid out by an independent writer with random placement, sharing and filler, up to 2^23 units, read by the library",
		Cases: func(t string) []Case {
			cs := lexCases(t, scale(t, quickIO, deepIO), checkC09)
			cs = append([]Case{
				{"far/0", func(c *Ctx) { farFile(c, 1<<13+700, 300) }},
				{"far/1", func(c *Ctx) { farFile(c, 1<<14+300, 2000) }},
				{"far/2", func(c *Ctx) { farFile(c, 1<<15, 1000) }},
				{"sparse/25", func(c *Ctx) { sparseFile(c, 25, 2000) }},
				{"sparse/28", func(c *Ctx) { sparseFile(c, 28, 3000) }},
				{"golden", checkGolden}}, cs...)
			if t == "thorough" {
				for i := 22; i < 29; i++ {
					cs = append(cs, Case{fmt.Sprintf("sparse/t%d", i), func(c *Ctx) { sparseFile(c, uint(i), 20000) }})
				}
			}
			return cs
		},
		MinObserved: map[string]int64{"file nodes checked": 500000, "foreign files read": 50000, "foreign extended offsets": 1000, "foreign shared subtrees": 10000,
			"guide nodes checked": 200000, "index nodes checked": 200000, "dictionaries over 2^21 units": 1}})
	register(&Prop{ID: "C18", Level: "exploration", Rule: ruleLex,
		Cases: func(t string) []Case { return lexCases(t, scale(t, quickIO, deepIO), checkC18) },
		MinObserved: map[string]int64{"dictionaries": 10000, "occupied units": 500000, "unused units": 100000, "dictionaries over 2^21 units": 1,
			"dictionaries over 16 blocks": 10}})
}

// many gives numbered cases.
func many(tier, name string, quick, deep int, f func(c *Ctx)) (cs []Case) {
	n := quick
	if tier == "thorough" {
		n = deep
	}
	for i := 0; i < n; i++ {
		cs = append(cs, Case{fmt.Sprintf("%s/%d", name, i), f})
	}
	return
}

// ---- hostile readers ----------------------------------------------------------

// pieceReader delivers data in pieces and remembers how much it gave away.
type pieceReader struct {
	r       *rand.Rand
	data    []byte
	pos     int
	mode    int
	calls   int
	odd     int
	err     error // delivered at the end of the data
	withErr bool  // together with the last bytes
}

func (p *pieceReader) Read(b []byte) (int, error) {
	p.calls++
	if p.pos >= len(p.data) {
		return 0, p.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	switch p.mode {
	case 0:
	case 1:
		n = 1
	case 2:
		n = (len(b) + 1) / 2
	case 3:
		n = 1 + p.r.Intn(7)
	case 4:
		if p.r.Intn(2) == 0 {
			return 0, nil
		}
		n = 1 + p.r.Intn(1000)
	case 5:
		n = 1 + p.r.Intn(len(b))
	case 6:
		n = 3
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.data[p.pos:])
	p.pos += n
	if p.pos%4 != 0 {
		p.odd++
	}
	if p.pos == len(p.data) && p.withErr {
		return n, p.err
	}
	return n, nil
}

type object interface {
	Read(io.Reader) bool
	Write(io.Writer) bool
	FileSize() int
	TotalSize() int
	Size() int
}

func written(c *Ctx, o object) []byte {
	var b bytes.Buffer
	if !o.Write(&b) {
		c.Fail("writing to memory failed")
	}
	if b.Len() != o.FileSize() {
		c.Fail("%T: %d bytes written, announced file size %d", o, b.Len(), o.FileSize())
	}
	return b.Bytes()
}

func isNil(o object) bool {
	switch x := o.(type) {
	case *dawg.Dictionary:
		return x == nil
	case *dawg.Guide:
		return x == nil
	case *dawg.RankedGuide:
		return x == nil
	case *dawg.Index:
		return x == nil
	}
	return o == nil
}

func readNew(kind int, r io.Reader) object {
	switch kind {
	case 0:
		return dawg.ReadDictionary(r)
	case 1:
		return dawg.ReadGuide(r)
	case 2:
		return dawg.ReadRankedGuide(r)
	default:
		return dawg.ReadIndex(r)
	}
}

func newObject(kind int) object {
	switch kind {
	case 0:
		return dawg.NewDictionary()
	case 1:
		return dawg.NewGuide()
	case 2:
		return dawg.NewRankedGuide()
	default:
		return dawg.NewIndex()
	}
}

var kindNames = []string{"dictionary", "guide", "ranked guide", "index"}

func objectsOf(c *Ctx, b *Built) []object {
	ix := dawg.BuildIndex(b.Dict, b.guide(c))
	if ix == nil {
		c.Fail("index not built")
	}
	return []object{b.Dict, b.guide(c), b.ranked(c), ix}
}

// answers checks loaded objects against the model.
func answers(c *Ctx, l *Lex, d *dawg.Dictionary, g *dawg.Guide, rg *dawg.RankedGuide, ix *dawg.Index, level int) {
	big := len(l.Keys) > 50000
	if level > 0 || c.R.Intn(4) == 0 {
		verifyLookups(c, l, d, 0)
		verifyNavigation(c, l, d, false)
	}
	nodes := 12
	if level > 0 {
		nodes = 60
	}
	if big {
		nodes = 8
	}
	completionHistory(c, l, d, func() completer { return dawg.NewCompleter(d, g) }, nodes, true, false)
	completionHistory(c, l, d, func() completer { return dawg.NewRankedCompleter(d, rg) }, nodes, false, true)
	if level > 0 || c.R.Intn(4) == 0 {
		verifyIndex(c, l, d, g, ix, true)
	}
}

func checkC07(c *Ctx, l *Lex) {
	b := build(c, l)
	objs := objectsOf(c, b)
	var all [][]byte
	for k, o := range objs {
		by := written(c, o)
		all = append(all, by)
		if o.Write(io.Discard) != true {
			c.Fail("writing the %s failed", kindNames[k])
		}
	}
	// A stream of objects in some order, with something behind.
	order := c.R.Perm(4)
	if c.R.Intn(3) == 0 {
		order = append(order, c.R.Perm(4)...)
	}
	var stream []byte
	for _, k := range order {
		stream = append(stream, all[k]...)
	}
	total := len(stream)
	trail := c.R.Intn(2) * c.R.Intn(20)
	for i := 0; i < trail; i++ {
		stream = append(stream, byte(c.R.Intn(256)))
	}
	mode := c.R.Intn(7)
	if total > 1<<20 && mode >= 1 && mode <= 3 && !c.Thorough() {
		mode = 4
	}
	pr := &pieceReader{r: c.R, data: stream, mode: mode, err: io.EOF, withErr: c.R.Intn(2) == 0}
	loaded := make([]object, 4)
	var other *Built
	consumed := 0
	for _, k := range order {
		var o object
		how := c.R.Intn(3)
		switch how {
		case 0:
			o = readNew(k, pr)
			if isNil(o) {
				c.Fail("reading the %s failed (delivery %d, %d bytes behind)", kindNames[k], mode, trail)
			}
		case 1:
			o = newObject(k)
		case 2: // into an object that holds something else
			if loaded[k] != nil && c.R.Intn(2) == 0 {
				o = loaded[k]
			} else {
				if other == nil {
					ol := randLex(c.R, 1+c.R.Intn(60))
					d := dawg.NewDawg()
					buildDawg(c, dawg.NewDawgBuilder(), ol, d)
					other = &Built{Lex: ol, Dawg: d, Dict: d.Build()}
				}
				var src []byte
				switch k {
				case 0:
					src = written(c, other.Dict)
				case 1:
					src = written(c, other.guide(c))
				case 2:
					src = written(c, other.ranked(c))
				case 3:
					src = written(c, dawg.BuildIndex(other.Dict, other.guide(c)))
				}
				o = newObject(k)
				if !o.Read(bytes.NewReader(src)) {
					c.Fail("reading the %s failed", kindNames[k])
				}
			}
			c.Obs("reads into used objects", 1)
		}
		if how > 0 && !o.Read(pr) {
			c.Fail("reading the %s failed (delivery %d, %d bytes behind)", kindNames[k], mode, trail)
		}
		consumed += len(all[k])
		if pr.pos != consumed {
			c.Fail("reading the %s consumed %d bytes, it has %d", kindNames[k], pr.pos-consumed+len(all[k]), len(all[k]))
		}
		if o.FileSize() != len(all[k]) || o.Size() != objs[k].Size() {
			c.Fail("the %s read back has size %d and file size %d, want %d and %d", kindNames[k], o.Size(), o.FileSize(), objs[k].Size(), len(all[k]))
		}
		if !bytes.Equal(written(c, o), all[k]) {
			c.Fail("the %s read back writes other bytes", kindNames[k])
		}
		loaded[k] = o
		c.Obs("objects read back", 1)
		c.Eval(1)
	}
	c.Obs("read calls served", pr.calls)
	c.Obs("pieces in the middle of a unit", pr.odd)
	level := 0
	if len(l.Keys) > 80 || c.R.Intn(20) == 0 {
		level = 1
	}
	answers(c, l, loaded[0].(*dawg.Dictionary), loaded[1].(*dawg.Guide), loaded[2].(*dawg.RankedGuide), loaded[3].(*dawg.Index), level)
}

// ---- C08 ---------------------------------------------------------------------

var errFault = errors.New("injected fault")

// failWriter accepts limit bytes, then fails: once or for ever, accepting the
// part of the write before the limit or nothing of it.
type failWriter struct {
	limit   int
	n       int
	once    bool
	failed  bool
	partial bool
	full    bool // claims to have taken everything, and an error
	err     error
}

func (w *failWriter) Write(b []byte) (int, error) {
	if w.failed && w.once {
		w.n += len(b)
		return len(b), nil
	}
	if w.n+len(b) <= w.limit && !w.failed {
		w.n += len(b)
		return len(b), nil
	}
	w.failed = true
	if w.full {
		return len(b), w.err
	}
	if w.partial {
		k := w.limit - w.n
		if k < 0 {
			k = 0
		}
		w.n += k
		return k, w.err
	}
	return 0, w.err
}

func cutPoints(c *Ctx, n int, size int) []int {
	var out []int
	if n <= 1600 || (c.Thorough() && n <= 20000) {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	m := map[int]bool{}
	for i := 0; i < 24; i++ {
		m[i] = true
		m[n-1-i] = true
	}
	for i := 256; i < n; i *= 2 {
		for d := -2; d <= 6; d++ {
			if i+d < n {
				m[i+d] = true
			}
		}
		// and multiples of it, counted with and without the header
		for t := 0; t < 1+size/20; t++ {
			if x := i*(1+c.R.Intn(n/i)) + 4*c.R.Intn(2); x < n {
				m[x] = true
			}
		}
	}
	for i := 0; i < size; i++ {
		m[c.R.Intn(n)] = true
	}
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

func casesC08(tier string) []Case {
	p := scale(tier, Plan{Small: 8, Mid: 1, Large: 19, Big: []int{0}, MidMax: 2500, LargeN: 12000},
		Plan{Small: 150, Mid: 10, Large: 60, Big: []int{0, 1}, MidMax: 5000, LargeN: 40000})
	cs := append(sizeCases(tier, sizesC08), lexCases(tier, p, func(c *Ctx, l *Lex) {
		// all cut points are worth it for a part of the small sets only
		if len(l.Keys) < 60 && !strings.HasPrefix(l.Spec, "empty") && l.Longest() < 9000 && c.R.Intn(12) > 0 {
			return
		}
		checkC08(c, l)
	})...)
	return append(cs, many(tier, "carriers", 8, 100, carriersC08)...)
}

func checkC08(c *Ctx, l *Lex) {
	faults(c, l, objectsOf(c, build(c, l)), false)
}

func sizesC08(c *Ctx, l *Lex, blocks int, all [][]byte) {
	objs := make([]object, 4)
	for k := range all {
		objs[k] = readNew(k, bytes.NewReader(all[k]))
		if isNil(objs[k]) {
			c.Fail("a well-formed %s of %d blocks was not read", kindNames[k], blocks)
		}
	}
	faults(c, l, objs, true)
}

// faults runs the four objects of a key set through failing input and output.
func faults(c *Ctx, l *Lex, objs []object, few bool) {
	// Receivers: empty, and holding other data.
	ol := randLex(c.R, 1+c.R.Intn(40))
	od := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), ol, od)
	ob := &Built{Lex: ol, Dawg: od, Dict: od.Build()}
	oobjs := objectsOf(c, ob)
	for k, o := range objs {
		full := written(c, o)
		large := len(full) > 100000
		size := 150
		if large {
			size = 30
		}
		if len(full) > 1<<20 {
			size = 4
		}
		if few {
			size = 4
		}
		obytes := written(c, oobjs[k])
		points := cutPoints(c, len(full), size)
		if few && len(points) > 60 && len(full) <= 1<<20 {
			// the ends, the multiples of 256, and some others
			var keep []int
			for _, p := range points {
				if p < 9 || p >= len(full)-9 || p%256 == 0 || p%256 == 4 || c.R.Intn(12) == 0 {
					keep = append(keep, p)
				}
			}
			points = keep
		}
		if len(full) > 1<<20 && len(points) > 24 {
			c.R.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
			points = append(points[:12], 0, 3, 4, len(full)-1, len(full)-4)
			for i := 1 << 12; i+4 < len(full); i *= 2 {
				points = append(points, i+4*c.R.Intn(2), i*(1+c.R.Intn((len(full)-5)/i))+4)
			}
		}
		used := newObject(k)
		if !used.Read(bytes.NewReader(obytes)) {
			c.Fail("reading the %s failed", kindNames[k])
		}
		empty := newObject(k)
		emptyBytes := written(c, empty)
		probe := func(what string, where int) {
			if !bytes.Equal(written(c, used), obytes) || used.Size() != oobjs[k].Size() {
				c.Fail("%s: after the failed reading (%s at byte %d of %d) the object it was read into has changed", kindNames[k], what, where, len(full))
			}
			if !bytes.Equal(written(c, empty), emptyBytes) || empty.Size() != 0 {
				c.Fail("%s: after the failed reading (%s at byte %d of %d) an empty object is not empty", kindNames[k], what, where, len(full))
			}
			c.Obs("receivers compared", 2)
		}
		for _, cut := range points {
			errs := []error{io.EOF, io.ErrUnexpectedEOF, errFault}
			e := errs[c.R.Intn(3)]
			if (cut < 40 || cut > len(full)-10) && !(few && large) {
				// all kinds at the ends
			} else {
				errs = []error{e}
			}
			for _, e := range errs {
				modes := []int{0, 1 + c.R.Intn(6)}
				if few && large {
					modes = modes[c.R.Intn(2):][:1]
				}
				for _, mode := range modes {
					if large && mode != 0 {
						mode = 5
					}
					mk := func() *pieceReader {
						return &pieceReader{r: c.R, data: full[:cut], mode: mode, err: e, withErr: c.R.Intn(2) == 0}
					}
					c.note = func() string { return fmt.Sprintf("reading a %s cut at byte %d of %d", kindNames[k], cut, len(full)) }
					if x := readNew(k, mk()); !isNil(x) {
						c.Fail("a %s of %d bytes was read although the input ends at byte %d (%v)", kindNames[k], len(full), cut, e)
					}
					if used.Read(mk()) {
						c.Fail("a %s of %d bytes was read although the input ends at byte %d (%v)", kindNames[k], len(full), cut, e)
					}
					if empty.Read(mk()) {
						c.Fail("a %s of %d bytes was read although the input ends at byte %d (%v)", kindNames[k], len(full), cut, e)
					}
					probe(e.Error(), cut)
					c.Obs("cut points", 1)
					c.SeenN(1)
					c.Eval(3)
					if large {
						c.Obs("cut points in large objects", 1)
					}
				}
			}
		}
		// The used receiver still answers.
		if k == 0 {
			verifyLookups(c, ol, used.(*dawg.Dictionary), 0)
		}
		if k == 1 {
			completionHistory(c, ol, ob.Dict, func() completer { return dawg.NewCompleter(ob.Dict, used.(*dawg.Guide)) }, 10, true, false)
		}
		if k == 3 {
			verifyIndex(c, ol, ob.Dict, ob.guide(c), used.(*dawg.Index), true)
		}
		// A header that announces more than there is.
		for i := 0; i < 6; i++ {
			extra := uint32(1 + c.R.Intn(1<<uint(c.R.Intn(18))))
			lie := append([]byte(nil), full...)
			binary.LittleEndian.PutUint32(lie, binary.LittleEndian.Uint32(lie)+extra)
			if used.Read(bytes.NewReader(lie)) || !isNil(readNew(k, bytes.NewReader(lie))) {
				c.Fail("a %s was read although %d announced units are missing", kindNames[k], extra)
			}
			probe("announced units missing", len(full))
			c.Obs("cut points", 1)
			c.SeenN(1)
			c.Eval(2)
		}
		// After all the failures a good reading works.
		if !used.Read(bytes.NewReader(full)) || !bytes.Equal(written(c, used), full) {
			c.Fail("%s: a complete reading after failed ones fails", kindNames[k])
		}

		// Failing output.
		for _, cut := range points {
			for form := 0; form < 4; form++ {
				if few && large && c.R.Intn(3) > 0 {
					continue
				}
				w := &failWriter{limit: cut, once: form&1 != 0, partial: form&2 != 0, err: errFault}
				if form == 3 && c.R.Intn(2) == 0 {
					w.err = io.ErrShortWrite
				}
				if form == 2 && c.R.Intn(2) == 0 {
					w.full = true
				}
				c.note = func() string {
					return fmt.Sprintf("writing a %s, failing at byte %d of %d", kindNames[k], cut, len(full))
				}
				if o.Write(w) {
					c.Fail("writing a %s of %d bytes reports success although the output failed at byte %d (once: %v, partial: %v, all taken: %v)", kindNames[k], len(full), cut, w.once, w.partial, w.full)
				}
				if !w.failed {
					c.Fail("writing a %s: less than %d bytes were written of %d", kindNames[k], cut, len(full))
				}
				c.Obs("write failures", 1)
				c.SeenN(1)
				c.Eval(1)
			}
		}
		// A limit of exactly the size is no failure.
		w := &failWriter{limit: len(full), err: errFault}
		if !o.Write(w) || w.n != len(full) {
			c.Fail("writing a %s to an output of exactly its size: %d of %d bytes", kindNames[k], w.n, len(full))
		}
		if !bytes.Equal(written(c, o), full) {
			c.Fail("%s: failed writing changed the object", kindNames[k])
		}
	}
	if len(c.samples) == 0 {
		c.Sample(map[string]interface{}{"keys": l.Dump(3), "bytes": []int{objs[0].FileSize(), objs[1].FileSize(), objs[2].FileSize(), objs[3].FileSize()}})
	}
}

// ---- sizes -------------------------------------------------------------------

// exactSizes are numbers of blocks (of 256 units): all small ones, and those
// around powers of two, at which buffers and chunks come out even.
func exactSizes(tier string) (out []int) {
	for k := 1; k <= 72; k++ {
		out = append(out, k)
	}
	top := 4096
	if tier == "thorough" {
		top = 16384
	}
	for p := 128; p <= top; p *= 2 {
		out = append(out, p-1, p, p+1, p+p/2)
	}
	return
}

// sized gives the four objects of a small key set, in exactly so many blocks.
func sized(c *Ctx, blocks int) (*Lex, [][]byte) {
	for try := 0; try < 20; try++ {
		l := randLex(c.R, 1+c.R.Intn(min(12*blocks, 80)))
		w, err := writeFile(c.R, l, placeOpts{blocks: blocks, share: 50, far: try%2 == 0, junk: c.R.Intn(3)})
		if err == nil && len(w.units) == 256*blocks {
			return l, [][]byte{units32Bytes(w.units), guideBytes(w.guide), guideBytes(w.ranked), units32Bytes(w.index)}
		}
	}
	return nil, nil
}

func sizeCases(tier string, one func(c *Ctx, l *Lex, blocks int, all [][]byte)) (cs []Case) {
	ks := exactSizes(tier)
	for len(ks) > 0 {
		n := 12
		if ks[0] > 72 {
			n = 1
		}
		part := ks[:min(n, len(ks))]
		ks = ks[len(part):]
		cs = append(cs, Case{fmt.Sprintf("sizes/%d", part[0]), func(c *Ctx) {
			for _, k := range part {
				if l, all := sized(c, k); l != nil {
					c.Detail(func() interface{} { return map[string]interface{}{"blocks": k, "keys": l.Dump(100)} })
					one(c, l, k, all)
					c.Obs("objects of exactly chosen size", 4)
					c.Seen(l.Sig())
				}
			}
		}})
	}
	return
}

// sizesC07 reads objects of a chosen size through all kinds of delivery.
func sizesC07(c *Ctx, l *Lex, blocks int, all [][]byte) {
	var objs [4]object
	for k, full := range all {
		modes := []int{0, 5, 2, 1 + c.R.Intn(6)}
		if len(full) > 1<<18 {
			modes = []int{0, 5, 4}
		}
		for _, mode := range modes {
			trail := []byte{1, 2, 3, 4, 5, 6, 7, 8}[:c.R.Intn(2)*8]
			pr := &pieceReader{r: c.R, data: append(append([]byte(nil), full...), trail...), mode: mode, err: io.EOF, withErr: c.R.Intn(2) == 0}
			c.note = func() string { return fmt.Sprintf("reading a %s of %d blocks", kindNames[k], blocks) }
			o := readNew(k, pr)
			if isNil(o) {
				c.Fail("reading a %s of %d blocks failed (delivery %d, %d bytes behind)", kindNames[k], blocks, mode, len(trail))
			}
			if pr.pos != len(full) {
				c.Fail("reading a %s of %d bytes consumed %d", kindNames[k], len(full), pr.pos)
			}
			if !bytes.Equal(written(c, o), full) {
				c.Fail("a %s of %d blocks read back writes other bytes", kindNames[k], blocks)
			}
			c.Obs("read calls served", pr.calls)
			c.Obs("pieces in the middle of a unit", pr.odd)
			c.Obs("objects read back", 1)
			c.Eval(2)
			objs[k] = o
		}
	}
	answers(c, l, objs[0].(*dawg.Dictionary), objs[1].(*dawg.Guide), objs[2].(*dawg.RankedGuide), objs[3].(*dawg.Index), 0)
}

// ---- C09 ---------------------------------------------------------------------

func checkC09(c *Ctx, l *Lex) {
	b := build(c, l)
	full := 20000
	if c.Thorough() {
		full = 200000
	}
	du, rest, err := parseUnits32(written(c, b.Dict))
	if err != nil || len(rest) != 0 {
		c.Fail("file of the dictionary: %v, %d bytes left", err, len(rest))
	}
	if len(du) != b.Dict.Size() {
		c.Fail("file of the dictionary announces %d units, the dictionary has %d", len(du), b.Dict.Size())
	}
	fileMatches(c, l, du, full)
	g, rest, err := parseGuide(written(c, b.guide(c)))
	if err != nil || len(rest) != 0 {
		c.Fail("file of the guide: %v, %d bytes left", err, len(rest))
	}
	guideMatches(c, l, du, g, false, full)
	rg, rest, err := parseGuide(written(c, b.ranked(c)))
	if err != nil || len(rest) != 0 {
		c.Fail("file of the ranked guide: %v, %d bytes left", err, len(rest))
	}
	guideMatches(c, l, du, rg, true, full/10)
	for _, sg := range []dawg.SomeGuide{b.guide(c), b.ranked(c)} {
		ixo := dawg.BuildIndex(b.Dict, sg)
		if ixo == nil {
			c.Fail("index not built")
		}
		ix, rest, err := parseUnits32(written(c, ixo))
		if err != nil || len(rest) != 0 {
			c.Fail("file of the index: %v, %d bytes left", err, len(rest))
		}
		indexMatches(c, l, du, ix, full)
	}
	if len(l.Keys) <= 20000 && l.Longest() <= 9000 {
		o := placeOpts{blocks: 1 + c.R.Intn(4) + len(l.Keys)/20, share: []int{0, 50, 100}[c.R.Intn(3)], far: c.R.Intn(2) == 0, junk: c.R.Intn(3)}
		foreign(c, l, o)
	}
}

// foreign lets the library read a file of the independent writer.
func foreign(c *Ctx, l *Lex, o placeOpts) {
	w, err := writeFile(c.R, l, o)
	if err != nil {
		return
	}
	c.Obs("foreign files read", 1)
	c.Obs("foreign extended offsets", w.ext)
	c.Obs("foreign shared subtrees", w.shared)
	c.Obs("foreign units", len(w.units))
	c.note = func() string { return "reading a foreign file of " + l.Spec }
	db, gb, rb, ib := units32Bytes(w.units), guideBytes(w.guide), guideBytes(w.ranked), units32Bytes(w.index)
	if len(l.Keys) == 0 {
		gb, rb = guideBytes(nil), guideBytes(nil)
	}
	d := dawg.ReadDictionary(bytes.NewReader(db))
	g := dawg.ReadGuide(bytes.NewReader(gb))
	rg := dawg.ReadRankedGuide(bytes.NewReader(rb))
	ix := dawg.ReadIndex(bytes.NewReader(ib))
	if d == nil || g == nil || rg == nil || ix == nil {
		c.Fail("a well-formed file was not read")
	}
	if !bytes.Equal(written(c, d), db) || !bytes.Equal(written(c, g), gb) || !bytes.Equal(written(c, rg), rb) || !bytes.Equal(written(c, ix), ib) {
		c.Fail("a well-formed file comes out differently")
	}
	answers(c, l, d, g, rg, ix, 1)
	verifyIndex(c, l, d, rg, ix, false)
	// Index built by the library over foreign files.
	bix := dawg.BuildIndex(d, g)
	if bix == nil {
		c.Fail("index over a foreign file not built")
	}
	if len(l.Keys) > 0 {
		units, _, err := parseUnits32(written(c, bix))
		if err != nil {
			c.Fail("file of the index: %v", err)
		}
		indexMatches(c, l, w.units, units, 20000)
	}
}

func farFile(c *Ctx, blocks, n int) {
	for rep := 0; rep < 2; rep++ {
		l := randLex(c.R, n)
		c.Detail(func() interface{} { return l.Dump(300) })
		foreign(c, l, placeOpts{blocks: blocks, share: 60, far: true, junk: c.R.Intn(3)})
		c.Seen(l.Sig())
	}
}

// checkGolden reads the file that came with the original repository, written
// by the original implementation's format.
func checkGolden(c *Ctx) {
	l := &Lex{Spec: "golden"}
	for _, line := range strings.Split(strings.TrimSpace(goldenLexicon), "\n") {
		f := strings.Split(strings.TrimRight(line, "\r"), "\t")
		v, _ := strconv.Atoi(f[1])
		l.Keys = append(l.Keys, f[0])
		l.Vals = append(l.Vals, int32(v))
	}
	r := bytes.NewReader(goldenFile)
	d := dawg.ReadDictionary(r)
	g := dawg.ReadGuide(r)
	if d == nil || g == nil || r.Len() != 0 {
		c.Fail("the sample file was not read completely")
	}
	verifyLookups(c, l, d, 1)
	verifyNavigation(c, l, d, true)
	completionHistory(c, l, d, func() completer { return dawg.NewCompleter(d, g) }, 100, true, false)
	verifyIndex(c, l, d, g, nil, true)
	du, _, _ := parseUnits32(goldenFile)
	fileMatches(c, l, du, 1000)
	c.Seen(l.Sig())
}

// ---- C18 ---------------------------------------------------------------------

func checkC18(c *Ctx, l *Lex) {
	c.Detail(func() interface{} { return l.Dump(400) })
	c.note = func() string { return "sizes of " + l.Spec }
	da := dawg.NewDawg()
	buildDawg(c, dawg.NewDawgBuilder(), l, da)
	unused := uint32(0xdeadbeef)
	d := da.BuildWithUnused(&unused)
	if d == nil {
		c.Fail("dictionary not built")
	}
	b := &Built{Lex: l, Dawg: da, Dict: d}
	objs := objectsOf(c, b)
	rix := dawg.BuildIndex(d, b.ranked(c))
	if rix == nil {
		c.Fail("index not built")
	}
	objs = append(objs, rix)
	width := []int{4, 2, 2, 4, 4}
	var dbytes []byte
	for k, o := range objs {
		name := kindNames[min(k, 3)]
		by := written(c, o)
		if k == 0 {
			dbytes = by
		}
		if o.TotalSize() != width[k]*o.Size() {
			c.Fail("total size of the %s is %d, it has %d units of %d bytes", name, o.TotalSize(), o.Size(), width[k])
		}
		if len(by) != 4+width[k]*o.Size() {
			c.Fail("%d bytes written for the %s, it has %d units of %d bytes", len(by), name, o.Size(), width[k])
		}
		if len(l.Keys) > 0 && o.Size() != d.Size() {
			c.Fail("the %s has %d units, the dictionary %d", name, o.Size(), d.Size())
		}
		// And so after reading.
		if c.R.Intn(4) == 0 {
			x := readNew(min(k, 3), bytes.NewReader(by))
			if isNil(x) || x.Size() != o.Size() || x.TotalSize() != o.TotalSize() || x.FileSize() != len(by) {
				c.Fail("the %s read back has other sizes", name)
			}
		}
		c.Eval(4)
	}
	units, _, err := parseUnits32(dbytes)
	if err != nil {
		c.Fail("file of the dictionary: %v", err)
	}
	occ := fileMatches(c, l, units, 0)
	if occ+int(unused) != d.Size() {
		c.Fail("%d units reported unused, %d are occupied, the dictionary has %d", unused, occ, d.Size())
	}
	c.Eval(1)
	c.Obs("dictionaries", 1)
	c.Obs("occupied units", occ)
	c.Obs("unused units", int(unused))
	if d.Size() > 4096 {
		c.Obs("dictionaries over 16 blocks", 1)
	}
	if d.Size() > 1<<21 {
		c.Obs("dictionaries over 2^21 units", 1)
	}
	if len(l.Keys) >= 2 {
		c.Seen(l.Sig())
	}
	if len(c.samples) == 0 && len(l.Keys) > 2 && len(l.Keys) < 3000 {
		c.Sample(map[string]interface{}{"keys": l.Dump(3), "units": d.Size(), "occupied": occ, "unused": unused})
	}
}
