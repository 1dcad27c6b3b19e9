package main

import (
	"bufio"
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/deNULL/dawg"
)

// The readers and writers programs really use: memory, files, pipes, buffers.
// A reading that takes its input apart by what it is (a file, a buffer, a
// thing with a length) has to come to the same result for all of them.

var carrierSeq int64

func scratchFile() string {
	return filepath.Join(*fScratch, fmt.Sprintf("carrier-%d", atomic.AddInt64(&carrierSeq, 1)))
}

const inCarriers = 16

// inCarrier gives a reader positioned behind lead, with data before it, and a
// function that yields what is left in it after the reading (nil: unknown).
func inCarrier(c *Ctx, kind int, lead, data []byte) (name string, r io.Reader, rest func() []byte, done func()) {
	all := append(append([]byte(nil), lead...), data...)
	left := func(r io.Reader) func() []byte {
		return func() []byte { b, _ := io.ReadAll(r); return b }
	}
	done = func() {}
	skip := func(r io.Reader) {
		if _, err := io.ReadFull(r, make([]byte, len(lead))); err != nil {
			panic(err)
		}
	}
	pieces := func() io.Reader {
		return &pieceReader{r: c.R, data: all, mode: []int{0, 2, 4, 5}[c.R.Intn(4)], err: io.EOF, withErr: c.R.Intn(2) == 0}
	}
	switch kind {
	case 0:
		x := bytes.NewReader(all)
		skip(x)
		return "bytes.Reader", x, left(x), done
	case 1:
		x := bytes.NewBuffer(all)
		x.Next(len(lead))
		return "bytes.Buffer", x, left(x), done
	case 2:
		x := strings.NewReader(string(all))
		skip(x)
		return "strings.Reader", x, left(x), done
	case 3:
		f := scratchFile()
		if err := os.WriteFile(f, all, 0o600); err != nil {
			panic(err)
		}
		x, err := os.Open(f)
		if err != nil {
			panic(err)
		}
		skip(x)
		return "file", x, left(x), func() { x.Close(); os.Remove(f) }
	case 4, 5, 6:
		x := bufio.NewReaderSize(pieces(), []int{16, 4096, 1 << 17}[kind-4])
		skip(x)
		return fmt.Sprintf("bufio.Reader of %d", x.Size()), x, left(x), done
	case 7:
		in := bytes.NewReader(all)
		skip(in)
		x := &io.LimitedReader{R: in, N: int64(len(data))}
		return "io.LimitedReader", x, left(x), done
	case 8:
		x := io.NewSectionReader(bytes.NewReader(all), int64(len(lead)), int64(len(data)))
		return "io.SectionReader", x, left(x), done
	case 9:
		pr, pw := io.Pipe()
		sizes := []int{1 + c.R.Intn(7), 1 + c.R.Intn(4096), len(all) + 1}
		n := sizes[c.R.Intn(3)]
		if n < 64 && len(all) > 1<<16 {
			n = 1000
		}
		go func() {
			for p := 0; p < len(all); p += n {
				if _, err := pw.Write(all[p:min(len(all), p+n)]); err != nil {
					return
				}
			}
			pw.Close()
		}()
		skip(pr)
		return "io.Pipe", pr, left(pr), func() { pr.Close() }
	case 10:
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go func() { pw.Write(all); pw.Close() }()
		skip(pr)
		return "os.Pipe", pr, left(pr), func() { pr.Close() }
	case 11:
		var parts []io.Reader
		for p := 0; p < len(all); {
			n := 1 + c.R.Intn(len(all)-p)
			if c.R.Intn(2) == 0 {
				n = min(n, 1+c.R.Intn(9))
			}
			if c.R.Intn(2) == 0 {
				parts = append(parts, bytes.NewReader(all[p:p+n]))
			} else {
				parts = append(parts, strings.NewReader(string(all[p:p+n])))
			}
			p += n
			if len(parts) > 200 && p < len(all) {
				parts = append(parts, bytes.NewReader(all[p:]))
				break
			}
		}
		x := io.MultiReader(parts...)
		skip(x)
		return "io.MultiReader", x, left(x), done
	case 12:
		x := io.TeeReader(bytes.NewReader(all), io.Discard)
		skip(x)
		return "io.TeeReader", x, left(x), done
	case 13:
		var z bytes.Buffer
		w, _ := flate.NewWriter(&z, 1)
		w.Write(all)
		w.Close()
		x := flate.NewReader(&z)
		skip(x)
		return "flate reader", x, left(x), done
	case 14:
		x := &nester{c: c, r: pieces(), other: smallObjects(c)}
		skip(x)
		return "reader that uses the library", x, left(x), done
	default:
		x := bufio.NewReadWriter(bufio.NewReader(pieces()), bufio.NewWriter(io.Discard))
		skip(x)
		return "bufio.ReadWriter", x, left(x), done
	}
}

const outCarriers = 11

// outCarrier gives a writer that already holds lead, and a function that
// yields everything that has arrived.
func outCarrier(c *Ctx, kind int, lead []byte) (name string, w io.Writer, got func() []byte) {
	put := func(w io.Writer) {
		if _, err := w.Write(lead); err != nil {
			panic(err)
		}
	}
	switch kind {
	case 0:
		x := &bytes.Buffer{}
		put(x)
		return "bytes.Buffer", x, x.Bytes
	case 1:
		x := &strings.Builder{}
		put(x)
		return "strings.Builder", x, func() []byte { return []byte(x.String()) }
	case 2, 3:
		f := scratchFile()
		flags := os.O_CREATE | os.O_RDWR
		if kind == 3 {
			flags |= os.O_APPEND
		}
		x, err := os.OpenFile(f, flags, 0o600)
		if err != nil {
			panic(err)
		}
		put(x)
		return "file", x, func() []byte { x.Close(); b, _ := os.ReadFile(f); os.Remove(f); return b }
	case 4, 5, 6:
		in := &bytes.Buffer{}
		x := bufio.NewWriterSize(in, []int{16, 4096, 1 << 17}[kind-4])
		put(x)
		return fmt.Sprintf("bufio.Writer of %d", x.Size()), x, func() []byte { x.Flush(); return in.Bytes() }
	case 7:
		pr, pw := io.Pipe()
		ch := make(chan []byte, 1)
		go func() { b, _ := io.ReadAll(pr); ch <- b }()
		put(pw)
		return "io.Pipe", pw, func() []byte { pw.Close(); return <-ch }
	case 8:
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		ch := make(chan []byte, 1)
		go func() { b, _ := io.ReadAll(pr); pr.Close(); ch <- b }()
		put(pw)
		return "os.Pipe", pw, func() []byte { pw.Close(); return <-ch }
	case 9:
		x := &nester{c: c, other: smallObjects(c)}
		put(x)
		return "writer that uses the library", x, x.w.Bytes
	default:
		a, b := &bytes.Buffer{}, &bytes.Buffer{}
		x := io.MultiWriter(a, b)
		put(x)
		return "io.MultiWriter", x, func() []byte {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return nil
			}
			return a.Bytes()
		}
	}
}

// nester is a stream that itself uses the library while it is read or written:
// other objects are written and read, and texts encoded, inside the call.
type nester struct {
	c     *Ctx
	r     io.Reader
	w     bytes.Buffer
	other []object
	n     int
}

func smallObjects(c *Ctx) []object { return objectsOf(c, build(c, randLex(c.R, 1+c.R.Intn(6)))) }

func (x *nester) use() {
	if x.n++; x.n > 8 && x.n%64 > 0 {
		return
	}
	k := x.c.R.Intn(4)
	b := written(x.c, x.other[k])
	o := readNew(k, bytes.NewReader(b))
	if isNil(o) || !bytes.Equal(written(x.c, o), b) {
		x.c.Fail("a %s written and read while another object is written or read differs", kindNames[k])
	}
	if t := "nested \u0434 \u4e2d"; dawg.UtfcDecode(dawg.UtfcEncode(t)) != t {
		x.c.Fail("%q is not decoded to itself", t)
	}
	x.c.Obs("uses of the library inside a stream", 1)
}

func (x *nester) Read(p []byte) (int, error) {
	x.use()
	n, err := x.r.Read(p)
	x.use()
	return n, err
}

func (x *nester) Write(p []byte) (int, error) {
	x.use()
	n, err := x.w.Write(p)
	x.use()
	return n, err
}

// overCarriers writes a row of objects to one writer of some kind and reads
// them back from one reader of some kind.
func overCarriers(c *Ctx, objs []object, all [][]byte, out, in int) []object {
	lead := []byte("some bytes in front of the objects, 0123456789")[:c.R.Intn(47)]
	order := c.R.Perm(4)
	name, w, got := outCarrier(c, out, lead)
	c.note = func() string { return "writing to a " + name }
	want := append([]byte(nil), lead...)
	for _, k := range order {
		if !objs[k].Write(w) {
			c.Fail("writing the %s to a %s failed", kindNames[k], name)
		}
		want = append(want, all[k]...)
	}
	if g := got(); !bytes.Equal(g, want) {
		c.Fail("%d bytes arrived through a %s, want %d, or they differ", len(g), name, len(want))
	}
	c.Obs("objects written to "+name, 4)
	trail := []byte("and some behind")[:c.R.Intn(16)]
	name, r, rest, done := inCarrier(c, in, lead, append(want[len(lead):len(want):len(want)], trail...))
	c.note = func() string { return "reading from a " + name }
	res := make([]object, 4)
	for _, k := range order {
		if c.R.Intn(2) == 0 {
			res[k] = newObject(k)
			if !res[k].Read(r) {
				c.Fail("reading the %s from a %s failed", kindNames[k], name)
			}
		} else if res[k] = readNew(k, r); isNil(res[k]) {
			c.Fail("reading the %s from a %s failed", kindNames[k], name)
		}
		if res[k].FileSize() != len(all[k]) || !bytes.Equal(written(c, res[k]), all[k]) {
			c.Fail("the %s read from a %s writes other bytes", kindNames[k], name)
		}
		c.Eval(1)
	}
	if g := rest(); !bytes.Equal(g, trail) {
		c.Fail("%d bytes are left in a %s after the objects, want %d", len(g), name, len(trail))
	}
	done()
	c.Obs("objects read from "+name, 4)
	return res
}

func carriersC07(c *Ctx) {
	for rep := 0; rep < 3; rep++ {
		for in := 0; in < inCarriers; in++ {
			for out := 0; out < outCarriers; out++ {
				if (in+out+rep)%3 > 0 {
					continue
				}
				n := 1 + c.R.Intn(1<<uint(c.R.Intn(8)))
				if c.R.Intn(40) == 0 {
					n = 20000
				}
				l := randLex(c.R, n)
				c.Detail(func() interface{} { return l.Dump(100) })
				objs := objectsOf(c, build(c, l))
				var all [][]byte
				for _, o := range objs {
					all = append(all, written(c, o))
				}
				res := overCarriers(c, objs, all, out, in)
				answers(c, l, res[0].(*dawg.Dictionary), res[1].(*dawg.Guide), res[2].(*dawg.RankedGuide), res[3].(*dawg.Index), 0)
				c.Seen(l.Sig() ^ uint64(in*64+out))
			}
		}
	}
}

// carriersC08: input that ends early, in readers of all kinds, and outputs of
// the operating system that fail.
func carriersC08(c *Ctx) {
	for rep := 0; rep < 2; rep++ {
		l := randLex(c.R, 1+c.R.Intn(1<<uint(c.R.Intn(11))))
		ol := randLex(c.R, 1+c.R.Intn(40))
		c.Detail(func() interface{} { return l.Dump(100) })
		objs := objectsOf(c, build(c, l))
		oobjs := objectsOf(c, build(c, ol))
		for k, o := range objs {
			full, obytes := written(c, o), written(c, oobjs[k])
			cuts := []int{0, 1, 3, 4, 5, len(full) / 2, len(full) - 5, len(full) - 4, len(full) - 2, len(full) - 1}
			for i := 0; i < 4; i++ {
				cuts = append(cuts, c.R.Intn(len(full)))
			}
			for in := 0; in < inCarriers; in++ {
				for _, cut := range cuts {
					if cut < 0 || cut >= len(full) {
						continue
					}
					lead := full[:c.R.Intn(min(len(full), 600))]
					name, r, _, done := inCarrier(c, in, lead, full[:cut])
					used := newObject(k)
					if !used.Read(bytes.NewReader(obytes)) {
						c.Fail("reading the %s failed", kindNames[k])
					}
					if used.Read(r) {
						c.Fail("a %s of %d bytes was read from a %s although the input ends at byte %d", kindNames[k], len(full), name, cut)
					}
					if !bytes.Equal(written(c, used), obytes) {
						c.Fail("after the failed reading from a %s the %s it was read into has changed", name, kindNames[k])
					}
					done()
					c.Obs("cut points in "+name, 1)
					c.Obs("cut points", 1)
					c.Obs("receivers compared", 1)
					c.SeenN(1)
					c.Eval(2)
				}
			}
			// A file opened for reading only, one that is full, a pipe nobody reads.
			fail := func(name string, w io.Writer) {
				c.note = func() string { return "writing to " + name }
				if o.Write(w) {
					c.Fail("writing a %s of %d bytes to %s reports success", kindNames[k], len(full), name)
				}
				c.Obs("write failures", 1)
				c.SeenN(1)
				c.Eval(1)
			}
			f := scratchFile()
			if err := os.WriteFile(f, nil, 0o600); err != nil {
				panic(err)
			}
			if x, err := os.Open(f); err == nil {
				fail("a file opened for reading", x)
				x.Close()
				fail("a closed file", x)
			}
			os.Remove(f)
			if x, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
				fail("a full device", x)
				x.Close()
			}
			pr, pw := io.Pipe()
			cut := c.R.Intn(len(full))
			go func() { io.CopyN(io.Discard, pr, int64(cut)); pr.Close() }()
			fail(fmt.Sprintf("a pipe closed after %d bytes", cut), pw)
			in := &failWriter{limit: c.R.Intn(len(full)), err: errFault}
			fail("several outputs of which one fails", io.MultiWriter(io.Discard, in, &bytes.Buffer{}))
		}
	}
}
