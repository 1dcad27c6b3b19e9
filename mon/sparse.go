package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"sort"

	"github.com/deNULL/dawg"
)

// Dictionaries of up to 2^29 units, of which only a few blocks are in use: the
// file is made while it is read, so that only the library holds the array.

type sparseDict struct {
	n      uint32 // units
	blocks map[uint32]*[256]uint32
	fixed  map[uint32]bool
	off    map[uint32]bool
	bits   uint32 // bits seen in offsets
	ext    int
}

func (s *sparseDict) set(i, u uint32) {
	b := s.blocks[i>>8]
	if b == nil {
		b = new([256]uint32)
		s.blocks[i>>8] = b
	}
	b[i&0xff] = u
}

// sparse places the trie of a key set over an array of 2^logN units.
func sparse(r *rand.Rand, l *Lex, logN uint) *sparseDict {
	s := &sparseDict{n: 1 << logN, blocks: map[uint32]*[256]uint32{}, fixed: map[uint32]bool{0: true}, off: map[uint32]bool{0: true}}
	var place func(nd Node, idx uint32)
	place = func(nd Node, idx uint32) {
		type child struct {
			label byte
			node  Node
		}
		var kids []child
		l.Children(nd, func(lb byte, ch Node) { kids = append(kids, child{lb, ch}) })
		term := l.Terminal(nd)
		if len(kids) == 0 && !term {
			return
		}
		var rel uint32
		for t := 0; ; t++ {
			switch r.Intn(4) {
			case 0: // near
				rel = r.Uint32() & (1<<21 - 1)
			case 1: // a single bit, or all bits up to one
				rel = 1 << (8 + uint(r.Intn(int(logN)-8)))
				if r.Intn(2) == 0 {
					rel = (rel<<1 - 1) &^ 0xff
				}
			default: // anywhere
				rel = r.Uint32() &^ 0xff
			}
			rel &= s.n - 1
			off := idx ^ rel
			if s.off[off] || term && s.fixed[off] {
				continue
			}
			free := true
			for _, k := range kids {
				if s.fixed[off^uint32(k.label)] {
					free = false
				}
			}
			if free {
				break
			}
			if t > 10000 {
				panic("no place in a sparse array")
			}
		}
		off := idx ^ rel
		s.off[off] = true
		s.bits |= rel
		u := uint32(0)
		if b := s.blocks[idx>>8]; b != nil {
			u = b[idx&0xff] & 0xff
		}
		if rel < 1<<21 && (rel&0xff != 0 || rel == 0 || r.Intn(3) > 0) {
			u |= rel << 10
		} else {
			u |= rel<<2 | 1<<9
			s.ext++
		}
		if term {
			u |= 1 << 8
		}
		s.set(idx, u)
		if term {
			s.fixed[off] = true
			s.set(off, uint32(l.Vals[nd.Lo])|1<<31)
		}
		for _, k := range kids {
			p := off ^ uint32(k.label)
			s.fixed[p] = true
			s.set(p, uint32(k.label))
		}
		for _, j := range r.Perm(len(kids)) {
			place(kids[j].node, off^uint32(kids[j].label))
		}
	}
	place(l.Root(), 0)
	// Unused units get a label that nothing looks for at their place.
	for off := range s.off {
		if s.blocks[off>>8] == nil {
			s.blocks[off>>8] = new([256]uint32)
		}
	}
	for bi, b := range s.blocks {
		for j := uint32(0); j < 256; j++ {
			i := bi<<8 | j
			if s.fixed[i] {
				continue
			}
			x := uint32(0)
			for x < 256 && s.off[i^x] {
				x++
			}
			if x == 256 {
				panic("no filler")
			}
			b[j] = x
		}
	}
	return s
}

// reader delivers the file: the blocks in use, and zeros in between.
func (s *sparseDict) reader() io.Reader {
	var used []uint32
	for b := range s.blocks {
		used = append(used, b)
	}
	sort.Slice(used, func(i, j int) bool { return used[i] < used[j] })
	var parts []io.Reader
	head := make([]byte, 4)
	binary.LittleEndian.PutUint32(head, s.n)
	parts = append(parts, &byteReader{head})
	at := uint32(0)
	for _, b := range used {
		if b > at {
			parts = append(parts, &zeroReader{int64(b-at) * 1024})
		}
		p := make([]byte, 1024)
		for j, u := range s.blocks[b] {
			binary.LittleEndian.PutUint32(p[4*j:], u)
		}
		parts = append(parts, &byteReader{p})
		at = b + 1
	}
	if at < s.n>>8 {
		parts = append(parts, &zeroReader{int64(s.n>>8-at) * 1024})
	}
	return io.MultiReader(parts...)
}

type byteReader struct{ b []byte }

func (x *byteReader) Read(p []byte) (int, error) {
	if len(x.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, x.b)
	x.b = x.b[n:]
	return n, nil
}

type zeroReader struct{ n int64 }

func (z *zeroReader) Read(p []byte) (int, error) {
	if z.n == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > z.n {
		n = int(z.n)
	}
	clear(p[:n])
	z.n -= int64(n)
	return n, nil
}

// sparseFile lets the library read and answer from such a file.
func sparseFile(c *Ctx, logN uint, n int) {
	l := randLex(c.R, n)
	for len(l.Keys) < n/2 || l.Longest() > 60 {
		l = randLex(c.R, n)
	}
	c.Detail(func() interface{} { return l.Dump(300) })
	s := sparse(c.R, l, logN)
	c.note = func() string { return fmt.Sprintf("a dictionary of 2^%d units", logN) }
	d := dawg.ReadDictionary(s.reader())
	if d == nil {
		c.Fail("a well-formed dictionary of 2^%d units was not read", logN)
	}
	if d.Size() != int(s.n) || d.FileSize() != 4+4*int(s.n) {
		c.Fail("a dictionary of %d units has size %d and file size %d", s.n, d.Size(), d.FileSize())
	}
	verifyLookups(c, l, d, 1)
	verifyNavigation(c, l, d, false)
	c.Obs("foreign files read", 1)
	c.Obs("foreign extended offsets", s.ext)
	c.Obs(fmt.Sprintf("offsets in an array of 2^%d units", logN), s.ext)
	for b := uint(8); b < logN; b++ {
		if s.bits>>b&1 != 0 {
			c.Obs(fmt.Sprintf("files with offset bit %d", b), 1)
		}
	}
	c.Seen(l.Sig())
}
