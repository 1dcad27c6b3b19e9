package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/deNULL/dawg"
)

func init() {
	register(&Prop{ID: "C17", Level: "exploration", Rule: "runs of the dawgtool binary: random lexicons (bytes or text, 0 to 25,000 lines, duplicates, empty lines, values out of range) times all combinations of -t -g -r -i -s -u, then queries (keys, prefixes, extensions, near misses, the empty line); the whole output is compared with the expected one; non-trivial: at least two keys; distinct: by hash of lexicon, options and queries",
		Cases: casesC17, MinObserved: map[string]int64{"builds": 300, "query runs": 300, "query lines compared": 10000, "results printed": 30000, "option sets": 20, "numbered keys compared": 3000}})
	register(&Prop{ID: "C20", Level: "fault_enumeration", Rule: "fault points of dawgtool runs: bad lines (over-long, out of order, value not a number, NUL, no tab) at the beginning, middle and end of lexicons; unreadable and missing files; the output failing at every sampled byte, the results likewise; the dictionary file being the lexicon; the dictionary file truncated at every sampled byte for every set of options; distinct: by construction (lexicon, options, kind, position)",
		Cases: casesC20, MinObserved: map[string]int64{"bad lexicons": 300, "failing outputs": 200, "failing results": 200, "builds onto the lexicon": 100, "truncated files": 1500, "accepted lexicons verified": 30, "dictionaries of more than 65536 units with failing outputs or cut": 3}})
}

type toolResult struct {
	out, errOut []byte
	code        int
}

// runTool runs the dawgtool under test; fsize >= 0 limits the size of files it
// may write.
func runTool(c *Ctx, fsize int64, args ...string) toolResult { return runToolTo(c, "", fsize, args...) }

// runToolTo sends the standard output to a file, unless it has no name.
func runToolTo(c *Ctx, stdout string, fsize int64, args ...string) toolResult {
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	bin := *fTool
	if fsize >= 0 {
		self, _ := os.Executable()
		args = append([]string{"-limitexec", strconv.FormatInt(fsize, 10), bin}, args...)
		bin = self
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = c.Scratch
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdout != "" {
		f, err := os.OpenFile(stdout, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fail("dawgtool %v does not end", args)
	}
	r := toolResult{o.Bytes(), e.Bytes(), 0}
	if err != nil {
		var xe *exec.ExitError
		if !errors.As(err, &xe) {
			panic("cannot run dawgtool: " + err.Error())
		}
		r.code = xe.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	}
	c.Obs("dawgtool runs", 1)
	return r
}

// limitExec is the hidden mode that sets the limit and becomes dawgtool.
func limitExec(limit string, argv []string) {
	n, _ := strconv.ParseUint(limit, 10, 64)
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{Cur: 0, Max: 0})
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		os.Exit(99)
	}
	syscall.Exec(argv[0], argv, os.Environ())
	os.Exit(98)
}

type opts struct{ t, g, r, i, s, u bool }

func (o opts) flags() []string {
	var f []string
	add := func(b bool, s string) {
		if b {
			f = append(f, s)
		}
	}
	add(o.t, "-t")
	add(o.g, "-g")
	add(o.r, "-r")
	add(o.i, "-i")
	add(o.s, "-s")
	add(o.u, "-u")
	return f
}

func optsOf(m int) opts {
	return opts{m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0, m&16 != 0, m&32 != 0}
}

// cliLex is a lexicon: its lines and what they mean.
type cliLex struct {
	o     opts
	lines []string
	vals  map[string]int32 // text -> value
	lex   *Lex             // encoded keys in order
	text  map[string]string
	count int // lines stored
}

func (x *cliLex) enc(s string) string {
	if x.o.u {
		return string(dawg.UtfcEncode(s))
	}
	return s
}

func cliKey(c *Ctx, o opts, pool []string) string {
	var s string
	switch {
	case len(pool) > 0 && c.R.Intn(3) == 0:
		s = pool[c.R.Intn(len(pool))]
		if o.u {
			s += randText(c.R, 1)
		} else {
			s += randStr(c.R, allBytes, 1+c.R.Intn(2))
		}
	case o.u || c.R.Intn(3) == 0:
		s = randText(c.R, 1+c.R.Intn(6))
	case c.R.Intn(3) == 0:
		s = randStr(c.R, allBytes, 1+c.R.Intn(6))
	default:
		s = randStr(c.R, []byte("abcde"), 1+c.R.Intn(6))
	}
	if c.R.Intn(1500) == 0 { // a line of up to 60 KB
		m := 1 << uint(c.R.Intn(11))
		if o.u {
			s += randText(c.R, m*(4+c.R.Intn(6)))
		} else {
			s += randStr(c.R, allBytes, m*(20+c.R.Intn(38)))
		}
	}
	if c.R.Intn(60) == 0 { // lines and encodings of exact lengths
		n := exactLen(c.R, 14)
		switch {
		case !o.u:
			s = randStr(c.R, allBytes, n)
		case c.R.Intn(2) == 0:
			s = randStr(c.R, []byte("abcdefgh"), n)
		default:
			s = ladderTexts(c.R, n)[1]
		}
	}
	if o.u && c.R.Intn(6) == 0 {
		s = strings.ReplaceAll(hostileText(c.R, 1+c.R.Intn(5)), "\x00", "")
	}
	s = strings.ReplaceAll(s, "\n", "n")
	if c.R.Intn(60) == 0 {
		s += "\r\r"[:1+c.R.Intn(2)]
	}
	if o.t {
		s = strings.ReplaceAll(s, "\t", "t")
	}
	if o.r {
		s = strings.ReplaceAll(s, ";", ",")
	}
	return s
}

func makeCliLex(c *Ctx, o opts, n int) *cliLex {
	x := &cliLex{o: o, vals: map[string]int32{}, text: map[string]string{}}
	type ent struct{ key, val string }
	var ents []ent
	var pool []string
	for tries := 0; len(ents) < n && tries < 20*n; tries++ {
		k := cliKey(c, o, pool)
		if k == "" || len(k) > 60000 {
			continue
		}
		if _, ok := x.vals[k]; ok && c.R.Intn(10) > 0 {
			continue
		}
		e := ent{key: k}
		v := int32(0)
		if o.t {
			switch c.R.Intn(8) {
			case 0:
				y := -1 - c.R.Int63n(1<<uint(1+c.R.Intn(40)))
				e.val, v = strconv.FormatInt(y, 10), 0
			case 1:
				y := int64(1)<<31 + c.R.Int63n(1<<uint(1+c.R.Intn(40)))
				e.val, v = strconv.FormatInt(y, 10), 1<<31-1
			case 2, 3:
				v = edgeVals[c.R.Intn(len(edgeVals))]
				e.val = strconv.Itoa(int(v))
			case 4:
				v = int32(max(0, 1<<uint(c.R.Intn(31))-2+c.R.Intn(5)))
				e.val = strconv.Itoa(int(v))
			default:
				v = int32(c.R.Intn(30))
				e.val = strconv.Itoa(int(v))
			}
			if c.R.Intn(12) == 0 { // decimal also when padded with zeros
				z := "00000"[:1+c.R.Intn(5)]
				if e.val[0] == '-' {
					e.val = "-" + z + e.val[1:]
				} else {
					e.val = z + e.val
				}
			} else if c.R.Intn(12) == 0 && e.val[0] != '-' {
				e.val = "+" + e.val
			}
		}
		x.vals[k] = v
		ents = append(ents, e)
		if len(k) < 1000 || c.R.Intn(8) == 0 {
			pool = append(pool, k)
		}
		if c.R.Intn(12) == 0 { // again, with another value
			d := ent{key: k}
			if o.t {
				d.val = strconv.Itoa(c.R.Intn(100))
			}
			ents = append(ents, d)
		}
	}
	if !o.s {
		sort.SliceStable(ents, func(i, j int) bool { return x.enc(ents[i].key) < x.enc(ents[j].key) })
	} else {
		c.R.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	}
	for k := range x.vals {
		delete(x.vals, k)
	}
	for _, e := range ents {
		if o.t {
			y, err := strconv.ParseInt(e.val, 10, 64)
			if err != nil {
				panic(err)
			}
			if y < 0 {
				y = 0
			}
			if y > 1<<31-1 {
				y = 1<<31 - 1
			}
			x.vals[e.key] = int32(y)
			line := e.key + "\t" + e.val
			if c.R.Intn(25) == 0 { // further fields
				line += "\t" + []string{"", "7", "-1", "note", "\t", "8\t9", "x y"}[c.R.Intn(7)]
			}
			x.lines = append(x.lines, line)
		} else {
			x.vals[e.key] = 0
			x.lines = append(x.lines, e.key)
		}
		x.count++
		if c.R.Intn(40) == 0 {
			x.lines = append(x.lines, "")
		}
	}
	x.model()
	return x
}

func (x *cliLex) model() {
	x.lex = &Lex{Spec: fmt.Sprintf("lexicon of %d lines, options %v", len(x.lines), x.o.flags())}
	for k := range x.vals {
		e := x.enc(k)
		x.text[e] = k
		x.lex.Keys = append(x.lex.Keys, e)
	}
	sort.Strings(x.lex.Keys)
	for _, e := range x.lex.Keys {
		x.lex.Vals = append(x.lex.Vals, x.vals[x.text[e]])
	}
}

func writeLines(c *Ctx, path string, lines []string) {
	// Lines end with LF or CR LF; one that ends with a CR of its own needs the latter.
	crlf := c.R.Intn(8) == 0
	var s []byte
	for i, l := range lines {
		s = append(s, l...)
		if crlf || strings.HasSuffix(l, "\r") {
			s = append(s, '\r')
		}
		if i < len(lines)-1 || c.R.Intn(4) > 0 || l == "" {
			s = append(s, '\n')
		}
	}
	if err := os.WriteFile(path, s, 0o644); err != nil {
		panic(err)
	}
}

func (x *cliLex) describe() interface{} {
	n := min(len(x.lines), 200)
	var q []string
	for _, l := range x.lines[:n] {
		if len(l) > 200 {
			l = l[:200] + "..."
		}
		q = append(q, strconv.QuoteToASCII(l))
	}
	return map[string]interface{}{"options": x.o.flags(), "lines": len(x.lines), "first": q}
}

func toolArgs(c *Ctx, build bool, o opts, lex, dic string) []string {
	var a []string
	if build {
		a = append(a, "-b")
	}
	f := o.flags()
	c.R.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	a = append(a, f...)
	switch c.R.Intn(6) {
	case 4: // a file named by its option is the one that counts
		a = append(a, "-l", lex, "-d", dic, dic+".none", lex+".none")
	case 5: // the dictionary is the second argument
		a = append(a, "-l", lex, dic+".none", dic)
	case 3: // one of each
		a = append(a, "-d", dic, lex)
	case 0:
		a = append(a, "-l", lex, "-d", dic)
	case 1:
		a = append([]string{"-d", dic, "-l", lex}, a...)
	default:
		a = append(a, lex, dic)
	}
	return a
}

func casesC17(tier string) []Case {
	var out []Case
	reps := 40
	if tier == "thorough" {
		reps = 400
	}
	add := func(name string, o opts, n func(c *Ctx) int) {
		out = append(out, Case{name, func(c *Ctx) { checkC17(c, o, n(c)) }})
	}
	for i, m := range []int{0, 2 | 8, 4 | 8 | 1, 16 | 1 | 2, 16 | 32 | 1 | 4 | 8, 32 | 2 | 8} {
		add(fmt.Sprintf("large/%d", i), optsOf(m), func(c *Ctx) int { return 9990 + c.R.Intn(10000) })
	}
	add("exactly 10000", optsOf(2), func(c *Ctx) int { return -10000 })
	for i, m := range []int{2 | 8, 1 | 2 | 4 | 8 | 16, 32 | 16 | 1} {
		add(fmt.Sprintf("huge/%d", i), optsOf(m), func(c *Ctx) int { return 80000 + c.R.Intn(40000) })
	}
	for rep := 0; rep < reps; rep++ {
		rep := rep
		for m := 0; m < 64; m++ {
			m := m
			add(fmt.Sprintf("options/%d/%d", rep, m), optsOf(m), func(c *Ctx) int {
				if rep == 0 && m%7 == 0 {
					return c.R.Intn(3)
				}
				return c.R.Intn(1 << uint(1+c.R.Intn(8)))
			})
		}
	}
	return out
}

func checkC17(c *Ctx, o opts, n int) {
	var x *cliLex
	if n < 0 {
		x = &cliLex{o: o, vals: map[string]int32{}, text: map[string]string{}}
		for i := 0; i < -n; i++ {
			k := fmt.Sprintf("key%07d", i)
			x.lines = append(x.lines, k)
			x.vals[k] = 0
			x.count++
		}
		x.model()
	} else {
		x = makeCliLex(c, o, n)
	}
	var queries []string
	c.Detail(func() interface{} {
		var q []string
		for i, s := range queries {
			if i == 50 {
				break
			}
			q = append(q, strconv.QuoteToASCII(s))
		}
		return map[string]interface{}{"lexicon": x.describe(), "queries": q}
	})
	c.note = func() string { return "dawgtool with " + strings.Join(o.flags(), " ") }
	lexF, dicF, qF := filepath.Join(c.Scratch, "lexicon"), filepath.Join(c.Scratch, "dictionary"), filepath.Join(c.Scratch, "queries")
	writeLines(c, lexF, x.lines)
	os.Remove(dicF)
	if c.R.Intn(3) == 0 { // an older, larger file is replaced
		os.WriteFile(dicF, bytes.Repeat([]byte{0xff, 1, 2}, 100+c.R.Intn(40000)), 0o644)
	}
	r := runTool(c, -1, toolArgs(c, true, o, lexF, dicF)...)
	if r.code != 0 {
		c.Fail("building a proper lexicon of %d lines with %v ends with status %d: %s", len(x.lines), o.flags(), r.code, trunc(string(r.errOut), 500))
	}
	c.Obs("builds", 1)
	c.Eval(1)
	guide := o.g || o.r
	index := guide && o.i
	// What the build reports.
	report := map[string]string{}
	for _, line := range strings.Split(string(r.out), "\n") {
		if i := strings.Index(line, ": "); i >= 0 {
			report[line[:i]] = line[i+2:]
		}
	}
	data, err := os.ReadFile(dicF)
	if err != nil {
		c.Fail("no dictionary file after a successful build: %v", err)
	}
	units, rest, err := parseUnits32(data)
	if err != nil {
		c.Fail("dictionary file: %v", err)
	}
	full := 3000
	if len(x.lex.Keys) > 3000 {
		full = 300
	}
	occ := fileMatches(c, x.lex, units, full)
	want := map[string]int{"no. keys": x.count, "no. elements": len(units), "dictionary size": 4 * len(units)}
	st, tr, ed, mg := minimal(x.lex)
	want["no. states"], want["no. transitions"], want["no. merged transitions"], want["no. merging states"] = st, tr, ed-tr, mg
	want["no. merged states"] = ed + 1 - st
	if guide {
		gu, r2, err := parseGuide(rest)
		if err != nil {
			c.Fail("guide in the dictionary file: %v", err)
		}
		guideMatches(c, x.lex, units, gu, o.r, 2000)
		rest = r2
		want["no. units"], want["guide size"] = len(gu), 2*len(gu)
	}
	if index {
		iu, r2, err := parseUnits32(rest)
		if err != nil {
			c.Fail("index in the dictionary file: %v", err)
		}
		indexMatches(c, x.lex, units, iu, 2000)
		rest = r2
		want["no. index units"], want["index size"] = len(iu), 4*len(iu)
	}
	if len(rest) != 0 {
		c.Fail("%d unexpected bytes at the end of the dictionary file", len(rest))
	}
	for k, v := range want {
		if report[k] != strconv.Itoa(v) {
			c.Fail("build with %v reports %q = %q, true is %d", o.flags(), k, report[k], v)
		}
		c.Eval(1)
	}
	if !strings.HasPrefix(report["no. unused elements"], strconv.Itoa(len(units)-occ)+" ") {
		c.Fail("build reports %q unused elements, true are %d", report["no. unused elements"], len(units)-occ)
	}
	var cnt int
	var pct float64
	if n, _ := fmt.Sscanf(report["no. unused elements"], "%d (%f%%)", &cnt, &pct); n == 2 {
		if true_ := 100 * float64(len(units)-occ) / float64(len(units)); pct < true_-0.011 || pct > true_+0.011 {
			c.Fail("build reports %q unused elements, that is %.4f%% of %d", report["no. unused elements"], true_, len(units))
		}
		c.Eval(1)
		c.Obs("percentages compared", 1)
	}

	// Queries.
	keys := make([]string, 0, len(x.vals))
	for _, e := range x.lex.Keys {
		keys = append(keys, x.text[e])
	}
	nq := 5 + c.R.Intn(60)
	switch {
	case strings.HasPrefix(c.Name, "huge"):
		nq = 3000
	case c.R.Intn(50) == 0 && len(keys) < 100:
		nq = 10050
	case c.R.Intn(20) == 0 && len(keys) < 300:
		nq = 600
	}
	for i := 0; i < nq; i++ {
		q := ""
		switch {
		case len(keys) > 0 && c.R.Intn(4) > 0:
			q = keys[c.R.Intn(len(keys))]
			rs := []rune(q)
			switch c.R.Intn(5) {
			case 0: // a prefix
				if o.u {
					q = string(rs[:c.R.Intn(len(rs)+1)])
				} else {
					q = q[:c.R.Intn(len(q)+1)]
				}
			case 1:
				q += cliKey(c, o, nil)
			case 2:
				q += keys[c.R.Intn(len(keys))]
			}
		default:
			q = cliKey(c, o, keys)
		}
		if len(keys) > 3000 && len(q) < 2 {
			continue
		}
		q = strings.TrimRight(strings.ReplaceAll(q, "\n", ""), "\r")
		if o.t && c.R.Intn(10) == 0 {
			q += "\t5"
		}
		if len(q) > 60000 {
			continue
		}
		if len(q) > 16384 {
			c.Obs("query lines over 16 KiB", 1)
		}
		queries = append(queries, q)
	}
	queries = append(queries, "") // all keys
	if len(keys) > 65536 && guide {
		c.Obs("queries with over 65,536 results", 1)
	}
	writeLines(c, qF, queries)
	if b, _ := os.ReadFile(qF); len(queries) > 0 && !bytes.HasSuffix(b, []byte("\n")) && queries[len(queries)-1] == "" {
		queries = queries[:len(queries)-1]
	}
	r = runTool(c, -1, toolArgs(c, false, o, qF, dicF)...)
	if r.code != 0 {
		c.Fail("querying with %v ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 500))
	}
	c.Obs("query runs", 1)
	if after, _ := os.ReadFile(dicF); !bytes.Equal(after, data) {
		c.Fail("querying changed the dictionary file")
	}
	// Keys never contain line ends, but the output is split by them only here.
	lines := strings.Split(string(r.out), "\n")
	if lines[len(lines)-1] != "" {
		c.Fail("the output does not end with a line end")
	}
	lines = lines[:len(lines)-1]
	wantLines := len(queries)
	if index {
		wantLines += 1 + len(keys)
	}
	if len(lines) != wantLines {
		c.Fail("%d lines printed, want %d for %d queries and %d keys", len(lines), wantLines, len(queries), len(keys))
	}
	number := map[string]int{}
	if index {
		tail := lines[len(queries):]
		if tail[0] != fmt.Sprintf("Total words: %d", len(keys)) {
			c.Fail("printed %q for %d keys", tail[0], len(keys))
		}
		for i, line := range tail[1:] {
			pre := strconv.Itoa(i) + ": "
			if !strings.HasPrefix(line, pre) {
				c.Fail("line %d of the numbered list is %q", i, trunc(line, 200))
			}
			k := line[len(pre):]
			if _, ok := x.vals[k]; !ok {
				c.Fail("number %d is %s, which is no key", i, show(k))
			}
			if _, ok := number[k]; ok {
				c.Fail("key %s is numbered twice", show(k))
			}
			number[k] = i
			if !o.r && k != keys[i] {
				c.Fail("number %d is %s, want %s", i, show(k), show(keys[i]))
			}
			c.Obs("numbered keys compared", 1)
		}
	}
	for qi, q := range queries {
		line := lines[qi]
		head := q + ":"
		if index {
			if n, ok := number[q]; ok {
				head += fmt.Sprintf(" (#%d)", n)
			} else {
				head += " (not found)"
			}
		}
		if !strings.HasPrefix(line, head) {
			c.Fail("query %s with %v: printed %q, want %q...", show(q), o.flags(), trunc(line, 300), trunc(head, 300))
		}
		body := line[len(head):]
		eq := x.enc(q)
		var exp []string
		var vals []int32
		if !guide {
			for i := 1; i <= len(eq); i++ {
				if j := x.lex.Find(eq[:i]); j >= 0 {
					exp = append(exp, fmt.Sprintf(" %s = %d;", x.text[eq[:i]], x.lex.Vals[j]))
				}
			}
		} else {
			lo, hi := x.lex.Range(eq)
			for j := lo; j < hi; j++ {
				exp = append(exp, fmt.Sprintf(" %s = %d;", x.text[x.lex.Keys[j]], x.lex.Vals[j]))
				vals = append(vals, x.lex.Vals[j])
			}
		}
		if guide && o.r {
			left := map[string]int32{}
			for i, e := range exp {
				left[e] = vals[i]
			}
			prev := int32(-1)
			n := 0
			for body != "" {
				i := strings.IndexByte(body, ';')
				if i < 0 {
					c.Fail("query %s with %v: printed %q", show(q), o.flags(), trunc(line, 300))
				}
				e := body[:i+1]
				body = body[i+1:]
				v, ok := left[e]
				if !ok {
					c.Fail("query %s with %v: printed %q, which is unexpected or comes twice", show(q), o.flags(), trunc(e, 300))
				}
				delete(left, e)
				if n > 0 && v > prev {
					c.Fail("query %s with %v: value %d after %d", show(q), o.flags(), v, prev)
				}
				prev = v
				n++
			}
			for e := range left {
				c.Fail("query %s with %v: %q is missing", show(q), o.flags(), trunc(e, 300))
			}
		} else if w := strings.Join(exp, ""); body != w {
			c.Fail("query %s with %v: printed %q, want %q", show(q), o.flags(), trunc(body, 400), trunc(w, 400))
		}
		c.Obs("query lines compared", 1)
		c.Obs("results printed", len(exp))
		c.Eval(1)
	}
	if len(keys) >= 2 {
		c.Seen(x.lex.Sig() ^ hash64(append(o.flags(), queries...)...))
	}
	cliMu.Lock()
	if f := strings.Join(o.flags(), " "); !cliOpts[f] {
		cliOpts[f] = true
		c.Obs("option sets", 1)
	}
	cliMu.Unlock()
	if len(c.samples) == 0 && len(queries) > 0 && len(lines) > 0 && len(keys) > 2 {
		c.Sample(map[string]interface{}{"options": o.flags(), "keys": len(keys), "query": strconv.QuoteToASCII(queries[0]), "printed": strconv.QuoteToASCII(trunc(lines[0], 200))})
	}
}

var cliMu sync.Mutex
var cliOpts = map[string]bool{}

// ---- C20 ---------------------------------------------------------------------

func casesC20(tier string) []Case {
	var out []Case
	reps := 120
	trunc := 3
	if tier == "thorough" {
		reps, trunc = 800, 20
	}
	// dictionaries of more than 2^16 units, lexicons of more than 10,000 lines
	for i, m := range []int{1, 2, 4 | 16, 2 | 8, 4 | 8 | 16 | 32} {
		o := optsOf(m)
		for j := 0; j < trunc/3; j++ {
			out = append(out, Case{fmt.Sprintf("large output/%d/%d", i, j), func(c *Ctx) { cliOutput(c, o, 30000+c.R.Intn(5000)) }})
			out = append(out, Case{fmt.Sprintf("large truncate/%d/%d", i, j), func(c *Ctx) { cliTruncate(c, o, 30000+c.R.Intn(5000)) }})
			out = append(out, Case{fmt.Sprintf("large lexicon/%d/%d", i, j), func(c *Ctx) {
				for j := 0; j < 4; j++ {
					cliBadLexicon(c, 9990+c.R.Intn(20)+10000*(j%3))
				}
			}})
		}
	}
	for m := 0; m < 32; m++ { // truncation with every set of options (-s does not matter)
		if m&16 != 0 {
			continue
		}
		for _, u := range []int{0, 32} {
			for i := 0; i < trunc; i++ {
				o := optsOf(m | u)
				out = append(out, Case{fmt.Sprintf("truncate/%d/%d/%d", m, u, i), func(c *Ctx) { cliTruncate(c, o, 3+c.R.Intn(20)) }})
			}
		}
	}
	for i := 0; i < reps; i++ {
		out = append(out, Case{fmt.Sprintf("lexicon/%d", i), func(c *Ctx) {
			for j := 0; j < 10; j++ {
				cliBadLexicon(c, 1+c.R.Intn(30))
			}
		}})
		out = append(out, Case{fmt.Sprintf("output/%d", i), func(c *Ctx) {
			n := 1 + c.R.Intn(60)
			if c.R.Intn(10) == 0 {
				n = 500 + c.R.Intn(2000)
			}
			cliOutput(c, optsOf(c.R.Intn(64)), n)
		}})
	}
	for i := 0; i < reps/2; i++ {
		out = append(out, Case{fmt.Sprintf("results/%d", i), func(c *Ctx) {
			n := 1 + c.R.Intn(60)
			if c.R.Intn(4) == 0 {
				n = 500 + c.R.Intn(2000)
			}
			cliResults(c, optsOf(c.R.Intn(64)), n)
		}})
	}
	out = append(out, Case{"same", cliSame})
	out = append(out, Case{"files", cliFiles})
	return out
}

// accepted: a build that ended with status 0 must have stored every line.
func accepted(c *Ctx, o opts, lines []string, dicF string, what string) {
	data, err := os.ReadFile(dicF)
	if err != nil {
		c.Fail("%s: status 0 but no dictionary file", what)
	}
	units, rest, err := parseUnits32(data)
	if err != nil {
		c.Fail("%s: status 0 but the dictionary file is incomplete: %v", what, err)
	}
	for i, line := range lines {
		if line == "" {
			continue
		}
		k := line
		if o.t {
			k = strings.Split(line, "\t")[0]
		}
		if o.u {
			k = string(dawg.UtfcEncode(k))
		}
		if _, ok := fileLookup(units, k); !ok {
			c.Fail("%s: status 0 but line %d of %d (%s) is not in the dictionary file", what, i+1, len(lines), show(line))
		}
	}
	if o.g || o.r {
		var err error
		if _, rest, err = parseGuide(rest); err != nil {
			c.Fail("%s: status 0 but the guide is incomplete: %v", what, err)
		}
		if o.i {
			if _, rest, err = parseUnits32(rest); err != nil {
				c.Fail("%s: status 0 but the index is incomplete: %v", what, err)
			}
		}
	}
	if len(rest) != 0 {
		c.Fail("%s: %d unexpected bytes at the end of the dictionary file", what, len(rest))
	}
	c.Obs("accepted lexicons verified", 1)
}

func cliBadLexicon(c *Ctx, n int) {
	o := optsOf(c.R.Intn(64))
	kind := c.R.Intn(6)
	switch kind {
	case 1:
		o.s = false
	case 2, 4:
		o.t = true
	case 3:
		o.u = false
	}
	x := makeCliLex(c, o, n)
	if n > 9000 {
		c.Obs("bad lexicons of more than 10,000 lines", 1)
	}
	lines := append([]string{}, x.lines...)
	if len(lines) == 0 {
		return
	}
	pos := []int{0, len(lines) / 2, len(lines), c.R.Intn(len(lines) + 1)}[c.R.Intn(4)]
	mustFail := false
	what := ""
	insert := func(s string) { lines = append(lines[:pos:pos], append([]string{s}, lines[pos:]...)...) }
	val := ""
	if o.t {
		val = "\t" + strconv.Itoa(c.R.Intn(100))
	}
	// a key that fits the order at pos, if there is need
	fit := func(tail string) string {
		if pos == 0 {
			return ""
		}
		k := lines[pos-1]
		if o.t {
			k = strings.Split(k, "\t")[0]
		}
		return k + tail
	}
	switch kind {
	case 0: // over-long
		size := []int{65500, 65534, 65535, 65536, 65537, 65600, 70000, 131072, 200000}[c.R.Intn(9)]
		k := fit("")
		if o.u || c.R.Intn(2) == 0 {
			k += strings.Repeat("x", max(1, size-len(k)-len(val)))
		} else {
			k += randNoLF(c, max(1, size-len(k)-len(val)))
		}
		if pos == 0 && !o.s { // smaller than the first key, whatever it is
			lines = nil
			pos = 0
			if c.R.Intn(2) == 0 {
				lines = []string{"zzz" + val}
			}
			k = strings.Repeat("x", size-len(val))
		}
		insert(k + val)
		what = fmt.Sprintf("a line of %d bytes at position %d of %d", len(k)+len(val), pos, len(lines))
	case 1: // out of order
		if len(x.lex.Keys) < 2 {
			return
		}
		j := c.R.Intn(len(x.lex.Keys) - 1)
		small := x.text[x.lex.Keys[j]]
		// after some greater key
		greater := -1
		for i, l := range lines {
			k := l
			if o.t {
				k = strings.Split(l, "\t")[0]
			}
			if k != "" && x.enc(k) > x.enc(small) && (greater < 0 || c.R.Intn(4) == 0) {
				greater = i
			}
		}
		if greater < 0 {
			return
		}
		pos = greater + 1
		if c.R.Intn(3) == 0 {
			pos = len(lines)
		}
		insert(small + val)
		mustFail = true
		what = fmt.Sprintf("a line out of order at position %d of %d", pos, len(lines))
	case 2: // not a number
		bad := []string{"x", "1x", "", " ", "1.5", "--1", "0x10", "1e3", "९", "1 2", "1_0", "1,000", "5.0", "5.", "-", "+", "+-3", "3-", "0b1", "0o7", "1\v", "5;", "\x005", "5\x00", "٣", "NaN", "true", "0X1F", "\t5", "x\t5", " \t", "99999999999999999999", "-99999999999999999999"}[c.R.Intn(33)]
		k := fit("q")
		if k == "" {
			k = "q"
			if !o.s {
				lines, pos = nil, 0
			}
		}
		insert(k + "\t" + bad)
		mustFail = bad[max(0, len(bad)-1):] != "9"
		what = fmt.Sprintf("the value %q at position %d of %d", bad, pos, len(lines))
	case 3: // NUL
		k := fit("")
		insert(k + "\x00" + "n" + val)
		what = fmt.Sprintf("a key with a NUL byte at position %d of %d", pos, len(lines))
	case 4: // no tab
		k := fit("q")
		if k == "" {
			k = "q"
			if !o.s {
				lines, pos = nil, 0
			}
		}
		insert(k)
		mustFail = true
		what = fmt.Sprintf("a line without a value at position %d of %d", pos, len(lines))
	case 5: // nothing wrong
		what = "a proper lexicon"
	}
	c.Detail(func() interface{} {
		y := &cliLex{o: o, lines: lines}
		return map[string]interface{}{"what": what, "lexicon": y.describe()}
	})
	c.note = func() string { return what }
	lexF, dicF := filepath.Join(c.Scratch, "lexicon"), filepath.Join(c.Scratch, "dictionary")
	os.Remove(dicF)
	writeLines(c, lexF, lines)
	r := runTool(c, -1, toolArgs(c, true, o, lexF, dicF)...)
	c.Eval(1)
	c.SeenN(1)
	if r.code == 0 {
		if mustFail {
			c.Fail("building with %v from a lexicon with %s ends with status 0", o.flags(), what)
		}
		accepted(c, o, lines, dicF, what)
	} else if kind == 5 {
		c.Fail("building a proper lexicon with %v ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 400))
	}
	if kind != 5 {
		c.Obs("bad lexicons", 1)
	}
	if len(c.samples) == 0 {
		c.Sample(map[string]interface{}{"what": what, "options": o.flags(), "status": r.code})
	}
	// An over-long query line is reported or answered, not skipped.
	if kind == 5 && c.R.Intn(2) == 0 {
		qF := filepath.Join(c.Scratch, "queries")
		long := strings.Repeat("y", []int{65535, 65536, 70000, 150000}[c.R.Intn(4)])
		qs := []string{"a", long, "b"}
		writeLines(c, qF, qs)
		r := runTool(c, -1, toolArgs(c, false, o, qF, dicF)...)
		if r.code == 0 {
			for _, q := range qs {
				if !strings.Contains("\n"+string(r.out), "\n"+q+":") {
					c.Fail("status 0 although the query %s was not answered", show(q))
				}
			}
		}
		c.Obs("bad lexicons", 1)
		c.SeenN(1)
	}
}

func randNoLF(c *Ctx, n int) string {
	b := []byte(randStr(c.R, allBytes, n))
	for i := range b {
		if b[i] == '\n' || b[i] == '\t' || b[i] == '\r' {
			b[i] = 'x'
		}
	}
	return string(b)
}

// cliOutput: the dictionary file cannot be written completely.
func cliOutput(c *Ctx, o opts, n int) {
	x := makeCliLex(c, o, n)
	c.Detail(func() interface{} { return x.describe() })
	lexF, dicF := filepath.Join(c.Scratch, "lexicon"), filepath.Join(c.Scratch, "dictionary")
	writeLines(c, lexF, x.lines)
	os.Remove(dicF)
	r := runTool(c, -1, toolArgs(c, true, o, lexF, dicF)...)
	if r.code != 0 {
		c.Fail("building a proper lexicon with %v ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 400))
	}
	data, err := os.ReadFile(dicF)
	if err != nil {
		c.Fail("no dictionary file")
	}
	r = runTool(c, -1, toolArgs(c, true, o, lexF, "/dev/full")...)
	if r.code == 0 {
		c.Fail("building with %v onto a full device ends with status 0", o.flags())
	}
	c.Obs("failing outputs", 1)
	c.SeenN(1)
	size := len(data)
	limits := []int{0, 1, 3, 4, 5, size - 1, size - 2, size - 4}
	// around the joints
	units, _, _ := parseUnits32(data)
	if len(units) > 1<<16 {
		c.Obs("dictionaries of more than 65536 units with failing outputs or cut", 1)
	}
	j := 4 + 4*len(units)
	limits = append(limits, j-1, j, j+1, j+3, j+4, j+5)
	j += 4 + 2*len(units)
	limits = append(limits, j-1, j, j+1, j+3, j+4, j+5)
	for i := 0; i < 6; i++ {
		limits = append(limits, c.R.Intn(size))
	}
	for _, lim := range limits {
		if lim < 0 || lim >= size {
			continue
		}
		os.Remove(dicF)
		r := runTool(c, int64(lim), toolArgs(c, true, o, lexF, dicF)...)
		if r.code == 99 || r.code == 98 {
			panic("cannot limit the file size")
		}
		if r.code == 0 {
			c.Fail("building with %v ends with status 0 although only %d of %d bytes could be written", o.flags(), lim, size)
		}
		c.Obs("failing outputs", 1)
		c.SeenN(1)
		c.Eval(1)
	}
	os.Remove(dicF)
	r = runTool(c, int64(size), toolArgs(c, true, o, lexF, dicF)...)
	if r.code != 0 {
		c.Fail("building with %v ends with status %d with room for exactly the %d bytes", o.flags(), r.code, size)
	}
	accepted(c, o, x.lines, dicF, "room for exactly the file")
	if got, _ := os.ReadFile(dicF); !bytes.Equal(got, data) {
		c.Fail("two builds with %v from one lexicon differ", o.flags())
	}
}

// cliTruncate: query mode on a file that ends early.
func cliTruncate(c *Ctx, o opts, n int) {
	x := makeCliLex(c, o, n)
	c.Detail(func() interface{} { return x.describe() })
	lexF, dicF, cutF, qF := filepath.Join(c.Scratch, "lexicon"), filepath.Join(c.Scratch, "dictionary"), filepath.Join(c.Scratch, "cut"), filepath.Join(c.Scratch, "queries")
	writeLines(c, lexF, x.lines)
	os.Remove(dicF)
	if c.R.Intn(2) == 0 { // the file is there already, and longer
		if err := os.WriteFile(dicF, bytes.Repeat([]byte{1, 0, 0, 0}, 4000+10*n), 0o644); err != nil {
			panic(err)
		}
	}
	if r := runTool(c, -1, toolArgs(c, true, o, lexF, dicF)...); r.code != 0 {
		c.Fail("building a proper lexicon with %v ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 400))
	}
	data, err := os.ReadFile(dicF)
	if err != nil {
		c.Fail("no dictionary file")
	}
	var q []string
	for k := range x.vals {
		q = append(q, k)
	}
	sort.Strings(q)
	if len(q) > 100 {
		q = q[:100]
	}
	if c.R.Intn(4) == 0 {
		q = nil
	}
	writeLines(c, qF, q)
	m := map[int]bool{}
	units, rest, _ := parseUnits32(data)
	if len(units) > 1<<16 {
		c.Obs("dictionaries of more than 65536 units with failing outputs or cut", 1)
	}
	joints := []int{0, 4 + 4*len(units)}
	if o.g || o.r {
		gu, _, err := parseGuide(rest)
		if err == nil {
			joints = append(joints, 4+4*len(units)+4+2*len(gu))
		}
	}
	joints = append(joints, len(data))
	for _, j := range joints {
		for d := -5; d <= 9; d++ {
			m[j+d] = true
		}
	}
	if c.Thorough() && n < 1000 {
		for i := range data {
			if i%3 == c.R.Intn(3) {
				m[i] = true
			}
		}
	} else {
		k := 40
		if n > 1000 {
			k = 8
		}
		for i := 0; i < k; i++ {
			m[c.R.Intn(len(data))] = true
		}
	}
	var points []int
	for p := range m {
		if p >= 0 && p < len(data) {
			points = append(points, p)
		}
	}
	sort.Ints(points)
	for _, p := range points {
		if err := os.WriteFile(cutF, data[:p], 0o644); err != nil {
			panic(err)
		}
		r := runTool(c, -1, toolArgs(c, false, o, qF, cutF)...)
		if r.code == 0 {
			c.Fail("querying with %v a file of %d bytes cut at byte %d ends with status 0", o.flags(), len(data), p)
		}
		c.Obs("truncated files", 1)
		c.SeenN(1)
		c.Eval(1)
	}
	if r := runTool(c, -1, toolArgs(c, false, o, qF, dicF)...); r.code != 0 {
		c.Fail("querying with %v the complete file ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 400))
	}
	// A guide or an index that is not there.
	lacking := []opts{}
	if !o.g && !o.r {
		a := o
		a.g = true
		b := o
		b.r = true
		lacking = append(lacking, a, b)
	} else if !o.i {
		a := o
		a.i = true
		lacking = append(lacking, a)
	}
	for _, l := range lacking {
		if r := runTool(c, -1, toolArgs(c, false, l, qF, dicF)...); r.code == 0 {
			c.Fail("a file built with %v queried with %v: status 0", o.flags(), l.flags())
		}
		c.Obs("truncated files", 1)
		c.SeenN(1)
	}
}

// cliResults: the results of query mode cannot be written completely.
func cliResults(c *Ctx, o opts, n int) {
	x := makeCliLex(c, o, n)
	c.Detail(func() interface{} { return x.describe() })
	lexF, dicF, qF, outF := filepath.Join(c.Scratch, "lexicon"), filepath.Join(c.Scratch, "dictionary"), filepath.Join(c.Scratch, "queries"), filepath.Join(c.Scratch, "results")
	writeLines(c, lexF, x.lines)
	os.Remove(dicF)
	if r := runTool(c, -1, toolArgs(c, true, o, lexF, dicF)...); r.code != 0 {
		c.Fail("building a proper lexicon with %v ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 400))
	}
	var q []string
	for k := range x.vals {
		q = append(q, k)
		if !o.u {
			q = append(q, k[:1])
		}
	}
	sort.Strings(q)
	if m := 1 + c.R.Intn(60); len(q) > m {
		q = q[:m]
	}
	if c.R.Intn(8) == 0 && o.i {
		q = nil
	}
	writeLines(c, qF, q)
	os.Remove(outF)
	args := toolArgs(c, false, o, qF, dicF)
	r := runToolTo(c, outF, -1, args...)
	want, err := os.ReadFile(outF)
	if err != nil {
		panic(err)
	}
	if r.code != 0 {
		c.Fail("querying with %v ends with status %d: %s", o.flags(), r.code, trunc(string(r.errOut), 400))
	}
	size := len(want)
	if size == 0 {
		return
	}
	if r := runToolTo(c, "/dev/full", -1, args...); r.code == 0 {
		c.Fail("querying with %v with results onto a full device ends with status 0", o.flags())
	}
	limits := []int{0, 1, size - 1, size - 2, size / 2}
	for _, k := range []int{512, 1024, 4096, 8192, 65536} {
		limits = append(limits, k, size-k)
	}
	for i := 0; i < 6; i++ {
		limits = append(limits, c.R.Intn(size))
	}
	for _, lim := range limits {
		if lim < 0 || lim >= size {
			continue
		}
		r := runToolTo(c, outF, int64(lim), args...)
		if r.code == 99 || r.code == 98 {
			panic("cannot limit the file size")
		}
		if r.code == 0 {
			c.Fail("querying with %v ends with status 0 although only %d of %d bytes of results could be written", o.flags(), lim, size)
		}
		got, _ := os.ReadFile(outF)
		if !bytes.HasPrefix(want, got) {
			c.Fail("querying with %v with room for %d bytes writes other results", o.flags(), lim)
		}
		c.Obs("failing results", 1)
		c.SeenN(1)
		c.Eval(1)
	}
	r = runToolTo(c, outF, int64(size), args...)
	if got, _ := os.ReadFile(outF); r.code != 0 || !bytes.Equal(got, want) {
		c.Fail("querying with %v with room for exactly the %d bytes of results ends with status %d", o.flags(), size, r.code)
	}
}

// cliSame: the dictionary file is the lexicon file, under the same or another
// name.
func cliSame(c *Ctx) {
	for m := 0; m < 64; m++ {
		o := optsOf(m)
		x := makeCliLex(c, o, 1+c.R.Intn(20))
		if len(x.vals) == 0 {
			continue
		}
		c.Detail(func() interface{} { return x.describe() })
		lexF, link, hard := filepath.Join(c.Scratch, "lexicon"), filepath.Join(c.Scratch, "symlink"), filepath.Join(c.Scratch, "hardlink")
		for i, other := range []string{lexF, link, hard, filepath.Dir(lexF) + "/./lexicon"} {
			os.Remove(lexF)
			os.Remove(link)
			os.Remove(hard)
			writeLines(c, lexF, x.lines)
			if os.Symlink(lexF, link) != nil || os.Link(lexF, hard) != nil {
				panic("cannot link")
			}
			a, b := lexF, other
			if c.R.Intn(2) == 0 {
				a, b = b, a
			}
			r := runTool(c, -1, toolArgs(c, true, o, a, b)...)
			if r.code == 0 {
				accepted(c, o, x.lines, b, "building onto the lexicon itself")
			}
			c.Obs("builds onto the lexicon", 1)
			c.SeenN(1)
			c.Eval(1)
			_ = i
		}
		os.Remove(link)
		os.Remove(hard)
	}
}

// cliFiles: files that are not there or not files.
func cliFiles(c *Ctx) {
	c.Detail(nil)
	good := filepath.Join(c.Scratch, "good")
	os.WriteFile(good, []byte("a\nb\n"), 0o644)
	dic := filepath.Join(c.Scratch, "gooddic")
	if r := runTool(c, -1, "-b", "-g", "-i", good, dic); r.code != 0 {
		c.Fail("building ends with status %d", r.code)
	}
	dir := filepath.Join(c.Scratch, "dir")
	os.MkdirAll(dir, 0o755)
	missing := filepath.Join(c.Scratch, "nowhere", "file")
	for m := 0; m < 64; m++ {
		o := optsOf(m)
		out := filepath.Join(c.Scratch, "out")
		try := func(what string, build bool, lex, d string) {
			os.Remove(out)
			if r := runTool(c, -1, toolArgs(c, build, o, lex, d)...); r.code == 0 {
				c.Fail("%s with %v: status 0", what, o.flags())
			}
			c.Obs("bad lexicons", 1)
			c.SeenN(1)
			c.Eval(1)
		}
		try("building from a missing lexicon", true, missing, out)
		try("building from a lexicon that cannot be read", true, dir, out)
		try("building into a missing directory", true, good, missing)
		try("building into a directory", true, good, dir)
		try("querying a missing file", false, good, missing)
		try("querying a directory", false, good, dir)
		try("querying an empty file", false, good, "/dev/null")
	}
}
