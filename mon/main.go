// Command mon runs one property's monitor over its workload.
//
// The parent process (supervisor) starts a child that executes the cases and
// watches it; the verdict is held (0), violated (1) or inconclusive (2).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Case is a deterministic piece of workload: everything random in it comes
// from a generator seeded with (seed, property, name).
type Case struct {
	Name string
	Run  func(c *Ctx)
}

type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Cases       func(tier string) []Case
	MinObserved map[string]int64 // event counts below which the run is inconclusive
	Race        bool
	Serial      bool // one case at a time
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx is what a case reports to.
type Ctx struct {
	R        *rand.Rand
	Tier     string
	Name     string
	Scratch  string
	eval     int64
	distinct int64
	seen     map[uint64]struct{}
	obs      map[string]int64
	samples  []interface{}
	detail   func() interface{}
	note     func() string // what is being done right now, for panics
}

type violation struct{ msg string }

func (c *Ctx) Eval(n int)                  { c.eval += int64(n) }
func (c *Ctx) Seen(sig uint64)             { c.seen[sig] = struct{}{} }
func (c *Ctx) SeenN(n int)                 { c.distinct += int64(n) } // distinct by construction
func (c *Ctx) Obs(what string, n int)      { c.obs[what] += int64(n) }
func (c *Ctx) Sample(s interface{})        { c.samples = append(c.samples, s) }
func (c *Ctx) Detail(f func() interface{}) { c.detail = f }
func (c *Ctx) Fail(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

type Failure struct {
	Property string      `json:"property"`
	Seed     int64       `json:"seed"`
	Tier     string      `json:"tier"`
	Case     string      `json:"case"`
	Message  string      `json:"message"`
	Stack    string      `json:"stack,omitempty"`
	Detail   interface{} `json:"detail,omitempty"`
	Rerun    string      `json:"rerun"`
}

type Result struct {
	Done        bool             `json:"done"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Cases       int              `json:"cases"`
	Observed    map[string]int64 `json:"observed"`
	Samples     []interface{}    `json:"samples"`
	Failure     *Failure         `json:"failure"`
	Inconcl     string           `json:"inconclusive"`
}

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "seed")
	fCase    = flag.String("case", "", "run only the case with this name")
	fGrep    = flag.String("grep", "", "run only the cases whose name matches")
	fReplay  = flag.String("replay", "", "re-run the case of a replay file")
	fOut     = flag.String("out", "", "directory for evidence/ and replays/")
	fChild   = flag.String("child", "", "internal: result file")
	fScratch = flag.String("scratch", "", "internal: scratch directory")
	fTool    = flag.String("dawgtool", "", "dawgtool binary under test")
	fCPU     = flag.Duration("casecpu", 150*time.Second, "CPU time after which a case counts as not terminating (quick; six times as much for thorough)")
	fWorkers = flag.Int("workers", 8, "parallel cases")
)

func main() {
	if len(os.Args) > 3 && os.Args[1] == "-limitexec" {
		limitExec(os.Args[2], os.Args[3:])
	}
	if len(os.Args) > 2 && os.Args[1] == "-cold" {
		coldMain(os.Args[2])
	}
	flag.Parse()
	if *fReplay != "" {
		var f Failure
		b, err := os.ReadFile(*fReplay)
		if err != nil || json.Unmarshal(b, &f) != nil {
			fmt.Println("cannot read replay file")
			os.Exit(2)
		}
		*fProp, *fSeed, *fTier, *fCase = f.Property, f.Seed, f.Tier, f.Case
	}
	p := props[*fProp]
	if p == nil {
		fmt.Println("unknown property", *fProp)
		os.Exit(2)
	}
	if *fChild != "" {
		child(p)
		return
	}
	os.Exit(supervise(p))
}

// ---- child -----------------------------------------------------------------

const memoryBudget = 18 << 30

type running struct {
	name  string
	tid   int
	cpu0  time.Duration
	start time.Time
}

func threadCPU(tid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * (time.Second / 100)
}

func processCPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// again says how often the quick tier runs the random cases of a property
// anew, from other seeds; the checks that need little time get more of them.
var again = map[string]int{"C02": 6, "C04": 4, "C05": 3, "C06": 4, "C10": 12, "C11": 1, "C14": 8, "C15": 5, "C17": 1, "C18": 15, "C19": 5, "C22": 2, "C23": 8, "C01": 1, "C03": 2, "C24": 8}

var randomCase = regexp.MustCompile(`^(small|mid|ladder|graph|history|lengths|random|options|carriers|endurance|reach|queue|tree|cuts|long cuts|noise|invalid)\b`)

func casesOf(p *Prop, tier string) []Case {
	cases := p.Cases(tier)
	if tier != "quick" {
		return cases
	}
	n := len(cases)
	for k := 0; k < again[p.ID]; k++ {
		for _, cs := range cases[:n] {
			if randomCase.MatchString(cs.Name) {
				cases = append(cases, Case{fmt.Sprintf("%s~%d", cs.Name, k+2), cs.Run})
			}
		}
	}
	return cases
}

func child(p *Prop) {
	cases := casesOf(p, *fTier)
	if *fCase != "" {
		var sel []Case
		for _, cs := range cases {
			if cs.Name == *fCase {
				sel = append(sel, cs)
			}
		}
		cases = sel
	}
	if *fGrep != "" {
		var sel []Case
		for _, cs := range cases {
			if regexp.MustCompile(*fGrep).MatchString(cs.Name) {
				sel = append(sel, cs)
			}
		}
		cases = sel
	}
	if len(cases) == 0 {
		fmt.Fprintln(os.Stderr, "no cases")
		os.Exit(2)
	}
	names := map[string]bool{}
	for _, cs := range cases {
		if names[cs.Name] {
			fmt.Fprintln(os.Stderr, "duplicate case name", cs.Name)
			os.Exit(2)
		}
		names[cs.Name] = true
	}
	res := &Result{Observed: map[string]int64{}}
	seen := map[uint64]struct{}{}
	var mu sync.Mutex
	var stopFlag int32
	journal, _ := os.Create(*fChild + ".journal")

	finish := func() {
		res.Distinct += int64(len(seen))
		b, _ := json.Marshal(res)
		os.WriteFile(*fChild+".tmp", b, 0o644)
		os.Rename(*fChild+".tmp", *fChild)
	}
	fail := func(name, msg, stack string, detail interface{}) {
		if res.Failure == nil {
			res.Failure = &Failure{Property: p.ID, Seed: *fSeed, Tier: *fTier, Case: name, Message: msg, Stack: stack, Detail: detail}
		}
		atomic.StoreInt32(&stopFlag, 1)
	}

	workers := *fWorkers
	if p.Serial {
		workers = 1
	}
	active := make([]*running, workers)
	budget := *fCPU // CPU time of one case's own thread
	if *fTier == "thorough" {
		budget *= 6
	}

	// Watchdog: a case that burns far more CPU than any case needs, or memory
	// without bound, has left the bounded behaviour every property implies.
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			m := rss()
			mu.Lock()
			for _, r := range active {
				if r == nil {
					continue
				}
				used := threadCPU(r.tid) - r.cpu0
				if used > budget {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fail(r.name, fmt.Sprintf("no termination: the case used %v of CPU time, budget %v", used, budget), string(buf[:n]), nil)
					finish()
					os.Exit(1)
				}
				if m > memoryBudget {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fail(r.name, fmt.Sprintf("unbounded memory: %d bytes resident", m), string(buf[:n]), nil)
					finish()
					os.Exit(1)
				}
				if time.Since(r.start) > 700*time.Second && *fTier == "quick" {
					res.Inconcl = "case " + r.name + " made no progress for 700 s of wall time"
					finish()
					os.Exit(2)
				}
			}
			mu.Unlock()
		}
	}()

	// On a machine much slower than expected the rest of the cases is left out
	// rather than losing the verdict of those that ran; the evidence says so.
	latest := time.Now().Add(500 * time.Second)
	if *fTier == "thorough" {
		latest = time.Now().Add(3 * time.Hour)
	}
	const leftOut = "cases left out for lack of time"
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			runtime.LockOSThread()
			for atomic.LoadInt32(&stopFlag) == 0 {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(cases) {
					return
				}
				if time.Now().After(latest) {
					mu.Lock()
					res.Observed[leftOut]++
					mu.Unlock()
					continue
				}
				cs := cases[i]
				tid := syscall.Gettid()
				mu.Lock()
				active[w] = &running{cs.Name, tid, threadCPU(tid), time.Now()}
				fmt.Fprintf(journal, "start %s\n", cs.Name)
				mu.Unlock()
				c := &Ctx{
					R:    rand.New(rand.NewSource(int64(hash64(strconv.FormatInt(*fSeed, 10), p.ID, cs.Name)))),
					Tier: *fTier, Name: cs.Name,
					seen: map[uint64]struct{}{}, obs: map[string]int64{},
					Scratch: filepath.Join(*fScratch, fmt.Sprintf("w%d", w)),
				}
				msg, stack, bad := runCase(c, cs)
				if p.Race && !bad {
					if m, _ := filepath.Glob(filepath.Join(*fScratch, "race.*")); len(m) > 0 {
						b, _ := os.ReadFile(m[0])
						msg, stack, bad = "data race reported", truncate(string(b), 20000), true
					}
				}
				mu.Lock()
				fmt.Fprintf(journal, "end %s\n", cs.Name)
				active[w] = nil
				res.Cases++
				res.Evaluations += c.eval
				res.Distinct += c.distinct
				for s := range c.seen {
					seen[s] = struct{}{}
				}
				for k, v := range c.obs {
					res.Observed[k] += v
				}
				if len(res.Samples) < 6 && len(c.samples) > 0 {
					res.Samples = append(res.Samples, map[string]interface{}{"case": cs.Name, "sample": c.samples[0]})
				}
				if bad {
					var d interface{}
					if c.detail != nil {
						func() {
							defer func() { recover() }()
							d = c.detail()
						}()
					}
					fail(cs.Name, msg, stack, d)
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	mu.Lock()
	res.Done = true
	if res.Failure == nil && *fCase == "" && *fGrep == "" && res.Observed[leftOut] == 0 {
		var short []string
		for k, v := range p.MinObserved {
			if res.Observed[k] < v {
				short = append(short, fmt.Sprintf("%s: %d < %d", k, res.Observed[k], v))
			}
		}
		sort.Strings(short)
		if len(short) > 0 {
			res.Inconcl = "the monitors observed too little: " + strings.Join(short, ", ")
		}
	}
	finish()
	os.Exit(0)
}

func runCase(c *Ctx, cs Case) (msg, stack string, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			bad = true
			if v, ok := r.(violation); ok {
				msg = v.msg
				return
			}
			where := ""
			if c.note != nil {
				where = " during " + c.note()
			}
			msg = fmt.Sprintf("panic%s: %v", where, r)
			stack = string(debug.Stack())
		}
	}()
	cs.Run(c)
	return
}

// ---- supervisor ------------------------------------------------------------

func supervise(p *Prop) int {
	t0 := time.Now()
	out := *fOut
	if out == "" {
		out = "/verif"
	}
	scratch, err := os.MkdirTemp("", "mon-"+p.ID+"-")
	if err != nil {
		fmt.Println("scratch:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	for w := 0; w < *fWorkers; w++ {
		os.MkdirAll(filepath.Join(scratch, fmt.Sprintf("w%d", w)), 0o755)
	}
	resFile := filepath.Join(scratch, "result.json")
	args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10), "-child", resFile,
		"-scratch", scratch, "-dawgtool", *fTool, "-workers", strconv.Itoa(*fWorkers), "-casecpu", fCPU.String()}
	if *fCase != "" {
		args = append(args, "-case", *fCase)
	}
	if *fGrep != "" {
		args = append(args, "-grep", *fGrep)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	logFile := filepath.Join(scratch, "child.log")
	lf, _ := os.Create(logFile)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(scratch, "race"), "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Println("start:", err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 800 * time.Second
	if *fTier == "thorough" {
		limit = 4 * time.Hour
	}
	timedOut := false
	select {
	case <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	lf.Close()

	var res Result
	if b, err := os.ReadFile(resFile); err == nil {
		json.Unmarshal(b, &res)
	}
	log, _ := os.ReadFile(logFile)

	// Race reports.
	races := 0
	var raceText strings.Builder
	matches, _ := filepath.Glob(filepath.Join(scratch, "race.*"))
	for _, m := range matches {
		b, _ := os.ReadFile(m)
		races += strings.Count(string(b), "WARNING: DATA RACE")
		if raceText.Len() < 100000 {
			raceText.Write(b)
		}
	}
	if p.Race {
		if res.Observed == nil {
			res.Observed = map[string]int64{}
		}
		res.Observed["race reports"] = int64(races)
	}
	if races > 0 && res.Failure == nil {
		res.Failure = &Failure{Property: p.ID, Seed: *fSeed, Tier: *fTier, Case: lastStarted(resFile + ".journal"),
			Message: fmt.Sprintf("%d data race reports", races), Detail: truncate(raceText.String(), 50000)}
	}
	if !res.Done && res.Failure == nil && res.Inconcl == "" {
		// The child died without a verdict. A Go runtime fatal error that shows
		// frames of the library is the library's doing.
		s := string(log)
		if !timedOut && strings.Contains(s, "github.com/deNULL/dawg.") && (strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:")) {
			first := s
			if i := strings.Index(s, "fatal error:"); i >= 0 {
				first = s[i:]
			} else if i := strings.Index(s, "panic:"); i >= 0 {
				first = s[i:]
			}
			res.Failure = &Failure{Property: p.ID, Seed: *fSeed, Tier: *fTier, Case: lastStarted(resFile + ".journal"),
				Message: "the process died: " + strings.SplitN(first, "\n", 2)[0], Stack: truncate(first, 20000)}
		} else if timedOut {
			res.Inconcl = "time limit"
		} else {
			res.Inconcl = "the child ended without a result: " + truncate(s, 4000)
		}
	}

	// Evidence.
	coverage := map[string]interface{}{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.Rule,
		"samples":             res.Samples,
		"cases":               res.Cases,
		"observed":            res.Observed,
	}
	if res.Samples == nil {
		coverage["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": p.Level,
		"coverage": coverage, "assumptions": p.Assumptions, "wall_s": time.Since(t0).Seconds(),
		"violations": 0,
	}
	if res.Failure != nil {
		ev["violations"] = 1
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if *fReplay == "" {
		os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	}

	keys := make([]string, 0, len(res.Observed))
	for k := range res.Observed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %.1fs\n", p.ID, *fTier, *fSeed, res.Cases, res.Evaluations, res.Distinct, time.Since(t0).Seconds())
	for _, k := range keys {
		fmt.Printf("  observed %-44s %d\n", k, res.Observed[k])
	}
	if res.Failure != nil {
		dir := filepath.Join(out, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, hash64(res.Failure.Case, res.Failure.Message)))
		res.Failure.Rerun = fmt.Sprintf("cd /verif && ./check.sh %s %s --replay %s", p.ID, *fTier, path)
		b, _ := json.MarshalIndent(res.Failure, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("case %s: %s\n", res.Failure.Case, truncate(res.Failure.Message, 3000))
		if res.Failure.Stack != "" {
			fmt.Println(truncate(res.Failure.Stack, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if res.Inconcl != "" {
		fmt.Println("INCONCLUSIVE:", res.Inconcl)
		return 2
	}
	return 0
}

func lastStarted(journal string) string {
	f, err := os.Open(journal)
	if err != nil {
		return ""
	}
	defer f.Close()
	open := []string{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		t := sc.Text()
		if strings.HasPrefix(t, "start ") {
			open = append(open, t[6:])
		} else if strings.HasPrefix(t, "end ") {
			for i, o := range open {
				if o == t[4:] {
					open = append(open[:i], open[i+1:]...)
					break
				}
			}
		}
	}
	if len(open) == 0 {
		return ""
	}
	return open[0]
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
