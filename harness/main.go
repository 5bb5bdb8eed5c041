package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata" // for the local zones
)

// A propDef describes the workload of one property.
type propDef struct {
	// cases returns the number of cases for a tier.
	quick, thorough int
	// run executes case number i and reports through c.
	run func(c *caseCtx)
	// init runs once per process before the first case.
	init func()
	// multi is set for workloads with several goroutines.
	multi bool
	rule  string
}

var props = map[string]*propDef{}

type caseCtx struct {
	*rng
	prop  string
	index int
	evals int
	// desc is filled by the workload so that a violation can be explained.
	desc string
}

type violation struct {
	Case   int    `json:"case"`
	Key    string `json:"key"`
	What   string `json:"what"`
	Detail string `json:"detail"`
}

type report struct {
	Prop       string         `json:"prop"`
	Shard      int            `json:"shard"`
	Cases      int            `json:"cases"`
	Evals      int64          `json:"evals"`
	Distinct   int            `json:"distinct"`
	Samples    []string       `json:"samples"`
	Counters   map[string]int `json:"counters"`
	Violations []violation    `json:"violations"`
	Rule       string         `json:"rule"`
	Done       bool           `json:"done"`
}

var (
	fProp   = flag.String("prop", "", "property")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fTier   = flag.String("tier", "quick", "tier")
	fShard  = flag.Int("shard", 0, "shard")
	fShards = flag.Int("shards", 1, "number of shards")
	fOnly   = flag.Int("only", -1, "run this case only")
	fSoft   = flag.Float64("soft", 0, "seconds after which no further case starts")
	fOut    = flag.String("out", "", "report file")
	fCrumb  = flag.String("crumb", "", "file with the current case")
	fHash   = flag.String("hashes", "", "file to write distinct hashes to")
	fStage  = flag.String("stage", "plain", "stage")
	fScale  = flag.Float64("scale", 1, "scale the number of cases")
	fEvery  = flag.Int("every", 0, "one large value in so many cases, instead of the usual rate")
	fMaxV   = flag.Int("maxviol", 3, "stop after this many violations")
)

var (
	rep       report
	repMu     sync.Mutex
	distinct  = map[uint64]struct{}{}
	crumbFile *os.File
	curCase   int64 = -1
	caseCPU   int64 // process CPU time at the start of the case
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// seen records one distinct, non-trivial case by the hash of its parts.
func seen(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0})
	}
	repMu.Lock()
	distinct[h.Sum64()] = struct{}{}
	repMu.Unlock()
}

func count(name string, n int) {
	repMu.Lock()
	rep.Counters[name] += n
	repMu.Unlock()
}

func maxCount(name string, n int) {
	repMu.Lock()
	if n > rep.Counters[name] {
		rep.Counters[name] = n
	}
	repMu.Unlock()
}

func sample(f func() string) {
	repMu.Lock()
	n := len(rep.Samples)
	repMu.Unlock()
	if n < 3 {
		s := clip(f(), 600)
		repMu.Lock()
		rep.Samples = append(rep.Samples, s)
		repMu.Unlock()
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-n/2:]
	}
	return s
}

// fail records a violation. Key identifies what fails (independently of
// incidental details), for the known-findings list.
func (c *caseCtx) fail(key, format string, args ...interface{}) {
	repMu.Lock()
	defer repMu.Unlock()
	if len(rep.Violations) >= *fMaxV {
		return
	}
	rep.Violations = append(rep.Violations, violation{
		Case: c.index, Key: key, What: clip(fmt.Sprintf(format, args...), 3000), Detail: clip(c.desc, 6000),
	})
}

func writeReport() {
	repMu.Lock()
	defer repMu.Unlock()
	rep.Distinct = len(distinct)
	b, _ := json.Marshal(rep)
	if *fOut != "" {
		os.WriteFile(*fOut, b, 0o644)
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
	if *fHash != "" {
		hs := make([]byte, 0, 8*len(distinct))
		for h := range distinct {
			hs = append(hs, byte(h), byte(h>>8), byte(h>>16), byte(h>>24), byte(h>>32), byte(h>>40), byte(h>>48), byte(h>>56))
		}
		os.WriteFile(*fHash, hs, 0o644)
	}
}

const (
	exitOK    = 0
	exitViol  = 1
	exitHang  = 7 // a case used more CPU time than any case may
	exitMem   = 8 // a case used more memory than any case may
	exitBlock = 9 // every goroutine is blocked for good
)

const (
	caseCPUBudget = 90 * time.Second
	memBudget     = 6 << 30
)

// watchdog looks for cases that cannot end: it decides on CPU time, on
// memory and on every goroutine being blocked, never on wall-clock time.
func watchdog() {
	var blockedFor int
	var blockedCase int64 = -2
	var ms runtime.MemStats
	tick := 0
	var lastCPU time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		tick++
		cur := atomic.LoadInt64(&curCase)
		used := cpuTime() - time.Duration(atomic.LoadInt64(&caseCPU))
		if used > caseCPUBudget*time.Duration(cpuScale) {
			dieWith(exitHang, fmt.Sprintf("case %d used %v of CPU time without ending", cur, used))
		}
		if tick%4 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.Sys-ms.HeapReleased > memBudget*memScale {
				// Only what is in use counts.
				runtime.GC()
				runtime.GC() // and what the pools hold
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc+ms.StackInuse > memBudget*memScale {
				dieWith(exitMem, fmt.Sprintf("case %d: %d MB in use", cur, (ms.HeapAlloc+ms.StackInuse)>>20))
			}
		}
		now := cpuTime()
		idle := now-lastCPU < 200*time.Millisecond
		lastCPU = now
		if idle && cur == blockedCase && allBlocked() {
			blockedFor++
			if blockedFor >= 8 {
				dieWith(exitBlock, fmt.Sprintf("case %d: every goroutine is blocked", cur))
			}
		} else {
			blockedFor = 0
		}
		blockedCase = cur
	}
}

var (
	cpuScale = 1
	memScale = uint64(1)
	// waitingOK is set while the worker legitimately waits for
	// something outside of the process.
	waitingOK int32
)

func allBlocked() bool {
	if atomic.LoadInt32(&waitingOK) != 0 {
		return false
	}
	size := 1<<20 + runtime.NumGoroutine()<<14
	if size > 128<<20 {
		size = 128 << 20
	}
	buf := make([]byte, size)
	n := runtime.Stack(buf, true)
	if n == len(buf) {
		return false
	}
	blocked := 0
	others := 0
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		hdr, rest, _ := strings.Cut(g, "\n")
		if strings.Contains(rest, "main.watchdog") || strings.Contains(rest, "os/signal.") || strings.Contains(rest, "main.handleSignals") {
			continue
		}
		i := strings.IndexByte(hdr, '[')
		if i < 0 {
			return false
		}
		others++
		st := hdr[i+1:]
		switch {
		case strings.HasPrefix(st, "semacquire"), strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"):
			blocked++
		case strings.HasPrefix(st, "finalizer wait"), strings.HasPrefix(st, "GC "), strings.HasPrefix(st, "force gc"):
			others--
		default:
			return false
		}
	}
	// When the main goroutine has ended nothing is left to wait for.
	return blocked > 0 || others == 0
}

func dieWith(code int, msg string) {
	fmt.Fprintf(os.Stderr, "HARNESS-STOP: %s\n", msg)
	buf := make([]byte, 1<<20)
	os.Stderr.Write(buf[:runtime.Stack(buf, true)])
	os.Exit(code)
}

func handleSignals() {
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGTERM)
	<-ch
	os.Exit(3)
}

func startCase(i int) {
	atomic.StoreInt64(&curCase, int64(i))
	atomic.StoreInt64(&caseCPU, int64(cpuTime()))
	if crumbFile != nil {
		b := fmt.Sprintf("%-12d", i)
		crumbFile.WriteAt([]byte(b), 0)
	}
}

// crumb adds a description of what is about to run to the crumb file, so
// that it survives a crash of the process.
func crumb(format string, args ...interface{}) {
	if crumbFile != nil {
		s := clip(fmt.Sprintf(format, args...), 4000)
		crumbFile.Truncate(12)
		crumbFile.WriteAt([]byte(s), 12)
	}
}

// localZones are the local zones of the runs; "" is the one of the machine.
var localZones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "", "Pacific/Apia", "Europe/Dublin", "Asia/Kathmandu", "Antarctica/Troll", "Africa/Monrovia"}

// setZone sets the local zone of the process, which depends on the seed so
// that a case can be run again.
func setZone(seed uint64) {
	os.Setenv("TZ", localZones[(seed%1000)%uint64(len(localZones))])
}

// slowCase is for finding cases that take long.
var slowCase, _ = time.ParseDuration(os.Getenv("SLOW"))

func main() {
	flag.Parse()
	setZone(*fSeed)
	debug.SetMaxStack(900 << 20)
	debug.SetMemoryLimit(2 << 30) // collect garbage earlier than that
	if flag.NArg() > 0 && flag.Arg(0) == "list" {
		var ids []string
		for id, p := range props {
			ids = append(ids, id+" "+strconv.Itoa(p.quick)+" "+strconv.Itoa(p.thorough))
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fCrumb != "" {
		f, err := os.Create(*fCrumb)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		crumbFile = f
	}
	rep = report{Prop: *fProp, Shard: *fShard, Counters: map[string]int{}, Rule: p.rule}
	atomic.StoreInt64(&caseCPU, int64(cpuTime()))
	go watchdog()
	go handleSignals()
	n := p.quick
	if *fTier == "thorough" {
		n = p.thorough
	}
	n = int(float64(n) * *fScale)
	if n < 1 {
		n = 1
	}
	initTypes()
	if p.init != nil {
		p.init()
	}
	run := func(i int) {
		startCase(i)
		c := &caseCtx{rng: newRng(*fSeed, *fProp, uint64(i)), prop: *fProp, index: i}
		t0 := cpuTime()
		d := scaleDefs[*fProp]
		if d != nil && *fEvery > 0 {
			d.every = *fEvery
		}
		func() {
			defer ownPanic(c)
			if d != nil && i%d.every == d.every/2 {
				runScale(c, d)
			} else {
				p.run(c)
			}
		}()
		if d := cpuTime() - t0; slowCase > 0 && d > slowCase {
			fmt.Fprintf(os.Stderr, "SLOW case %d: %v\n", i, d)
		}
		rep.Cases++
		if c.evals == 0 {
			c.evals = 1
		}
		rep.Evals += int64(c.evals)
	}
	if *fOnly >= 0 {
		run(*fOnly)
	} else {
		began := time.Now()
		for i := *fShard; i < n; i += *fShards {
			// On a slow machine the run ends early: it saw less, which the
			// evidence file tells.
			if *fSoft > 0 && time.Since(began).Seconds() > *fSoft {
				count("cut_short", 1)
				break
			}
			if k := i / *fShards; k%1500 == 1499 && !p.multi {
				fresh() // the cost of new types grows with the cache
			}
			run(i)
			repMu.Lock()
			stop := len(rep.Violations) >= *fMaxV
			repMu.Unlock()
			if stop {
				break
			}
		}
	}
	rep.Done = true
	writeReport()
	if len(rep.Violations) > 0 {
		os.Exit(exitViol)
	}
}

// ownPanic ends a case in which the harness itself, not the library, panics:
// that says nothing about the library, unless it happens again and again.
func ownPanic(c *caseCtx) {
	r := recover()
	if r == nil {
		return
	}
	st := string(debug.Stack())
	ownPanics++
	if ownPanics > 2 || strings.Contains(st, "wI2L/jettison.") {
		fmt.Fprintf(os.Stderr, "panic: %v\n\n%s\n", r, st)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "case %d panicked: %v\n%s\n", c.index, r, st)
	count("cases_given_up", 1)
}

var ownPanics int

// ---- PRNG ----

type rng struct{ s uint64 }

func newRng(seed uint64, prop string, idx uint64) *rng {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	r := &rng{h.Sum64()}
	r.u64()
	return r
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// chance is true with probability 1/n.
func (r *rng) chance(n int) bool { return r.intn(n) == 0 }

func (r *rng) bool() bool { return r.u64()&1 == 0 }

func (r *rng) between(a, b int) int { return a + r.intn(b-a+1) }

func (r *rng) fork() *rng { return &rng{r.u64()} }
