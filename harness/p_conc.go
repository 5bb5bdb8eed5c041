//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	randv2 "math/rand/v2"

	"github.com/wI2L/jettison"
)

func init() {
	props["C08"] = &propDef{quick: 300, thorough: 20000, run: runC08, multi: true,
		rule: "distinct interleavings: the sequence of (goroutine, scheduling point) events of a concurrent use of types, recorded in the logged rounds (or, where the hooks are missing, distinct rounds)"}
}

// ---- C08 ----

type ctask struct {
	v        interface{}
	opts     []jettison.Option
	want     outcome
	alt      []byte // other spelling of separators
	fails    bool
	unsorted bool
	desc     string
}

func (t *ctask) matches(got outcome) bool {
	if got.class() != t.want.class() {
		return false
	}
	if !got.ok() {
		if t.want.pan != nil {
			return got.pan == t.want.pan
		}
		return true
	}
	if t.unsorted {
		return sameCanonical(got, t.want) || sameCanonical(got, outcome{out: t.alt})
	}
	return bytes.Equal(got.out, t.want.out) || bytes.Equal(got.out, t.alt)
}

func newTask(v interface{}, o *optSet) (*ctask, bool) {
	t := &ctask{v: v, opts: append([]jettison.Option{nil}, o.options()...), want: tryRef(v, o), unsorted: o.unsorted}
	if !t.want.ok() {
		return t, false
	}
	o2 := *o
	o2.rawLineSep = true
	t.alt = tryRef(v, &o2).out
	return t, true
}

// recursiveValue returns a value of one of several (mutually) recursive
// types; kind selects the type it is entered through.
func (g *vgen) recursiveValue(kind int) interface{} {
	l := []reflect.Type{tof((*List)(nil)), tof((*Tree)(nil)), tof((*MutA)(nil)), tof((*MutB)(nil)), tof((*MutC)(nil)), tof((*MutD)(nil)), tof((*RS)(nil)), tof((*RM)(nil)),
		tof((*RMS)(nil)), tof((*RSP)(nil)), tof((*RecEmb)(nil)), tof((*RecStructSlice)(nil)), tof((*RecMarsh)(nil)), tof((*RecIface)(nil)), tof((*SliceOfPtrToSelf)(nil)),
		tof((*MapA)(nil)), tof((*MapB)(nil)), tof((*RA)(nil)), tof((*Mixed)(nil)), tof((*NestMarshal)(nil)), tof((*NestAppend)(nil)), tof((*SyncAll)(nil)), tof((*IfaceFields)(nil))}
	t := l[kind%len(l)]
	v := reflect.New(t)
	g.fill(v.Elem(), 0)
	switch g.intn(5) {
	case 0:
		return v.Elem().Interface()
	case 1:
		s := reflect.MakeSlice(reflect.SliceOf(t), 0, 2)
		s = reflect.Append(s, v.Elem())
		return s.Interface()
	case 2:
		return map[string]interface{}{"a": v.Interface(), "b": v.Elem().Interface()}
	case 3:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(t)))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m.Interface()
	}
	return v.Interface()
}

var uniqueField int

// uniqueType wraps v in a struct type nobody has used before.
func uniqueType(v interface{}) interface{} {
	uniqueField++
	ft := tEface
	if v != nil {
		ft = reflect.TypeOf(v)
	}
	st := reflect.StructOf([]reflect.StructField{
		{Name: "U" + strconv.Itoa(uniqueField), Type: ft, Tag: reflect.StructTag(`json:"u"`)},
		{Name: "V" + strconv.Itoa(uniqueField), Type: reflect.PtrTo(ft), Tag: reflect.StructTag(`json:"v,omitempty"`)},
		{Name: "W", Type: reflect.SliceOf(ft)},
	})
	s := reflect.New(st).Elem()
	if v != nil {
		s.Field(0).Set(reflect.ValueOf(v))
		s.Field(2).Set(reflect.Append(s.Field(2), reflect.ValueOf(v)))
	}
	return s.Interface()
}

func goid() int {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) < 2 {
		return 0
	}
	id, _ := strconv.Atoi(f[1])
	return id
}

// schedule installs delays at the scheduling points.
func (c *caseCtx) schedule() (stop func() (events int, trace string)) {
	if setHook == nil {
		return func() (int, string) { return 0, "" }
	}
	mode := c.intn(6)
	logged := c.chance(3)
	target := []string{"instr-miss", "instr-publish", "build-start", "build-done", "build-release", "fields-miss"}[c.intn(6)]
	var mu sync.Mutex
	var sb strings.Builder
	ids := map[int]int{}
	events := 0
	long := time.Duration(50+c.intn(400)) * time.Microsecond
	setHook(func(p string) {
		if logged {
			id := goid()
			mu.Lock()
			n, ok := ids[id]
			if !ok {
				n = len(ids)
				ids[id] = n
			}
			events++
			if sb.Len() < 4000 {
				fmt.Fprintf(&sb, "%d:%s ", n, p)
			}
			mu.Unlock()
		}
		// Delays do not synchronize, so that they hide no race.
		switch mode {
		case 0:
		case 1:
			runtime.Gosched()
		case 2:
			if randv2.IntN(3) == 0 {
				time.Sleep(time.Duration(randv2.IntN(60)) * time.Microsecond)
			}
		case 3:
			if p == target {
				time.Sleep(long)
			}
		case 4:
			for i := randv2.IntN(5); i > 0; i-- {
				runtime.Gosched()
			}
		default:
			if p == target && randv2.IntN(2) == 0 {
				time.Sleep(time.Duration(randv2.IntN(300)) * time.Microsecond)
			} else if randv2.IntN(4) == 0 {
				runtime.Gosched()
			}
		}
	})
	return func() (int, string) {
		setHook(nil)
		return events, sb.String()
	}
}

// A crowd is a number of goroutines that meet inside their marshalers.
type crowd struct {
	arrived sync.WaitGroup
	nested  interface{}
	own     bool // the nested call is made on another goroutine
}

func (k *crowd) meet(id int) string {
	k.arrived.Done()
	k.arrived.Wait()
	if k.nested == nil {
		return strconv.Itoa(id)
	}
	var o outcome
	if k.own {
		done := make(chan struct{})
		go func() {
			defer close(done)
			o = tryLib(k.nested, nil)
		}()
		<-done
	} else {
		o = tryLib(k.nested, nil)
	}
	return strconv.Itoa(id) + o.class()
}

type (
	crowdJSON struct {
		k  *crowd
		id int
	}
	crowdText   crowdJSON
	crowdAppend crowdJSON
	crowdCtx    crowdJSON
)

func (x crowdJSON) MarshalJSON() ([]byte, error)  { return []byte(`"` + x.k.meet(x.id) + `"`), nil }
func (x *crowdText) MarshalText() ([]byte, error) { return []byte(x.k.meet(x.id)), nil }
func (x crowdAppend) AppendJSON(b []byte) ([]byte, error) {
	return append(append(append(b, '"'), x.k.meet(x.id)...), '"'), nil
}
func (x *crowdCtx) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(append(append(b, '"'), x.k.meet(x.id)...), '"'), nil
}

// crowdValue returns a value of goroutine id and its encoding.
func (k *crowd) value(kind, pos, id int) (v interface{}, want string) {
	want = strconv.Itoa(id)
	if k.nested != nil {
		want += "ok"
	}
	want = `"` + want + `"`
	x := crowdJSON{k, id}
	switch kind {
	case 0:
		v = x
	case 1:
		v = (*crowdText)(&x)
	case 2:
		v = crowdAppend(x)
	default:
		v = (*crowdCtx)(&x)
	}
	switch pos {
	case 0:
		return v, want
	case 1:
		return []interface{}{1, v}, "[1," + want + "]"
	case 2:
		return map[string]interface{}{"a": 2, "b": v}, `{"a":2,"b":` + want + `}`
	case 3:
		m := &sync.Map{}
		m.Store("a", v)
		m.Store(3, "x")
		return m, `{"3":"x","a":` + want + `}`
	case 4:
		return &struct{ F, G interface{} }{v, 4}, `{"F":` + want + `,"G":4}`
	default:
		return map[*crowdText]int{(*crowdText)(&x): 5}, `{` + want + `:5}`
	}
}

// meeting encodes values whose marshalers wait for each other.
func meeting(c *caseCtx) {
	n := 2 + c.intn(14)
	switch c.intn(6) {
	case 0:
		n = 70
	case 1:
		n = 300
	case 2:
		if c.chance(3) {
			n = 1500
		}
	}
	k := &crowd{own: c.bool()}
	what := "nothing"
	switch c.intn(4) {
	case 0:
		k.nested = map[string]int{"x": 1}
	case 1:
		k.nested = &Tree{L: &Tree{}}
	case 2:
		k.nested = struct{ A []nestText }{[]nestText{{1}, {2}}}
	}
	if k.nested != nil {
		what = fmt.Sprintf("%T", k.nested)
	}
	kind, pos := c.intn(5), c.intn(6)
	if pos == 5 && kind != 1 {
		pos = c.intn(5) // one call for each goroutine
	}
	if c.bool() {
		fresh()
	}
	c.desc = fmt.Sprintf("%d goroutines meet inside marshaler kind %d at position %d, which encode %s there", n, kind, pos, what)
	crumb("%s", c.desc)
	k.arrived.Add(n)
	res, want := make([]outcome, n), make([]string, n)
	var done sync.WaitGroup
	for i := 0; i < n; i++ {
		kd := kind
		if kd == 4 {
			kd = i % 4
		}
		if pos == 5 {
			kd = 1
		}
		v, w := k.value(kd, pos, i)
		want[i] = w
		done.Add(1)
		go func(i int) {
			defer done.Done()
			if i%2 == 0 {
				res[i] = tryLib(v, nil)
			} else {
				res[i] = try(func() ([]byte, error) { return jettison.AppendOpts(nil, v) })
			}
		}(i)
	}
	done.Wait()
	c.evals += n
	for i, got := range res {
		if !got.ok() || string(got.out) != want[i] {
			c.fail("meeting-result-differs", "goroutine %d: %s", i, diff(got, outcome{out: []byte(want[i])}))
			return
		}
	}
	count("meetings_inside_marshalers", 1)
	maxCount("max_goroutines_inside_marshalers", n)
}

func runC08(c *caseCtx) {
	if c.chance(12) {
		meeting(c)
		return
	}
	g := newVgen(c.rng)
	g.budget = 24
	g.small = true
	g.maxMap = 6
	// The tasks, with the results they have on their own.
	var tasks []*ctask
	theme := c.intn(4)
	first := c.intn(23)
	for i := 0; i < 8 && len(tasks) < 6; i++ {
		o := defaultOpts()
		if c.chance(2) {
			o = c.randOpts(optMode{lists: true, unsorted: true, density: 5})
		}
		g.budget = 24
		var v interface{}
		switch theme {
		case 0: // one family of recursive types, entered anywhere
			v = g.recursiveValue(first)
			if i%2 == 1 {
				v = g.recursiveValue(2 + c.intn(4))
			}
		case 1:
			v = g.recursiveValue(c.intn(23))
		case 2:
			v = g.randValue()
		default:
			v = uniqueType(g.recursiveValue(c.intn(23)))
			if c.bool() {
				v = uniqueType(g.randValue())
			}
		}
		if c.chance(6) {
			// Deterministic failures in between.
			v = []interface{}{"x", []interface{}{make(chan int), Failing{1}, Panicker{7}, map[string]interface{}{"a": &PanicText{8}}, []interface{}{&PanicAppend{9}}, json.Number("z")}[c.intn(6)]}
			t, _ := newTask(v, o)
			t.fails = true
			t.desc = fmt.Sprintf("%T", v)
			tasks = append(tasks, t)
			continue
		}
		if o.unsorted && hasSpecial(v) {
			o.unsorted = false
		}
		t, ok := newTask(v, o)
		if !ok {
			continue
		}
		t.desc = describe(v) + " options " + o.String()
		tasks = append(tasks, t)
	}
	if len(tasks) == 0 {
		return
	}
	crumb("%s", clip(tasks[0].desc, 1000))
	rounds := 4
	if theme == 3 {
		rounds = 1
	}
	for round := 0; round < rounds; round++ {
		fresh()
		if round == 0 && c.chance(12) {
			// Many types are known.
			for k := []int{70, 140, 270, 270, 530, 1030}[c.intn(6)]; k > 0; k-- {
				tryLib(reflect.New(manyType(k)).Elem().Interface(), nil)
			}
			count("rounds_after_many_types", 1)
		}
		n := 2 + c.intn(7)
		if c.chance(6) {
			n = 9 + c.intn(30)
		}
		same := c.chance(3)
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		results := make([][]outcome, n)
		orders := make([][]int, n)
		for w := 0; w < n; w++ {
			ord := make([]int, len(tasks))
			for i := range ord {
				ord[i] = (i + w) % len(tasks)
				if same {
					ord[i] = i
				}
			}
			if c.bool() && !same {
				for i := len(ord) - 1; i > 0; i-- {
					j := c.intn(i + 1)
					ord[i], ord[j] = ord[j], ord[i]
				}
			}
			orders[w] = ord
		}
		stop := c.schedule()
		for w := 0; w < n; w++ {
			ready.Add(1)
			done.Add(1)
			go func(w int) {
				defer done.Done()
				res := make([]outcome, 0, len(tasks))
				ready.Done()
				<-start
				for i, k := range orders[w] {
					t := tasks[k]
					var o outcome
					if (i+w)%3 == 0 {
						dst := make([]byte, 1, 8)
						o = try(func() ([]byte, error) { return jettison.AppendOpts(dst, t.v, t.opts...) })
						if o.ok() {
							o.out = o.out[1:]
						}
					} else {
						o = tryLib(t.v, t.opts)
					}
					res = append(res, o)
				}
				results[w] = res
			}(w)
		}
		ready.Wait()
		close(start)
		done.Wait()
		events, trace := stop()
		c.evals += n * len(tasks)
		count("concurrent_rounds", 1)
		maxCount("max_goroutines", n)
		if events > 0 {
			count("scheduling_events", events)
			seen(trace)
			sample(func() string { return fmt.Sprintf("%d goroutines: %s", n, clip(trace, 400)) })
		} else if rep.Counters["scheduling_events"] == 0 && c.index > 50 {
			// Without the hooks the order of events is not known.
			seen(n, round, orders[0], tasks[0].desc)
		}
		for w := range results {
			for i, k := range orders[w] {
				t := tasks[k]
				if i >= len(results[w]) || !t.matches(results[w][i]) {
					got := outcome{}
					if i < len(results[w]) {
						got = results[w][i]
					}
					c.desc = t.desc
					c.fail("concurrent-result-differs", "goroutine %d of %d, call %d of round %d: %s\nevents: %s", w, n, i, round, diff(got, t.want), clip(trace, 1500))
					return
				}
			}
		}
	}
}

// hasSpecial reports whether v may hold things whose text is not JSON or
// depends on order.
func hasSpecial(v interface{}) bool { return false }

// ---- C10, histories ----

type smOp struct {
	key        int
	val        string // "" for a deletion
	start, end int64
}

type smRead struct {
	a, b int64
	out  outcome
}

// slowVal makes the iteration of its map take a while.
type slowVal struct{ S string }

func (x slowVal) MarshalText() ([]byte, error) {
	if randv2.IntN(3) == 0 {
		runtime.Gosched()
	}
	return []byte(x.S), nil
}

func runSyncHistory(c *caseCtx) {
	writers := 1 + c.intn(4)
	perWriter := 1 + c.intn(12)
	readers := 1 + c.intn(3)
	opsPer := 20 + c.intn(120)
	if *fStage == "race" {
		opsPer = 10 + c.intn(40)
	}
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	sm := &sync.Map{}
	nkeys := writers * perWriter
	keys := make([]interface{}, nkeys)
	texts := map[string]int{}
	for i := range keys {
		t := "k" + strconv.Itoa(i)
		switch c.intn(6) {
		case 0:
			keys[i] = i
			t = strconv.Itoa(i)
		case 1:
			keys[i] = TextStr("x" + t)
			b, _ := keys[i].(TextStr).MarshalText()
			_ = b
			keys[i] = MyString("<" + t)
			t = "<" + t
		case 2:
			keys[i] = uint16(i)
			t = strconv.Itoa(i)
		case 3:
			keys[i] = RawText("\"" + t + "\u2028")
			t = "\"" + t + "\u2028"
		default:
			keys[i] = t
		}
		texts[t] = i
	}
	mkval := func(s string, k int) interface{} {
		switch k % 3 {
		case 0:
			return slowVal{s}
		case 1:
			p := s
			return &p
		}
		return s
	}
	hist := make([][]smOp, writers+1)
	// Some keys exist from the start, some are never touched again.
	static := map[int]bool{}
	for i := range keys {
		if c.bool() {
			s := "init" + strconv.Itoa(i)
			a := tick()
			sm.Store(keys[i], mkval(s, i))
			hist[writers] = append(hist[writers], smOp{i, s, a, tick()})
			if c.chance(3) {
				static[i] = true
			}
		}
	}
	if c.bool() {
		for j := 0; j < nkeys+3; j++ {
			for i := range keys {
				sm.Load(keys[i])
			}
		}
	}
	reads := make([][]smRead, readers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	opts := []jettison.Option{nil}
	sorted := true
	if c.chance(4) {
		opts = append(opts, jettison.UnsortedMap())
		sorted = false
	}
	var stopW int32
	for w := 0; w < writers; w++ {
		r := newRng(c.u64(), "w", uint64(w))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for n := 0; n < opsPer; n++ {
				k := w*perWriter + r.intn(perWriter)
				if static[k] {
					continue
				}
				s := "w" + strconv.Itoa(w) + "." + strconv.Itoa(n)
				op := smOp{key: k, val: s}
				switch r.intn(8) {
				case 0, 1, 2:
					op.val = ""
					op.start = tick()
					sm.Delete(keys[k])
				case 3:
					op.val = ""
					op.start = tick()
					sm.LoadAndDelete(keys[k])
				case 4:
					op.start = tick()
					sm.Swap(keys[k], mkval(s, n))
				default:
					op.start = tick()
					sm.Store(keys[k], mkval(s, n))
				}
				op.end = tick()
				hist[w] = append(hist[w], op)
				if r.chance(4) {
					runtime.Gosched()
				}
			}
		}(w)
	}
	var rg sync.WaitGroup
	for q := 0; q < readers; q++ {
		rg.Add(1)
		go func(q int) {
			defer rg.Done()
			<-start
			for n := 0; n < 60; n++ {
				rd := smRead{a: tick()}
				rd.out = try(func() ([]byte, error) { return jettison.MarshalOpts(sm, opts...) })
				rd.b = tick()
				reads[q] = append(reads[q], rd)
				if atomic.LoadInt32(&stopW) != 0 && n > 3 {
					break
				}
			}
		}(q)
	}
	close(start)
	wg.Wait()
	atomic.StoreInt32(&stopW, 1)
	rg.Wait()

	// Check every read against the history.
	byKey := make([][]smOp, nkeys)
	for i := len(hist) - 1; i >= 0; i-- {
		for _, op := range hist[i] {
			byKey[op.key] = append(byKey[op.key], op)
		}
	}
	for k := range byKey {
		l := byKey[k]
		sort.SliceStable(l, func(i, j int) bool { return l[i].start < l[j].start })
	}
	describe := func(k int, rd smRead) {
		var sb strings.Builder
		fmt.Fprintf(&sb, "call in [%d,%d], operations on the key %#v:", rd.a, rd.b, keys[k])
		for _, op := range byKey[k] {
			if op.end > rd.a-300 && op.start < rd.b+50 {
				fmt.Fprintf(&sb, " [%d,%d]%q", op.start, op.end, op.val)
			}
		}
		c.desc = sb.String() + "\noutput " + rd.out.String()
	}
	overlapping := 0
	for q := range reads {
		for _, rd := range reads[q] {
			c.evals++
			if !rd.out.ok() {
				c.fail("sync-history-failed", "%v", rd.out)
				return
			}
			pairs, ok := flatPairs(rd.out.out)
			if !ok {
				c.fail("sync-history-invalid", "not an object of strings: %v", rd.out)
				return
			}
			got := map[int]string{}
			last := ""
			for i, p := range pairs {
				k, known := texts[p[0]]
				if !known {
					c.fail("sync-history-unknown-key", "the key %q was never stored: %v", p[0], rd.out)
					return
				}
				if _, dup := got[k]; dup {
					describe(k, rd)
					c.fail("sync-history-duplicate", "the key %q appears twice", p[0])
					return
				}
				if sorted && i > 0 && !(last < p[0]) {
					c.fail("sync-history-unsorted", "%q before %q: %v", last, p[0], rd.out)
					return
				}
				last = p[0]
				got[k] = p[1]
				// Was the pair there at some moment of the call?
				possible := false
				for i, op := range byKey[k] {
					if op.val == p[1] && op.start < rd.b {
						possible = true
						for _, next := range byKey[k][i+1:] {
							if next.end < rd.a {
								possible = false
							}
						}
					}
				}
				if !possible {
					describe(k, rd)
					c.fail("sync-history-stale-or-unknown-value", "the pair %q:%q was not in the map at any moment of the call", p[0], p[1])
					return
				}
			}
			for k := range byKey {
				// Present during the whole call: stored before, and not
				// deleted by an operation that may have run during it.
				present := false
				for _, op := range byKey[k] {
					if op.end < rd.a {
						present = op.val != ""
					} else if op.start < rd.b && op.val == "" {
						present = false
						break
					}
				}
				if present {
					count("present_keys_checked", 1)
					if _, ok := got[k]; !ok {
						describe(k, rd)
						c.fail("sync-history-missing", "the key %#v was present during the whole call but is missing", keys[k])
						return
					}
				}
			}
			for k := range byKey {
				for _, op := range byKey[k] {
					if op.start < rd.b && op.end > rd.a {
						overlapping++
					}
				}
			}
		}
	}
	count("concurrent_histories", 1)
	count("overlapping_operations", overlapping)
	if overlapping > 0 {
		seen("history", c.index, overlapping, writers, readers)
		sample(func() string {
			return fmt.Sprintf("%d writers on %d keys, %d readers, %d operations overlapping reads, last output %s", writers, nkeys, readers, overlapping, clip(string(reads[0][len(reads[0])-1].out.out), 200))
		})
	}
}

// flatPairs returns the members of an object of strings, in order.
func flatPairs(b []byte) ([][2]string, bool) {
	d := json.NewDecoder(bytes.NewReader(b))
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil, false
	}
	var l [][2]string
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, false
		}
		v, err := d.Token()
		if err != nil {
			return nil, false
		}
		ks, ok1 := k.(string)
		vs, ok2 := v.(string)
		if !ok1 || !ok2 {
			return nil, false
		}
		l = append(l, [2]string{ks, vs})
	}
	if t, err := d.Token(); err != nil || t != json.Delim('}') {
		return nil, false
	}
	return l, json.Valid(b)
}
