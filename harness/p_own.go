//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"unsafe"

	"github.com/wI2L/jettison"
)

func init() {
	props["C05"] = &propDef{quick: 500, thorough: 20000, run: runC05, multi: true,
		rule: "distinct results (by output and operation) that were kept, watched over later operations and checked for overlap with the encoded value and with each other"}
}

// nestedSink receives the results of calls made inside of marshalers.
var nestedSink func([]byte)

// memRange is a range of memory that belongs to somebody.
type memRange struct{ lo, hi uintptr }

func (a memRange) overlaps(b memRange) bool { return a.lo < b.hi && b.lo < a.hi }

func sliceRange(b []byte) memRange {
	if cap(b) == 0 {
		return memRange{}
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return memRange{p, p + uintptr(cap(b))}
}

// memRanges calls add for every piece of memory v refers to.
func memRanges(v reflect.Value, add func(memRange), vis map[uintptr]bool, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		if s := v.String(); len(s) > 0 {
			p := uintptr(unsafe.Pointer(unsafe.StringData(s)))
			add(memRange{p, p + uintptr(len(s))})
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		p := v.Pointer()
		add(memRange{p, p + uintptr(v.Cap())*v.Type().Elem().Size()})
		switch v.Type().Elem().Kind() {
		case reflect.String, reflect.Slice, reflect.Struct, reflect.Array, reflect.Map, reflect.Ptr, reflect.Interface:
			for i := 0; i < v.Len(); i++ {
				memRanges(v.Index(i), add, vis, depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			memRanges(v.Index(i), add, vis, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			memRanges(v.Field(i), add, vis, depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() || vis[v.Pointer()] {
			return
		}
		vis[v.Pointer()] = true
		if n := v.Type().Elem().Size(); n > 0 {
			add(memRange{v.Pointer(), v.Pointer() + n})
		}
		memRanges(v.Elem(), add, vis, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			memRanges(v.Elem(), add, vis, depth+1)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			memRanges(it.Key(), add, vis, depth+1)
			memRanges(it.Value(), add, vis, depth+1)
		}
	}
}

// kept is a result that its caller holds on to.
type kept struct {
	b    []byte // the slice the library returned
	want []byte // what its whole capacity must contain
	how  string
	rng  memRange
}

func keep(b []byte, how string) *kept {
	full := b[:cap(b)]
	return &kept{b: b, want: append([]byte(nil), full...), how: how, rng: sliceRange(b)}
}

func (k *kept) intact() (int, bool) {
	full := k.b[:cap(k.b)]
	if bytes.Equal(full, k.want) {
		return 0, true
	}
	for i := range full {
		if full[i] != k.want[i] {
			return i, false
		}
	}
	return 0, false
}

// scribble overwrites a result, with its spare capacity, like its owner may.
func (k *kept) scribble(fill byte) {
	full := k.b[:cap(k.b)]
	for i := range full {
		full[i] = fill
	}
	copy(k.want, full)
}

// Retainer returns a buffer it keeps.
type Retainer struct{ N int }

// Values shares its raw memory with the caller.
type rawHolder struct {
	A json.RawMessage
	B []byte
	S string
	N json.Number
	M map[string]json.RawMessage
	T TextStr
}

var retained []byte

func (x *Retainer) MarshalJSON() ([]byte, error) { return retained, nil }

type RetainText struct{ N int }

func (x *RetainText) MarshalText() ([]byte, error) { return retained, nil }

type RetainAppend struct{ N int }

// AppendJSON keeps the buffer it was given.
func (x *RetainAppend) AppendJSON(b []byte) ([]byte, error) {
	b = append(b, `"kept"`...)
	return b, nil
}

// ReplaceAppend returns a new buffer that holds the text so far.
type ReplaceAppend struct{ N int }

func (x ReplaceAppend) AppendJSON(b []byte) ([]byte, error) {
	n := make([]byte, len(b), len(b)+20)
	copy(n, b)
	return append(n, `"replaced"`...), nil
}

// unsafeString returns a string over b.
func unsafeString(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }

func runC05(c *caseCtx) {
	if *fStage == "race" || c.index%5 == 4 {
		ownConcurrent(c)
		return
	}
	var ring []*kept
	var hist []string
	note := func(f string, a ...interface{}) {
		hist = append(hist, fmt.Sprintf(f, a...))
		if len(hist) > 40 {
			hist = hist[1:]
		}
	}
	bad := func(key, f string, a ...interface{}) {
		c.desc = fmt.Sprintf("history: %v", hist)
		c.fail(key, f, a...)
	}
	verify := func() bool {
		for i, k := range ring {
			if at, ok := k.intact(); !ok {
				bad("result-changed", "result %d of %d (%s, length %d, capacity %d) changed at byte %d: %q instead of %q", i, len(ring), k.how, len(k.b), cap(k.b), at,
					clip(string(k.b[:cap(k.b)][at:]), 100), clip(string(k.want[at:]), 100))
				return false
			}
		}
		return true
	}
	nestedSink = func(b []byte) {
		if len(ring) < 60 {
			ring = append(ring, keep(b, "nested result"))
		}
	}
	defer func() { nestedSink = nil }()
	ops := 30 + c.intn(40)
	big := c.chance(6)
	for op := 0; op < ops; op++ {
		g := newVgen(c.rng)
		g.budget = 30
		g.small = !c.chance(4)
		o := defaultOpts()
		if c.bool() {
			o = c.randOpts(optMode{lists: true, escapeHatches: true, density: 4})
		}
		var iv interface{}
		var mutate func() // changes the memory of the value
		switch c.intn(12) {
		case 0, 1, 2:
			iv = g.randValue()
		case 3:
			// A value over memory that is overwritten after the call.
			mem := []byte(c.str())
			if big && c.chance(3) {
				mem = bytes.Repeat([]byte{'m'}, c.between(1, 300000))
			}
			raw := []byte(c.jsonText(2))
			iv = &rawHolder{A: raw, B: mem, S: unsafeString(mem), M: map[string]json.RawMessage{"k": raw}, T: TextStr(unsafeString(mem))}
			mutate = func() {
				for i := range mem {
					mem[i] ^= 0x55
				}
				for i := range raw {
					raw[i] = '#'
				}
			}
		case 4:
			mem := []byte(c.jsonText(3))
			if c.bool() {
				iv = json.RawMessage(mem)
			} else {
				r := json.RawMessage(mem)
				iv = &r
			}
			mutate = func() {
				for i := range mem {
					mem[i] = '#'
				}
			}
		case 5:
			mem := []byte(c.str())
			if big {
				mem = bytes.Repeat([]byte("b"), []int{4095, 4096, 65535, 65536, 65537, 131072, 1 << 20}[c.intn(7)])
			}
			switch c.intn(4) {
			case 0:
				iv = unsafeString(mem)
			case 1:
				iv = mem
			case 2:
				iv = TextStr(unsafeString(mem))
			case 3:
				iv = [][]byte{mem, mem}
			}
			mutate = func() {
				for i := range mem {
					mem[i] ^= 0xAA
				}
			}
		case 6:
			retained = []byte(c.jsonText(2))
			switch c.intn(3) {
			case 0:
				iv = &Retainer{1}
			case 1:
				iv = &RetainText{1}
			default:
				iv = []interface{}{&Retainer{1}, ReplaceAppend{2}, &RetainText{3}, &RetainAppend{4}}
			}
			m := retained
			mutate = func() {
				for i := range m {
					m[i] = '!'
				}
			}
		case 7:
			iv = []interface{}{NestMarshal{1, []string{c.str()}, &NestMarshal{2, nil, nil}}, &NestAppend{3, map[string]string{"a": c.str()}, []NestMarshal{{4, nil, nil}}}}
		case 8:
			iv = []interface{}{c.str(), g.randValue(), Panicker{op}}
			if c.bool() {
				iv = map[string]interface{}{"a": c.str(), "z": &PanicText{1}}
			}
		case 9:
			iv = []interface{}{c.str(), g.randValue(), []interface{}{Failing{1}, make(chan int), &FailAppend{2}, json.Number("x")}[c.intn(4)]}
		case 10:
			n := c.sizeHint(70000)
			if big {
				n = c.intn(1 << 20)
			}
			iv = string(bytes.Repeat([]byte{byte('a' + op%26)}, n))
		default:
			iv = []interface{}{nil, true, false, "", 0, []int{}, struct{}{}, map[string]int{}, (*int)(nil), 1.5, "x", json.Number("")}[c.intn(12)]
		}
		var vr []memRange
		memRanges(reflect.ValueOf(iv), func(r memRange) { vr = append(vr, r) }, map[uintptr]bool{}, 0)
		want := tryRef(iv, o)
		var before int
		var got outcome
		how := ""
		opts := o.options()
		switch c.intn(3) {
		case 0, 1:
			how = "MarshalOpts"
			if o.isDefault() {
				how = "Marshal"
				opts = nil
			}
			got = tryLib(iv, opts)
		default:
			// The caller appends to a result it owns.
			how = "AppendOpts"
			var dst []byte
			if len(ring) > 0 && c.bool() {
				k := ring[c.intn(len(ring))]
				dst = k.b
				how += " to an earlier result"
				before = len(dst)
				got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, opts...) })
				// The spare capacity of that result may have been used.
				copy(k.want[before:], dst[:cap(dst)][before:])
				if got.ok() && before > 0 && unsafe.SliceData(got.out) == unsafe.SliceData(dst) {
					for i := range ring {
						if ring[i] == k {
							ring = append(ring[:i:i], ring[i+1:]...)
							break
						}
					}
				}
			} else {
				dst, _, _ = c.randDst()
				before = len(dst)
				got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, opts...) })
			}
		}
		note("%s of %T %s -> %s", how, iv, clip(o.String(), 60), got.class())
		c.evals++
		if got.ok() {
			tail := outcome{out: got.out[before:]}
			if !sameOutcome(tail, want) {
				if w2, ok := eqRef(tail, iv, o); !ok {
					c.desc = describe(iv)
					bad("output-differs", "%s after %d operations: %s", how, op, diff(tail, w2))
					return
				}
			}
			k := keep(got.out, how)
			for _, r := range vr {
				if cap(got.out) > 0 && how[0] == 'M' && r.overlaps(k.rng) {
					bad("shares-memory-with-value", "the result of %s (%T) shares memory with the encoded value", how, iv)
					return
				}
			}
			for _, old := range ring {
				if cap(got.out) > 0 && old.rng.overlaps(k.rng) {
					bad("shares-memory-with-result", "the result of %s (%T, length %d, capacity %d) shares memory with an earlier result (%s, length %d)", how, iv, len(k.b), cap(k.b), old.how, len(old.b))
					return
				}
			}
			ring = append(ring, k)
			if len(got.out) > 2 {
				seen(how, k.want)
				sample(func() string { return fmt.Sprintf("%s of %T: %s", how, iv, clip(string(k.b), 200)) })
			}
			maxCount("max_result", len(k.b))
		}
		count("outcome_"+got.class(), 1)
		if mutate != nil {
			mutate()
			count("values_overwritten", 1)
		}
		if !verify() {
			return
		}
		switch c.intn(8) {
		case 0:
			poison()
			note("scribble over pooled buffers")
			if !verify() {
				return
			}
		case 1:
			if len(ring) > 0 {
				ring[c.intn(len(ring))].scribble(byte(c.u64()))
				note("scribble over a result")
				count("results_overwritten", 1)
			}
		case 2:
			if c.chance(6) {
				runtime.GC()
			}
		case 3:
			if len(ring) > 0 {
				// Append to a result, within its capacity.
				k := ring[c.intn(len(ring))]
				full := k.b[:cap(k.b)]
				for i := len(k.b); i < len(full); i++ {
					full[i] = '+'
				}
				copy(k.want, full)
			}
		}
		if len(ring) > 24 {
			at := c.intn(len(ring))
			if big {
				at = 0
			}
			ring = append(ring[:at:at], ring[at+1:]...)
		}
		count("watched", len(ring))
	}
}

// ownConcurrent lets several goroutines encode, keep, overwrite and extend
// their own results.
func ownConcurrent(c *caseCtx) {
	type task struct {
		v    interface{}
		o    *optSet
		opts []jettison.Option
		want outcome
	}
	var tasks []task
	for i := 0; i < 14; i++ {
		g := newVgen(c.rng)
		g.budget = 20
		g.small = !c.chance(4)
		o := defaultOpts()
		if c.chance(3) {
			o = c.randOpts(optMode{lists: true})
		}
		var v interface{}
		switch c.intn(8) {
		case 0:
			v = []interface{}{c.str(), Panicker{1}}
		case 1:
			v = []interface{}{c.str(), Failing{1}}
		case 2:
			v = []interface{}{NestMarshal{1, []string{c.str()}, &NestMarshal{2, nil, nil}}, &NestAppend{3, map[string]string{"a": c.str()}, nil}}
		case 3:
			v = string(bytes.Repeat([]byte{byte('a' + i)}, c.sizeHint(70000)))
		case 4:
			v = map[string]interface{}{"a": c.str(), "b": []int{1, 2, 3}, "c": map[string]string{"x": c.str(), "y": "z"}}
		default:
			v = g.randValue()
		}
		want := tryRef(v, o)
		if lib := tryLib(v, o.options()); !sameOutcome(lib, want) {
			if w2, ok := eqRef(lib, v, o); !ok {
				c.desc = describe(v)
				c.fail("output-differs", "%s", diff(lib, w2))
				return
			}
			want = lib
			if lib.class() != want.class() || !lib.ok() {
				continue // depends on the order of a map
			}
		}
		tasks = append(tasks, task{v, o, append([]jettison.Option{nil}, o.options()...), want})
	}
	if len(tasks) == 0 {
		return
	}
	n := 2 + c.intn(6)
	steps := 40
	if *fStage == "race" {
		steps = 15
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := ""
	start := make(chan struct{})
	for w := 0; w < n; w++ {
		r := newRng(c.u64(), "own", uint64(w))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			var mine []*kept
			for s := 0; s < steps; s++ {
				t := &tasks[r.intn(len(tasks))]
				var got outcome
				pre := 0
				if r.chance(3) {
					dst := make([]byte, r.intn(9), 9+r.intn(400))
					pre = len(dst)
					got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, t.v, t.opts...) })
				} else {
					got = tryLib(t.v, t.opts)
				}
				if got.ok() {
					k := keep(got.out, "")
					got.out = got.out[pre:]
					mine = append(mine, k)
				}
				msg := ""
				if !sameOutcome(got, t.want) && !anyOrder(got, t.want, func() outcome { return tryLib(t.v, t.opts) }, t.v) {
					msg = fmt.Sprintf("goroutine %d of %d, step %d, %T: %s", w, n, s, t.v, diff(got, t.want))
				}
				for _, k := range mine {
					if at, ok := k.intact(); !ok {
						msg = fmt.Sprintf("goroutine %d: a result it keeps changed at byte %d of %d: %q instead of %q", w, at, len(k.b), clip(string(k.b[:cap(k.b)][at:]), 80), clip(string(k.want[at:]), 80))
					}
				}
				if msg != "" {
					mu.Lock()
					failed = msg
					mu.Unlock()
					return
				}
				if len(mine) > 0 && r.chance(3) {
					mine[r.intn(len(mine))].scribble(byte(r.u64()))
				}
				if len(mine) > 8 {
					mine = mine[4:]
				}
				if r.chance(4) {
					runtime.Gosched()
				}
			}
		}(w)
	}
	close(start)
	if c.chance(4) {
		runtime.GC()
	}
	wg.Wait()
	c.evals = n * steps
	count("concurrent_histories", 1)
	count("concurrent_calls", n*steps)
	seen("conc", n, len(tasks), tasks[0].want.out, tasks[len(tasks)-1].want.out)
	if failed != "" {
		c.fail("concurrent-result-changed", "%s", failed)
	}
}
