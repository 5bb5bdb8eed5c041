//go:build go1.21

package main

import (
	"fmt"
	"math/big"
	"net/netip"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
)

func init() {
	props["C06"] = &propDef{quick: 6000, thorough: 200000, run: runC06, init: initC06,
		rule: "distinct values (by type, placement and output) that were encoded from memory next to inaccessible pages, from read-only memory, or while the collector ran; objects and pages are counted in observed"}
}

// ---- an allocator that puts every object next to an inaccessible page ----

const pageSize = 4096

type arena struct {
	base   uintptr
	size   uintptr
	next   uintptr // offset of the next free page
	spans  []memRange
	fill   byte
	front  bool // the inaccessible page comes before the object
	memo   map[memoKey]unsafe.Pointer
	bytes  int
	failed bool
	slack  *rng
}

type memoKey struct {
	t reflect.Type
	p unsafe.Pointer
}

var guard *arena

func initC06() {
	const size = 96 << 20
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, size, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE, ^uintptr(0), 0)
	if e != 0 {
		panic(e)
	}
	guard = &arena{base: p, size: size}
}

func (a *arena) protect(r memRange, prot int) {
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, r.lo, r.hi-r.lo, uintptr(prot)); e != 0 {
		panic(e)
	}
}

// reset makes all of the arena inaccessible again.
func (a *arena) reset() {
	for _, s := range a.spans {
		a.protect(s, syscall.PROT_NONE)
	}
	a.spans = a.spans[:0]
	a.next = pageSize
	a.memo = map[memoKey]unsafe.Pointer{}
	a.failed = false
	a.bytes = 0
}

//go:nocheckptr
func ptrAt(u uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&u)) }

//go:nocheckptr
func bytesAt(u uintptr, n int) []byte { return unsafe.Slice((*byte)(ptrAt(u)), n) }

// alloc returns zeroed memory of n bytes with the given alignment: it ends
// where an inaccessible page starts, or starts where one ends.
func (a *arena) alloc(n, align uintptr) unsafe.Pointer {
	pages := (n + pageSize - 1) / pageSize
	if pages == 0 {
		// Nothing of it may be touched at all.
		p := a.base + a.next
		a.next += pageSize
		if a.next >= a.size {
			a.failed = true
		}
		return ptrAt(p)
	}
	if a.next+(pages+1)*pageSize > a.size {
		a.failed = true
		return unsafe.Pointer(&make([]uint64, n/8+1)[0])
	}
	span := memRange{a.base + a.next, a.base + a.next + pages*pageSize}
	a.next += (pages + 1) * pageSize
	a.protect(span, syscall.PROT_READ|syscall.PROT_WRITE)
	a.spans = append(a.spans, span)
	a.bytes += int(n)
	b := bytesAt(span.lo, int(span.hi-span.lo))
	for i := range b {
		b[i] = a.fill
	}
	p := span.lo
	if !a.front {
		p = (span.hi - n) &^ (align - 1)
	}
	for i := p - span.lo; i < p-span.lo+n; i++ {
		b[i] = 0
	}
	return ptrAt(p)
}

func (a *arena) readonly() {
	for _, s := range a.spans {
		a.protect(s, syscall.PROT_READ)
	}
}

func (a *arena) sum() uint64 {
	var h uint64 = 14695981039346656037
	for _, s := range a.spans {
		b := bytesAt(s.lo, int(s.hi-s.lo))
		for i := 0; i+8 <= len(b); i += 8 {
			h = (h ^ *(*uint64)(unsafe.Pointer(&b[i]))) * 1099511628211
		}
	}
	return h
}

type strHdr struct {
	p unsafe.Pointer
	n int
}

type sliceHdr struct {
	p    unsafe.Pointer
	n, c int
}

type ifaceHdr struct{ tab, p unsafe.Pointer }

func copyMem(dst, src unsafe.Pointer, n uintptr) {
	if n == 0 {
		return
	}
	copy(unsafe.Slice((*byte)(dst), n), unsafe.Slice((*byte)(src), n))
}

var opaque = map[reflect.Type]bool{tTime: true, tSyncMap: true, reflect.TypeOf(sync.Mutex{}): true, reflect.TypeOf(netip.Addr{}): true}

// ptrShaped reports whether an interface holds t's values themselves.
func ptrShaped(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Struct:
		return t.NumField() > 0 && t.Size() == unsafe.Sizeof(uintptr(0)) && onePtr(t)
	case reflect.Array:
		return t.Len() == 1 && ptrShaped(t.Elem())
	}
	return false
}

// onePtr: a struct is stored directly if it has exactly one field and that
// is; the run-time's flag decides, seen through how reflection treats it.
func onePtr(t reflect.Type) bool {
	return t.NumField() == 1 && ptrShaped(t.Field(0).Type)
}

// isDirect asks the run-time: two interfaces of the same direct content
// have the content in their data word.
func isDirect(t reflect.Type) bool {
	if t.Size() != unsafe.Sizeof(uintptr(0)) {
		return false
	}
	if t.Kind() == reflect.Struct || t.Kind() == reflect.Array {
		// kindDirectIface is bit 5 of the kind byte of the run-time type
		// in the Go versions this harness is built with.
		tp := (*[2]unsafe.Pointer)(unsafe.Pointer(&t))[1]
		return *(*uint8)(unsafe.Add(tp, 2*unsafe.Sizeof(uintptr(0))+4+1+1+1))&(1<<5) != 0
	}
	return ptrShaped(t)
}

// reloc replaces everything the object of type t at p refers to by copies
// in the arena.
func (a *arena) reloc(t reflect.Type, p unsafe.Pointer, depth int) {
	if t == tSyncMap {
		// Reading one may write to it, and copying one is not allowed.
		a.failed = true
	}
	if opaque[t] || depth > 3000 || a.failed {
		return
	}
	switch t.Kind() {
	case reflect.String:
		h := (*strHdr)(p)
		if h.n == 0 && h.p == nil {
			return
		}
		q := a.alloc(uintptr(h.n), 1)
		copyMem(q, h.p, uintptr(h.n))
		h.p = q
	case reflect.Slice:
		h := (*sliceHdr)(p)
		if h.p == nil {
			return
		}
		et := t.Elem()
		k := memoKey{t, h.p}
		if h.n > 0 {
			if q, ok := a.memo[k]; ok {
				h.p = q
				return
			}
		}
		q := a.alloc(uintptr(h.c)*et.Size(), uintptr(et.Align()))
		if h.n > 0 {
			a.memo[k] = q
		}
		copyMem(q, h.p, uintptr(h.c)*et.Size())
		h.p = q
		if hasPointers(et) {
			for i := 0; i < h.c; i++ {
				a.reloc(et, unsafe.Add(q, uintptr(i)*et.Size()), depth+1)
			}
		} else if h.c > h.n && et.Size() > 0 {
			// Stale content of the spare capacity.
			b := unsafe.Slice((*byte)(unsafe.Add(q, uintptr(h.n)*et.Size())), uintptr(h.c-h.n)*et.Size())
			for i := range b {
				b[i] = a.fill
			}
		}
	case reflect.Array:
		if !hasPointers(t.Elem()) {
			return
		}
		for i := 0; i < t.Len(); i++ {
			a.reloc(t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			a.reloc(f.Type, unsafe.Add(p, f.Offset), depth+1)
		}
	case reflect.Ptr:
		pp := (*unsafe.Pointer)(p)
		*pp = a.pointee(t.Elem(), *pp, depth)
	case reflect.Interface:
		h := (*ifaceHdr)(p)
		if h.tab == nil {
			return
		}
		dt := reflect.NewAt(t, p).Elem().Elem().Type()
		h.p = a.word(dt, h.p, depth)
	case reflect.Map:
		pp := (*unsafe.Pointer)(p)
		if *pp == nil {
			return
		}
		k := memoKey{t, *pp}
		if q, ok := a.memo[k]; ok {
			*pp = q
			return
		}
		old := reflect.NewAt(t, p).Elem()
		m := reflect.MakeMapWithSize(t, 0)
		a.memo[k] = m.UnsafePointer()
		liveMaps = append(liveMaps, m)
		it := old.MapRange()
		for it.Next() {
			kv, ev := reflect.New(t.Key()), reflect.New(t.Elem())
			// Copied as memory, so that unexported parts can be too.
			setAny(kv, it.Key())
			setAny(ev, it.Value())
			a.reloc(t.Key(), kv.UnsafePointer(), depth+1)
			a.reloc(t.Elem(), ev.UnsafePointer(), depth+1)
			m.SetMapIndex(kv.Elem(), ev.Elem())
		}
		*pp = m.UnsafePointer()
	}
}

// liveMaps keeps maps reachable that only the arena refers to.
var liveMaps []reflect.Value

func setAny(dst, src reflect.Value) {
	if src.CanInterface() {
		dst.Elem().Set(src)
		return
	}
	// A read-only view (unexported field): drop the flag through a copy.
	c := reflect.New(src.Type())
	type rv struct {
		typ, ptr unsafe.Pointer
		flag     uintptr
	}
	h := *(*rv)(unsafe.Pointer(&src))
	h.flag &^= 1<<5 | 1<<6
	src = *(*reflect.Value)(unsafe.Pointer(&h))
	c.Elem().Set(src)
	dst.Elem().Set(c.Elem())
}

func (a *arena) pointee(et reflect.Type, p unsafe.Pointer, depth int) unsafe.Pointer {
	if p == nil || et == tSyncMap || et == reflect.TypeOf(time.Location{}) {
		return p
	}
	k := memoKey{et, p}
	if q, ok := a.memo[k]; ok {
		return q
	}
	q := a.alloc(et.Size(), uintptr(et.Align()))
	a.memo[k] = q
	copyMem(q, p, et.Size())
	a.reloc(et, q, depth+1)
	return q
}

// word relocates the data word of an interface that holds a value of type t.
func (a *arena) word(t reflect.Type, w unsafe.Pointer, depth int) unsafe.Pointer {
	if isDirect(t) {
		a.reloc(t, unsafe.Pointer(&w), depth+1)
		return w
	}
	if t.Size() == 0 {
		return a.alloc(0, 1)
	}
	q := a.alloc(t.Size(), uintptr(t.Align()))
	copyMem(q, w, t.Size())
	a.reloc(t, q, depth+1)
	return q
}

var ptrMemo = map[reflect.Type]bool{}

func hasPointers(t reflect.Type) bool {
	if b, ok := ptrMemo[t]; ok {
		return b
	}
	r := true
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		r = false
	case reflect.Array:
		r = t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		r = false
		for i := 0; i < t.NumField(); i++ {
			r = r || hasPointers(t.Field(i).Type)
		}
	}
	ptrMemo[t] = r
	return r
}

type faulter interface{ Addr() uintptr }

func runC06(c *caseCtx) {
	switch *fStage {
	case "asan", "gc":
		memLive(c)
		return
	}
	if c.chance(12) {
		memLive(c)
		return
	}
	memGuarded(c)
}

// memGuarded encodes values placed in the arena.
func memGuarded(c *caseCtx) {
	g := newVgen(c.rng)
	g.budget = 50
	if c.chance(20) {
		g.budget = 250
	}
	g.maxMap = 30
	g.small = c.bool()
	var iv interface{}
	switch c.intn(6) {
	case 0:
		iv = []interface{}{[]byte(c.str()), c.str(), [3]byte{1, 2, 3}, time.Unix(1, 2), []string{c.str(), c.str()}, [][]byte{[]byte(c.str())}, jsonNumber(c.number(false)), map[string][]byte{c.str(): []byte(c.str())}}[c.intn(8)]
	case 1:
		t := structTypes[c.intn(len(structTypes))]
		v := reflect.New(t)
		g.fill(v.Elem(), 0)
		iv = v.Interface()
	default:
		iv = g.randValue()
	}
	if iv == nil {
		return
	}
	o := c.randOpts(optMode{lists: true, escapeHatches: true, density: 5})
	if c.chance(3) {
		o = defaultOpts()
	}
	want := tryRef(iv, o)
	crumb("%T %v", iv, o)
	debug.SetPanicOnFault(true)
	t := reflect.TypeOf(iv)
	w0 := (*ifaceHdr)(unsafe.Pointer(&iv)).p
	fills := []byte{byte(c.u64()), byte(c.u64())}
	var outs [2]outcome
	for round := 0; round < 2; round++ {
		guard.reset()
		liveMaps = liveMaps[:0]
		guard.fill = fills[round]
		guard.front = round == 1 && c.bool()
		var cp interface{}
		h := (*ifaceHdr)(unsafe.Pointer(&cp))
		nw := guard.word(t, w0, 0)
		h.tab = (*ifaceHdr)(unsafe.Pointer(&iv)).tab
		h.p = nw
		// The options' own arguments.
		o2 := *o
		if o.layout != time.RFC3339Nano {
			guard.reloc(reflect.TypeOf(""), unsafe.Pointer(&o2.layout), 0)
		}
		if o.hasAllow {
			guard.reloc(reflect.TypeOf(o2.allow), unsafe.Pointer(&o2.allow), 0)
		}
		if o.hasDeny {
			guard.reloc(reflect.TypeOf(o2.deny), unsafe.Pointer(&o2.deny), 0)
		}
		if guard.failed {
			count("not_placed_in_the_arena", 1)
			return
		}
		dst, dlen := c.guardedDst()
		ro := c.intn(3) != 0
		dstEnd := len(guard.spans)
		_ = dstEnd
		if ro {
			for _, s := range guard.spans[:len(guard.spans)-c.dstSpans(dst)] {
				guard.protect(s, syscall.PROT_READ)
			}
		}
		before := guard.sumBut(c.dstSpans(dst))
		maps := ""
		if len(liveMaps) > 0 {
			maps = mapsRepr()
		}
		opts := append([]jettison.Option{nil}, o2.options()...)
		got := try(func() ([]byte, error) {
			if dst != nil {
				return jettison.AppendOpts(dst, cp, opts...)
			}
			return jettison.MarshalOpts(cp, opts...)
		})
		c.evals++
		bad := func(key, f string, a ...interface{}) {
			c.desc = describe(iv) + fmt.Sprintf(" options %v, read-only %t, page before %t, destination length %d capacity %d", o, ro, guard.front, len(dst), cap(dst))
			c.fail(key, f, a...)
		}
		if f, ok := got.pan.(faulter); ok {
			where := "outside of the value's objects"
			for _, s := range guard.spans {
				if f.Addr() >= s.lo && f.Addr() < s.hi {
					where = "a write to the read-only value"
				}
			}
			bad("fault", "the access to %#x faulted: %s", f.Addr(), where)
			return
		}
		if re, ok := got.pan.(runtime.Error); ok && want.ok() {
			bad("runtime-error", "%v", re)
			return
		}
		if after := guard.sumBut(c.dstSpans(dst)); after != before {
			bad("memory-changed", "the memory of the value or around it changed during the call")
			return
		}
		if maps != "" && mapsRepr() != maps {
			bad("map-changed", "a map changed during the call")
			return
		}
		if got.ok() {
			if dst != nil {
				if len(got.out) < dlen || string(got.out[:dlen]) != strings.Repeat("p", dlen) {
					bad("prefix-lost", "%v", got)
					return
				}
				got.out = got.out[dlen:]
			}
			// The result must not live in the value's memory.
			got.out = append([]byte(nil), got.out...)
		}
		outs[round] = got
		if !sameOutcome(got, want) {
			if w2, ok := eqRef(got, iv, o); !ok {
				bad("output-differs", "%s", diff(got, w2))
				return
			}
		}
		count("objects_next_to_inaccessible_pages", len(guard.spans))
		count("bytes_guarded", guard.bytes)
		if ro {
			count("encoded_from_read_only_memory", 1)
		}
		count("outcome_"+got.class(), 1)
	}
	if want.ok() && len(want.out) > 2 {
		seen(t.String(), want.out)
		sample(func() string {
			return fmt.Sprintf("%T, %d objects: %s", iv, len(guard.spans), clip(string(want.out), 300))
		})
	}
	runtime.KeepAlive(iv)
}

func jsonNumber(s string) interface{} {
	v := reflect.New(tNumber).Elem()
	v.SetString(s)
	return v.Interface()
}

// guardedDst returns a destination whose capacity ends at an inaccessible
// page, or nil.
func (c *caseCtx) guardedDst() ([]byte, int) {
	if c.bool() {
		return nil, 0
	}
	n := c.intn(20)
	capa := n + c.intn(60)
	if c.chance(4) {
		capa = n + c.sizeHint(9000)
	}
	front := guard.front
	guard.front = false
	p := guard.alloc(uintptr(capa), 1)
	guard.front = front
	b := unsafe.Slice((*byte)(p), capa)
	if capa == 0 {
		return []byte{}, 0
	}
	for i := range b {
		b[i] = 'p'
	}
	return b[:n], n
}

func (c *caseCtx) dstSpans(dst []byte) int {
	if cap(dst) > 0 {
		return 1
	}
	return 0
}

func (a *arena) sumBut(n int) uint64 {
	s := a.spans
	a.spans = s[:len(s)-n]
	h := a.sum()
	a.spans = s
	return h
}

func mapsRepr() string {
	var sb strings.Builder
	for i, m := range liveMaps {
		if i > 20 {
			break
		}
		var one strings.Builder
		vrepr(&one, m, 2)
		sb.WriteString(one.String())
	}
	return sb.String()
}

// ---- values that live in the Go heap while the collector works ----

var (
	onCall   func()
	growSink byte
)

//go:noinline
func growStack(n int) byte {
	var pad [512]byte
	pad[n%512] = byte(n)
	if n == 0 {
		return pad[0]
	}
	return growStack(n-1) + pad[n%512]
}

// GCer collects garbage in the middle of an encoding.
type GCer struct{ N int }

func (x GCer) MarshalJSON() ([]byte, error) {
	gcNow(x.N)
	return []byte("1"), nil
}

type GCText struct{ S string }

func (x *GCText) MarshalText() ([]byte, error) {
	gcNow(len(x.S))
	return []byte("t" + x.S), nil
}

type GCAppend struct {
	B []byte
	M map[string]*GCText
}

func (x *GCAppend) AppendJSON(b []byte) ([]byte, error) {
	gcNow(len(x.B))
	p := make([]byte, len(b), len(b)+1)
	copy(p, b)
	return append(p, "[]"...), nil
}

var gcReal bool

func gcNow(n int) {
	if !gcReal {
		return
	}
	growSink += growStack(n % 300)
	runtime.GC()
	// Reuse what was freed.
	for i := 0; i < 200; i++ {
		s := make([]byte, 16+(i*7)%300)
		for j := range s {
			s[j] = 0xEE
		}
		garbage = s
	}
	count("collections_inside_calls", 1)
}

var garbage []byte

// spread puts collecting elements between and around the parts of a value.
func (g *vgen) spread() interface{} {
	n := 1 + g.intn(3)
	parts := []interface{}{}
	for i := 0; i < n; i++ {
		parts = append(parts, g.randValue())
		if g.bool() {
			parts = append(parts, GCer{g.intn(600)})
		}
	}
	parts = append(parts, GCer{g.intn(600)}, g.s())
	switch g.intn(8) {
	case 0:
		return parts
	case 1:
		return &parts
	case 2:
		m := map[string]interface{}{}
		for i, p := range parts {
			m[fmt.Sprintf("k%d%s", i, g.word())] = p
		}
		return m
	case 3:
		return struct {
			A interface{}
			B map[GCTextV]string
			C []*GCText
			D *GCAppend
			E string
			F [2][]byte
		}{parts, map[GCTextV]string{{g.word()}: g.s(), {g.word() + "x"}: g.s()}, []*GCText{{g.s()}, {g.s()}}, &GCAppend{[]byte(g.s()), nil}, g.s(), [2][]byte{[]byte(g.s()), []byte(g.s())}}
	case 4:
		// Only reachable through a map.
		return map[string]map[string]*GCText{g.word(): {g.word(): {g.s()}, g.word() + "2": {g.s()}}, g.word() + "3": {"x": {g.s()}}}
	case 5:
		return []*[]map[int][]interface{}{{{1: parts, 2: parts}, {3: {&parts}}}}
	case 6:
		sm := &sync.Map{}
		for i, p := range parts {
			sm.Store(fmt.Sprintf("k%d%s", i, g.word()), p)
		}
		return sm
	default:
		b := new(big.Int).SetInt64(int64(g.u64() >> 1))
		return []interface{}{EmbIface{GCer{1}}, IfaceFields{A: GCer{2}, B: &GCText{g.s()}}, [1]*GCText{{g.s()}}, struct{ P *GCText }{&GCText{g.s()}}, b, parts}
	}
}

type GCTextV struct{ S string }

func (x GCTextV) MarshalText() ([]byte, error) {
	gcNow(len(x.S))
	return []byte("k" + x.S), nil
}

func memLive(c *caseCtx) {
	seed := c.u64()
	gen := func() interface{} {
		g := newVgen(&rng{seed})
		g.budget = 25
		g.small = true
		if *fStage == "asan" {
			g.small = g.chance(3)
			g.budget = 60
			if g.bool() {
				return g.randValue()
			}
		}
		return g.spread()
	}
	o := c.randOpts(optMode{lists: true, density: 6})
	ref := gen()
	want := tryRef(ref, o)
	opts := append([]jettison.Option{nil}, o.options()...)
	crumb("%T %v", ref, o)
	gcReal = *fStage != "asan" || c.chance(4)
	var got outcome
	done := make(chan struct{})
	// On a new, small stack; nothing else refers to the value.
	go func() {
		defer close(done)
		got = try(func() ([]byte, error) { return jettison.MarshalOpts(gen(), opts...) })
	}()
	<-done
	gcReal = false
	c.evals = 1
	if !sameOutcome(got, want) {
		if w2, ok := eqRef(got, ref, o); !ok {
			c.desc = describe(ref) + " options " + o.String()
			c.fail("live-output-differs", "%s", diff(got, w2))
			return
		}
	}
	count("values_encoded_while_collecting", 1)
	if want.ok() {
		seen("live", want.out)
	}
	if c.chance(4) {
		runtime.GC()
	}
}
