package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
)

// ---- C24, second workload: what a call was given is collected ----

// tracked is an object whose collection is watched.
type tracked struct {
	name string
	gone int32
}

type tracker struct {
	mu   sync.Mutex
	list []*tracked
	n    int
}

func (k *tracker) add(name string) *tracked {
	t := &tracked{name: name}
	k.mu.Lock()
	k.list = append(k.list, t)
	k.mu.Unlock()
	return t
}

// bytes returns memory that is watched, with the content s.
func (k *tracker) bytes(name, s string) []byte {
	// Large enough not to share a block with others.
	b := make([]byte, len(s), len(s)+32)
	copy(b, s)
	t := k.add(name)
	runtime.SetFinalizer(&b[:1][0], func(*byte) { atomic.StoreInt32(&t.gone, 1) })
	return b
}

// text is a string in memory that is watched.
func (k *tracker) text(name, s string) string {
	b := k.bytes(name, s)
	return *(*string)(unsafe.Pointer(&b))
}

// distinct is a text no call has had before.
func (k *tracker) distinct(name, prefix string) string {
	k.n++
	return k.text(name, fmt.Sprintf("%s%d", prefix, k.n))
}

// Types with a watched object inside.
type (
	heldStr struct {
		A string
		B *heldStr `json:",omitempty"`
		p *[48]byte
	}
	heldJSON    struct{ p *[48]byte }
	heldText    struct{ p *[48]byte }
	heldAppend  struct{ p *[48]byte }
	heldContext struct{ p *[48]byte }
	heldFail    struct {
		k *tracker
		p *[48]byte
	}
	heldPanic struct {
		k *tracker
		p *[48]byte
	}
	heldErr  struct{ p *[48]byte }
	heldRet  struct{ k *tracker }
	heldKeyT struct{ s string }
)

func (x *heldJSON) MarshalJSON() ([]byte, error)         { return []byte(`{ "a" : 1 }`), nil }
func (x *heldText) MarshalText() ([]byte, error)         { return []byte("text"), nil }
func (x heldAppend) AppendJSON(b []byte) ([]byte, error) { return append(b, "[]"...), nil }
func (x *heldFail) MarshalJSON() ([]byte, error)         { return nil, &heldErr{x.k.obj("error")} }
func (x heldPanic) AppendJSON(b []byte) ([]byte, error)  { panic(&heldErr{x.k.obj("panic value")}) }
func (x *heldErr) Error() string                         { return "held" }
func (x heldKeyT) MarshalText() ([]byte, error)          { return []byte(x.s), nil }
func (x heldRet) MarshalJSON() ([]byte, error) {
	return x.k.bytes("returned by MarshalJSON", `{"r": [ ]}`), nil
}
func (x *heldRet) MarshalText() ([]byte, error) {
	return x.k.bytes("returned by MarshalText", "r"), nil
}
func (x *heldContext) AppendJSONContext(ctx context.Context, b []byte) ([]byte, error) {
	if ctx.Value(ctxKey{}) == nil {
		return append(b, "null"...), nil
	}
	return append(b, "1"...), nil
}

// obj is a watched object without pointers.
func (k *tracker) obj(name string) *[48]byte {
	p := new([48]byte)
	t := k.add(name)
	runtime.SetFinalizer(p, func(*[48]byte) { atomic.StoreInt32(&t.gone, 1) })
	return p
}

// heldCtx is a context of its own type.
type heldCtx struct {
	context.Context
	p *[48]byte
}

func (h *heldCtx) Value(k interface{}) interface{} {
	if (k == ctxKey{}) {
		return h.p
	}
	return h.Context.Value(k)
}

// value makes a value with watched parts.
func (k *tracker) value(c *caseCtx) interface{} {
	var v interface{}
	switch c.intn(22) {
	case 0:
		v = k.distinct("string", "<s>")
	case 1:
		v = k.bytes("byte slice", "bytes")
	case 2:
		v = json.RawMessage(k.distinct("raw message", "12"))
		if c.bool() {
			v = json.RawMessage(k.bytes("raw message", `{ "a" : [ 1 ] }`))
		}
	case 3:
		v = json.Number(k.distinct("number", "12"))
	case 4:
		v = map[string]interface{}{k.distinct("map key", "key"): k.distinct("map value", "x"), "z": 1}
	case 5:
		v = map[string]string{k.distinct("map key", "a\n"): k.distinct("map value", "x")}
	case 6:
		m := &sync.Map{}
		m.Store(k.distinct("sync.Map key", "key"), k.distinct("sync.Map value", "x"))
		m.Store(heldKeyT{k.distinct("sync.Map text key", "k")}, &heldJSON{k.obj("sync.Map receiver")})
		v = m
	case 7:
		v = &heldStr{A: k.distinct("field", "f"), p: k.obj("hidden field"), B: &heldStr{A: k.distinct("inner field", "f"), p: k.obj("inner hidden field")}}
	case 8:
		v = heldStr{A: k.distinct("field", "f"), p: k.obj("hidden field")}
	case 9:
		v = &heldJSON{k.obj("MarshalJSON receiver")}
	case 10:
		v = &heldText{k.obj("MarshalText receiver")}
	case 11:
		v = heldAppend{k.obj("AppendJSON receiver")}
	case 12:
		v = &heldContext{k.obj("AppendJSONContext receiver")}
	case 13:
		v = &heldFail{k, k.obj("failing receiver")}
	case 14:
		v = heldPanic{k, k.obj("panicking receiver")}
	case 15:
		v = []interface{}{heldRet{k}, map[*heldRet]int{{k}: 1}}
	case 16:
		v = map[heldKeyT]*heldText{{k.distinct("text key", "k")}: {k.obj("text in a map")}}
	case 17:
		v = time.Unix(int64(c.intn(1000000)), 0).In(time.FixedZone(k.distinct("zone name", "Z"), c.intn(50000)))
	case 18:
		// A cycle, which is an error.
		p := &heldStr{A: k.distinct("field of a cycle", "f"), p: k.obj("hidden field of a cycle")}
		p.B = p
		v = p
	case 19:
		v = struct {
			A interface{}
			B chan int
			C []string
		}{k.distinct("string before an error", "s"), make(chan int), nil}
	case 20:
		v = []string{k.distinct("element", "e"), k.distinct("element", "<")}
	case 21:
		v = struct {
			A json.Number `json:",string"`
			B string      `json:",string"`
			D *string
		}{json.Number(k.distinct("quoted number", "7")), k.distinct("quoted string", "q"), new(string)}
	}
	switch c.intn(6) {
	case 0:
		v = []interface{}{v}
	case 1:
		v = map[string]interface{}{"m": v, "n": nil}
	case 2:
		v = &v
	case 3:
		v = struct{ F interface{} }{v}
	case 4:
		m := &sync.Map{}
		m.Store("s", v)
		v = m
	}
	return v
}

func (k *tracker) options(c *caseCtx) []jettison.Option {
	var opts []jettison.Option
	for n := c.intn(4); n > 0; n-- {
		switch c.intn(9) {
		case 0:
			opts = append(opts, jettison.TimeLayout(k.distinct("time layout", "2006 ")))
		case 1:
			opts = append(opts, jettison.DenyList([]string{k.distinct("denied name", "d")}))
		case 2:
			opts = append(opts, jettison.AllowList([]string{k.distinct("allowed name", "d"), "A", "B", "F", "C"}))
		case 3, 4:
			opts = append(opts, jettison.WithContext(&heldCtx{context.Background(), k.obj("context")}))
		case 5:
			opts = append(opts, jettison.WithContext(context.WithValue(context.Background(), ctxKey{}, k.obj("context value"))))
		case 6:
			opts = append(opts, jettison.UnsortedMap())
		case 7:
			opts = append(opts, jettison.NoCompact(), jettison.RawByteSlice(), jettison.UnixTime())
		case 8:
			if c.chance(4) {
				// An error.
				opts = append(opts, jettison.TimeLayout(""))
			}
		}
	}
	return opts
}

// calls encodes values that nobody else refers to.
//
//go:noinline
func (k *tracker) calls(c *caseCtx, n int) {
	for ; n > 0; n-- {
		v := k.value(c)
		opts := k.options(c)
		for r := c.between(1, 3); r > 0; r-- {
			func() {
				defer func() { recover() }()
				var b []byte
				var err error
				switch c.intn(4) {
				case 0:
					b, err = jettison.Marshal(v)
				case 1, 2:
					b, err = jettison.MarshalOpts(v, opts...)
				case 3:
					b, err = jettison.AppendOpts(k.bytes("destination", "dst")[:c.intn(3)], v, opts...)
				}
				if err == nil && len(b) == 0 {
					panic("empty")
				}
				if e := errors.Unwrap(err); e != nil {
					count("reclaim_errors", 1)
				}
			}()
		}
	}
}

func (k *tracker) left() (left []string) {
	for _, t := range k.list {
		if atomic.LoadInt32(&t.gone) == 0 {
			left = append(left, t.name)
		}
	}
	return left
}

var plainCalls = []interface{}{
	map[string]int{"a": 1, "b": 2}, "text", map[string]interface{}{"x": map[string]int{"y": 1}},
	time.Unix(0, 0).UTC(), []interface{}{1, "<", nil}, json.Number("1"), json.RawMessage(`{ "a": 1 }`),
	struct{ A string }{"a"}, map[heldKeyT]int{{"k"}: 1},
}

// runReclaim encodes values with all kinds of parts and options, and waits
// until the collector has found that nothing refers to them.
func runReclaim(c *caseCtx) {
	k := &tracker{}
	routine := c.bool()
	active := c.bool()
	n := c.between(1, 40)
	c.desc = fmt.Sprintf("%d values, in a goroutine %t, with other calls in between %t", n, routine, active)
	crumb("reclaim: %s", c.desc)
	if routine {
		done := make(chan bool)
		go func() {
			defer close(done)
			k.calls(c, n)
		}()
		<-done
	} else {
		k.calls(c, n)
	}
	c.evals = n
	count("reclaim_cases", 1)
	count("watched_objects", len(k.list))
	var left []string
	for i := 0; i < 200; i++ {
		runtime.GC()
		if i > 2 {
			time.Sleep(time.Duration(i) * 100 * time.Microsecond)
		}
		if left = k.left(); len(left) == 0 {
			count(fmt.Sprintf("collections_%02d", i+1), 1)
			break
		}
		if active || i > 100 && i%2 == 0 {
			for j := 0; j < 20; j++ {
				if _, err := jettison.Marshal(plainCalls[c.intn(len(plainCalls))]); err != nil {
					c.fail("reclaim-plain", "%v", err)
				}
			}
		}
	}
	names := map[string]bool{}
	for _, t := range k.list {
		names[t.name] = true
		count("watched_"+strings.ReplaceAll(t.name, " ", "_"), 1)
	}
	seen("reclaim", fmt.Sprint(reflect.ValueOf(names).MapKeys()), routine, active)
	if len(left) != 0 {
		c.fail("kept-alive", "after 200 collections %d of %d watched objects are still reachable: %s", len(left), len(k.list), clip(fmt.Sprint(left), 500))
	}
}
