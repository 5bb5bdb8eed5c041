package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/wI2L/jettison"
)

// ---- C24: what calls keep alive ----

func init() {
	props["C24"] = &propDef{quick: 12, thorough: 1000, run: runC24, multi: true,
		rule: "distinct mixes of calls whose memory was measured"}
}

// leakRun makes calls that have nothing in common but their types.
type leakRun struct {
	c    *caseCtx
	g    *vgen
	n    int
	pool []reflect.Value
	// what the calls do, by weight
	mix  []func(i int) interface{}
	name []string
	// how
	opts    int // 0 none, 1 the same ones, 2 others for each call
	shared  *optSet
	ctx     context.Context // cancelled never
	append_ bool
	routine bool
	dst     []byte
	errs    int
}

type leakItem struct {
	S  string
	B  []byte
	N  json.Number
	R  json.RawMessage
	T  time.Time
	P  *time.Time
	D  time.Duration `json:",string"`
	M  map[string]int
	K  map[TextStr]string
	I  interface{}
	F  float64
	X  TextStr
	J  RawFrag
	A  [4]byte
	L  []string
	Q  string `json:",string"`
	E  error  `json:",omitempty"`
	C  *ctxMarsh
	Sy *sync.Map
}

// ctxMarsh reads its context.
type ctxMarsh struct{ S string }

func (x *ctxMarsh) AppendJSONContext(ctx context.Context, b []byte) ([]byte, error) {
	s, _ := ctx.Value(ctxKey{}).(string)
	return strconv.AppendQuoteToASCII(b, s+x.S), nil
}

func (l *leakRun) item(i int) interface{} {
	s := "k" + strconv.Itoa(i)
	t := time.Unix(int64(i)*7919, int64(i)).In(time.FixedZone(s, i%80000-40000))
	sm := &sync.Map{}
	sm.Store(s, i)
	return &leakItem{S: s + "<\n>\xff", B: []byte(s), N: json.Number(strconv.Itoa(i)), R: json.RawMessage(`[ "` + s + `" ]`), T: t, P: &t, D: time.Duration(i) * 1234567,
		M: map[string]int{s: i, s + "x": 1}, K: map[TextStr]string{TextStr(s): s}, I: s, F: float64(i) + 1e-3, X: TextStr(s), J: RawFrag(`{"` + s + `" : 1}`),
		A: [4]byte{byte(i), byte(i >> 8), byte(i >> 16)}, L: []string{s, s}, Q: s, C: &ctxMarsh{s}, Sy: sm}
}

var leakKinds = []struct {
	name string
	make func(l *leakRun, i int) interface{}
}{
	{"item", (*leakRun).item},
	{"string", func(l *leakRun, i int) interface{} { return "text " + strconv.Itoa(i) }},
	{"long-string", func(l *leakRun, i int) interface{} {
		return strconv.Itoa(i) + string(bytes.Repeat([]byte("x<"), 200+i%3000))
	}},
	{"bytes", func(l *leakRun, i int) interface{} { return bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 1+i%1000) }},
	{"number", func(l *leakRun, i int) interface{} { return json.Number(strconv.Itoa(i) + ".5e3") }},
	{"time", func(l *leakRun, i int) interface{} {
		return time.Unix(int64(i)*86399, int64(i)*1001).In(time.FixedZone("z"+strconv.Itoa(i), i%50000))
	}},
	{"durations", func(l *leakRun, i int) interface{} {
		return map[time.Duration]time.Duration{time.Duration(i) * 77777777: time.Duration(i) * 991}
	}},
	{"floats", func(l *leakRun, i int) interface{} {
		return []interface{}{float64(i) * 1.37e-9, float32(i) * 1.37e9, -i, uint64(i) << 40}
	}},
	{"map", func(l *leakRun, i int) interface{} {
		m := map[string]interface{}{}
		for k := 0; k <= i%20; k++ {
			m["key"+strconv.Itoa(i)+"-"+strconv.Itoa(k)] = k
		}
		return m
	}},
	{"int-map", func(l *leakRun, i int) interface{} { return map[int]string{i: "a", -i: "b"} }},
	{"text-map", func(l *leakRun, i int) interface{} {
		return map[TextStruct]int{{A: i}: 1}
	}},
	{"sync-map", func(l *leakRun, i int) interface{} {
		m := &sync.Map{}
		for k := 0; k <= i%5; k++ {
			m.Store("key"+strconv.Itoa(i)+"-"+strconv.Itoa(k), i)
			m.Store(i+k, nil)
		}
		return m
	}},
	{"raw", func(l *leakRun, i int) interface{} { return json.RawMessage(`{ "a" : "<` + strconv.Itoa(i) + `>" }`) }},
	{"fragment", func(l *leakRun, i int) interface{} { return []RawFrag{RawFrag(` [ ` + strconv.Itoa(i) + ` ] `)} }},
	{"text", func(l *leakRun, i int) interface{} { return &[]TextStr{TextStr("t" + strconv.Itoa(i))} }},
	{"context", func(l *leakRun, i int) interface{} { return []*ctxMarsh{{strconv.Itoa(i)}} }},
	{"list", func(l *leakRun, i int) interface{} {
		var p *List
		for k := 0; k < i%50; k++ {
			p = &List{V: i, Next: p}
		}
		return p
	}},
	{"deep", func(l *leakRun, i int) interface{} {
		var v interface{} = i
		for k := 0; k < 1100; k++ {
			v = []interface{}{v}
		}
		return v
	}},
	{"nested", func(l *leakRun, i int) interface{} {
		return NestMarshal{A: i, B: []string{strconv.Itoa(i)}, C: &NestMarshal{A: i}}
	}},
	{"pool", func(l *leakRun, i int) interface{} {
		v := l.pool[l.c.intn(len(l.pool))]
		n := 3
		l.c.change(nil, v, 0, &n)
		return v.Interface()
	}},
	{"error-json", func(l *leakRun, i int) interface{} {
		return []interface{}{"x" + strconv.Itoa(i), Failing{i}}
	}},
	{"error-type", func(l *leakRun, i int) interface{} {
		return map[string]interface{}{"x" + strconv.Itoa(i): make(chan int)}
	}},
	{"error-value", func(l *leakRun, i int) interface{} { return []float64{float64(i), math.NaN()} }},
	{"error-raw", func(l *leakRun, i int) interface{} { return json.RawMessage(`{` + strconv.Itoa(i)) }},
	{"error-number", func(l *leakRun, i int) interface{} { return json.Number("x" + strconv.Itoa(i)) }},
	{"error-cycle", func(l *leakRun, i int) interface{} {
		p := &List{V: i}
		p.Next = p
		return p
	}},
	{"error-key", func(l *leakRun, i int) interface{} {
		m := &sync.Map{}
		m.Store(i, i)
		m.Store(float64(i), 1)
		return m
	}},
	{"panic", func(l *leakRun, i int) interface{} {
		return map[string]interface{}{"x" + strconv.Itoa(i): 1, "y": Panicker{i}}
	}},
	{"panic-sync", func(l *leakRun, i int) interface{} {
		m := &sync.Map{}
		m.Store("x"+strconv.Itoa(i), &PanicText{i})
		return m
	}},
}

// call makes one call.
func (l *leakRun) call() {
	l.n++
	i := l.n + 1000000
	v := l.mix[l.c.intn(len(l.mix))](i)
	var opts []jettison.Option
	switch l.opts {
	case 1:
		opts = l.shared.options()
	case 2:
		s := strconv.Itoa(i)
		for k := l.c.intn(4); k >= 0; k-- {
			switch l.c.intn(9) {
			case 0:
				opts = append(opts, jettison.DenyList([]string{"f" + s, "S"}))
			case 1:
				opts = append(opts, jettison.AllowList([]string{"S", "B", "M", "I", "T", "a" + s}))
			case 2:
				opts = append(opts, jettison.TimeLayout("2006 k"+s+" 15:04 MST"))
			case 3:
				opts = append(opts, jettison.WithContext(context.WithValue(l.ctx, ctxKey{}, s)))
			case 4:
				opts = append(opts, jettison.WithContext(l.ctx))
			case 5:
				opts = append(opts, jettison.UnsortedMap(), jettison.RawByteSlice())
			case 6:
				opts = append(opts, jettison.NoHTMLEscaping(), jettison.NoCompact(), jettison.DurationFormat(durFmts[l.c.intn(6)]))
			case 7:
				opts = append(opts, nil, jettison.UnixTime(), jettison.ByteArrayAsString(), jettison.NilMapEmpty(), jettison.NilSliceEmpty())
			case 8:
				if l.c.chance(10) {
					opts = append(opts, jettison.TimeLayout(""))
				}
			}
		}
	}
	f := func() {
		defer func() {
			if recover() != nil {
				l.errs++
			}
		}()
		var err error
		switch {
		case l.append_ && opts == nil:
			l.dst, err = jettison.Append(l.dst[:0], v)
		case l.append_:
			l.dst, err = jettison.AppendOpts(l.dst[:0], v, opts...)
		case opts == nil:
			_, err = jettison.Marshal(v)
		default:
			_, err = jettison.MarshalOpts(v, opts...)
		}
		if cap(l.dst) > 1<<16 || err != nil {
			l.dst = nil
		}
		if err != nil {
			l.errs++
		}
	}
	if l.routine {
		done := make(chan bool)
		go func() {
			defer close(done)
			f()
		}()
		<-done
		return
	}
	f()
}

type memUse struct{ objects, bytes int64 }

// use returns what is alive, after all pools have been emptied.
func (l *leakRun) use() memUse {
	l.dst = nil
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return memUse{int64(m.HeapObjects), int64(m.HeapAlloc)}
}

func (l *leakRun) calls(n int) {
	for ; n > 0; n-- {
		l.call()
	}
}

// grew tells whether more is alive by more than what n calls may leave.
func grew(a, b memUse, n int) bool {
	return b.objects-a.objects >= int64(n/100) && b.bytes > a.bytes || b.bytes-a.bytes >= int64(2*n)
}

func runC24(c *caseCtx) {
	if c.intn(5) < 2 {
		runReclaim(c)
		return
	}
	g := newVgen(c.rng)
	g.small = true
	l := &leakRun{c: c, g: g, opts: c.intn(3), append_: c.chance(3), routine: c.chance(4)}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l.ctx = ctx
	l.shared = c.randOpts(optMode{lists: true, unsorted: true, escapeHatches: true, density: 4})
	k := c.between(1, 4)
	if c.chance(4) {
		k = len(leakKinds)
	}
	for ; k > 0; k-- {
		d := leakKinds[c.intn(len(leakKinds))]
		l.mix = append(l.mix, func(i int) interface{} { return d.make(l, i) })
		l.name = append(l.name, d.name)
		count("mix_"+d.name, 1)
	}
	for i := 0; i < 12; i++ {
		t := g.randType()
		if t.Size() > 4096 {
			continue
		}
		v := reflect.New(t)
		g.budget = 40
		g.fill(v.Elem(), 0)
		l.pool = append(l.pool, v)
	}
	l.pool = append(l.pool, reflect.ValueOf(&Wide{}))
	crumb("calls with %v", l.name)
	c.desc = fmt.Sprintf("calls with %v, options %d, append %t, in goroutines %t", l.name, l.opts, l.append_, l.routine)
	const first = 2000
	routines := runtime.NumGoroutine()
	l.calls(500)
	a := l.use()
	l.calls(first)
	b := l.use()
	c.evals = 500 + first
	count("calls", 500+first)
	count("calls_that_failed", l.errs)
	seen(fmt.Sprint(l.name), l.opts, l.append_, l.routine)
	sample(func() string {
		return fmt.Sprintf("%s: %d bytes in %d objects alive after 500 calls, %d in %d after %d", c.desc, a.bytes, a.objects, b.bytes, b.objects, 500+first)
	})
	// A few may belong to the runtime or the harness; a leak grows with the calls.
	for i := 0; runtime.NumGoroutine() > routines+10; i++ {
		if i == 400 {
			c.fail("goroutines-left", "%d goroutines before, %d after %d calls", routines, runtime.NumGoroutine(), l.n)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	if !grew(a, b, first) {
		return
	}
	// It may be something that grows up to a bound.
	count("confirmations", 1)
	uses := []memUse{a, b}
	for n := first; n <= 32*first; n *= 2 {
		l.calls(n)
		u := l.use()
		if uses = append(uses, u); !grew(b, u, n) {
			return
		}
		b = u
	}
	c.fail("memory-grows", "%s: bytes and objects alive after 500 calls, after %d more, and each time the number doubles: %v", c.desc, first, uses)
}
