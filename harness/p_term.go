package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/wI2L/jettison"
)

func init() {
	props["C22"] = &propDef{quick: 300, thorough: 6000, run: runC22,
		rule: "distinct (shape, depth class, outcome) combinations and distinct outputs of finite recursive, deeply nested, shared, cyclic and panicking values"}
}

// More recursive types.
type (
	SelfSlice  []SelfSlice
	SelfMap    map[string]SelfMap
	SelfPtr    *SelfPtr
	SelfPtrSl  []*SelfPtrSl
	SelfArr    [1]*SelfArr
	SelfMapSl  map[int][]SelfMapSl
	SelfSlMap  []map[string]SelfSlMap
	SelfStruct struct {
		N *SelfStruct
	}
	SelfStructV struct {
		V int
		S []SelfStructV          `json:",omitempty"`
		M map[string]SelfStructV `json:",omitempty"`
		P *SelfStructV           `json:",omitempty"`
		I interface{}            `json:",omitempty"`
		A [1]*SelfStructV        `json:"-"`
		Q **SelfStructV          `json:",omitempty"`
	}
	AnonRec struct {
		X []struct {
			Y map[string]*struct{ Z *AnonRec }
		}
	}
	LongA struct{ B []LongB }
	LongB struct{ C map[string]LongC }
	LongC struct{ D *LongD }
	LongD struct{ E [1]LongE }
	LongE struct {
		F **LongA
		G []LongB
		H *LongC
	}
	EmbCycA struct {
		*EmbCycB
		A int
	}
	EmbCycB struct {
		*EmbCycC
		B int
	}
	EmbCycC struct {
		*EmbCycA
		C int
	}
	RecSync struct {
		M *sync.Map
		N *RecSync
	}
	RecText map[RecKey]RecText
	RecKey  struct{ S string }
	RecOmit struct {
		A *RecOmit           `json:",omitnil"`
		B []RecOmit          `json:",omitnil"`
		C map[string]RecOmit `json:",omitnil"`
	}
	PtrToSlice *[]PtrToSlice
	MapOfPtr   map[string]*MapOfPtr
	RecFn      struct {
		F func(RecFn) RecFn `json:"-"`
		C chan RecFn        `json:"-"`
		N *RecFn
	}
)

func (k RecKey) MarshalText() ([]byte, error) { return []byte(k.S), nil }

// A nest is a family of values of any depth with a known encoding.
type nest struct {
	name  string
	max   int // depth for a quick run
	build func(depth int) (v interface{}, want func() string)
}

func rep2(open, mid, cls string, n int) func() string {
	return func() string {
		var sb strings.Builder
		sb.Grow(n*(len(open)+len(cls)) + len(mid))
		for i := 0; i < n; i++ {
			sb.WriteString(open)
		}
		sb.WriteString(mid)
		for i := 0; i < n; i++ {
			sb.WriteString(cls)
		}
		return sb.String()
	}
}

var nests = []nest{
	{"SelfSlice", 100000, func(d int) (interface{}, func() string) {
		s := SelfSlice{}
		for i := 0; i < d; i++ {
			s = SelfSlice{s}
		}
		return s, rep2("[", "[]", "]", d)
	}},
	{"[]interface", 100000, func(d int) (interface{}, func() string) {
		var s interface{} = 1
		for i := 0; i < d; i++ {
			s = []interface{}{s}
		}
		return s, rep2("[", "1", "]", d)
	}},
	{"SelfMap", 15000, func(d int) (interface{}, func() string) {
		s := SelfMap{}
		for i := 0; i < d; i++ {
			s = SelfMap{"k": s}
		}
		return s, rep2(`{"k":`, "{}", "}", d)
	}},
	{"map[string]interface", 15000, func(d int) (interface{}, func() string) {
		var s interface{} = "x"
		for i := 0; i < d; i++ {
			s = map[string]interface{}{"<": s}
		}
		return s, rep2(`{"\u003c":`, `"x"`, "}", d)
	}},
	{"List", 100000, func(d int) (interface{}, func() string) {
		var l *List
		for i := 0; i < d; i++ {
			l = &List{V: 7, Next: l}
		}
		return l, rep2(`{"V":7,"Next":`, "null", "}", d)
	}},
	{"SelfStruct", 100000, func(d int) (interface{}, func() string) {
		l := SelfStruct{}
		for i := 0; i < d; i++ {
			c := l
			l = SelfStruct{&c}
		}
		return l, rep2(`{"N":`, `{"N":null}`, "}", d)
	}},
	{"SelfStructV.S", 50000, func(d int) (interface{}, func() string) {
		l := SelfStructV{}
		for i := 0; i < d; i++ {
			l = SelfStructV{S: []SelfStructV{l}}
		}
		return &l, rep2(`{"V":0,"S":[`, `{"V":0}`, "]}", d)
	}},
	{"SelfStructV.Q", 50000, func(d int) (interface{}, func() string) {
		l := &SelfStructV{}
		for i := 0; i < d; i++ {
			c := l
			l = &SelfStructV{Q: &c}
		}
		return l, rep2(`{"V":0,"Q":`, `{"V":0}`, "}", d)
	}},
	{"SelfStructV.I", 50000, func(d int) (interface{}, func() string) {
		var l interface{} = SelfStructV{}
		for i := 0; i < d; i++ {
			l = SelfStructV{I: l}
		}
		return l, rep2(`{"V":0,"I":`, `{"V":0}`, "}", d)
	}},
	{"SelfArr", 100000, func(d int) (interface{}, func() string) {
		l := SelfArr{}
		for i := 0; i < d; i++ {
			c := l
			l = SelfArr{&c}
		}
		return l, rep2("[", "[null]", "]", d)
	}},
	{"SelfPtr", 100000, func(d int) (interface{}, func() string) {
		var p SelfPtr
		for i := 0; i < d; i++ {
			c := p
			p = SelfPtr(&c)
		}
		return p, func() string { return "null" }
	}},
	{"SelfPtrSl", 100000, func(d int) (interface{}, func() string) {
		s := SelfPtrSl{}
		for i := 0; i < d; i++ {
			c := s
			s = SelfPtrSl{&c}
		}
		return s, rep2("[", "[]", "]", d)
	}},
	{"PtrToSlice", 100000, func(d int) (interface{}, func() string) {
		var s PtrToSlice
		for i := 0; i < d; i++ {
			s = PtrToSlice(&[]PtrToSlice{s})
		}
		return s, rep2("[", "null", "]", d)
	}},
	{"SelfMapSl", 10000, func(d int) (interface{}, func() string) {
		s := SelfMapSl{}
		for i := 0; i < d; i++ {
			s = SelfMapSl{5: {s}}
		}
		return s, rep2(`{"5":[`, "{}", "]}", d)
	}},
	{"MapOfPtr", 10000, func(d int) (interface{}, func() string) {
		s := MapOfPtr{}
		for i := 0; i < d; i++ {
			c := s
			s = MapOfPtr{"a": &c}
		}
		return s, rep2(`{"a":`, "{}", "}", d)
	}},
	{"RecText", 8000, func(d int) (interface{}, func() string) {
		s := RecText{}
		for i := 0; i < d; i++ {
			s = RecText{RecKey{"k"}: s}
		}
		return s, rep2(`{"k":`, "{}", "}", d)
	}},
	{"sync.Map", 5000, func(d int) (interface{}, func() string) {
		s := &sync.Map{}
		for i := 0; i < d; i++ {
			n := &sync.Map{}
			n.Store("k", s)
			s = n
		}
		return s, rep2(`{"k":`, "{}", "}", d)
	}},
	{"*interface", 100000, func(d int) (interface{}, func() string) {
		var s interface{} = true
		for i := 0; i < d; i++ {
			c := s
			s = &c
		}
		return s, func() string { return "true" }
	}},
	{"LongA", 10000, func(d int) (interface{}, func() string) {
		l := LongA{}
		for i := 0; i < d; i++ {
			p := new(LongA)
			*p = l
			pp := &p
			l = LongA{[]LongB{{map[string]LongC{"x": {&LongD{[1]LongE{{F: pp}}}}}}}}
		}
		return &l, rep2(`{"B":[{"C":{"x":{"D":{"E":[{"F":`, `{"B":null}`, `,"G":null,"H":null}]}}}}]}`, d)
	}},
	{"EmbCyc", 1, func(d int) (interface{}, func() string) {
		return EmbCycA{&EmbCycB{&EmbCycC{nil, 3}, 2}, 1}, func() string { return `{"C":3,"B":2,"A":1}` }
	}},
	{"RecOmit", 30000, func(d int) (interface{}, func() string) {
		l := RecOmit{}
		for i := 0; i < d; i++ {
			l = RecOmit{B: []RecOmit{l}}
		}
		return l, rep2(`{"B":[`, `{}`, "]}", d)
	}},
	{"RecFn", 100000, func(d int) (interface{}, func() string) {
		var l *RecFn
		for i := 0; i < d; i++ {
			l = &RecFn{N: l}
		}
		return l, rep2(`{"N":`, "null", "}", d)
	}},
	{"nested-MarshalJSON", 3000, func(d int) (interface{}, func() string) {
		var v interface{} = map[string]int{"a": 1}
		for i := 0; i < d; i++ {
			v = nestCall{v}
		}
		return v, func() string { return `{"a":1}` }
	}},
	{"nested-MarshalText", 3000, func(d int) (interface{}, func() string) {
		var v interface{} = 17
		for i := 0; i < d; i++ {
			v = nestText{v}
		}
		return v, func() string {
			if d == 0 {
				return "17"
			}
			return `"17"`
		}
	}},
	{"nested-AppendJSON", 20000, func(d int) (interface{}, func() string) {
		var v interface{} = []string{"x"}
		for i := 0; i < d; i++ {
			v = &nestAppend{v}
		}
		return v, rep2("[", `["x"]`, "]", d)
	}},
	{"nested-AppendJSONContext", 20000, func(d int) (interface{}, func() string) {
		var v interface{} = []string{"x"}
		for i := 0; i < d; i++ {
			v = nestCtx{v}
		}
		return v, rep2("[", `["x"]`, "]", d)
	}},
}

// nestCall and its like call the library for what they hold.
type nestCall struct{ V interface{} }

func (x nestCall) MarshalJSON() ([]byte, error) { return jettison.Marshal(x.V) }

type nestText struct{ V interface{} }

func (x nestText) MarshalText() ([]byte, error) {
	b, err := jettison.Marshal(x.V)
	return bytes.Trim(b, `"`), err
}

type nestAppend struct{ V interface{} }

func (x *nestAppend) AppendJSON(b []byte) ([]byte, error) {
	b, err := jettison.Append(append(b, '['), x.V)
	return append(b, ']'), err
}

type nestCtx struct{ V interface{} }

func (x nestCtx) AppendJSONContext(ctx context.Context, b []byte) ([]byte, error) {
	b, err := jettison.AppendOpts(append(b, '['), x.V, jettison.WithContext(ctx))
	return append(b, ']'), err
}

// storm makes very many calls that end early in one way.
func storm(c *caseCtx, opts []jettison.Option) bool {
	n := []int{70, 300, 1100, 2200, 5000}[c.intn(5)]
	k := c.intn(len(stormValues))
	var v interface{} = stormValues[k]
	for i := c.intn(3); i > 0; i-- {
		x := reflect.New(reflect.TypeOf(v)).Elem()
		x.Set(reflect.ValueOf(v))
		v = wrap(c.intn(nPositions), x).Interface()
	}
	ending := "call"
	switch x := stormValues[k].(type) {
	case Quitter:
		ending = "goroutine"
	case nestPanic:
		if _, ok := x.V.(Quitter); ok {
			ending = "goroutine"
		}
	}
	crumb("%d calls with a %T in a %T", n, stormValues[k], v)
	c.desc = fmt.Sprintf("%d calls with a %T in a %T, each ends its %s early", n, stormValues[k], v, ending)
	bad := -1
	for i := 0; i < n; i++ {
		var got outcome
		if ending == "goroutine" {
			done := make(chan struct{})
			go func() {
				defer close(done)
				got = outcome{pan: "goexit"}
				got = tryLib(v, opts)
			}()
			<-done
		} else if i%2 == 0 {
			got = tryLib(v, opts)
		} else {
			got = try(func() ([]byte, error) { return jettison.AppendOpts(nil, v, opts...) })
		}
		if got.ok() && bad < 0 {
			bad = i
		}
	}
	c.evals += n
	if bad >= 0 {
		c.fail("storm-succeeded", "call %d returned no error", bad)
		return false
	}
	count("calls_in_storms", n)
	seen("storm", k, n, fmt.Sprintf("%T", v))
	return true
}

var stormValues = []interface{}{
	Panicker{1}, &PanicText{2}, PanicAppend{3}, panicCtx{4}, map[panicKey]int{{1}: 2}, nestPanic{Panicker{1}},
	Failing{1}, FailText{1}, &FailAppend{2}, &FailCtx{2}, json.Number("x"), json.RawMessage("{"), math.NaN(), make(chan int),
	Quitter{1}, nestPanic{Quitter{2}}, map[string]interface{}{"a": Failing{1}}, nestCall{Failing{1}},
}

type panicCtx struct{ X int }

func (x panicCtx) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	panic(panicValue{x.X})
}

// Quitter ends its goroutine.
type Quitter struct{ X int }

func (x Quitter) AppendJSON(b []byte) ([]byte, error) {
	runtime.Goexit()
	return b, nil
}

// Cycles: each builds a value of a chain of the given length that ends in
// itself.
var cycles = []struct {
	name  string
	build func(n int) interface{}
}{
	{"pointer", func(n int) interface{} {
		last := &List{}
		l := last
		for i := 0; i < n; i++ {
			l = &List{V: i, Next: l}
		}
		last.Next = l
		return l
	}},
	{"slice", func(n int) interface{} {
		last := make(SelfSlice, 1)
		s := last
		for i := 0; i < n; i++ {
			s = SelfSlice{s}
		}
		last[0] = s
		return s
	}},
	{"slice-wide", func(n int) interface{} {
		last := make([]interface{}, 3)
		s := last
		for i := 0; i < n; i++ {
			s = []interface{}{i, s, "x"}
		}
		last[2] = s
		return s
	}},
	{"map", func(n int) interface{} {
		last := SelfMap{}
		s := last
		for i := 0; i < n; i++ {
			s = SelfMap{"k": s}
		}
		last["k"] = s
		return s
	}},
	{"map-interface", func(n int) interface{} {
		last := map[string]interface{}{"a": 1}
		s := last
		for i := 0; i < n; i++ {
			s = map[string]interface{}{"k": s, "z": nil}
		}
		last["k"] = s
		return s
	}},
	{"interface-pointer", func(n int) interface{} {
		var s interface{}
		last := &s
		for i := 0; i < n; i++ {
			c := s
			if i == 0 {
				c = last
			}
			s2 := c
			s = &s2
		}
		if n == 0 {
			s = last
		}
		return last
	}},
	{"pointer-type", func(n int) interface{} {
		var last SelfPtr
		p := SelfPtr(&last)
		for i := 0; i < n; i++ {
			c := p
			p = SelfPtr(&c)
		}
		last = p
		return p
	}},
	{"mixed", func(n int) interface{} {
		last := &SelfStructV{V: -1}
		l := last
		for i := 0; i < n; i++ {
			switch i % 5 {
			case 0:
				l = &SelfStructV{V: i, P: l}
			case 1:
				l = &SelfStructV{V: i, I: l}
			case 2:
				l = &SelfStructV{V: i, I: map[string]interface{}{"x": l}}
			case 3:
				c := l
				l = &SelfStructV{V: i, Q: &c}
			default:
				l = &SelfStructV{V: i, I: []interface{}{nil, l}}
			}
		}
		last.I = []interface{}{l}
		return l
	}},
	{"sync.Map", func(n int) interface{} {
		last := &sync.Map{}
		s := last
		for i := 0; i < n; i++ {
			m := &sync.Map{}
			m.Store("k", s)
			s = m
		}
		last.Store(1, s)
		return s
	}},
	{"sync.Map-mixed", func(n int) interface{} {
		r := &RecSync{M: &sync.Map{}}
		l := r
		for i := 0; i < n; i++ {
			l = &RecSync{N: l}
		}
		r.M.Store("x", l)
		return l
	}},
	{"array", func(n int) interface{} {
		last := &SelfArr{}
		l := last
		for i := 0; i < n; i++ {
			l = &SelfArr{l}
		}
		last[0] = l
		return l
	}},
	{"map-slice", func(n int) interface{} {
		last := SelfMapSl{}
		l := last
		for i := 0; i < n; i++ {
			l = SelfMapSl{i: {l}}
		}
		last[1] = []SelfMapSl{{}, l}
		return l
	}},
	{"slice-of-pointer", func(n int) interface{} {
		last := &SelfPtrSl{nil}
		l := last
		for i := 0; i < n; i++ {
			l = &SelfPtrSl{nil, l}
		}
		(*last)[0] = l
		return l
	}},
	{"embedded", func(n int) interface{} {
		r := &RecStructSlice{}
		l := r
		for i := 0; i < n; i++ {
			l = &RecStructSlice{Y: [1]*RecStructSlice{l}}
		}
		r.Y[0] = l
		return l
	}},
	{"slice-of-struct", func(n int) interface{} {
		l := RecStructSlice{X: make([]RecStructSlice, 1)}
		l.X[0] = l
		_ = n
		return l
	}},
	{"map-of-struct", func(n int) interface{} {
		l := SelfStructV{M: map[string]SelfStructV{}}
		l.M["a"] = l
		_ = n
		return l
	}},
}

func runC22(c *caseCtx) {
	o := defaultOpts()
	switch c.intn(4) {
	case 0:
		o = c.randOpts(optMode{density: 4})
		o.noHTML, o.nilSlice, o.nilMap = false, false, false
	case 1:
		o.unsorted = true
	}
	opts := o.options()
	if c.chance(4) {
		fresh()
	}
	enc := func(v interface{}) outcome {
		if c.chance(3) {
			return try(func() ([]byte, error) { return jettison.AppendOpts([]byte{}, v, opts...) })
		}
		return tryLib(v, opts)
	}
	reuse := func(what string) bool {
		// The library still works.
		for i := 0; i < 3; i++ {
			g := newVgen(c.rng)
			g.budget = 20
			v := g.randValue()
			got := tryLib(v, nil)
			if want, ok := eqRef(got, v, defaultOpts()); !ok {
				c.desc = describe(v)
				c.fail("unusable-after-"+what, "%s", diff(got, want))
				return false
			}
		}
		return true
	}
	switch k := c.intn(10); k {
	case 0, 1, 2: // deep
		n := nests[c.intn(len(nests))]
		max := n.max
		if o.unsorted && max < 30000 {
			max = 30000
		}
		d := c.intn(2000)
		switch c.intn(6) {
		case 0:
			d = c.intn(max + 1)
		case 1:
			d = []int{0, 1, 2, 999, 1000, 1001, 1002, 1024, 2000, 2001}[c.intn(10)]
		case 2:
			if c.chance(3) {
				d = max
			}
		}
		if d > max {
			d = max
		}
		crumb("%s nested %d levels, options %v", n.name, d, o)
		v, want := n.build(d)
		got := enc(v)
		c.evals++
		c.desc = fmt.Sprintf("%s nested %d levels, options %v", n.name, d, o)
		if !got.ok() {
			c.fail("deep-failed-"+n.name, "depth %d: %s", d, clip(got.String(), 300))
			return
		}
		if w := want(); string(got.out) != w {
			c.fail("deep-differs-"+n.name, "depth %d: %s", d, diff(got, outcome{out: []byte(w)}))
			return
		}
		count("deep_values", 1)
		maxCount("max_depth_"+n.name, d)
		seen("deep", n.name, d)
		sample(func() string { return c.desc })
	case 3, 4: // cycles
		cy := cycles[c.intn(len(cycles))]
		n := c.intn(12)
		switch c.intn(5) {
		case 0:
			n = c.intn(1500)
		case 1:
			n = []int{0, 998, 999, 1000, 1001, 3000, 3000 + c.intn(5000), 5000 + c.intn(60000)}[c.intn(8)]
			if n > 20000 && !o.unsorted {
				n = 20000 // each map takes a buffer
			}
		}
		crumb("cycle %s of %d, options %v", cy.name, n, o)
		v := cy.build(n)
		var outer []string
		if c.bool() {
			w := reflect.ValueOf(v)
			for i := c.intn(4); i > 0; i-- {
				w = c.around(w, &outer)
			}
			v = w.Interface()
		}
		c.desc = fmt.Sprintf("cycle through %s of length %d inside %v, options %v", cy.name, n, outer, o)
		got := enc(v)
		c.evals++
		if got.pan != nil || got.err == nil {
			c.fail("cycle-no-error-"+cy.name, "%s", clip(got.String(), 300))
			return
		}
		var uv *jettison.UnsupportedValueError
		if !errors.As(got.err, &uv) {
			c.fail("cycle-other-error-"+cy.name, "%T %v", got.err, clip(got.err.Error(), 300))
			return
		}
		count("cycles", 1)
		seen("cycle", cy.name, n, strings.Join(outer, "/"))
		if c.chance(4) && !reuse("cycle") {
			return
		}
	case 5: // shared, acyclic
		sharedValue(c, enc)
	case 6, 7: // panics in user code
		if c.chance(15) {
			if !storm(c, opts) {
				return
			}
			for _, v := range []interface{}{nestCall{1}, nestText{1}, &nestAppend{1}, nestCtx{1}, map[string]int{"a": 1}} {
				if got := tryLib(v, nil); !got.ok() {
					c.fail("unusable-after-storm", "%T: %v", v, got)
					return
				}
			}
		} else {
			panics(c, opts, o)
		}
		if !reuse("panic") {
			return
		}
	default: // random finite values of recursive types
		g := newVgen(c.rng)
		g.budget = 30 + c.intn(400)
		g.maxDepth = 3 + c.intn(20)
		v := g.recursiveMore()
		if c.chance(8) {
			// Types with very many paths through them.
			t := chainTypes[c.intn(len(chainTypes))]
			p := reflect.New(t)
			if c.bool() {
				g.budget = 100
				g.fill(p.Elem(), 0)
			}
			if v = p.Interface(); c.bool() {
				v = p.Elem().Interface()
			}
			if c.bool() {
				fresh()
			}
			count("chain_types", 1)
		}
		crumb("%T", v)
		if c.chance(3) {
			fresh()
		}
		got := tryLib(v, append([]jettison.Option{nil}, opts...))
		c.evals++
		if want, ok := eqRef(got, v, o); !ok {
			c.desc = describe(v)
			c.fail("recursive-differs", "%s", diff(got, want))
			return
		}
		count("recursive_values", 1)
		if got.ok() {
			seen(fmt.Sprintf("%T", v), got.out)
		}
	}
}

func (g *vgen) recursiveMore() interface{} {
	l := []reflect.Type{tof((*SelfSlice)(nil)), tof((*SelfMap)(nil)), tof((*SelfPtr)(nil)), tof((*SelfPtrSl)(nil)), tof((*SelfArr)(nil)), tof((*SelfMapSl)(nil)), tof((*SelfSlMap)(nil)),
		tof((*SelfStruct)(nil)), tof((*SelfStructV)(nil)), tof((*AnonRec)(nil)), tof((*LongA)(nil)), tof((*LongB)(nil)), tof((*LongC)(nil)), tof((*LongD)(nil)), tof((*LongE)(nil)),
		tof((*EmbCycA)(nil)), tof((*EmbCycB)(nil)), tof((*EmbCycC)(nil)), tof((*RecText)(nil)), tof((*RecOmit)(nil)), tof((*PtrToSlice)(nil)), tof((*MapOfPtr)(nil)), tof((*RecFn)(nil)),
		tof((*RP)(nil)), tof((*RA)(nil)), tof((*Tree)(nil)), tof((*MutB)(nil)), tof((*MapA)(nil)), tof((*MapB)(nil)), tof((*RMS)(nil)), tof((*RecEmb)(nil))}
	t := l[g.intn(len(l))]
	v := reflect.New(t)
	g.fill(v.Elem(), 0)
	w := wrap(g.intn(nPositions), v.Elem())
	if w.Kind() == reflect.Interface {
		return nil
	}
	return w.Interface()
}

type namedView []interface{}

// views returns an array whose elements are slices of, and pointers to, the
// elements before them, and its encoding.
func views(c *caseCtx) (interface{}, string) {
	n := 2 + c.intn(5)
	arr := make([]interface{}, n)
	text := make([]string, n)
	list := func(a, b int) string { return "[" + strings.Join(text[a:b], ",") + "]" }
	// A view of the n elements before i.
	view := func(i int) (interface{}, string) {
		a := 0
		if c.chance(4) {
			a = c.intn(i)
		}
		b := a + 1 + c.intn(i-a)
		switch c.intn(7) {
		case 0:
			return namedView(arr[a:b]), list(a, b)
		case 1:
			return &arr[a], text[a]
		case 2:
			s := arr[a:b]
			return &s, list(a, b)
		case 3:
			return (*[1]interface{})(arr[a:b]), list(a, a+1)
		case 4:
			return arr[a:b:b], list(a, b)
		}
		return arr[a:b], list(a, b)
	}
	arr[0], text[0] = 7, "7"
	for i := 1; i < n; i++ {
		if c.chance(5) {
			arr[i], text[i] = true, "true"
			continue
		}
		arr[i], text[i] = view(i)
	}
	if c.bool() {
		return arr, list(0, n)
	}
	return view(n)
}

// sharedValue encodes acyclic values in which parts occur many times.
func sharedValue(c *caseCtx, enc func(interface{}) outcome) {
	var v interface{}
	var want string
	switch k := c.intn(9); k {
	case 7, 8: // views of one memory, each of which ends before its place in it
		d := 990 + c.intn(20)
		var x interface{}
		x, want = views(c)
		for i := 0; i < d; i++ {
			x = []interface{}{x}
		}
		v = x
		want = rep2("[", want, "]", d)()
	case 0: // a diamond doubles its output at every level
		n := c.intn(14)
		var p interface{} = 1
		want = "1"
		for i := 0; i < n; i++ {
			p = []interface{}{p, p}
			want = "[" + want + "," + want + "]"
		}
		v = p
	case 1:
		n := c.intn(10)
		var p *Tree
		want = "null"
		for i := 0; i < n; i++ {
			p = &Tree{L: p, R: p}
			want = `{"L":` + want + `,"R":` + want + `,"Kids":null,"Attr":null}`
		}
		v = p
	case 2: // many occurrences next to each other
		n := 900 + c.intn(3000)
		s := &List{V: 1}
		l := make([]*List, n)
		for i := range l {
			l[i] = s
		}
		v = l
		want = "[" + strings.TrimSuffix(strings.Repeat(`{"V":1,"Next":null},`, n), ",") + "]"
	case 3: // shared parts below the level where cycles are looked for
		d := 990 + c.intn(60)
		m := map[string]interface{}{"m": 1}
		s := []interface{}{"s"}
		p := &List{V: 2}
		one := `{"m":1},["s"],{"V":2,"Next":null}`
		var x interface{} = []interface{}{m, s, p, m, s, p}
		want = "[" + one + "," + one + "]"
		for i := 0; i < d; i++ {
			x = []interface{}{x}
		}
		v = x
		want = rep2("[", want, "]", d)()
	case 4: // parts of one backing array
		d := 995 + c.intn(10)
		arr := []interface{}{1, 2, 3, 4}
		var x interface{} = []interface{}{arr[:0], arr[:1], arr[:2], arr[1:3], arr[:4], arr[4:], arr}
		want = "[[],[1],[1,2],[2,3],[1,2,3,4],[],[1,2,3,4]]"
		for i := 0; i < d; i++ {
			x = []interface{}{x}
		}
		v = x
		want = rep2("[", want, "]", d)()
	case 5: // an empty or shorter slice of an array that contains it is no cycle
		d := 998 + c.intn(6)
		arr := make([]interface{}, 2)
		arr[0] = arr[1:]
		arr[1] = "end"
		var x interface{} = arr
		want = `[["end"],"end"]`
		if c.bool() {
			arr[1] = arr[:0]
			want = `[[[]],[]]`
		}
		for i := 0; i < d; i++ {
			x = []interface{}{x}
		}
		v = x
		want = rep2("[", want, "]", d)()
	default: // a struct and its first field share an address
		type inner struct{ V int }
		type outer struct {
			I inner
			P *inner
			O *outer `json:",omitempty"`
		}
		d := c.intn(1200)
		x := &outer{}
		x.P = &x.I
		want = `{"I":{"V":0},"P":{"V":0}}`
		for i := 0; i < d; i++ {
			n := &outer{O: x}
			n.P = &n.I
			x = n
		}
		v = x
		want = rep2(`{"I":{"V":0},"P":{"V":0},"O":`, want, "}", d)()
	}
	got := enc(v)
	c.evals++
	if !got.ok() || string(got.out) != want {
		c.desc = fmt.Sprintf("shared parts in a %T", v)
		c.fail("shared-differs", "%s", diff(got, outcome{out: []byte(want)}))
		return
	}
	count("shared_values", 1)
	seen("shared", len(want), want[:len(want)/2])
}

type nestPanic struct{ V interface{} }

func (x nestPanic) MarshalJSON() ([]byte, error) { return jettison.Marshal(x.V) }

type nilPanic struct{ p *int }

func (x nilPanic) MarshalText() ([]byte, error) { return []byte(fmt.Sprint(*x.p)), nil }

type catcher struct{ V interface{} }

// MarshalJSON survives a panic of a nested call.
func (x catcher) MarshalJSON() (b []byte, err error) {
	defer func() {
		if recover() != nil {
			b, err = []byte(`"caught"`), nil
		}
	}()
	return jettison.Marshal(x.V)
}

func panics(c *caseCtx, opts []jettison.Option, o *optSet) {
	pv := panicValue{c.intn(1000)}
	var v interface{}
	wantPanic := true
	var is func(p interface{}) bool = func(p interface{}) bool { return p == interface{}(pv) }
	switch c.intn(7) {
	case 0:
		v = Panicker{pv.x}
	case 1:
		v = &PanicText{pv.x}
	case 2:
		v = PanicAppend{pv.x}
	case 3:
		v = nestPanic{[]interface{}{1, Panicker{pv.x}}}
	case 4:
		v = nilPanic{}
		is = func(p interface{}) bool { _, ok := p.(error); return ok }
	case 5:
		v = catcher{[]interface{}{1, map[string]interface{}{"a": &PanicText{1}}}}
		wantPanic = false
	default:
		v = map[panicKey]int{{1}: 1, {2}: 2}
		is = func(p interface{}) bool { return p == interface{}("key") }
	}
	var chain []string
	w := reflect.ValueOf(v)
	for i := c.intn(6); i > 0; i-- {
		w = c.around(w, &chain)
	}
	v = w.Interface()
	if c.chance(5) {
		for i := 0; i < 1100; i++ {
			v = []interface{}{v}
		}
	}
	crumb("panic in %v", chain)
	dst, old, _ := c.randDst()
	var got outcome
	app := c.bool()
	if app {
		got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, v, opts...) })
	} else {
		got = tryLib(v, opts)
	}
	c.evals++
	c.desc = fmt.Sprintf("panic of %T inside %v, options %v", w.Interface(), chain, o)
	if !wantPanic {
		if !got.ok() || !bytes.Contains(got.out, []byte(`"caught"`)) {
			c.fail("caught-panic", "%v", got)
		}
		count("panics_caught_inside", 1)
		return
	}
	if got.pan == nil {
		if want := tryRef(v, o); want.pan == nil {
			return // the panicking part is not reached
		}
		c.fail("panic-lost", "%v", got)
		return
	}
	if !is(got.pan) {
		c.fail("panic-changed", "%v instead of %v", got.pan, pv)
		return
	}
	if !bytes.Equal(dst, old) {
		c.fail("destination-changed", "the destination's bytes changed")
		return
	}
	count("panics", 1)
	seen("panic", strings.Join(chain, "/"), app, fmt.Sprintf("%T", v))
}

type panicKey struct{ A int }

func (panicKey) MarshalText() ([]byte, error) { panic("key") }

var _ = json.Valid
