package main

import (
	"bytes"
	"context"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
)

func init() {
	props["C09"] = &propDef{quick: 16000, thorough: 700000, run: runC09,
		rule: "distinct encodings of maps with at least two entries, checked entry by entry and for order, or compared with the model"}
	props["C10"] = &propDef{quick: 12000, thorough: 500000, run: runC10,
		rule: "distinct sync.Map encodings (static ones) and histories (concurrent ones)"}
	props["C11"] = &propDef{quick: 40000, thorough: 2000000, run: runC11,
		rule: "distinct pairs of a log of method calls and an encoding"}
	props["C12"] = &propDef{quick: 20000, thorough: 900000, run: runC12,
		rule: "distinct raw JSON fragments, with the way they are embedded, compared with json.Valid and json.Compact"}
	props["C13"] = &propDef{quick: 40000, thorough: 2000000, run: runC13,
		rule: "distinct combinations of a fault, the chain of containers around it and the entry point"}
}

// ---- C09 ----

// members splits a JSON object text into raw keys and values.
func members(b []byte) (keys, vals []string, ok bool) {
	if len(b) < 2 || b[0] != '{' {
		return nil, nil, false
	}
	if string(b) == "{}" {
		return nil, nil, true
	}
	p := &canonParser{b: b, i: 1}
	for {
		k, ok := p.str()
		if !ok || p.i >= len(b) || b[p.i] != ':' {
			return nil, nil, false
		}
		p.i++
		st := p.i
		if _, ok := p.value(0); !ok || p.i >= len(b) {
			return nil, nil, false
		}
		keys = append(keys, k)
		vals = append(vals, string(b[st:p.i]))
		if b[p.i] == '}' {
			return keys, vals, p.i+1 == len(b)
		}
		if b[p.i] != ',' {
			return nil, nil, false
		}
		p.i++
	}
}

type lossyKey struct {
	N    int
	Text string
}

func (k lossyKey) MarshalText() ([]byte, error) { return []byte(k.Text), nil }

type lossyInt int

func (k lossyInt) MarshalText() ([]byte, error) { return []byte(fmt.Sprint(int(k) % 10)), nil }

// equalTexts encodes a map in which several keys have the same text: each
// entry still has its member.
func equalTexts(c *caseCtx, isSync bool) {
	texts := []string{"", "0", "1", "2", "k", c.str(), c.word(), c.str()}
	n := c.intn(30)
	if c.chance(6) {
		n = c.sizeHint(600)
	}
	var want []string // text, zero byte, value
	var iv interface{}
	i := 0
	add := func(text string) int {
		i++
		v := i % 3
		if c.bool() {
			v = i
		}
		want = append(want, text+"\x00"+fmt.Sprint(v))
		return v
	}
	text := func() string { return texts[c.intn(len(texts))] }
	if isSync {
		sm := &sync.Map{}
		keys := map[interface{}]bool{}
		for ; n > 0; n-- {
			t := text()
			var k interface{}
			switch c.intn(8) {
			case 0:
				k = lossyKey{n, t}
			case 1:
				k = &lossyKey{n, t}
			case 2:
				k = MyString(t)
			case 3:
				k = lossyInt(n)
				t = fmt.Sprint(n % 10)
			case 4:
				k = int8(n)
				t = fmt.Sprint(int8(n))
			case 5:
				k = uint64(n)
				t = fmt.Sprint(n)
			case 6:
				k = (*lossyKey)(nil)
				t = ""
			default:
				k = t
			}
			if !keys[k] {
				keys[k] = true
				sm.Store(k, add(t))
			}
		}
		iv = sm
	} else {
		switch c.intn(4) {
		case 0:
			m := map[lossyKey]int{}
			for ; n > 0; n-- {
				k := lossyKey{n, text()}
				m[k] = add(k.Text)
			}
			iv = m
		case 1:
			m := map[*lossyKey]int{}
			for ; n > 0; n-- {
				k := &lossyKey{n, text()}
				m[k] = add(k.Text)
			}
			if c.bool() {
				m[nil] = add("")
			}
			iv = m
		case 2:
			m := map[lossyInt]int{}
			for ; n > 0; n-- {
				m[lossyInt(n)] = add(fmt.Sprint(n % 10))
			}
			iv = m
		default:
			m := map[encoding.TextMarshaler]int{}
			for ; n > 0; n-- {
				switch c.intn(3) {
				case 0:
					k := lossyKey{n, text()}
					m[k] = add(k.Text)
				case 1:
					k := &lossyKey{n, text()}
					m[k] = add(k.Text)
				default:
					m[lossyInt(n)] = add(fmt.Sprint(n % 10))
				}
			}
			if c.bool() {
				m[nil] = add("")
			}
			iv = m
		}
	}
	unsorted := c.chance(4)
	opts := []jettison.Option{jettison.NoUTF8Coercion()}
	if unsorted {
		opts = append(opts, jettison.UnsortedMap())
	}
	crumb("equal texts %T", iv)
	got := tryLib(iv, opts)
	c.evals++
	c.desc = fmt.Sprintf("%T whose keys have equal texts, unsorted %t, entries %s", iv, unsorted, clip(fmt.Sprintf("%q", want), 1500))
	if !got.ok() {
		c.fail("equal-texts-failed", "%v", got)
		return
	}
	ks, vs, ok := members(got.out)
	if !ok {
		c.fail("equal-texts-malformed", "%v", got)
		return
	}
	o := defaultOpts()
	o.noUTF8 = true
	sort.SliceStable(want, func(i, j int) bool {
		return want[i][:strings.LastIndexByte(want[i], 0)] < want[j][:strings.LastIndexByte(want[j], 0)]
	})
	var wantSet, gotSet []string
	for i, w := range want {
		at := strings.LastIndexByte(w, 0)
		q := `"` + refEscape(w[:at], o) + `"`
		wantSet = append(wantSet, q+":"+w[at+1:])
		if !unsorted && i < len(ks) && ks[i] != q {
			c.fail("equal-texts-order", "member %d is %s, expected %s: %v", i, ks[i], q, got)
			return
		}
	}
	for i := range ks {
		gotSet = append(gotSet, ks[i]+":"+vs[i])
	}
	sort.Strings(wantSet)
	sort.Strings(gotSet)
	if strings.Join(wantSet, ",") != strings.Join(gotSet, ",") {
		c.fail("equal-texts-entries", "the members are %s, expected %s", clip(fmt.Sprint(gotSet), 1500), clip(fmt.Sprint(wantSet), 1500))
		return
	}
	count("equal_text_maps", 1)
	if len(ks) > 1 {
		seen(got.out)
	}
}

func runC09(c *caseCtx) {
	g := newVgen(c.rng)
	if c.chance(12) {
		equalTexts(c, false)
		return
	}
	if c.chance(3) {
		// Maps of strings to their own index: every entry once, right value,
		// ordered by the unescaped key.
		n := c.intn(40)
		if c.chance(3) {
			n = c.sizeHint(5000)
		}
		m := map[string]int{}
		mk := c.intn(5)
		prefix := c.str()
		for i := 0; len(m) < n && i < 3*n+10; i++ {
			var k string
			switch mk {
			case 0:
				k = c.str()
			case 1:
				k = fmt.Sprint(i)
			case 2:
				k = prefix + nastyPieces[c.intn(len(nastyPieces))] + c.word()
			case 3:
				k = strings.Repeat("a", i%97) + nastyPieces[c.intn(len(nastyPieces))]
			default:
				k = c.word()
			}
			m[k] = len(m)
		}
		unsorted := c.chance(4)
		opts := []jettison.Option{jettison.NoUTF8Coercion()}
		if unsorted {
			opts = append(opts, jettison.UnsortedMap())
		}
		var iv interface{} = m
		if c.chance(3) {
			iv = &m
		}
		crumb("map of %d", len(m))
		dst, old, _ := c.randDst()
		got := try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, opts...) })
		c.evals++
		c.desc = fmt.Sprintf("map[string]int of %d entries, kind %d, unsorted %t: %s", len(m), mk, unsorted, clip(fmt.Sprintf("%q", m), 1500))
		if !got.ok() {
			c.fail("map-failed", "%v", got)
			return
		}
		got.out = got.out[len(old):]
		ks, vs, ok := members(got.out)
		if !ok {
			c.fail("map-malformed", "%v", got)
			return
		}
		want := make([]string, 0, len(m))
		for k := range m {
			want = append(want, k)
		}
		sort.Strings(want)
		o := defaultOpts()
		o.noUTF8 = true
		byText := map[string]string{}
		for i, k := range ks {
			if _, dup := byText[k]; dup {
				c.fail("map-duplicate", "member %s occurs twice: %v", k, got)
				return
			}
			byText[k] = vs[i]
		}
		if len(ks) != len(m) {
			c.fail("map-count", "%d members for %d entries: %v", len(ks), len(m), got)
			return
		}
		for i, k := range want {
			q := `"` + refEscape(k, o) + `"`
			if byText[q] != fmt.Sprint(m[k]) {
				c.fail("map-entry", "entry %q should be %d, the output has %q: %v", k, m[k], byText[q], got)
				return
			}
			if !unsorted && ks[i] != q {
				c.fail("map-order", "member %d is %s, expected %s: %v", i, ks[i], q, got)
				return
			}
		}
		count("entries", len(m))
		maxCount("max_entries", len(m))
		if len(m) > 1 {
			seen(got.out)
		}
		return
	}
	// Maps with every kind of key and element.
	g.allowErr = c.chance(10)
	if c.chance(5) {
		g.budget = 3000
	}
	kt := keyTypes[c.intn(len(keyTypes))]
	if c.chance(12) {
		kt = []reflect.Type{tof((*MyBool)(nil)), reflect.TypeOf(1.5), reflect.TypeOf([1]string{}), tof((*PtrStruct)(nil)), tof((*JSONByte)(nil)), tEface, tof((*json.Marshaler)(nil)), tof((*TextPtr)(nil)), reflect.TypeOf(struct{ A int }{})}[c.intn(9)]
	}
	et := g.genType(c.intn(3))
	t := reflect.MapOf(kt, et)
	for i := c.intn(3); i > 0; i-- {
		// Nested maps.
		if c.bool() {
			t = reflect.MapOf(keyTypes[c.intn(len(keyTypes))], t)
		} else {
			t = reflect.MapOf(reflect.TypeOf(""), reflect.SliceOf(t))
		}
	}
	v := reflect.New(t).Elem()
	o := c.randOpts(optMode{density: 5, unsorted: true, escapeHatches: true})
	o.noStrEsc = false
	if o.unsorted {
		o.noCompact, o.noNumValid = false, false
		g.maxMap = 5
	}
	g.fill(v, 0)
	if v.IsNil() && refKeyTypeOK(t.Key()) {
		g.fillMap(v, c.intn(6), 0)
	}
	w := wrap(c.intn(nPositions), v)
	iv := w.Interface()
	crumb("%T %v", iv, o)
	got := tryLib(iv, append([]jettison.Option{nil}, o.options()...))
	c.evals = 1
	want, ok := eqRef(got, iv, o)
	if !ok {
		c.desc = describe(iv) + " options " + o.String()
		c.fail("map-differs", "%s", diff(got, want))
		return
	}
	count("outcome_"+got.class(), 1)
	if got.ok() && !o.unsorted && v.Len() > 1 && v.Len() < 200 {
		// Same content, inserted in another order.
		m2 := reflect.MakeMapWithSize(t, c.intn(64))
		ks := v.MapKeys()
		for i := len(ks) - 1; i >= 0; i-- {
			m2.SetMapIndex(ks[i], v.MapIndex(ks[i]))
		}
		a, b := tryLib(v.Interface(), append([]jettison.Option{nil}, o.options()...)), tryLib(m2.Interface(), append([]jettison.Option{nil}, o.options()...))
		c.evals += 2
		if !sameOutcome(a, b) {
			c.desc = describe(iv) + " options " + o.String()
			c.fail("map-insertion-order", "%s", diff(a, b))
			return
		}
	}
	maxCount("max_entries", v.Len())
	if got.ok() && v.Len() > 1 {
		seen(t.String(), got.out)
		sample(func() string { return t.String() + " -> " + string(got.out) })
	}
}

// ---- C10 ----

func runC10(c *caseCtx) {
	if c.index%4 == 3 {
		runSyncHistory(c)
		return
	}
	g := newVgen(c.rng)
	if c.chance(12) {
		equalTexts(c, true)
		return
	}
	o := c.randOpts(optMode{density: 5, unsorted: true, escapeHatches: true})
	o.noStrEsc = false
	if o.unsorted {
		o.noCompact, o.noNumValid = false, false
		g.maxMap = 6
	}
	g.allowErr = c.chance(10)
	sm := &sync.Map{}
	g.fillSyncMap(sm, 0)
	if c.chance(3) {
		// Deletions, overwrites and promotions of the internal maps.
		sm.Range(func(k, v interface{}) bool {
			switch c.intn(4) {
			case 0:
				sm.Delete(k)
			case 1:
				sm.Store(k, c.str())
			case 2:
				sm.Load(k)
			}
			return true
		})
	}
	for i := c.intn(4); i > 0; i-- {
		sm.Store(c.word(), []interface{}{nil, (*int)(nil), (*sync.Map)(nil), json.Number("1"), &TextPtr{3}, (*JSONPtr)(nil), (*time.Time)(nil)}[c.intn(7)])
	}
	bad := false
	var badKey interface{}
	if c.chance(6) {
		bad = true
		var k interface{} = []interface{}{1.5, true, [1]int{2}, struct{ A int }{1}, JSONByte(3), nil, PtrStruct{}, complex(1, 2), JSONPtr{}, TextPtr{4}, float32(2), (*int)(nil), new(string)}[c.intn(13)]
		if b, ok := k.(JSONByte); ok {
			k = float64(b)
		}
		sm.Store(k, 1)
		badKey = k
	}
	dedupe(sm, o)
	var iv interface{}
	switch c.intn(6) {
	case 0, 1:
		iv = sm
	case 2:
		iv = []interface{}{sm, 1}
	case 3:
		iv = map[string]*sync.Map{"a": sm, "b": nil}
	case 4:
		iv = &SyncAll{B: sm, C: []*sync.Map{sm, nil}, E: sm}
	default:
		iv = struct {
			A *sync.Map `json:",omitnil"`
			B *sync.Map `json:",omitempty"`
			C *sync.Map `json:",omitempty"`
		}{sm, nil, sm}
	}
	crumb("%T %v", iv, o)
	dst, old, _ := c.randDst()
	got := try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, o.options()...) })
	c.evals = 1
	if got.ok() {
		got.out = got.out[len(old):]
	}
	want, ok := eqRef(got, iv, o)
	if !ok {
		c.desc = describe(iv) + " options " + o.String()
		c.fail("syncmap-differs", "%s", diff(got, want))
		return
	}
	if bad && got.err == nil && got.pan == nil {
		c.desc = describe(iv)
		c.fail("syncmap-bad-key", "a key that is neither string, integer nor text marshaler was accepted: %T %v", badKey, got)
		return
	}
	count("outcome_"+got.class(), 1)
	if got.ok() && !short(got.out) {
		seen(o.String(), got.out)
		sample(func() string { return string(got.out) })
		// The equivalent Go map.
		m := map[string]interface{}{}
		plain := true
		sm.Range(func(k, v interface{}) bool {
			if s, isStr := k.(string); isStr {
				m[s] = v
			} else {
				plain = false
			}
			return true
		})
		if plain && !o.unsorted {
			a, b := tryLib(sm, append([]jettison.Option{nil}, o.options()...)), tryLib(m, append([]jettison.Option{nil}, o.options()...))
			if !sameOutcome(a, b) && len(m) != 0 && (a.ok() || b.ok()) {
				c.fail("syncmap-not-like-map", "sync.Map: %v\nmap: %v", a, b)
			}
			count("compared_with_map", 1)
		}
	}
}

// ---- C11 ----

func runC11(c *caseCtx) {
	g := newVgen(c.rng)
	g.small = true
	g.budget = 40
	one := c.chance(5) // maps of one entry only
	if one {
		g.maxMap = 1
	}
	marshErrMod = 0
	if c.chance(8) {
		marshErrMod = 3 + uint64(c.intn(6))
	}
	defer func() { marshErrMod = 0; logOn = false; callLog = nil }()
	var t reflect.Type
	switch c.intn(8) {
	case 0, 1, 2, 3, 4:
		t = marshTypes[c.intn(len(marshTypes))]
	case 5:
		t = []reflect.Type{tof((*IfaceFields)(nil)), tof((*EmbJSON)(nil)), tof((*EmbJSONPtr)(nil)), tof((*EmbJSONPtrV)(nil)), tof((*EmbText)(nil)), tof((*EmbTextPtr)(nil)), tof((*EmbIface)(nil)),
			tof((*EmbBoth)(nil)), tof((*EmbTwo)(nil)), tof((*RecMarsh)(nil)), tof((*JSONPtr)(nil)), tof((*PtrSlice)(nil)), tof((*PtrMapM)(nil)), tof((*Quoted)(nil)), tof((*ByteAll)(nil))}[c.intn(15)]
	case 6:
		t = structTypes[c.intn(len(structTypes))]
	default:
		t = g.genType(2)
	}
	if c.chance(3) && t.Size() < 2000 {
		// Next to values of the same type in other positions.
		t = reflect.StructOf([]reflect.StructField{
			{Name: "V", Type: t, Tag: []reflect.StructTag{``, `json:",omitempty"`, `json:",omitnil"`, `json:",string"`}[c.intn(4)]},
			{Name: "P", Type: reflect.PtrTo(t), Tag: []reflect.StructTag{``, `json:",omitempty"`, `json:",omitnil"`}[c.intn(3)]},
			{Name: "S", Type: reflect.SliceOf(t)},
			{Name: "A", Type: reflect.ArrayOf(2, t)},
			{Name: "M", Type: reflect.MapOf(reflect.TypeOf(""), t)},
			{Name: "I", Type: tEface},
		})
	}
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	pos := c.intn(nPositions)
	w := wrap(pos, v)
	if w.Kind() == reflect.Interface {
		if w.IsNil() {
			return
		}
		w = w.Elem()
	}
	iv := w.Interface()
	if c.chance(4) {
		iv = c.bury(iv)
	}
	o := c.randOpts(optMode{density: 6, lists: true, unsorted: one})
	if c.bool() {
		o = defaultOpts()
	}
	if c.bool() {
		o.ctx = c.context()
	}
	if c.chance(50) {
		fresh()
	}
	opts := append([]jettison.Option{nil}, o.options()...)
	crumb("%T %v", iv, o)
	run := func(f func() outcome) (outcome, []callRec) {
		callLog = callLog[:0]
		logOn = true
		out := f()
		logOn = false
		return out, append([]callRec(nil), callLog...)
	}
	got, gl := run(func() outcome { return tryLib(iv, opts) })
	want, wl := run(func() outcome { return tryRef(iv, o) })
	c.evals = 1
	bad := func(key, f string, a ...interface{}) {
		c.desc = describe(iv) + " options " + o.String() + fmt.Sprintf(" position %d\ncalls of the library: %s\nexpected calls: %s", pos, logText(gl), logText(wl))
		c.fail(key, f, a...)
	}
	if got.class() != want.class() {
		if !anyOrder(got, want, func() outcome { return tryRef(iv, o) }, iv) {
			bad("outcome-differs", "%s", diff(got, want))
		}
		return
	}
	if !got.ok() {
		count("outcome_"+got.class(), 1)
		if got.err != nil && marshErrMod != 0 && libErrKind(got.err) == ekMarshaler {
			var me *jettison.MarshalerError
			if errors.As(got.err, &me) && !errors.Is(got.err, errMarsh) && me.Err == nil {
				bad("marshaler-error-lost", "%v", got.err)
			}
		}
		return
	}
	if !sameOutcome(got, want) {
		logOff++
		o2 := *o
		o2.rawLineSep = true
		alt := tryRef(iv, &o2)
		logOff--
		if !sameOutcome(got, alt) {
			bad("output-differs", "%s", diff(got, want))
			return
		}
	}
	key := func(r callRec) string { return r.Method + "|" + r.Type + "|" + r.Recv }
	pkey := func(r callRec) string { return fmt.Sprintf("%s|%x", key(r), r.Ptr) }
	for _, k := range []func(callRec) string{key, pkey} {
		a, b := map[string]int{}, map[string]int{}
		for _, r := range gl {
			a[k(r)]++
		}
		for _, r := range wl {
			b[k(r)]++
		}
		for x, n := range a {
			if b[x] != n {
				bad("calls-differ", "%s was called %d times, expected %d", clip(x, 300), n, b[x])
				return
			}
		}
		for x, n := range b {
			if a[x] != n {
				bad("calls-differ", "%s was called %d times, expected %d", clip(x, 300), a[x], n)
				return
			}
		}
	}
	for _, r := range gl {
		if r.Method == "AppendJSONContext" && r.Ctx != o.ctx && (o.ctx != context.TODO() || r.Ctx != context.Background()) {
			bad("wrong-context", "AppendJSONContext of %s received the context %v, expected %v", r.Type, r.Ctx, o.ctx)
			return
		}
		count("calls_"+r.Method, 1)
	}
	count("outcome_ok", 1)
	if len(gl) > 0 {
		seen(t.String(), pos, logText(gl), got.out)
		sample(func() string { return logText(gl) + " -> " + string(got.out) })
	}
}

func logText(l []callRec) string {
	var sb strings.Builder
	for i, r := range l {
		if i > 30 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s.%s(%s) ", r.Type, r.Method, clip(r.Recv, 120))
	}
	return sb.String()
}

// ---- C12 ----

type fragHolder struct {
	A json.RawMessage
	B *json.RawMessage
	C RawFrag `json:",omitnil"`
	D *RawFragPtr
	E json.Marshaler
	F json.RawMessage `json:",omitempty"`
}

func (c *caseCtx) checkFragment(f string, o *optSet, how int) bool {
	raw := json.RawMessage(f)
	var iv interface{}
	pre, suf := "", ""
	switch how {
	case 0:
		iv = raw
	case 1:
		iv = &raw
	case 2:
		iv = RawFrag(f)
	case 3:
		iv = &RawFragPtr{f}
	case 4:
		iv, pre, suf = []json.RawMessage{raw}, "[", "]"
	case 5:
		iv, pre, suf = []interface{}{RawFrag(f)}, "[", "]"
	case 6:
		iv, pre, suf = map[string]RawFrag{"k": RawFrag(f)}, `{"k":`, "}"
	case 7:
		iv, pre, suf = struct{ F json.RawMessage }{raw}, `{"F":`, "}"
	case 8:
		iv, pre, suf = [1]RawFragPtr{{f}}, "", ""
		iv, pre, suf = &[1]RawFragPtr{{f}}, "[", "]"
	case 9:
		iv, pre, suf = struct{ M json.Marshaler }{RawFrag(f)}, `{"M":`, "}"
	default:
		iv, pre, suf = []RawFragPtr{{f}}, "[", "]"
	}
	keep := f + ""
	dst, old, _ := c.randDst()
	got := try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, o.options()...) })
	c.evals++
	desc := func() {
		c.desc = fmt.Sprintf("fragment %s embedded as %d options %v", clip(fmt.Sprintf("%q", f), 3000), how, o)
	}
	if string(raw) != keep {
		desc()
		c.fail("fragment-modified", "the raw message was modified to %q", raw)
		return false
	}
	if got.ok() {
		got.out = got.out[len(old):]
	}
	if f == "" && how != 0 && how != 1 && how != 4 && how != 7 || f == "" && raw != nil {
		// An empty, non-nil fragment is not valid JSON.
	}
	if o.noCompact {
		if !got.ok() || string(got.out) != pre+f+suf {
			desc()
			c.fail("no-compact-not-verbatim", "%v", got)
			return false
		}
		return true
	}
	if !json.Valid([]byte(f)) {
		if got.err == nil {
			desc()
			c.fail("invalid-fragment-accepted", "%v", got)
			return false
		}
		count("invalid_fragments", 1)
		seen(f, how)
		return true
	}
	var buf bytes.Buffer
	json.Compact(&buf, []byte(f))
	w := buf.Bytes()
	if !o.noHTML {
		for _, x := range "<>&" {
			w = bytes.ReplaceAll(w, []byte(string(x)), []byte(fmt.Sprintf(`\u%04x`, x)))
		}
	}
	esc := bytes.ReplaceAll(w, []byte("\u2028"), []byte(`\u2028`))
	esc = bytes.ReplaceAll(esc, []byte("\u2029"), []byte(`\u2029`))
	if !got.ok() || string(got.out) != pre+string(w)+suf && string(got.out) != pre+string(esc)+suf {
		desc()
		c.fail("fragment-differs", "%s", diff(got, outcome{out: []byte(pre + string(w) + suf)}))
		return false
	}
	count("valid_fragments", 1)
	if len(w) != len(f) {
		count("compacted_fragments", 1)
	}
	seen(f, how)
	return true
}

const fragAlpha = "{}[]\",:1 0-\\nu"

var fragPieces = []string{"{", "}", "[", "]", `"`, ",", ":", "1", "0", "-", " ", "\n", "\t", "\r", `\`, "null", "true", "false", `"a"`, `"a b"`, `\u00`, "e", ".", "<", "\u2028", "\xff", "\v", "\u00a0", "\ufeff", `"\"`, `"\\"`, "nul", "tru", "1.5e3", "\x00"}

func runC12(c *caseCtx) {
	o := defaultOpts()
	o.noHTML = c.chance(3)
	o.noCompact = c.chance(12)
	if c.chance(8) {
		o = c.randOpts(optMode{density: 3})
	}
	switch c.intn(7) {
	case 0:
		// All texts of four pieces with given first two.
		a, b := fragPieces[c.intn(len(fragPieces))], fragPieces[c.intn(len(fragPieces))]
		for _, x := range fragPieces {
			if !c.checkFragment(a+b+x, o, c.intn(11)) || !c.checkFragment(a+x+b, o, c.intn(11)) || !c.checkFragment(x+a+b+a, o, c.intn(11)) {
				return
			}
		}
		count("piece_sweeps", 1)
	case 1:
		for i := 0; i < 10; i++ {
			if !c.checkFragment(c.brokenJSON(), o, c.intn(11)) {
				return
			}
		}
	case 2:
		// White space around every token.
		s := c.jsonText(3)
		for i := 0; i <= len(s) && i < 60; i++ {
			t := s[:i] + string(" \t\n\r\v\f\x00"[c.intn(7)]) + s[i:]
			if !c.checkFragment(t, o, c.intn(11)) {
				return
			}
		}
		count("whitespace_sweeps", 1)
	case 3:
		// Long fragments.
		n := c.sizeHint(20000)
		s := `{"k" : "` + strings.Repeat("a ", n/2) + nastyJSON(c) + strings.Repeat("b", n%7) + `" , "l":[ ` + strings.Repeat("1, ", n/8) + "2 ] }"
		if !c.checkFragment(s, o, c.intn(11)) {
			return
		}
		if c.chance(10) {
			d := c.intn(9000)
			if !c.checkFragment(strings.Repeat("[ ", d)+strings.Repeat("] ", d), o, c.intn(11)) {
				return
			}
			count("deep_fragments", 1)
		}
		count("long_fragments", 1)
	case 4:
		// Something at each offset around a position where a block may end.
		at := 1 << (4 + c.intn(12))
		if c.chance(3) {
			at = c.sizeHint(20000)
		}
		var sb strings.Builder
		inside := c.bool()
		if inside {
			// A string of pieces of all kinds.
			one := c.bool()
			p := longPieces[c.intn(len(longPieces))]
			sb.WriteString(`["`)
			sb.WriteString(strings.Repeat("x", c.intn(4)))
			for sb.Len() < at+20 {
				if c.chance(8) && sb.Len() < at-30 {
					sb.WriteString(strings.Repeat("a", c.intn(at-20-sb.Len())))
				}
				if !one || c.chance(4) {
					p = longPieces[c.intn(len(longPieces))]
				}
				sb.WriteString(p)
			}
			sb.WriteString(`"]`)
		} else {
			toks := []string{" ", "  ", "\n", "\t", "1", "-2.5e3", "null", "true", `""`, `"\\"`, `" "`, `"\""`, "[]", "[ ]", "{ }", `{"a" :1}`}
			sb.WriteString("[0")
			for sb.Len() < at+20 {
				sb.WriteByte(',')
				for c.chance(3) {
					sb.WriteString(toks[c.intn(4)])
				}
				sb.WriteString(toks[4+c.intn(12)])
				for c.chance(3) {
					sb.WriteString(toks[c.intn(4)])
				}
			}
			sb.WriteString("]")
		}
		s := sb.String()
		if c.chance(10) {
			i := c.intn(len(s))
			s = s[:i] + string("\\\"x ]"[c.intn(5)]) + s[i+1:]
		}
		if !c.checkFragment(s, o, c.intn(11)) {
			return
		}
		count("block_fragments", 1)
	default:
		for i := 0; i < 10; i++ {
			f := c.jsonText(3)
			if !c.checkFragment(f, o, c.intn(11)) {
				return
			}
			if i == 0 {
				sample(func() string { return fmt.Sprintf("%q", f) })
			}
		}
	}
	// Several in one value.
	raw := json.RawMessage(c.jsonText(2))
	h := fragHolder{A: raw, C: RawFrag(c.jsonText(1)), F: json.RawMessage(c.jsonText(1))}
	if c.bool() {
		h.B = &raw
	}
	if c.bool() {
		h.D = &RawFragPtr{c.jsonText(2)}
	}
	if c.bool() {
		h.E = RawFrag(c.jsonText(2))
	}
	if c.chance(4) {
		h.A = nil
	}
	if c.chance(4) {
		h.F = json.RawMessage{}
	}
	if c.chance(6) {
		h.A = json.RawMessage(c.brokenJSON())
	}
	c.positions("fragments", reflect.ValueOf(h), o, 1)
}

// longPieces are parts of JSON strings.
var longPieces = []string{`\\`, `\"`, `\n`, `\/`, `\u0022`, `\u005c`, `\ud800`, " ", "  ", "a", "ab", "<", ">", "&", "\u2028", "\u2029", "é", "世", "𝄞", "\x7f", "[", "]", "{", ",", ":", "//"}

func nastyJSON(c *caseCtx) string {
	b, _ := json.Marshal(c.str())
	return string(b[1 : len(b)-1])
}

// ---- C13 ----

type faultDef struct {
	name string
	make func(c *caseCtx) reflect.Value
	kind errKind
	typ  reflect.Type
	deep bool // needs a pointer to reach its method
}

// libErrors are errors of the library and others that a method may return,
// as it got them from a call of its own. The chain of none has another.
var (
	libErrors     []error
	libErrorsOnce sync.Once
)

func makeLibErrors() {
	var l []error
	for _, v := range []interface{}{Failing{1}, FailText{1}, &FailAppend{2}, &FailCtx{2}, make(chan int), math.NaN(), json.Number("x"), json.RawMessage("{"), []interface{}{map[string]interface{}{"a": Failing{3}}}} {
		_, err := jettison.Marshal(v)
		l = append(l, err)
		_, err = json.Marshal(v)
		l = append(l, err)
	}
	_, err := jettison.MarshalOpts(1, jettison.TimeLayout(""))
	l = append(l, err, fmt.Errorf("outer: %w", l[0]), io.EOF, context.Canceled, &json.SyntaxError{}, (*nilErr)(nil), sliceErr{"a"}, emptyErr{}, errors.Join(io.EOF, emptyErr{}), &jettison.MarshalerError{Err: io.EOF}, &jettison.UnsupportedTypeError{Type: reflect.TypeOf(1)})
	for _, err := range l {
		if err != nil {
			libErrors = append(libErrors, err)
		}
	}
}

// Unusual errors: a nil pointer, one that cannot be compared, one without text.
type nilErr struct{ s string }

func (*nilErr) Error() string { return "nil pointer error" }

type sliceErr []string

func (e sliceErr) Error() string { return "slice error" }

func (e sliceErr) Is(t error) bool { _, ok := t.(sliceErr); return ok }

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

type libFail int

func (l libFail) MarshalJSON() ([]byte, error) { return []byte("1"), libErrors[l] }

type libFailText struct{ L libFail }

func (l libFailText) MarshalText() ([]byte, error) { return nil, libErrors[l.L] }

type libFailAppend struct{ L libFail }

func (l libFailAppend) AppendJSON(b []byte) ([]byte, error) {
	return append(b, "[1"...), libErrors[l.L]
}

type libFailCtx struct{ L libFail }

func (l libFailCtx) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return b, libErrors[l.L]
}

type badKeyText struct{ A int }

func (badKeyText) MarshalText() ([]byte, error) { return nil, fmt.Errorf("wrapped: %w", errFail) }

type errStruct struct{ X int }

// goodEntries returns a sync.Map with entries that can be encoded.
func goodEntries(c *caseCtx) *sync.Map {
	sm := &sync.Map{}
	for i := c.intn(7); i > 0; i-- {
		if c.bool() {
			sm.Store(i, c.word())
		} else {
			sm.Store(c.word(), i)
		}
	}
	return sm
}

var faults = []faultDef{
	{"chan", func(*caseCtx) reflect.Value { return reflect.ValueOf(make(chan int)) }, ekUnsupType, reflect.TypeOf(make(chan int)), false},
	{"nil-chan", func(*caseCtx) reflect.Value { return reflect.ValueOf((chan<- string)(nil)) }, ekUnsupType, reflect.TypeOf((chan<- string)(nil)), false},
	{"func", func(*caseCtx) reflect.Value { return reflect.ValueOf(func(int) {}) }, ekUnsupType, reflect.TypeOf(func(int) {}), false},
	{"nil-func", func(*caseCtx) reflect.Value { return reflect.ValueOf((func())(nil)) }, ekUnsupType, reflect.TypeOf(func() {}), false},
	{"complex64", func(*caseCtx) reflect.Value { return reflect.ValueOf(complex64(1)) }, ekUnsupType, reflect.TypeOf(complex64(1)), false},
	{"complex128", func(*caseCtx) reflect.Value { return reflect.ValueOf(complex(1, 0)) }, ekUnsupType, reflect.TypeOf(complex(1, 0)), false},
	{"map-float-key", func(*caseCtx) reflect.Value { return reflect.ValueOf(map[float64]int{1: 1}) }, ekUnsupType, reflect.TypeOf(map[float64]int{}), false},
	{"map-bool-key", func(*caseCtx) reflect.Value { return reflect.ValueOf(map[bool]string(nil)) }, ekUnsupType, reflect.TypeOf(map[bool]string{}), false},
	{"map-iface-key", func(*caseCtx) reflect.Value { return reflect.ValueOf(map[interface{}]int{"a": 1}) }, ekUnsupType, reflect.TypeOf(map[interface{}]int{}), false},
	{"map-struct-key", func(*caseCtx) reflect.Value { return reflect.ValueOf(map[errStruct]int{}) }, ekUnsupType, reflect.TypeOf(map[errStruct]int{}), false},
	{"nan", func(*caseCtx) reflect.Value { return reflect.ValueOf(math.NaN()) }, ekUnsupValue, nil, false},
	{"+inf", func(*caseCtx) reflect.Value { return reflect.ValueOf(math.Inf(1)) }, ekUnsupValue, nil, false},
	{"-inf", func(*caseCtx) reflect.Value { return reflect.ValueOf(math.Inf(-1)) }, ekUnsupValue, nil, false},
	{"nan32", func(*caseCtx) reflect.Value { return reflect.ValueOf(float32(math.NaN())) }, ekUnsupValue, nil, false},
	{"inf32", func(*caseCtx) reflect.Value { return reflect.ValueOf(MyF32(math.Inf(-1))) }, ekUnsupValue, nil, false},
	{"number", func(c *caseCtx) reflect.Value {
		return reflect.ValueOf(json.Number([]string{"x", "1.", "01", "-", "+1", "1e", "0x1", " 1", "1 ", ".5", "1.5.2", "NaN"}[c.intn(12)]))
	}, ekNumber, nil, false},
	{"year", func(c *caseCtx) reflect.Value {
		return reflect.ValueOf(time.Date([]int{-1, 10000, -500, 99999}[c.intn(4)], 3, 4, 5, 6, 7, 8, time.UTC))
	}, ekYear, nil, false},
	{"json", func(*caseCtx) reflect.Value { return reflect.ValueOf(Failing{3}) }, ekMarshaler, tof((*Failing)(nil)), false},
	{"json-ptr", func(*caseCtx) reflect.Value { return reflect.ValueOf(&Failing{3}) }, ekMarshaler, tof((*Failing)(nil)), false},
	{"text", func(*caseCtx) reflect.Value { return reflect.ValueOf(FailText{3}) }, ekMarshaler, tof((*FailText)(nil)), false},
	{"append", func(*caseCtx) reflect.Value { return reflect.ValueOf(&FailAppend{3}) }, ekMarshaler, tof((*FailAppend)(nil)), false},
	{"append-ctx", func(*caseCtx) reflect.Value { return reflect.ValueOf(&FailCtx{3}) }, ekMarshaler, tof((*FailCtx)(nil)), false},
	{"lib-error", func(c *caseCtx) reflect.Value {
		libErrorsOnce.Do(makeLibErrors)
		k := libFail(c.intn(len(libErrors)))
		switch c.intn(4) {
		case 0:
			return reflect.ValueOf(libFailText{k})
		case 1:
			return reflect.ValueOf(libFailAppend{k})
		case 2:
			return reflect.ValueOf(libFailCtx{k})
		}
		return reflect.ValueOf(k)
	}, ekMarshaler, nil, false},
	{"key", func(c *caseCtx) reflect.Value {
		m := map[encoding.TextMarshaler]int{badKeyText{1}: 2}
		for i := c.intn(5); i > 0; i-- {
			m[TextInt(i)] = i
		}
		return reflect.ValueOf(m)
	}, ekMarshaler, nil, false}, // the named type may be that of the keys or that of this key
	{"sync-key", func(c *caseCtx) reflect.Value {
		sm := goodEntries(c)
		sm.Store([]interface{}{1.5, true, errStruct{1}, [1]int{2}, 'x' + 0i}[c.intn(5)], 1)
		return reflect.ValueOf(sm)
	}, ekSyncKey, nil, false},
	{"sync-nil-key", func(c *caseCtx) reflect.Value {
		sm := goodEntries(c)
		sm.Store(nil, 1)
		return reflect.ValueOf(sm)
	}, ekSyncKey, nil, false},
	{"sync-value", func(c *caseCtx) reflect.Value {
		sm := goodEntries(c)
		sm.Store("b", Failing{1})
		return reflect.ValueOf(sm)
	}, ekMarshaler, tof((*Failing)(nil)), false},
	{"raw", func(c *caseCtx) reflect.Value {
		return reflect.ValueOf(json.RawMessage([]string{"{", "", "nul", "1 2", `"`, "[1,]"}[c.intn(6)]))
	}, ekMarshaler, nil, false},
	{"fragment", func(c *caseCtx) reflect.Value {
		return reflect.ValueOf(RawFrag([]string{"{", "", "nul", "1 2", `"`, "[1,]"}[c.intn(6)]))
	}, ekMarshaler, tof((*RawFrag)(nil)), false},
	{"cycle-ptr", func(*caseCtx) reflect.Value {
		l := &List{V: 1}
		l.Next = &List{V: 2, Next: l}
		return reflect.ValueOf(l)
	}, ekUnsupValue, nil, false},
	{"cycle-map", func(*caseCtx) reflect.Value {
		m := map[string]interface{}{}
		m["a"] = m
		return reflect.ValueOf(m)
	}, ekUnsupValue, nil, false},
	{"cycle-slice", func(*caseCtx) reflect.Value {
		s := make([]interface{}, 1)
		s[0] = s
		return reflect.ValueOf(s)
	}, ekUnsupValue, nil, false},
}

func init() {
	for _, x := range []interface{}{(chan MyInt)(nil), FuncHolder{}} {
		_ = x
	}
}

// around puts v between good neighbours in some container.
func (c *caseCtx) around(v reflect.Value, chain *[]string) reflect.Value {
	t := v.Type()
	good := func() interface{} {
		return []interface{}{1, "a", nil, []int{1}, map[string]int{"x": 1}, &List{V: 1}, time.Unix(0, 0), true, JSONInt(3)}[c.intn(9)]
	}
	addr := func() reflect.Value {
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	}
	k := c.intn(13)
	*chain = append(*chain, []string{"slice", "array", "iface-slice", "map", "struct", "struct-omit", "ptr", "map-ptr", "sync", "embed", "int-map", "ptrptr", "iface-field"}[k])
	switch k {
	case 0:
		n := 1 + c.intn(3)
		s := reflect.MakeSlice(reflect.SliceOf(t), 0, n)
		for i := 0; i < n; i++ {
			s = reflect.Append(s, v)
		}
		return s
	case 1:
		a := reflect.New(reflect.ArrayOf(1, t)).Elem()
		a.Index(0).Set(v)
		return a
	case 2:
		l := []interface{}{}
		at := c.intn(4)
		for i := 0; i < 4; i++ {
			if i == at {
				l = append(l, v.Interface())
			} else {
				l = append(l, good())
			}
		}
		return reflect.ValueOf(l)
	case 3:
		m := map[string]interface{}{}
		for i := c.intn(5); i > 0; i-- {
			m[c.word()] = good()
		}
		m["<"+c.word()] = v.Interface()
		return reflect.ValueOf(m)
	case 4, 5:
		tag := reflect.StructTag("")
		if k == 5 {
			tag = []reflect.StructTag{`json:"x,omitempty"`, `json:"x,omitnil"`, `json:",omitempty"`}[c.intn(3)]
		}
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: tEface}, {Name: "B", Type: t, Tag: tag}, {Name: "C", Type: reflect.TypeOf("")}})
		s := reflect.New(st).Elem()
		if x := good(); x != nil {
			s.Field(0).Set(reflect.ValueOf(x))
		}
		s.Field(1).Set(v)
		s.Field(2).SetString("c")
		return s
	case 6:
		return addr()
	case 7:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(t)))
		m.SetMapIndex(reflect.ValueOf("k"), addr())
		return m
	case 8:
		sm := goodEntries(c)
		sm.Store(c.word(), good())
		sm.Store("k", v.Interface())
		return reflect.ValueOf(sm)
	case 9:
		st := reflect.StructOf([]reflect.StructField{{Name: "V", Type: t}})
		s := reflect.New(st).Elem()
		s.Field(0).Set(v)
		o := reflect.StructOf([]reflect.StructField{{Name: "In", Type: st}, {Name: "P", Type: reflect.PtrTo(st)}})
		x := reflect.New(o).Elem()
		x.Field(0).Set(s)
		return x
	case 10:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), t))
		m.SetMapIndex(reflect.ValueOf(c.intn(100)), v)
		return m
	case 11:
		p := reflect.New(reflect.PtrTo(t))
		p.Elem().Set(addr())
		return p
	default:
		return reflect.ValueOf(struct {
			A int
			I interface{}
			Z []string
		}{1, v.Interface(), []string{"z"}})
	}
}

func runC13(c *caseCtx) {
	if c.chance(12) {
		invalidOptions(c)
		return
	}
	f := &faults[c.intn(len(faults))]
	v := f.make(c)
	var chain []string
	for i := c.intn(6); i > 0; i-- {
		v = c.around(v, &chain)
	}
	if c.chance(60) {
		// Deep down.
		for i := c.intn(900); i > 0; i-- {
			v = reflect.ValueOf([]interface{}{v.Interface()})
		}
		chain = append(chain, "deep")
	}
	if c.chance(80) {
		// After a lot of output.
		v = reflect.ValueOf([]interface{}{strings.Repeat("x", c.sizeHint(100000)), v.Interface()})
		chain = append(chain, "after-much")
	}
	iv := v.Interface()
	o := c.randOpts(optMode{density: 6, unsorted: true})
	if c.bool() {
		o = defaultOpts()
	}
	crumb("%s in %v", f.name, chain)
	opts := append([]jettison.Option{nil}, o.options()...)
	dst, old, shape := c.randDst()
	isAppend := c.bool()
	var got outcome
	if isAppend {
		got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, opts...) })
	} else {
		got = tryLib(iv, opts)
	}
	c.evals = 1
	bad := func(key, format string, a ...interface{}) {
		c.desc = fmt.Sprintf("fault %s inside %v, append %t, destination %s, options %v, %s", f.name, chain, isAppend, shape, o, describe(iv))
		c.fail(key+"-"+f.name, format, a...)
	}
	if !bytes.Equal(dst, old) {
		bad("destination-changed", "the destination's bytes changed")
		return
	}
	if got.pan != nil {
		bad("panic", "%v", got)
		return
	}
	if got.err == nil {
		// Empty things may hide the fault: the model decides.
		if want := tryRef(iv, o); want.ok() {
			count("hidden", 1)
			return
		}
		bad("no-error", "%v", got)
		return
	}
	if !isAppend && got.out != nil {
		bad("bytes-with-error", "%d bytes returned together with error %v", len(got.out), got.err)
		return
	}
	if isAppend && len(got.out) >= len(old) && !bytes.HasPrefix(got.out, old) {
		bad("prefix-lost", "the slice returned with the error does not start with the destination's bytes")
		return
	}
	if !strings.HasPrefix(f.name, "cycle") {
		if want := tryRef(iv, o); want.ok() {
			bad("spurious-error", "error %v, the model encodes %v", got.err, want)
			return
		}
	}
	var (
		ut *jettison.UnsupportedTypeError
		uv *jettison.UnsupportedValueError
		me *jettison.MarshalerError
	)
	switch f.kind {
	case ekUnsupType:
		if !errors.As(got.err, &ut) || ut == nil {
			bad("wrong-error", "expected an UnsupportedTypeError, got %T %v", got.err, got.err)
			return
		}
		if ut.Type != f.typ {
			bad("wrong-type", "UnsupportedTypeError names %v, expected %v", ut.Type, f.typ)
			return
		}
	case ekUnsupValue:
		if !errors.As(got.err, &uv) || uv == nil {
			bad("wrong-error", "expected an UnsupportedValueError, got %T %v", got.err, got.err)
			return
		}
	case ekMarshaler:
		if !errors.As(got.err, &me) || me == nil {
			bad("wrong-error", "expected a MarshalerError, got %T %v", got.err, got.err)
			return
		}
		if f.typ != nil && me.Type != f.typ && me.Type != reflect.PtrTo(f.typ) {
			bad("wrong-type", "MarshalerError names %v, expected %v", me.Type, f.typ)
			return
		}
		switch f.name {
		case "lib-error":
			for i := 0; ; i++ {
				if i == len(libErrors) {
					bad("cause-lost", "the error that the method returned is not in the chain of %v", got.err)
					return
				}
				if errors.Is(got.err, libErrors[i]) {
					break
				}
			}
		case "json", "json-ptr", "text", "append", "append-ctx", "key", "sync-value":
			var fe *failError
			if !errors.Is(got.err, errFail) || !errors.As(got.err, &fe) || fe.code != 42 {
				bad("cause-lost", "the marshaler's own error is not in the chain of %v", got.err)
				return
			}
		}
	}
	if got.err.Error() == "" {
		bad("empty-text", "the error has no text")
		return
	}
	count("fault_"+f.name, 1)
	maxCount("max_containers", len(chain))
	seen(f.name, strings.Join(chain, "/"), isAppend)
	sample(func() string { return fmt.Sprintf("%s inside %v: %v", f.name, chain, got.err) })
	if c.chance(5) {
		poison()
		g := newVgen(c.rng)
		g.budget = 20
		x := g.randValue()
		after := tryLib(x, nil)
		if want, ok := eqRef(after, x, defaultOpts()); !ok {
			c.desc = describe(x)
			c.fail("after-error", "a value encodes differently after a failed call: %s", diff(after, want))
		}
	}
}

type touchy struct{ n *int }

func (x touchy) MarshalJSON() ([]byte, error) { *x.n++; return []byte("1"), nil }

// rejectedCall makes a call that an invalid option ends, among other options.
func rejectedCall(c *caseCtx, v interface{}) {
	o := c.randOpts(optMode{density: 2, lists: true, escapeHatches: true})
	opts := o.options()
	for i := len(opts) - 1; i > 0; i-- {
		j := c.intn(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	opts = append(opts, []jettison.Option{jettison.WithContext(nil), jettison.TimeLayout(""), jettison.DurationFormat(-3)}[c.intn(3)])
	at := c.intn(len(opts))
	if at < len(opts)-1 && c.bool() {
		switch o := opts[at]; c.intn(2) {
		case 0:
			opts = append(opts, o)
		default:
			opts = append(opts, nil)
		}
	}
	try(func() ([]byte, error) {
		if c.bool() {
			return jettison.AppendOpts(nil, v, opts...)
		}
		return jettison.MarshalOpts(v, opts...)
	})
	count("rejected_calls", 1)
}

func invalidOptions(c *caseCtx) {
	n := 0
	var v interface{} = touchy{&n}
	switch c.intn(5) {
	case 0:
		v = []interface{}{v}
	case 1:
		v = make(chan int)
	case 2:
		v = Panicker{1}
	case 3:
		v = math.NaN()
	}
	o := c.randOpts(optMode{density: 4, lists: true})
	o.ctx, o.layout, o.dur = defaultOpts().ctx, defaultOpts().layout, dfNanos
	opts := o.options()
	var bad jettison.Option
	which := c.intn(3)
	switch which {
	case 0:
		bad = jettison.WithContext(nil)
	case 1:
		bad = jettison.TimeLayout("")
	case 2:
		bad = jettison.DurationFormat(jettison.DurationFmt([]int{-1, 6, 7, 100, math.MinInt32, math.MaxInt32, 256, -2}[c.intn(8)]))
	}
	at := c.intn(len(opts) + 1)
	opts = append(opts[:at:at], append([]jettison.Option{bad}, opts[at:]...)...)
	dst, old, shape := c.randDst()
	isAppend := c.bool()
	var got outcome
	if isAppend {
		got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, v, opts...) })
	} else {
		got = tryLib(v, opts)
	}
	c.evals = 1
	c.desc = fmt.Sprintf("invalid option %d at %d of %d, value %T, append %t %s", which, at, len(opts), v, isAppend, shape)
	var ie *jettison.InvalidOptionError
	switch {
	case got.pan != nil || got.err == nil:
		c.fail("invalid-option-accepted", "%v", got)
	case !errors.As(got.err, &ie):
		c.fail("invalid-option-error", "expected an InvalidOptionError, got %T %v", got.err, got.err)
	case n != 0:
		c.fail("invalid-option-value-used", "the value's method was called")
	case !isAppend && got.out != nil:
		c.fail("invalid-option-bytes", "%q returned", got.out)
	case !bytes.Equal(dst, old) || isAppend && len(got.out) >= len(old) && !bytes.HasPrefix(got.out, old):
		c.fail("invalid-option-destination", "destination %q became %q, returned %q", old, dst, got.out)
	}
	count("invalid_options", 1)
	seen("option", which, at, isAppend, fmt.Sprintf("%T", v))
}
