package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

func init() {
	props["C01"] = &propDef{quick: 9000, thorough: 400000, run: runC01,
		rule: "distinct encodings (by type and output) of values that are not empty, compared byte for byte with encoding/json"}
	props["C02"] = &propDef{quick: 8000, thorough: 350000, run: runC02,
		rule: "distinct successful encodings longer than two bytes that were parsed and decoded"}
	props["C04"] = &propDef{quick: 4000, thorough: 150000, run: runC04,
		rule: "distinct pairs of an encoding and a destination shape"}
	props["C07"] = &propDef{quick: 700, thorough: 30000, run: runC07,
		rule: "distinct steps (type, position, options, output) of histories, each compared with the history-free model"}
	props["C21"] = &propDef{quick: 9000, thorough: 400000, run: runC21,
		rule: "distinct pairs of a non-default option set and an encoding, compared with the model"}
}

// randType returns a random type, from the static, generated or run-time
// built ones.
func (g *vgen) randType() reflect.Type {
	switch g.intn(10) {
	case 0, 1:
		for try := 0; try < 20; try++ {
			t := structTypes[g.intn(len(structTypes))]
			if !g.std || stdOK(t) {
				return t
			}
		}
	case 2, 3:
		for try := 0; try < 20; try++ {
			t := marshTypes[g.intn(len(marshTypes))]
			if !g.std || stdOK(t) {
				return t
			}
		}
	case 4:
		if t := g.genStruct(3); t != nil {
			return t
		}
	}
	return g.genType(g.intn(4))
}

// randValue returns a random value in a random position.
func (g *vgen) randValue() interface{} {
	t := g.randType()
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	pos := g.intn(nPositions)
	if g.chance(3) {
		pos = g.intn(2)
	}
	w := wrap(pos, v)
	if g.chance(6) {
		// Two levels.
		p := reflect.New(w.Type()).Elem()
		p.Set(w)
		w = wrap(g.intn(nPositions), p)
	}
	if w.Kind() == reflect.Interface {
		if w.IsNil() {
			return nil
		}
		w = w.Elem()
	}
	return w.Interface()
}

var shortEsc = regexp1()

// normStd spells \b and \f like Jettison does.
func normStd(b []byte) []byte {
	if !bytes.Contains(b, []byte(`\b`)) && !bytes.Contains(b, []byte(`\f`)) {
		return b
	}
	return shortEsc(b)
}

func regexp1() func([]byte) []byte {
	return func(b []byte) []byte {
		out := make([]byte, 0, len(b)+16)
		for i := 0; i < len(b); i++ {
			if b[i] == '\\' && i+1 < len(b) {
				switch b[i+1] {
				case 'b':
					out = append(out, `\u0008`...)
				case 'f':
					out = append(out, `\u000c`...)
				default:
					out = append(out, b[i], b[i+1])
				}
				i++
				continue
			}
			out = append(out, b[i])
		}
		return out
	}
}

// sameAsStd compares an outcome with encoding/json's.
func sameAsStd(got, want outcome, v interface{}) bool {
	if got.class() != want.class() {
		return anyOrder(got, want, func() outcome { return tryStd(v) }, v)
	}
	if !got.ok() || bytes.Equal(got.out, want.out) || bytes.Equal(got.out, normStd(want.out)) {
		return true
	}
	if bytes.Contains(want.out, []byte(`\b`)) || bytes.Contains(want.out, []byte(`\f`)) {
		// Fragments keep their own spelling, quoted strings escape it twice:
		// let the model decide.
		_, ok := eqRef(got, v, defaultOpts())
		return ok
	}
	return false
}

func short(b []byte) bool { return len(b) <= 2 || string(b) == "null" }

func runC01(c *caseCtx) {
	g := newVgen(c.rng)
	g.std = true
	g.allowErr = c.chance(4)
	v := g.randValue()
	crumb("%T", v)
	if c.chance(60) {
		fresh()
	}
	want := tryStd(v)
	got := tryLib(v, nil)
	c.evals = 2
	if !sameAsStd(got, want, v) {
		c.desc = describe(v)
		c.fail("differs-from-encoding/json", "jettison against encoding/json: %s", diff(got, want))
		return
	}
	again := tryLib(v, nil)
	if !sameAsStd(again, want, v) {
		c.desc = describe(v)
		c.fail("differs-on-second-call", "jettison against encoding/json: %s", diff(again, want))
		return
	}
	count("outcome_"+want.class(), 1)
	if got.ok() && !short(got.out) {
		seen(reflect.TypeOf(v).String(), got.out)
		sample(func() string { return fmt.Sprintf("%T -> %s", v, got.out) })
	}
}

func hasRaw(v interface{}) bool { return false }

func runC02(c *caseCtx) {
	if c.chance(3) {
		runC02Text(c)
		return
	}
	g := newVgen(c.rng)
	g.allowErr = c.chance(5)
	o := c.randOpts(optMode{lists: true, unsorted: true})
	if o.unsorted {
		g.maxMap = 4
	}
	v := g.randValue()
	crumb("%T %v", v, o)
	got := tryLib(v, o.options())
	c.evals = 1
	c.desc = ""
	if got.pan != nil {
		want := tryRef(v, o)
		if want.ok() {
			c.desc = describe(v) + " options " + o.String()
			c.fail("panic", "%v", got)
		}
		return
	}
	if got.err != nil {
		count("errors", 1)
		return
	}
	if why, ok := isCompactJSON(got.out); !ok {
		c.desc = describe(v) + " options " + o.String()
		c.fail("invalid-output", "output is not one compact JSON text (%s): %v", why, got)
		return
	}
	if short(got.out) {
		return
	}
	// The model's text has the same structure.
	want, same := eqRef(got, v, o)
	if !same {
		if want.ok() {
			var a, b interface{}
			da, db := json.NewDecoder(bytes.NewReader(got.out)), json.NewDecoder(bytes.NewReader(want.out))
			da.UseNumber()
			db.UseNumber()
			ea, eb := da.Decode(&a), db.Decode(&b)
			if ea == nil && eb == nil && !reflect.DeepEqual(a, b) {
				c.desc = describe(v) + " options " + o.String()
				c.fail("other-structure", "decoding the output gives another structure than the value has: %v\nexpected %v", got, want)
			}
		}
	}
	if !o.noUTF8 && !utf8.Valid(got.out) && (!want.ok() || utf8.Valid(want.out)) {
		c.desc = describe(v) + " options " + o.String()
		c.fail("invalid-utf8", "output is not valid UTF-8: %v", got)
		return
	}
	seen(got.out)
	sample(func() string { return o.String() + " -> " + string(got.out) })
}

// hostileText returns text that may or may not be JSON, at times a long one.
func (r *rng) hostileText() string {
	switch r.intn(8) {
	case 0, 1, 2:
		return r.brokenJSON()
	case 3:
		return r.jsonText(3)
	case 4:
		return r.str()
	}
	// A long text that looks well-formed at both ends.
	fill := strings.Repeat([]string{"x", "ab", "é", "0", " ", "\\", "[", "a b "}[r.intn(8)], 1+r.sizeHint(600))
	mid := []string{`","`, `"`, `\`, `\"`, "\n", "\x00", "\x7f", `\u12`, `\u12g4`, `\x`, "\xff", `":"`, `"}`, `,`, ``, `\\`, `\\"`, `\\\"`}[r.intn(18)]
	at := r.intn(len(fill) + 1)
	fill = fill[:at] + mid + fill[at:]
	switch r.intn(8) {
	case 0:
		return `[` + fill + `]`
	case 1:
		return `{"a":` + fill + `}`
	case 2:
		return `{"` + fill + `":1}`
	case 3:
		return `["` + fill + `"]`
	case 4:
		return fill
	default:
		return `"` + fill + `"`
	}
}

// runC02Text encodes values whose own methods, keys, layouts and zone names
// carry arbitrary text.
func runC02Text(c *caseCtx) {
	o := c.randOpts(optMode{density: 6, unsorted: true})
	text := c.hostileText
	var v reflect.Value
	mk := func(p interface{}) reflect.Value { return reflect.ValueOf(p).Elem() }
	kind := c.intn(13)
	switch kind {
	case 0:
		x := RawFrag(text())
		v = mk(&x)
	case 1:
		v = mk(&RawFragPtr{text()})
	case 2:
		x := json.RawMessage(text())
		v = mk(&x)
	case 3:
		x := RawText(text())
		v = mk(&x)
	case 4:
		x := json.Number(text())
		v = mk(&x)
	case 5:
		x := map[RawText]RawFrag{RawText(text()): RawFrag(c.jsonText(1)), RawText(text()): RawFrag(c.jsonText(1))}
		v = mk(&x)
	case 6:
		x := map[string]json.RawMessage{text(): json.RawMessage(c.jsonText(1)), text(): json.RawMessage(text())}
		v = mk(&x)
	case 7:
		x := map[json.Number]int{json.Number(text()): 1}
		v = mk(&x)
	case 8:
		x := c.timev(false, false).In(time.FixedZone(text(), c.intn(80000)-40000))
		o.layout = []string{"MST", time.RFC850, text(), time.UnixDate, text() + "MST"}[c.intn(5)]
		v = mk(&x)
	case 9:
		x := text()
		v = mk(&x)
	case 10:
		x := struct {
			N json.Number `json:",string"`
			S string      `json:",string"`
			R RawText     `json:",string"`
		}{json.Number(text()), text(), RawText(text())}
		v = mk(&x)
	case 11:
		x := []byte(text())
		v = mk(&x)
	default:
		m := new(sync.Map)
		for i := 0; i < 1+c.intn(2); i++ {
			m.Store(text(), RawFrag(text()))
		}
		v = mk(&m)
	}
	w := wrap(c.intn(nPositions), v)
	if w.Kind() == reflect.Interface {
		w = w.Elem()
	}
	iv := w.Interface()
	crumb("%T %v", iv, o)
	got := tryLib(iv, o.options())
	c.evals = 1
	name := []string{"marshaler", "pointer-marshaler", "raw-message", "text", "number", "text-keys", "string-keys", "number-keys", "time", "string", "quoted-fields", "bytes", "sync-map"}[kind]
	switch {
	case got.pan != nil:
		c.desc = describe(iv) + " options " + o.String()
		c.fail("panic", "%v", got)
		return
	case got.err != nil:
		count("errors_"+name, 1)
		return
	}
	if why, ok := isCompactJSON(got.out); !ok {
		c.desc = describe(iv) + " options " + o.String()
		c.fail("invalid-output", "output is not one compact JSON text (%s): %v", why, got)
		return
	}
	count("hostile_"+name, 1)
	seen(got.out)
}

// ---- C04 ----

var suffixes = []string{"", "", "x", `"`, `{"a":`, `[`, `null`, `,`, `\`, `1`, `-`, "\x00", `{`, `}`, `":`, `"\`, ` `, "\xff", `[[[[`, `{"x":null`, `{"":"`, "e", "u", `"\u`, `nul`}

// randDst returns a destination slice together with a copy of its content.
// What precedes the encoding: text that could be taken for a part of it.
func (r *rng) randSuffix(enc []byte) string {
	switch r.intn(4) {
	case 0:
		return suffixes[r.intn(len(suffixes))]
	case 1:
		// A part of the encoding itself.
		if len(enc) > 0 {
			return clipBytes(enc, 1+r.intn(40))
		}
		return "0"
	case 2:
		// A piece of a number.
		return []string{"", "1", "-", "0.", "1e", "1.5"}[r.intn(6)] + []string{"e-0", "e-", "e+", "E-0", "-0", "0", ".", "e0", "e-00", "-"}[r.intn(10)]
	}
	const abc = `ee--00.+19"\{}[],:nul tfsu/b`
	b := make([]byte, 1+r.intn(5))
	for i := range b {
		b[i] = abc[r.intn(len(abc))]
	}
	return string(b)
}

func (r *rng) randDst(enc ...byte) (dst, old []byte, shape string) {
	switch r.intn(12) {
	case 0:
		return nil, nil, "nil"
	case 1:
		return []byte{}, nil, "empty"
	}
	n := r.intn(40)
	if r.chance(4) {
		n = r.sizeHint(5000)
	}
	capa := n
	switch r.intn(5) {
	case 0:
	case 1:
		capa += 1 + r.intn(8)
	case 2:
		capa += r.intn(200)
	case 3:
		capa += r.sizeHint(20000)
	case 4:
		capa += 1
	}
	full := make([]byte, capa)
	stale := []string{"null", `"`, `\`, "\xff", "{", ",", "0", "nullnullnull", `{"a":1}`, " "}[r.intn(10)]
	for i := range full {
		full[i] = stale[i%len(stale)]
	}
	sfx := r.randSuffix(enc)
	if len(sfx) > n && r.bool() {
		n = len(sfx)
		if capa < n {
			capa = n + r.intn(3)
		}
		full = make([]byte, capa)
		for i := range full {
			full[i] = stale[i%len(stale)]
		}
	}
	if len(sfx) <= n {
		copy(full[n-len(sfx):n], sfx)
	}
	dst = full[:n:capa]
	old = append([]byte(nil), dst...)
	return dst, old, fmt.Sprintf("len %d cap %d suffix %q stale %q", n, capa, sfx, stale)
}

// sameKind reports whether repeated calls give errors of the same kind as got
// (which of several errors is returned may depend on the order of a map).
func sameKind(got outcome, again func() outcome) bool {
	for i := 0; i < 60; i++ {
		if o := again(); o.err != nil && libErrKind(o.err) == libErrKind(got.err) {
			return true
		}
	}
	return false
}

// scalar returns a value with a short encoding.
func (r *rng) scalar() interface{} {
	switch r.intn(13) {
	case 0:
		return float64(r.intn(10))
	case 1:
		return float32(r.intn(10)) * float32([]float64{1, 0.1, 1e-7, 1e21, -1}[r.intn(5)])
	case 2:
		return math.Float64frombits(r.u64()) // at times an error
	case 3:
		return r.intn(1000) - 500
	case 4:
		return r.str()
	case 5:
		return r.bool()
	case 6:
		return r.timev(false, false)
	case 7:
		return time.Duration(r.u64())
	case 8:
		return json.Number(r.number(false))
	case 9:
		return json.RawMessage(r.jsonText(1))
	case 10:
		return []byte(r.str())
	case 11:
		return map[string]float64{r.word(): float64(r.intn(10))}
	}
	return uint8(r.intn(256))
}

func runC04(c *caseCtx) {
	g := newVgen(c.rng)
	g.allowErr = c.chance(4)
	o := c.randOpts(optMode{lists: true, unsorted: true, escapeHatches: true})
	if c.chance(3) {
		o = defaultOpts()
	}
	if o.unsorted {
		g.maxMap = 4
		if o.noStrEsc || o.noCompact || o.noNumValid {
			g.maxMap = 1
		}
	}
	v := g.randValue()
	if c.chance(4) {
		v = c.scalar()
	}
	crumb("%T %v", v, o)
	if c.chance(20) {
		fresh()
	}
	opts := o.options()
	if opts == nil {
		opts = []jettison.Option{}
	}
	base := tryLib(v, opts)
	describeAll := func(shape string) { c.desc = describe(v) + " options " + o.String() + " dst " + shape }
	same := func(a, b outcome) bool {
		if o.unsorted {
			return sameCanonical(a, b)
		}
		return sameOutcome(a, b)
	}
	check := func(name string, got outcome) bool {
		c.evals++
		if !same(got, base) && !(got.class() != base.class() && anyOrder(got, base, func() outcome { return tryLib(v, opts) }, v)) {
			describeAll("")
			c.fail(name+"-differs", "%s: %v\nMarshalOpts: %v", name, got, base)
			return false
		}
		if got.err != nil && base.err != nil && !sameKind(got, func() outcome { return tryLib(v, opts) }) && !hasOrder(v) {
			describeAll("")
			c.fail(name+"-other-error", "%s: %v\nMarshalOpts: %v", name, got, base)
			return false
		}
		return true
	}
	if base.err != nil && base.out != nil {
		describeAll("")
		c.fail("bytes-with-error", "MarshalOpts returned %d bytes together with an error %v", len(base.out), base.err)
	}
	if len(opts) == 0 {
		if !check("Marshal", try(func() ([]byte, error) { return jettison.Marshal(v) })) {
			return
		}
	}
	for i := 0; i < 4; i++ {
		dst, old, shape := c.randDst(base.out...)
		useAppend := len(opts) == 0 && c.bool()
		name := "AppendOpts"
		if useAppend {
			name = "Append"
		}
		got := try(func() ([]byte, error) {
			if useAppend {
				return jettison.Append(dst, v)
			}
			return jettison.AppendOpts(dst, v, opts...)
		})
		if !bytes.Equal(dst, old) {
			describeAll(shape)
			c.fail("destination-changed", "%s changed the bytes already in the destination: %q -> %q", name, clip(string(old), 200), clip(string(dst), 200))
			return
		}
		if got.ok() {
			if len(got.out) < len(old) || !bytes.Equal(got.out[:len(old)], old) {
				describeAll(shape)
				c.fail("prefix-lost", "%s did not return the destination's bytes first: %v, destination %q", name, got, clip(string(old), 200))
				return
			}
			got.out = got.out[len(old):]
		} else if got.err != nil && len(got.out) > 0 && !bytes.HasPrefix(got.out, old) && len(got.out) >= len(old) {
			describeAll(shape)
			c.fail("prefix-lost-on-error", "%s returned other bytes with an error: %q", name, clip(string(got.out), 200))
			return
		}
		if !check(name, got) {
			describeAll(shape)
			c.fail(name+"-shape", "with destination %s", shape)
			return
		}
		if base.ok() && !short(base.out) {
			seen(base.out, shape)
			sample(func() string { return shape + " + " + string(base.out) })
		}
	}
	count("outcome_"+base.class(), 1)
}

// ---- C07 ----

// A typed pool of related types: encodings of one must not influence those
// of another.
func (g *vgen) relatedTypes() []reflect.Type {
	var l []reflect.Type
	n := 1 + g.intn(3)
	for i := 0; i < n; i++ {
		t := g.randType()
		if t.Size() > 4096 {
			continue
		}
		l = append(l, t)
		for k := 0; k < 3; k++ {
			switch g.intn(8) {
			case 0:
				l = append(l, reflect.PtrTo(t))
			case 1:
				l = append(l, reflect.SliceOf(t))
			case 2:
				l = append(l, reflect.ArrayOf(1+g.intn(2), t))
			case 3:
				l = append(l, reflect.MapOf(reflect.TypeOf(""), t))
			case 4:
				l = append(l, reflect.StructOf([]reflect.StructField{{Name: "F" + g.word(), Type: t, Tag: g.tag(0)}}))
			case 5:
				l = append(l, reflect.StructOf([]reflect.StructField{{Name: "F" + g.word(), Type: reflect.PtrTo(t)}, {Name: "G", Type: t}}))
			case 6:
				l = append(l, reflect.PtrTo(reflect.PtrTo(t)))
			case 7:
				if t.Kind() == reflect.Struct && t.NumField() > 0 {
					l = append(l, t.Field(g.intn(t.NumField())).Type)
				} else if t.Kind() == reflect.Slice || t.Kind() == reflect.Map || t.Kind() == reflect.Ptr || t.Kind() == reflect.Array {
					l = append(l, t.Elem())
				}
			}
		}
	}
	// Types that share names or shapes.
	tw := twinTypes[g.intn(2)]
	l = append(l, tw[g.intn(len(tw))])
	for _, t := range l {
		if u := twinOf[t]; u != nil {
			l = append(l, u)
		}
	}
	for k := 0; k < 2; k++ {
		l = append(l, staticTypes[g.intn(len(staticTypes))])
	}
	return l
}

// change changes some of what v refers to, in place and keeping lengths.
func (c *caseCtx) change(g *vgen, v reflect.Value, depth int, n *int) {
	if !v.IsValid() || depth > 8 || *n <= 0 {
		return
	}
	t := v.Type()
	switch t {
	case tTime:
		if v.CanSet() {
			*n--
			v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Duration(c.intn(3)-1) * time.Hour)))
		}
		return
	case tNumber:
		if v.CanSet() && v.Len() > 0 {
			*n--
			v.SetString("1" + strings.Repeat("2", v.Len()-1))
		}
		return
	case tSyncMap:
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		c.change(g, v.Elem(), depth+1, n)
	case reflect.Struct:
		if v.NumField() > 0 {
			for k, i := 0, c.intn(v.NumField()); k < v.NumField() && k < 20; k++ {
				if f := v.Field((i + k) % v.NumField()); t.Field((i+k)%v.NumField()).PkgPath == "" {
					c.change(g, f, depth+1, n)
				}
			}
		}
	case reflect.Slice, reflect.Array:
		for k := 0; k < 4 && v.Len() > 0; k++ {
			c.change(g, v.Index(c.intn(v.Len())), depth+1, n)
		}
	case reflect.Map:
		if v.Len() == 0 || !v.CanInterface() {
			return
		}
		k := v.MapKeys()[0]
		if g == nil {
			// No values of other types.
			x := reflect.New(t.Elem()).Elem()
			x.Set(v.MapIndex(k))
			c.change(g, x, depth+1, n)
			v.SetMapIndex(k, x)
			return
		}
		if c.bool() {
			// Another key, and the same length.
			nk := reflect.New(t.Key()).Elem()
			g.budget = 10
			func() {
				defer func() { recover() }()
				g.fillKey(nk, 2)
				if v.MapIndex(k).IsValid() && !v.MapIndex(nk).IsValid() && newText(v, nk) {
					x := v.MapIndex(k)
					v.SetMapIndex(k, reflect.Value{})
					v.SetMapIndex(nk, x)
					*n--
				}
			}()
			return
		}
		x := reflect.New(t.Elem()).Elem()
		g.budget = 10
		g.fill(x, 2)
		v.SetMapIndex(k, x)
		*n--
	case reflect.String:
		if v.CanSet() && v.Len() > 0 {
			b := []byte(v.String())
			b[c.intn(len(b))] = "aZ0<\"\\\x01\x80"[c.intn(8)]
			v.SetString(string(b))
			*n--
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			*n--
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 1<<uint(c.intn(8)))
			*n--
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1<<uint(c.intn(8)))
			*n--
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float()/2 + 1)
			*n--
		}
	}
}

// newText tells whether no key of a map has the text of the key k, whatever
// the options.
func newText(m, k reflect.Value) bool {
	if timeKey(k) {
		return m.Len() == 1
	}
	o := defaultOpts()
	txt, ok := keyText(k, o)
	if !ok {
		return false
	}
	for _, x := range m.MapKeys() {
		if old, ok := keyText(x, o); !ok || old == txt || timeKey(x) && m.Len() > 1 {
			return false
		}
	}
	return true
}

// reusedMemory encodes values that take the memory of earlier ones.
func reusedMemory(c *caseCtx) {
	g := newVgen(c.rng)
	g.small = true
	n := 1 + c.sizeHint(9000)
	if c.bool() {
		n = 1 + c.intn(200)
	}
	t := g.randType()
	o := c.randOpts(optMode{lists: true, escapeHatches: true, density: 6})
	b := make([]byte, n)
	for i := 0; i < 40; i++ {
		if i%10 == 9 {
			runtime.GC()
		}
		if c.chance(4) {
			o = c.randOpts(optMode{lists: true, escapeHatches: true, density: 6})
		}
		var iv interface{}
		switch k := c.intn(6); k {
		case 0, 1, 2, 3:
			for j := c.intn(4); j >= 0; j-- {
				b[c.intn(n)] = byte(c.u64())
			}
			switch k {
			case 0:
				iv = b
			case 1:
				iv = &b
			case 2:
				iv = string(b)
			case 3:
				iv = struct{ A, B interface{} }{string(b), b[:n:n]}
			}
		case 4:
			v := reflect.New(t)
			g.budget = 30
			g.fill(v.Elem(), 0)
			iv = v.Interface()
		case 5:
			m := map[string]interface{}{}
			for j := c.intn(12); j >= 0; j-- {
				m[c.word()] = i
			}
			iv = m
		}
		crumb("reused memory %T", iv)
		got := tryLib(iv, o.options())
		want, ok := eqRef(got, iv, o)
		c.evals++
		if !ok {
			c.desc = clip(describe(iv), 3000) + " options " + o.String()
			c.fail("depends-on-memory", "call %d: %s", i, diff(got, want))
			return
		}
		if got.ok() && !short(got.out) {
			seen("reused", o.String(), got.out)
		}
	}
	count("reused_memory", 1)
}

// bury returns v inside some containers of one element.
func (c *caseCtx) bury(v interface{}) interface{} {
	for n := 1 + c.intn(4); n > 0; n-- {
		switch c.intn(10) {
		case 0, 1, 2:
			sm := &sync.Map{}
			if c.bool() {
				sm.Store(c.word(), v)
			} else {
				sm.Store(c.intn(100), v)
			}
			v = sm
		case 3:
			v = map[string]interface{}{c.word(): v}
		case 4:
			v = []interface{}{v}
		case 5:
			v = struct {
				A interface{} `json:"a,omitempty"`
			}{v}
		case 6:
			x := v
			v = &x
		case 7:
			v = map[TextInt]interface{}{TextInt(c.intn(9)): v}
		case 8:
			v = &[1]interface{}{v}
		case 9:
			v = &Buried{v, nil}
		}
	}
	return v
}

// Buried is a container of anything.
type Buried struct {
	Any  interface{}
	Next *Buried `json:",omitempty"`
}

// twinMix returns one value that holds types of the same name in turn.
func (c *caseCtx) twinMix(g *vgen, maps bool) interface{} {
	k := c.intn(len(twinTypes[0]))
	var l []interface{}
	for i := c.between(2, 6); i > 0; i-- {
		t := twinTypes[c.intn(2)][k]
		v := reflect.New(t)
		g.fill(v.Elem(), 1)
		if c.bool() {
			l = append(l, v.Interface())
		} else if x := v.Elem(); x.Kind() != reflect.Interface || !x.IsNil() {
			l = append(l, x.Interface())
		}
	}
	switch {
	case len(l) == 2 && c.bool():
		return struct{ A, B interface{} }{l[0], l[1]}
	case maps && c.bool():
		m := map[string]interface{}{}
		for i, x := range l {
			m[string(rune('a'+i))] = x
		}
		return m
	}
	return l
}

func runC07(c *caseCtx) {
	switch {
	case c.chance(60):
		hotType(c)
		return
	case c.chance(150):
		manyTypesHistory(c)
		return
	case c.chance(50):
		reusedMemory(c)
		return
	}
	g := newVgen(c.rng)
	g.small = true
	fresh()
	types := g.relatedTypes()
	type old struct {
		v     interface{}
		o     *optSet
		multi bool // maps of several entries
	}
	var (
		olds []old
		hist []string
	)
	steps := 12 + c.intn(30)
	for s := 0; s < steps; s++ {
		t := types[c.intn(len(types))]
		g.budget = 40
		g.allowErr = c.chance(5)
		o := c.randOpts(optMode{lists: true, escapeHatches: true, unsorted: true, density: 3 + c.intn(8)})
		if c.chance(3) {
			o = defaultOpts()
		}
		g.maxMap = 0
		if o.unsorted {
			g.maxMap = 1
		}
		v := reflect.New(t).Elem()
		g.made = map[reflect.Type][]madePtr{}
		g.fill(v, 0)
		pos := c.intn(2)
		if c.chance(2) {
			pos = c.intn(nPositions)
		}
		w := wrap(pos, v)
		if w.Kind() == reflect.Interface {
			if w.IsNil() {
				continue
			}
			w = w.Elem()
		}
		iv := w.Interface()
		if c.chance(6) {
			iv = c.twinMix(g, !o.unsorted)
		}
		switch c.intn(14) {
		case 0:
			iv = []interface{}{iv, Failing{1}}
		case 1:
			iv = []interface{}{iv, Panicker{1}}
		case 2:
			iv = map[string]interface{}{"a": iv, "b": PanicAppend{2}}
		case 3:
			iv = []interface{}{iv, make(chan int)}
		}
		if c.chance(400) {
			iv = c.bigValue("ssaammmyyytbwwodefc").v
			o.unsorted = false
		}
		kept := len(olds) > 0 && c.chance(5)
		if kept {
			// A value of before, changed in place.
			k := olds[c.intn(len(olds))]
			if iv = k.v; c.bool() {
				o = k.o
			}
			if o.unsorted && k.multi {
				o = defaultOpts()
			}
			n := 1 + c.intn(12)
			c.change(g, reflect.ValueOf(iv), 0, &n)
		}
		crumb("history %v; now %T %v", hist, iv, o)
		if c.chance(8) {
			rejectedCall(c, iv)
		}
		got := tryLib(iv, o.options())
		want, ok := eqRef(got, iv, o)
		c.evals++
		if !ok {
			c.desc = clip(describe(iv), 3000) + " options " + o.String() + " history " + fmt.Sprint(hist)
			c.fail("depends-on-history", "step %d (position %d): %s", s, pos, diff(got, want))
			return
		}
		if kept {
			count("changed_in_place", 1)
		} else if len(olds) < 8 && c.bool() {
			olds = append(olds, old{iv, o, !o.unsorted})
		}
		if len(hist) < 60 {
			hist = append(hist, fmt.Sprintf("%T@%d:%s", iv, pos, got.class()))
		}
		count("outcome_"+got.class(), 1)
		if !got.ok() || !short(got.out) {
			seen(fmt.Sprintf("%T", iv), pos, o.String(), got.out)
		}
		if c.chance(10) {
			poison()
		}
	}
	sample(func() string { return fmt.Sprint(hist) })
	count("histories", 1)
	count("steps", steps)
}

// ---- C21 ----

func runC21(c *caseCtx) {
	if c.chance(2500) {
		hotType(c)
		return
	}
	g := newVgen(c.rng)
	g.allowErr = c.chance(8)
	o := c.randOpts(optMode{lists: true, unsorted: true, escapeHatches: true, density: 1 + c.intn(7)})
	if o.unsorted {
		g.maxMap = 3
		if o.noStrEsc || o.noCompact || o.noNumValid {
			g.maxMap = 1
		}
	}
	v := g.randValue()
	if c.chance(6) {
		v = c.bury(v)
	}
	crumb("%T %v", v, o)
	opts := o.options()
	// Decoys that later settings override, nil options, repetitions and any
	// order.
	for i := len(opts) - 1; i > 0; i-- {
		j := c.intn(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	var pre []jettison.Option
	if o.ctx != context.TODO() && c.bool() {
		pre = append(pre, jettison.WithContext(context.Background()))
		if c.chance(4) {
			pre = append(pre, jettison.WithContext(nil))
		}
	}
	if o.layout != time.RFC3339Nano && c.bool() {
		pre = append(pre, jettison.TimeLayout(time.Kitchen))
		if c.chance(4) {
			pre = append(pre, jettison.TimeLayout(""))
		}
	}
	if o.dur != dfNanos && c.bool() {
		pre = append(pre, jettison.DurationFormat(durFmts[c.intn(6)]))
		if c.chance(4) {
			pre = append(pre, jettison.DurationFormat(jettison.DurationFmt(99)))
		}
	}
	if o.hasAllow && c.bool() {
		pre = append(pre, jettison.AllowList([]string{"zzz", "A"}))
	}
	if o.hasDeny && c.bool() {
		pre = append(pre, jettison.DenyList([]string{"A", "B", "a"}))
	}
	all := append(pre, opts...)
	if c.chance(3) {
		var l []jettison.Option
		for _, x := range all {
			if c.chance(3) {
				l = append(l, nil)
			}
			l = append(l, x)
		}
		all = append(l, nil)
	}
	if c.chance(4) && len(opts) > 0 {
		all = append(all, opts[c.intn(len(opts))])
	}
	if all == nil {
		all = []jettison.Option{}
	}
	keep := append([]jettison.Option(nil), all...)
	if c.chance(3) {
		rejectedCall(c, v)
	}
	got := tryLib(v, all)
	c.evals = 1
	want, ok := eqRef(got, v, o)
	if !ok {
		c.desc = describe(v) + " options " + o.String()
		c.fail("differs-from-model", "%s", diff(got, want))
		return
	}
	for i := range keep {
		if (keep[i] == nil) != (all[i] == nil) || reflect.ValueOf(keep[i]).Pointer() != reflect.ValueOf(all[i]).Pointer() {
			c.fail("options-changed", "the slice of options was modified")
			return
		}
	}
	// Reusing the same options, mixed with a call without options.
	if c.chance(3) {
		def := tryLib(v, nil)
		if wd, ok := eqRef(def, v, defaultOpts()); !ok {
			c.desc = describe(v)
			c.fail("options-leak", "without options after a call with %v: %v\nexpected %v", o, def, wd)
			return
		}
		dst, _, _ := c.randDst()
		n := len(dst)
		again := try(func() ([]byte, error) { return jettison.AppendOpts(dst, v, all...) })
		if again.ok() {
			again.out = again.out[n:]
		}
		if _, ok := eqRef(again, v, o); !ok {
			c.desc = describe(v) + " options " + o.String()
			c.fail("option-reuse", "reusing the options: %v\nexpected %v", again, want)
			return
		}
		c.evals += 2
	}
	count("outcome_"+got.class(), 1)
	for _, x := range []struct {
		n  string
		on bool
	}{{"unix", o.unix}, {"layout", o.layout != time.RFC3339Nano}, {"dur", o.dur != dfNanos}, {"unsorted", o.unsorted}, {"rawBytes", o.rawBytes}, {"arrString", o.arrString},
		{"nilMap", o.nilMap}, {"nilSlice", o.nilSlice}, {"noStrEsc", o.noStrEsc}, {"noHTML", o.noHTML}, {"noUTF8", o.noUTF8}, {"noCompact", o.noCompact},
		{"noNumValid", o.noNumValid}, {"allow", o.hasAllow}, {"deny", o.hasDeny}} {
		if x.on {
			count("opt_"+x.n, 1)
		}
	}
	if got.ok() && !short(got.out) && !o.isDefault() {
		seen(o.String(), got.out)
		sample(func() string { return o.String() + " -> " + string(got.out) })
	}
}

var _ = errors.New
var _ = strconv.Itoa
