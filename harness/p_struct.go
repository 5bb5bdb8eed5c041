package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/wI2L/jettison"
)

func init() {
	props["C03"] = &propDef{quick: 60000, thorough: 3000000, run: runC03,
		rule: "distinct encodings of struct values whose leaves are pairwise distinct, compared member by member with encoding/json"}
	props["C18"] = &propDef{quick: 24000, thorough: 1000000, run: runC18,
		rule: "distinct pairs of allow and deny lists and encodings of values with at least one filtered and one kept field"}
	props["C19"] = &propDef{quick: 40000, thorough: 2000000, run: runC19,
		rule: "distinct encodings of structs with omit options and a random subset of empty or nil fields"}
	props["C20"] = &propDef{quick: 30000, thorough: 1500000, run: runC20,
		rule: "distinct pairs of byte or nil-collection values and options"}
}

func runC03(c *caseCtx) {
	g := newVgen(c.rng)
	g.std = true
	g.unique = true
	g.small = true
	g.noPtrDup = true
	g.budget = 150
	var t reflect.Type
	switch k := c.intn(12); {
	case k >= 10:
		t = dagTypes[c.intn(len(dagTypes))]
	case k < 7:
		for i := 0; ; i++ {
			t = structTypes[c.intn(len(structTypes))]
			if stdOK(t) || i > 50 {
				break
			}
		}
	case k < 8:
		// Several of them in one anonymous struct.
		var fs []reflect.StructField
		used := map[string]bool{}
		for i := c.between(1, 4); i > 0; i-- {
			e := structTypes[c.intn(len(structTypes))]
			if !stdOK(e) || e.NumMethod() > 0 || reflect.PtrTo(e).NumMethod() > 0 || !isExportedName(e.Name()) || used[e.Name()] {
				continue
			}
			used[e.Name()] = true
			f := reflect.StructField{Name: e.Name(), Type: e, Anonymous: true}
			if c.chance(3) {
				f.Type = reflect.PtrTo(e)
			}
			if c.chance(6) {
				f.Tag = g.tag(i)
			}
			fs = append(fs, f)
		}
		for i := c.intn(3); i > 0; i-- {
			n := []string{"A", "B", "C", "Foo", "Bar"}[c.intn(5)]
			if !used[n] {
				used[n] = true
				fs = append(fs, reflect.StructField{Name: n, Type: simpleTypes[c.intn(15)], Tag: g.tag(i)})
			}
		}
		func() {
			defer func() { recover() }()
			t = reflect.StructOf(fs)
		}()
		if t == nil {
			t = tof((*Mixed)(nil))
		}
	default:
		if t = g.genStruct(2); t == nil {
			t = tof((*Quoted)(nil))
		}
	}
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	if c.chance(3) {
		g.zeroSome(v, 3+c.intn(6), 0)
	}
	iv := wrap([]int{0, 1, 2, 4, 5, 0, 1, 14, 6, 3}[c.intn(10)], v).Interface()
	crumb("%T", iv)
	if c.chance(50) {
		fresh()
	}
	want := tryStd(iv)
	got := tryLib(iv, nil)
	c.evals = 1
	if !sameAsStd(got, want, iv) {
		c.desc = describe(iv)
		c.fail("fields-differ", "jettison against encoding/json: %s", diff(got, want))
		return
	}
	count("outcome_"+got.class(), 1)
	if !got.ok() || short(got.out) {
		return
	}
	fs := refFields(t)
	maxd := 0
	for _, f := range fs {
		if len(f.index) > maxd {
			maxd = len(f.index)
		}
	}
	count("fields", len(fs))
	maxCount("max_embedding_depth", maxd)
	seen(t.String(), got.out)
	sample(func() string { return typeDef(t) + " -> " + string(got.out) })
}

// zeroSome sets about one in n of the components of v to their zero value.
func (g *vgen) zeroSome(v reflect.Value, n, depth int) {
	if depth > 8 {
		return
	}
	if !v.CanSet() {
		return
	}
	if g.chance(n) {
		if (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && g.bool() && fillers[v.Type()] == nil {
			// Empty, not nil.
			if v.Kind() == reflect.Slice {
				v.Set(reflect.MakeSlice(v.Type(), 0, g.intn(3)))
			} else {
				v.Set(reflect.MakeMap(v.Type()))
			}
			return
		}
		v.Set(reflect.Zero(v.Type()))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			if g.chance(4) {
				v.Elem().Set(reflect.Zero(v.Type().Elem()))
				return
			}
			g.zeroSome(v.Elem(), n, depth+1)
		}
	case reflect.Struct:
		if v.Type() == tTime || v.Type() == tSyncMap {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			g.zeroSome(v.Field(i), n, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 50; i++ {
			g.zeroSome(v.Index(i), n, depth+1)
		}
	}
}

// ---- C18 ----

func fieldNames(t reflect.Type, vis map[reflect.Type]bool, l *[]string) {
	if vis[t] || len(*l) > 400 {
		return
	}
	vis[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		fieldNames(t.Elem(), vis, l)
	case reflect.Struct:
		if t == tTime || t == tSyncMap {
			return
		}
		for _, f := range refFields(t) {
			*l = append(*l, f.name)
			fieldNames(f.typ, vis, l)
		}
	}
}

func runC18(c *caseCtx) {
	g := newVgen(c.rng)
	g.small = true
	g.budget = 80
	g.allowErr = c.chance(10)
	var t reflect.Type
	switch c.intn(8) {
	case 0, 1, 2, 3:
		t = structTypes[c.intn(len(structTypes))]
	case 4:
		if t = g.genStruct(3); t == nil {
			t = tof((*Anon)(nil))
		}
	case 5:
		t = g.genType(3)
	default:
		t = []reflect.Type{tof((*Anon)(nil)), tof((*Tree)(nil)), tof((*MutA)(nil)), tof((*Wide)(nil)), tof((*OmitNil)(nil)), tof((*Omit)(nil)), tof((*List)(nil)),
			reflect.TypeOf(map[string]Anon{}), reflect.TypeOf([]map[string]interface{}{}), tof((*NilAll)(nil)), tof((*SyncAll)(nil))}[c.intn(11)]
	}
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	// Map keys that equal field names must stay.
	var names []string
	fieldNames(t, map[reflect.Type]bool{}, &names)
	if len(names) > 0 && c.chance(3) {
		m := map[string]interface{}{}
		for i := 0; i < 4; i++ {
			m[names[c.intn(len(names))]] = v.Interface()
		}
		nv := reflect.New(reflect.TypeOf(m)).Elem()
		nv.Set(reflect.ValueOf(m))
		v = nv
	}
	w := wrap(c.intn(nPositions), v)
	if w.Kind() == reflect.Interface {
		if w.IsNil() {
			return
		}
		w = w.Elem()
	}
	iv := w.Interface()
	if c.chance(5) {
		iv = c.bury(iv)
	}
	o := c.randOpts(optMode{density: 6, escapeHatches: true})
	list := func() []string {
		var l []string
		switch c.intn(8) {
		case 0:
			return []string{}
		case 1:
			return nil
		}
		for i := c.intn(1 + len(names)); i >= 0; i-- {
			if len(names) > 0 && !c.chance(8) {
				l = append(l, names[c.intn(len(names))])
			} else {
				l = append(l, c.nameList()...)
			}
		}
		if c.chance(4) && len(l) > 0 {
			// Near misses.
			n := l[c.intn(len(l))]
			l = append(l, strings.ToUpper(n), n+" ", " "+n, n+",omitempty", `"`+n+`"`)
		}
		if c.chance(6) {
			for i := 0; i < 70; i++ {
				l = append(l, fmt.Sprintf("nope%d", i))
			}
		}
		return l
	}
	if c.chance(3) {
		o.hasAllow, o.hasDeny = true, true
	} else if c.bool() {
		o.hasAllow = true
	} else {
		o.hasDeny = true
	}
	if o.hasAllow {
		o.allow = list()
	}
	if o.hasDeny {
		o.deny = list()
	}
	crumb("%T %v", iv, o)
	// The caller's slices change after the options were made.
	mine := *o
	mine.allow = append([]string(nil), o.allow...)
	mine.deny = append([]string(nil), o.deny...)
	if mine.allow == nil && o.allow != nil {
		mine.allow = []string{}
	}
	opts := mine.options()
	if c.bool() {
		for i := range mine.allow {
			mine.allow[i] = "changed"
		}
		for i := range mine.deny {
			mine.deny[i] = "changed"
		}
	} else {
		defer func() {
			for i := range o.allow {
				if mine.allow[i] != o.allow[i] {
					c.fail("list-modified", "the caller's allow list was modified: %q, was %q", mine.allow, o.allow)
					return
				}
			}
			for i := range o.deny {
				if mine.deny[i] != o.deny[i] {
					c.fail("list-modified", "the caller's deny list was modified: %q, was %q", mine.deny, o.deny)
					return
				}
			}
		}()
	}
	if c.bool() {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	for k := 0; k < 2; k++ {
		got := tryLib(iv, opts)
		c.evals++
		want, ok := eqRef(got, iv, o)
		if !ok {
			c.desc = describe(iv) + " options " + o.String()
			c.fail("filter-differs", "call %d with these options: %s", k+1, diff(got, want))
			return
		}
		count("outcome_"+got.class(), 1)
		if k == 0 && got.ok() && !short(got.out) {
			free := *o
			free.hasAllow, free.hasDeny = false, false
			full := tryRef(iv, &free)
			if full.ok() && !bytes.Equal(full.out, got.out) {
				count("filtered", 1)
				seen(o.String(), got.out)
				sample(func() string { return o.String() + " -> " + string(got.out) })
			}
		}
		if c.bool() {
			break
		}
	}
}

// ---- C19 ----

var omitFieldTypes []reflect.Type

func runC19(c *caseCtx) {
	g := newVgen(c.rng)
	g.small = true
	g.budget = 60
	var t reflect.Type
	switch c.intn(10) {
	case 0:
		t = tof((*Omit)(nil))
	case 1:
		t = tof((*OmitNil)(nil))
	case 2:
		t = tof((*OmitNilFirst)(nil))
	case 3:
		t = tof((*OneNil)(nil))
	case 4, 5:
		t = structTypes[c.intn(len(structTypes))]
	default:
		n := c.between(1, 6)
		if c.chance(12) {
			n = c.between(7, 40)
		}
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			tag := []string{`json:",omitempty"`, `json:",omitnil"`, `json:",omitempty"`, `json:",omitnil"`, `json:",omitempty,omitnil"`, `json:",omitnil,omitempty"`, ``, `json:"n%d,omitempty"`, `json:"n%d,omitnil"`, `json:",string,omitempty"`, `json:",string,omitnil"`, `json:"-"`}[c.intn(12)]
			if strings.Contains(tag, "%d") {
				tag = fmt.Sprintf(tag, i)
			}
			var ft reflect.Type
			switch c.intn(5) {
			case 0:
				ft = []reflect.Type{tof((*NullJSON)(nil)), reflect.TypeOf((*NullJSON)(nil)), tof((*JSONPtr)(nil)), tof((*json.Marshaler)(nil)), tof((*JSONInt)(nil)), tRaw, tof((*RawFrag)(nil)), reflect.TypeOf((*json.RawMessage)(nil)), tof((*EmbIface)(nil)), tof((*RawFragPtr)(nil)), tof((*EmbJSONPtrV)(nil)), reflect.TypeOf([1]NullJSON{}), tof((*PtrSlice)(nil)), tof((*ChanM)(nil)), tof((*PtrMapM)(nil)), tof((*NestAppend)(nil)), reflect.TypeOf((**NullJSON)(nil))}[c.intn(17)]
			case 1:
				ft = g.genType(1)
			default:
				ft = simpleTypes[c.intn(len(simpleTypes))]
				if c.chance(3) {
					ft = []reflect.Type{reflect.PtrTo(ft), reflect.SliceOf(ft), reflect.ArrayOf(c.intn(3), ft), reflect.MapOf(reflect.TypeOf(""), ft), reflect.PtrTo(reflect.PtrTo(ft)), tEface, tof((*error)(nil)), tof((*MyPtr)(nil))}[c.intn(8)]
				}
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(tag)})
		}
		t = reflect.StructOf(fs)
	}
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	g.zeroSome(v, 2+c.intn(3), 0)
	if v.Kind() == reflect.Struct && c.chance(4) {
		// Typed but empty interface contents, nil pointers in interfaces.
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanSet() && f.Type() == tEface && c.bool() {
				f.Set(reflect.ValueOf([]interface{}{0, "", false, []int(nil), (*int)(nil), map[string]int(nil), [0]int{}, struct{}{}, (*JSONPtr)(nil), NullJSON(0), (*NullJSON)(nil), json.RawMessage("null"), json.RawMessage(nil)}[c.intn(13)]))
			}
		}
	}
	iv := wrap([]int{0, 1, 2, 3, 4, 5, 7, 8, 14}[c.intn(9)], v).Interface()
	o := defaultOpts()
	if c.chance(3) {
		o = c.randOpts(optMode{density: 5, lists: true, escapeHatches: true})
	}
	crumb("%T %v", iv, o)
	got := try(func() ([]byte, error) { return jettison.MarshalOpts(iv, o.options()...) })
	c.evals = 1
	want, ok := eqRef(got, iv, o)
	if !ok {
		c.desc = describe(iv) + " options " + o.String()
		c.fail("omission-differs", "%s", diff(got, want))
		return
	}
	if c.chance(3) && got.ok() {
		dst, old, shape := c.randDst()
		ap := try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, o.options()...) })
		if !ap.ok() || !bytes.Equal(ap.out, append(append([]byte(nil), old...), got.out...)) {
			c.desc = describe(iv) + " options " + o.String() + " dst " + shape
			c.fail("omission-differs-append", "Append to %q: %v\nMarshal: %v", clip(string(old), 200), ap, got)
			return
		}
		c.evals++
	}
	count("outcome_"+got.class(), 1)
	if got.ok() && len(got.out) > 2 {
		seen(t.String(), got.out)
		sample(func() string { return typeDef(t) + " -> " + string(got.out) })
	}
}

// ---- C20 ----

var nilTypes []reflect.Type

func runC20(c *caseCtx) {
	g := newVgen(c.rng)
	g.budget = 60
	o := c.randOpts(optMode{density: 2, escapeHatches: c.chance(4), lists: false})
	o.unix, o.layout, o.dur = false, defaultOpts().layout, dfNanos
	var iv interface{}
	check := func(key string, got outcome, want []byte) bool {
		c.evals++
		if !got.ok() || !bytes.Equal(got.out, want) {
			c.desc = describe(iv) + " options " + o.String()
			c.fail(key, "%s", diff(got, outcome{out: want}))
			return false
		}
		return true
	}
	rawText := func(b []byte) []byte {
		return []byte(`"` + refEscape(string(b), o) + `"`)
	}
	switch k := c.intn(10); {
	case k < 3:
		// Byte slices of every length, appended to every kind of destination.
		n := c.intn(100)
		if c.chance(3) {
			n = c.sizeHint(70000)
		}
		b := make([]byte, n, n+c.intn(3))
		s := c.str()
		for i := range b {
			if len(s) > 0 && c.bool() {
				b[i] = s[i%len(s)]
			} else {
				b[i] = byte(c.u64())
			}
		}
		iv = []interface{}{b, MyBytes(b), &b, RawMessage(b), (*RawMessage)(&b), MyRaw(b)}[c.intn(6)]
		want := []byte(`"` + base64.StdEncoding.EncodeToString(b) + `"`)
		if o.rawBytes {
			want = rawText(b)
		}
		dst, old, shape := c.randDst()
		got := try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, o.options()...) })
		if !check("bytes-differ", got, append(append([]byte(nil), old...), want...)) {
			c.desc += " dst " + shape
			return
		}
		count("byte_slices", 1)
		seen(o.String(), want)
	case k < 5:
		// Byte arrays.
		n := c.intn(40)
		if c.chance(5) {
			n = c.sizeHint(9000)
		}
		et := []reflect.Type{reflect.TypeOf(byte(0)), reflect.TypeOf(byte(0)), tof((*MyByte)(nil))}[c.intn(3)]
		a := reflect.New(reflect.ArrayOf(n, et)).Elem()
		b := make([]byte, n)
		s := c.str()
		for i := range b {
			b[i] = byte(c.u64())
			if len(s) > 0 && c.bool() {
				b[i] = s[i%len(s)]
			}
			a.Index(i).SetUint(uint64(b[i]))
		}
		if c.bool() {
			iv = a.Interface()
		} else {
			iv = a.Addr().Interface()
		}
		var want []byte
		if o.arrString {
			want = rawText(b)
		} else {
			want = append(want, '[')
			for i, x := range b {
				if i > 0 {
					want = append(want, ',')
				}
				want = append(want, fmt.Sprint(x)...)
			}
			want = append(want, ']')
		}
		if !check("array-differs", tryLib(iv, append([]jettison.Option{nil}, o.options()...)), want) {
			return
		}
		count("byte_arrays", 1)
		seen(o.String(), want)
	case k < 6:
		// nil and empty collections of any type, at top level.
		et := g.genType(1)
		var t reflect.Type
		isMap := c.bool()
		if isMap {
			t = reflect.MapOf(keyTypes[c.intn(len(keyTypes))], et)
		} else {
			t = reflect.SliceOf(et)
		}
		v := reflect.New(t).Elem()
		isNil := c.bool()
		if !isNil {
			if isMap {
				v.Set(reflect.MakeMap(t))
			} else {
				v.Set(reflect.MakeSlice(t, 0, 0))
			}
		}
		if !isMap && (t.Elem().Kind() == reflect.Uint8) || t.Implements(tJSONM) {
			return
		}
		iv = v.Interface()
		if c.chance(3) {
			iv = v.Addr().Interface()
		}
		want := "null"
		switch {
		case isMap && (!isNil || o.nilMap):
			want = "{}"
		case !isMap && (!isNil || o.nilSlice):
			want = "[]"
		}
		got := tryLib(iv, append([]jettison.Option{nil}, o.options()...))
		if !check("nil-collection-differs", got, []byte(want)) {
			return
		}
		count("nil_or_empty", 1)
		seen(t.String(), o.String(), isNil)
	default:
		t := []reflect.Type{tof((*ByteAll)(nil)), tof((*NilAll)(nil)), tof((*NilAll)(nil)), tof((*ByteAll)(nil)), nil}[c.intn(5)]
		if t == nil {
			t = g.randType()
		}
		v := reflect.New(t).Elem()
		g.fill(v, 0)
		g.zeroSome(v, 3+c.intn(3), 0)
		w := wrap(c.intn(nPositions), v)
		if w.Kind() == reflect.Interface {
			if w.IsNil() {
				return
			}
			w = w.Elem()
		}
		iv = w.Interface()
		crumb("%T %v", iv, o)
		got := tryLib(iv, append([]jettison.Option{nil}, o.options()...))
		c.evals++
		want, ok := eqRef(got, iv, o)
		if !ok {
			c.desc = describe(iv) + " options " + o.String()
			c.fail("differs-from-model", "%s", diff(got, want))
			return
		}
		count("positions", 1)
		if got.ok() && !short(got.out) {
			seen(o.String(), got.out)
			sample(func() string { return o.String() + " -> " + string(got.out) })
		}
	}
}
